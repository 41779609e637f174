/* Concurrent first calls under a controlled scheduler. The library is compiled with -fsanitize=thread and linked with the
   callbacks below instead of the sanitizer's runtime: every memory access of the library is a point at which the thread can be preempted.
   usage: conc CMDFILE; "base OP": the operation as first and as later call; "R SEED OP[,OP..] T:AT:K:B ...": threads run as the schedule says.
   Every command runs in a process of its own in which the library was not used before. */
#define _GNU_SOURCE
#include <metaresc.h>
#include <pthread.h>
#include <sys/wait.h>
#include <time.h>
#include <dlfcn.h>
#include "vf.h"
#define MAXT 4
/* ------------------------------------------------------------------------------------------------ scheduler */
typedef struct { int id, started, finished, spinning; long n, stop, base; void * spin_addr; long spin_n; unsigned spin_w; pthread_cond_t cv; char const * op; char * ans; } thr_t;
static thr_t thr[MAXT]; static int nthr;
static __thread thr_t * me;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv_main = PTHREAD_COND_INITIALIZER;
static volatile int token = -1; static volatile long beat; static volatile unsigned writes;
/* recording: accesses to static memory by the main thread */
extern char __data_start[], _end[];
typedef struct { long i; unsigned off; char w; } acc_t;
static acc_t * rec; static long rec_n, rec_c, rec_ev = -1;
static void yield_token (void)
{ /* called with mx held: gives the token to the controlling thread and waits for it to come back */
  token = -1; pthread_cond_signal (&cv_main);
  while (token != me->id) pthread_cond_wait (&me->cv, &mx);
}
static void slow (void)
{
  pthread_mutex_lock (&mx);
  while (token != me->id) pthread_cond_wait (&me->cv, &mx);
  if (me->n > me->stop || me->spinning) yield_token ();
  pthread_mutex_unlock (&mx);
}
static inline void ev (void * p, int w)
{
  thr_t * t = me;
  if (!t)
    {
      if (rec_ev >= 0)
	{
	  if ((char*)p >= __data_start && (char*)p < _end)
	    {
	      if (rec_n == rec_c) rec = realloc (rec, sizeof (*rec) * (rec_c = rec_c * 2 + 1024));
	      rec[rec_n++] = (acc_t){ rec_ev, (char*)p - __data_start, w };
	    }
	  ++rec_ev;
	}
      return;
    }
  ++beat;
  if (w) { ++writes; t->spin_n = 0; }
  else if (p == t->spin_addr && t->spin_w == writes) { if (++t->spin_n > 300) { t->spin_n = 0; t->spinning = 1; } }
  else { t->spin_addr = p; t->spin_n = 0; t->spin_w = writes; }
  if (++t->n > t->stop || t->spinning || token != t->id) slow ();
}
void __tsan_init (void) {}
void __tsan_func_entry (void * p) {}
void __tsan_func_exit (void) {}
#define RW(N) void __tsan_read##N (void * p) { ev (p, 0); } void __tsan_write##N (void * p) { ev (p, 1); } \
  void __tsan_unaligned_read##N (void * p) { ev (p, 0); } void __tsan_unaligned_write##N (void * p) { ev (p, 1); } \
  void __tsan_volatile_read##N (void * p) { ev (p, 0); } void __tsan_volatile_write##N (void * p) { ev (p, 1); } \
  void __tsan_unaligned_volatile_read##N (void * p) { ev (p, 0); } void __tsan_unaligned_volatile_write##N (void * p) { ev (p, 1); } \
  void __tsan_read##N##_pc (void * p, void * c) { ev (p, 0); } void __tsan_write##N##_pc (void * p, void * c) { ev (p, 1); }
RW (1) RW (2) RW (4) RW (8) RW (16)
void __tsan_read_range (void * p, size_t n) { ev (p, 0); }
void __tsan_write_range (void * p, size_t n) { ev (p, 1); }
void __tsan_vptr_update (void ** p, void * v) { ev (p, 1); }
void __tsan_vptr_read (void ** p) { ev (p, 0); }
#define AT(N, T) \
  T __tsan_atomic##N##_load (const volatile T * p, int m) { ev ((void*)p, 0); return __atomic_load_n (p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##N##_store (volatile T * p, T v, int m) { ev ((void*)p, 1); __atomic_store_n (p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_exchange (volatile T * p, T v, int m) { ev ((void*)p, __atomic_load_n (p, __ATOMIC_SEQ_CST) != v); return __atomic_exchange_n (p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_add (volatile T * p, T v, int m) { ev ((void*)p, 1); return __atomic_fetch_add (p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_sub (volatile T * p, T v, int m) { ev ((void*)p, 1); return __atomic_fetch_sub (p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_and (volatile T * p, T v, int m) { ev ((void*)p, 1); return __atomic_fetch_and (p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_or (volatile T * p, T v, int m) { ev ((void*)p, 1); return __atomic_fetch_or (p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_xor (volatile T * p, T v, int m) { ev ((void*)p, 1); return __atomic_fetch_xor (p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong (volatile T * p, T * e, T v, int m, int f) { ev ((void*)p, *p == *e); return __atomic_compare_exchange_n (p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_weak (volatile T * p, T * e, T v, int m, int f) { return __tsan_atomic##N##_compare_exchange_strong (p, e, v, m, f); } \
  T __tsan_atomic##N##_compare_exchange_val (volatile T * p, T e, T v, int m, int f) { __tsan_atomic##N##_compare_exchange_strong (p, &e, v, m, f); return e; }
AT (8, uint8_t) AT (16, uint16_t) AT (32, uint32_t) AT (64, uint64_t)
void __tsan_atomic_thread_fence (int m) { __atomic_thread_fence (__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence (int m) { }
/* calls that wait in the kernel are spins, too */
int __real_sched_yield (void); int __wrap_sched_yield (void) { if (me) { me->spinning = 1; slow (); return 0; } return __real_sched_yield (); }
int __real_usleep (useconds_t u); int __wrap_usleep (useconds_t u) { if (me) { me->spinning = 1; slow (); return 0; } return __real_usleep (u); }
int __real_nanosleep (const struct timespec * a, struct timespec * b); int __wrap_nanosleep (const struct timespec * a, struct timespec * b) { if (me) { me->spinning = 1; slow (); return 0; } return __real_nanosleep (a, b); }
/* ------------------------------------------------------------------------------------------------ blocks of memory and who allocated them */
typedef struct { void * p; int t; } blk_t;
static blk_t blk[1 << 17]; static int nblk, bad_free;
static pthread_mutex_t bmx = PTHREAD_MUTEX_INITIALIZER;
static void bput (void * p) { pthread_mutex_lock (&bmx); blk[nblk++] = (blk_t){ p, me ? me->id : -1 }; pthread_mutex_unlock (&bmx); }
static int bdel (void * p)
{
  int r = 0;
  pthread_mutex_lock (&bmx);
  for (int i = nblk - 1; i >= 0; --i) if (blk[i].p == p) { blk[i] = blk[--nblk]; r = 1; break; }
  if (!r) ++bad_free;
  pthread_mutex_unlock (&bmx);
  return r;
}
static void * b_calloc (const char * f, const char * fn, int l, size_t c, size_t s) { void * p = calloc (c ? c : 1, s ? s : 1); bput (p); return p; }
static void * b_realloc (const char * f, const char * fn, int l, void * o, size_t s) { if (o && !bdel (o)) return NULL; void * p = realloc (o, s ? s : 1); bput (p); return p; }
static void b_free (const char * f, const char * fn, int l, void * p) { if (p && bdel (p)) free (p); }
/* ------------------------------------------------------------------------------------------------ what the threads do */
TYPEDEF_ENUM (cc_a_long_enumeration_name_t, ATTRIBUTES ( , "e"), (CC_A_VERY_LONG_CONSTANT_NAME_THAT_IS_THE_LONGEST_OF_ALL_CONSTANTS, = 5), (CC_B, = 6), (CC_C, = 8));
TYPEDEF_ENUM (cc_bits_t, ATTRIBUTES ( , "bits"), (CC_X, = 1), (CC_Y, = 4));
TYPEDEF_UNION (cc_u, (int, ui), (float, uf), ATTRIBUTES ( , "union"));
TYPEDEF_FUNC (int, cc_fn_t, (const char *))
TYPEDEF_STRUCT (cc_t, (int, x), (string_t, s), (char *, q), (double, d), (complex_float_t, z), (cc_a_long_enumeration_name_t, e), (cc_bits_t, b), (int, arr, [2]), (char, ca, [8]), (char, c),
		(cc_a_long_enumeration_name_t, ud), (cc_u, un, , , "ud"), BITFIELD (int, bf, :3), (int *, dyn, , , { "dyn_size" }, "string"), (ssize_t, dyn_size), (cc_t *, next),
		(mr_ptr_t, any, , , "any_t"), (string_t, any_t), ANON_UNION (), (int, au1), (float, au2), END_ANON_UNION ("ud"));
#define CC_OVR (mr_ud_override_t[]){ { 6, "uf" }, { 8, "ui" } }
TYPEDEF_STRUCT (cc_ov, (cc_a_long_enumeration_name_t, kind), (cc_u, v, , "kind", { CC_OVR }, "mr_ud_override_t", sizeof (CC_OVR)));
TYPEDEF_STRUCT (cc_fs, (cc_fn_t, f1), (cc_fn_t, f2), (cc_fn_t, f3), (int, f4, (const char *)));
static uint32_t fnv (uint32_t h, char const * s, size_t n) { for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)s[i]) * 16777619u; return h; }
static char * txt (char * s) { char * r = NULL; if (!s) return strdup ("NULL"); asprintf (&r, "%zu:%08x", strlen (s), fnv (2166136261u, s, strlen (s))); MR_FREE (s); return r; }
static void mk (cc_t * x, cc_t * y, int * d)
{
  memset (x, 0, sizeof *x); memset (y, 0, sizeof *y);
  x->x = -77; x->s = "a \"q\" <&> \\ \t\n\xc3\xa4 z"; x->q = x->s + 3; x->d = 1.5; x->z = 1 - 2i; x->e = 5; x->b = 5; x->arr[1] = 9; strcpy (x->ca, "<a>\t&"); x->c = '&'; x->ud = CC_B; x->un.uf = 0.25; x->bf = -2;
  d[0] = 3; d[1] = 4; x->dyn = d; x->dyn_size = 2 * sizeof (int); x->next = y; y->next = x; y->x = 1; y->s = x->s; x->any.ptr = y; x->any_t = "cc_t"; x->au1 = 3; y->ud = 5;
}
#define FMTS(_) _ (CINIT) _ (JSON) _ (SCM) _ (XML1) _ (XML2) _ (YAML)
static char * doc[8];            /* documents to load, made before anything is tried, in a process of its own */
static char * loaded (mr_status_t r, cc_t * y)
{
  if (r != MR_SUCCESS) return strdup ("failed");
  char * t = MR_SAVE_CINIT (cc_t, y); MR_FREE_RECURSIVELY (cc_t, y); return txt (t);
}
static char * reg (void)
{
  uint32_t h = 1; int n = 0; char b[600];
  mr_td_t * any = mr_get_td_by_name ("mr_ptr_t");
  for (mr_td_t * td = mr_conf.td_list; td; td = td->next)
    {
#define H(...) h = fnv (h, b, snprintf (b, sizeof b, __VA_ARGS__))
      ++n; H ("%s %d %d %d %d %d;", td->type.str, td->mr_type, (int)td->size, td->is_union_discriminator, td == mr_get_td_by_name (td->type.str), mr_get_fd_by_name (any, td->type.str) != NULL);
      if (td != mr_get_td_by_name (td->type.str)) continue;
      if (td->mr_type == MR_TYPE_ENUM) { for (int i = 0; td->param.enum_param.enums[i]; ++i) { mr_ed_t * e = td->param.enum_param.enums[i]; H ("%s %ld %d %d,", e->name.str, (long)e->value._signed, mr_get_enum_by_name (e->name.str) != NULL, mr_get_enum_by_value (td, e->value._unsigned) != NULL); } }
      if (td->mr_type == MR_TYPE_STRUCT || td->mr_type == MR_TYPE_UNION || td->mr_type == MR_TYPE_ANON_UNION || td->mr_type == MR_TYPE_NAMED_ANON_UNION)
	for (int i = 0; i < td->param.struct_param.fields_size / sizeof (td->param.struct_param.fields[0]); ++i)
	  { mr_fd_t * f = td->param.struct_param.fields[i]; H ("%s %s %d %d %d %d %d %d,", f->name.str, f->stype.type ? f->stype.type : "", f->stype.mr_type, f->stype.mr_type_aux, (int)f->stype.size, (int)f->offset, f->stype.tdp != NULL, mr_get_fd_by_name (td, f->name.str) != NULL);
	    if (f->res.ptr && f->res_type && !strcmp (f->res_type, "mr_ud_override_t") && f->MR_SIZE) { mr_ud_override_t * u = f->res.ptr; H ("%s %s %d,", u->discriminator, u->type ? u->type : "?", u->fdp != NULL); } }
    }
  char * r; asprintf (&r, "%d:%08x", n, h); return r;
}
static __thread char * msg_text;
static void on_msg (const char * file, const char * func, int line, mr_log_level_t level, mr_message_id_t id, va_list args)
{ char * t = mr_message_format (id, args); if (t) { free (msg_text); asprintf (&msg_text, "%d/%d:%s", level, id, t); MR_FREE (t); } }
static char * op (char const * o)
{
  cc_t x, y, z; int d[4]; char * r = NULL, * p; mk (&x, &y, d); memset (&z, 0x55, sizeof z);
  if (!strcmp (o, "td")) { mr_td_t * a = mr_get_td_by_name ("cc_t"), * b = mr_get_td_by_name ("mr_uint128_t"); asprintf (&r, "%d %d %d", a ? a->mr_type : -1, a ? (int)a->size : -1, b ? b->mr_type : -1); return r; }
  if (!strcmp (o, "ed")) { mr_ed_t * a = mr_get_enum_by_name ("CC_C"); asprintf (&r, "%ld", a ? (long)a->value._unsigned : -1); return r; }
  if (!strcmp (o, "fd")) { mr_td_t * a = mr_get_td_by_name ("cc_t"); mr_fd_t * f = a ? mr_get_fd_by_name (a, "any_t") : NULL; asprintf (&r, "%d", f ? f->offset : -1); return r; }
  if (!strcmp (o, "anyfd")) { mr_fd_t * f = mr_get_any_fd_by_name ("dyn_size", NULL); asprintf (&r, "%d", f ? f->offset : -1); return r; }
  if (!strcmp (o, "reg")) return reg ();
  if (!strcmp (o, "init")) { mr_conf_init (); return reg (); }
  if (!strcmp (o, "dt")) { mr_fd_t f = { .stype = { .type = "cc_t", .mr_type = MR_TYPE_NONE, .mr_type_class = MR_RECORD_TYPE_CLASS } }; mr_detect_type (&f); asprintf (&r, "%d %d", f.stype.mr_type, f.stype.tdp ? (int)f.stype.tdp->size : -1); return r; }
  if (!strcmp (o, "vt")) { char a[] = "f"; char * t = mr_ptr_detect_type (a, a); return strdup (t ? t : "none"); }
#define S(F) if (!strcmp (o, "save" #F)) return txt (MR_SAVE_##F (cc_t, &x));
#define L(F) if (!strcmp (o, "load" #F)) { p = strdup (doc[n]); r = loaded (MR_LOAD_##F (cc_t, p, &z), &z); free (p); return r; } ++n;
  int n = 0;
  FMTS (S)
  FMTS (L)
  if (!strcmp (o, "xdr")) { mr_rarray_t ra = MR_SAVE_XDR_RA (cc_t, &x); asprintf (&r, "%d:%08x:", (int)ra.MR_SIZE, ra.data.ptr ? fnv (1, ra.data.ptr, ra.MR_SIZE) : 0); if (!ra.data.ptr) return r; char * q = loaded (MR_LOAD_XDR_RA (cc_t, &ra, &z), &z); MR_FREE (ra.data.ptr); asprintf (&p, "%s%s", r, q); return p; }
  if (!strcmp (o, "copy")) { mr_status_t st = MR_COPY_RECURSIVELY (cc_t, &x, &z); return loaded (st, &z); }
  if (!strcmp (o, "ovr")) { cc_ov v = { .kind = CC_B, .v.uf = 0.5 }; r = txt (MR_SAVE_CINIT (cc_ov, &v)); v.kind = CC_C; char * q = txt (MR_SAVE_JSON (cc_ov, &v)); asprintf (&p, "%s %s", r, q); return p; }
  if (!strcmp (o, "desc")) return txt (MR_SAVE_CINIT (mr_td_t, mr_get_td_by_name ("cc_ov")));
  if (!strcmp (o, "hash")) { asprintf (&r, "%lx", (unsigned long)MR_HASH_STRUCT (cc_t, &y)); return r; }
  if (!strcmp (o, "cmp")) { z = y; asprintf (&r, "%d %d", MR_CMP_STRUCTS (cc_t, &y, &z), MR_CMP_STRUCTS (cc_t, &x, &y) > 0); return r; }
  if (!strcmp (o, "enumtext")) { char t[] = "{ .x = CC_A_VERY_LONG_CONSTANT_NAME_THAT_IS_THE_LONGEST_OF_ALL_CONSTANTS + CC_B * 2, .b = CC_X | CC_Y, .d = CC_C }"; return loaded (MR_LOAD_CINIT (cc_t, t, &z), &z); }
  if (!strcmp (o, "enumxml")) { char t[] = "<?xml version=\"1.0\"?><cc_t><x>CC_A_VERY_LONG_CONSTANT_NAME_THAT_IS_THE_LONGEST_OF_ALL_CONSTANTS</x><s>&lt;b&gt;&amp;&#x09;x</s><e>CC_B</e></cc_t>"; return loaded (MR_LOAD_XML1 (cc_t, t, &z), &z); }
  if (!strcmp (o, "msg")) { char t[] = "{ .x = nope }"; free (msg_text); msg_text = NULL; char * q = loaded (MR_LOAD_CINIT (cc_t, t, &z), &z); asprintf (&r, "%s %s", q, msg_text ? msg_text : "-"); return r; }
  if (!strcmp (o, "func"))
    {
      cc_fs f; memset (&f, 0, sizeof f); f.f1 = (void*)puts; f.f2 = (void*)system; f.f3 = (void*)atoi; f.f4 = (void*)puts; return txt (MR_SAVE_CINIT (cc_fs, &f));
    }
  if (!strcmp (o, "print")) { FILE * fp = fmemopen (NULL, 1 << 16, "w+"); int k = MR_FPRINT (fp, "y = ", (cc_t, &y), 5); fclose (fp); asprintf (&r, "%d", k); return r; }
  fprintf (stderr, "unknown operation %s\n", o); exit (3);
}
static char const * OPS[] = { "td", "ed", "fd", "anyfd", "reg", "init", "dt", "vt", "saveCINIT", "saveJSON", "saveSCM", "saveXML1", "saveXML2", "saveYAML", "loadCINIT", "loadJSON", "loadSCM", "loadXML1", "loadXML2", "loadYAML",
			      "xdr", "copy", "hash", "cmp", "enumtext", "enumxml", "msg", "func", "print", "ovr", "desc" };
#define NOPS (sizeof OPS / sizeof *OPS)
static char * want[NOPS]; static long initlen, bodylen[NOPS]; static long * pts[NOPS]; static long npts[NOPS];
static int op_idx (char const * o) { for (int i = 0; i < NOPS; ++i) if (!strcmp (o, OPS[i])) return i; fprintf (stderr, "unknown operation %s\n", o); exit (3); }
/* ------------------------------------------------------------------------------------------------ running things in processes of their own */
static char * in_child (void (*fn) (sb_t *, void *), void * arg, int timeout, int * sig)
{
  int pp[2]; pipe (pp); fflush (stdout); fflush (stderr);
  pid_t c = fork ();
  if (!c) { close (pp[0]); if (freopen ("/dev/null", "w", stderr) == NULL) {} alarm (timeout); sb_t o = {0}; sb_puts (&o, ""); fn (&o, arg); size_t w = 0; while (w < o.n) { ssize_t k = write (pp[1], o.s + w, o.n - w); if (k <= 0) break; w += k; } _exit (0); }
  close (pp[1]); sb_t r = {0}; sb_puts (&r, ""); char b[65536]; ssize_t k;
  while ((k = read (pp[0], b, sizeof b - 1)) > 0) { b[k] = 0; sb_puts (&r, b); }
  close (pp[0]); int st; waitpid (c, &st, 0); *sig = WIFSIGNALED (st) ? WTERMSIG (st) : WEXITSTATUS (st) ? 1000 + WEXITSTATUS (st) : 0;
  return r.s;
}
static void prof_one (sb_t * o, void * arg)
{ /* the operation after initialization: result, events, accesses to static memory */
  int i = *(int*)arg; rec_ev = 0; mr_conf_init (); long a = rec_ev; rec_n = 0; rec_ev = 0; char * s = op (OPS[i]); sb_printf (o, "%s\n%ld %ld\n", s, a, rec_ev);
  for (long j = 0; j < rec_n; ++j) sb_printf (o, "%ld %u %d\n", rec[j].i, rec[j].off, rec[j].w);
}
static void base_one (sb_t * o, void * arg) { char * a = op (arg), * b = op (arg); sb_puts (o, "\"first\":"); sb_json (o, a); sb_puts (o, ",\"second\":"); sb_json (o, b); }
static void profile (void)
{
  char * out[NOPS]; char * written = calloc (1, 1 << 24); int sig;
  for (int i = 0; i < NOPS; ++i)
    {
      out[i] = in_child (prof_one, &i, 60, &sig);
      char * p = strchr (out[i], '\n'); if (!p || sig) { fprintf (stderr, "profile of %s: signal %d\n", OPS[i], sig); want[i] = strdup ("?"); out[i] = strdup (""); continue; }
      want[i] = strndup (out[i], p - out[i]); long a; sscanf (p + 1, "%ld %ld", &a, &bodylen[i]); if (a > initlen) initlen = a;
      out[i] = strchr (p + 1, '\n') + 1;
      for (p = out[i]; *p; p = strchr (p, '\n') + 1) { long e; unsigned off; int w; sscanf (p, "%ld %u %d", &e, &off, &w); if (w && off < 1 << 24) written[off] = 1; }
    }
  for (int i = 0; i < NOPS; ++i)
    for (char * p = out[i]; *p; p = strchr (p, '\n') + 1)
      { long e; unsigned off; int w; sscanf (p, "%ld %u %d", &e, &off, &w); if (off < 1 << 24 && written[off]) { pts[i] = realloc (pts[i], sizeof (long) * (npts[i] + 1)); pts[i][npts[i]++] = e; } }
}
static void * body (void * arg)
{
  me = arg; slow ();
  char * a = op (me->op);
  pthread_mutex_lock (&mx); me->ans = a; me->finished = 1; token = -1; pthread_cond_signal (&cv_main); int id = me->id; pthread_mutex_unlock (&mx);
  (void)id; me = NULL; return NULL;
}
static int hang;
static void run_thread (thr_t * t, long stop)
{ /* lets the thread run to the given number of events, until it ends or until it cannot go on */
  pthread_mutex_lock (&mx);
  if (!t->finished)
    {
      t->stop = stop; if (t->spinning) { t->base = t->n; t->spinning = 0; } token = t->id; pthread_cond_signal (&t->cv);
      long last = -1;
      while (token == t->id)
	{
	  struct timespec ts; clock_gettime (CLOCK_REALTIME, &ts); ts.tv_nsec += 300000000; if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ++ts.tv_sec; }
	  if (pthread_cond_timedwait (&cv_main, &mx, &ts) && token == t->id) { if (beat == last) { token = -1; break; } last = beat; }   /* waits for a lock: the others go on */
	}
    }
  pthread_mutex_unlock (&mx);
}
typedef struct { unsigned seed; char * ops[MAXT]; int n; char * sched; } run_t;
static void run_one (sb_t * o, void * arg)
{
  run_t * r = arg; srand (r->seed); nthr = r->n; pthread_t th[MAXT];
  for (int i = 0; i < nthr; ++i) { thr[i] = (thr_t){ .id = i, .op = r->ops[i], .stop = 0 }; pthread_cond_init (&thr[i].cv, NULL); pthread_create (&th[i], NULL, body, &thr[i]); }
  for (char * p = strtok (r->sched, " "); p; p = strtok (NULL, " "))
    {
      int t, k, b; char at[16]; sscanf (p, "%d:%15[^:]:%d:%d", &t, at, &k, &b); --t;
      int oi = op_idx (r->ops[t]); long stop; long base = b ? initlen : thr[t].base;
      if (!strcmp (at, "end") || !strcmp (at, "spin")) stop = !strcmp (at, "spin") && b ? initlen + rand () % 3 : 1l << 60;
      else if (!strcmp (at, "check")) stop = rand () % 3;
      else if (!strcmp (at, "claim")) stop = 1 + rand () % 4;
      else if (!strcmp (at, "build")) stop = k == 0 ? rand () % 200 : initlen * k / 6 + rand () % (initlen / 6);
      else if (!strcmp (at, "publish")) stop = initlen - rand () % 60;
      else if (npts[oi] && rand () % 4) stop = base + pts[oi][rand () % npts[oi]] + rand () % 2;
      else stop = base + rand () % (bodylen[oi] + 1);
      run_thread (&thr[t], stop);
    }
  int rounds = 0;
  for (;;)
    {
      int left = 0; for (int i = 0; i < nthr; ++i) left += !thr[i].finished;
      if (!left) break;
      if (++rounds > 200) { hang = 1; break; }
      for (int i = 0; i < nthr; ++i) run_thread (&thr[i], 1l << 60);
    }
  if (!hang) for (int i = 0; i < nthr; ++i) pthread_join (th[i], NULL);
  sb_printf (o, "\"hang\":%d,\"bad\":%d,\"live\":%d", hang, bad_free, nblk);
  sb_puts (o, ",\"ans\":["); for (int i = 0; i < nthr; ++i) { sb_puts (o, i ? "," : ""); sb_json (o, thr[i].ans ? thr[i].ans : "none"); }
  sb_puts (o, "],\"want\":["); for (int i = 0; i < nthr; ++i) { sb_puts (o, i ? "," : ""); sb_json (o, want[op_idx (r->ops[i])]); } sb_puts (o, "]");
}
static void alone (sb_t * o, void * arg) { run_t * r = arg; for (int i = 0; i < r->n; ++i) op (r->ops[i]); sb_printf (o, "%d", nblk); }
static void make_docs (sb_t * o, void * arg)
{
  cc_t x, y; int d[4]; mk (&x, &y, d); int n = *(int*)arg; char * s = NULL;
#define D(F) if (n-- == 0) s = MR_SAVE_##F (cc_t, &x);
  D (CINIT) D (JSON) D (SCM) D (XML1) D (XML2) D (YAML)
  sb_puts (o, s ? s : "?");
}
int main (int argc, char ** argv)
{
  mr_conf.mr_mem.calloc = b_calloc; mr_conf.mr_mem.realloc = b_realloc; mr_conf.mr_mem.free = b_free; mr_conf.msg_handler = on_msg;
  int sig; for (int i = 0; i < 6; ++i) { doc[i] = in_child (make_docs, &i, 60, &sig); if (sig) return 4; }
  profile ();
  FILE * f = fopen (argv[1], "r"); char * line = NULL; size_t cap = 0; ssize_t len; long n = 0;
  while ((len = getline (&line, &cap, f)) > 0)
    {
      if (line[len - 1] == '\n') line[--len] = 0;
      if (!line[0]) continue;
      if (!strcmp (line, "ops")) { for (int i = 0; i < NOPS; ++i) printf ("{\"op\":\"%s\",\"want\":\"%s\",\"body\":%ld,\"pts\":%ld,\"init\":%ld}\n", OPS[i], want[i], bodylen[i], npts[i], initlen); continue; }
      if (!strncmp (line, "base ", 5)) { char * s = in_child (base_one, line + 5, 60, &sig); if (sig || !s[0]) s = "\"first\":\"\",\"second\":\"\""; printf ("{\"k\":\"base\",\"cmd\":\"%s\",\"hang\":%d,%s}\n", line, sig != 0, s); ++n; continue; }
      run_t r = {0}; char ops[200]; int k; char * copy = strdup (line);
      if (2 > sscanf (line, "R %u %199s%n", &r.seed, ops, &k)) { fprintf (stderr, "bad command %s\n", line); exit (3); }
      r.sched = line + k; for (char * p = strtok (ops, ","); p && r.n < MAXT; p = strtok (NULL, ",")) r.ops[r.n++] = p;
      char * a = in_child (alone, &r, 60, &sig); int al = sig ? -1 : atoi (a);
      int fn = 0; for (int i = 0; i < r.n; ++i) fn |= !strcmp (r.ops[i], "func") || !strcmp (r.ops[i], "desc");   /* the cache of names of functions belongs to whoever came first */
      char * s = in_child (run_one, &r, 60, &sig);
      sb_t e = {0}; sb_puts (&e, "{\"k\":\"run\",\"cmd\":"); sb_json (&e, copy);
      if (sig || !s[0]) sb_printf (&e, ",\"hang\":%d,\"bad\":%d,\"live\":0,\"ans\":[],\"want\":[]", sig == SIGALRM, sig); else { sb_puts (&e, ","); sb_puts (&e, s); }
      if (fn) { char * q = strstr (e.s, "\"live\":"); if (q) al = atoi (q + 7); }
      sb_printf (&e, ",\"alone\":%d}", al); puts (e.s); free (e.s); free (s); free (a); free (copy); ++n;
    }
  fprintf (stderr, "DONE %ld\n", n); return 0;
}
