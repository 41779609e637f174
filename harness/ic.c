/* Drives every kind of indexed collection through given and through all short histories and prints every distinct
   transition (collection before, operation, result, collection after) as one JSON line.
   usage: ic FILE     lines of FILE:
     K kind cmpmode hashmode      new collection (cmpmode: 0 numbers, 1 numbers with a context, 2 described structures)
     a V I F | d V I F | f V I F  insertion, removal, search of the key <V,I>; F: 0, or the F-th allocation fails, 9: all fail
     x F N V I V I ...            bulk load
     e N                          traversal stopped by the N-th visit
     F                            release and reuse
     E depth nv ni faults         every history of that length over nv*ni keys */
#include <metaresc.h>
#include <mr_ic.h>
#include <mr_btree.h>
#include "vf.h"

TYPEDEF_STRUCT (vf_elem_t, (int, v), VOID (int, i), VOID (int, pad));

enum { ADD, DEL, FIND, INDEX, STOP, FREE };
static char const * opn[] = { "add", "del", "find", "index", "stop", "free" };
static char const * kindn[] = { [MR_IC_UNSORTED_ARRAY] = "unsorted", [MR_IC_SORTED_ARRAY] = "sorted", [MR_IC_HASH] = "hash", [MR_IC_STATIC_ARRAY] = "static", [MR_IC_RBTREE] = "rb", [MR_IC_AVLTREE] = "avl" };
#define MAXARR 4096
typedef struct { int op, f, n, key; int arr[MAXARR]; int na; } op_t;	/* key = v * 16 + i */

static int kind, cmpmode, hashmode;
static mr_ic_t ic;
static int shift = 4;
static vf_elem_t pool[1 << 14];
static mr_ptr_t mk (int key)
{
  mr_ptr_t k; memset (&k, 0, sizeof k);
  if (cmpmode == 2) { vf_elem_t * e = &pool[key]; e->v = key >> 4; e->i = key & 15; e->pad = key * 7; k.ptr = e; }
  else k.intptr = key;
  return k;
}
static int key_of (mr_ptr_t p) { if (cmpmode == 2) { vf_elem_t * e = p.ptr; return (e >= pool && e < pool + (1 << 14)) ? (e->v << 4) + e->i : -1; } return p.intptr; }
static long ncmp;
static int vcmp (const mr_ptr_t x, const mr_ptr_t y, const void * ctx)
{
  ++ncmp;
  int s = cmpmode == 1 ? *(int const *)ctx : 4;
  long a = x.intptr >> s, b = y.intptr >> s;
  return a < b ? -1000000000 : a > b ? 5 : 0;
}
static mr_hash_value_t vhash (const mr_ptr_t x, const void * ctx)
{
  int s = cmpmode == 1 ? *(int const *)ctx : 4;
  unsigned v = x.intptr >> s;
  switch (hashmode) { case 0: return v; case 1: return 0; case 2: return v % 2 ? ~0u : 7; case 3: return v * 2654435761u; default: return ~v; }
}
static void ic_make (void)
{
  mr_res_t ctx; memset (&ctx, 0, sizeof ctx); ctx.data.ptr = &shift;
  mr_status_t st = cmpmode == 2 ? mr_ic_new (&ic, NULL, NULL, "vf_elem_t", kind, NULL)
    : mr_ic_new (&ic, vhash, vcmp, "intptr", kind, cmpmode == 1 ? &ctx : NULL);
  if (st != MR_SUCCESS) { fprintf (stderr, "mr_ic_new failed\n"); exit (3); }
}
/* what the collection holds */
static int items[MAXARR * 2], nitems;
static mr_status_t visit (mr_ptr_t p, void * c) { if (nitems < MAXARR * 2) items[nitems++] = key_of (p); return MR_SUCCESS; }
typedef struct { int left, seen; } stop_t;
static mr_status_t visit_stop (mr_ptr_t p, void * c) { stop_t * s = c; ++s->seen; return --s->left <= 0 ? MR_FAILURE : MR_SUCCESS; }

static sb_t pre, ln;
static void state (sb_t * b)
{
  nitems = 0;
  mr_status_t st = mr_ic_foreach (&ic, visit, NULL);
  sb_printf (b, "{\"st\":%d,\"cnt\":%u,\"items\":[", st == MR_SUCCESS, ic.items_count);
  for (int i = 0; i < nitems; ++i) sb_printf (b, "%s[%d,%d]", i ? "," : "", items[i] >> 4, items[i] & 15);
  sb_printf (b, "]}");
}
/* distinct transitions */
static char ** seen; static size_t seen_n, seen_cap;
static long transitions;
static int once (char const * s)
{
  ++transitions;
  if (seen_n * 2 >= seen_cap)
    {
      char ** o = seen; size_t oc = seen_cap;
      seen_cap = seen_cap ? seen_cap * 2 : 1 << 16; seen = calloc (seen_cap, sizeof (*seen));
      for (size_t i = 0; i < oc; ++i) if (o[i]) { unsigned long h = 5381; for (char * c = o[i]; *c; ++c) h = h * 33 + *c; while (seen[h % seen_cap]) ++h; seen[h % seen_cap] = o[i]; }
      free (o);
    }
  unsigned long h = 5381; for (char const * c = s; *c; ++c) h = h * 33 + *c;
  for (; seen[h % seen_cap]; ++h) if (!strcmp (seen[h % seen_cap], s)) return 0;
  seen[h % seen_cap] = strdup (s); ++seen_n;
  return 1;
}
static mr_ptr_t borrowed[64][MAXARR]; static int nborrowed;
static void step (op_t * o)
{
  static mr_ptr_t copy[MAXARR];
  static mr_ptr_t * arr; static int na;
  ln.n = 0; sb_printf (&ln, "{\"kind\":\"%s\",\"op\":\"%s\",\"pre\":", kindn[kind], opn[o->op]); state (&ln);
  static sb_t res; res.n = 0; sb_puts (&res, "");
  mr_ptr_t k = mk (o->key), * r; mr_status_t st;
  char kt[64]; sprintf (kt, "[%d,%d]", o->key >> 4, o->key & 15);
  char const * rs = "none"; int rk = -1; int nseen = 0;
  if (o->op == INDEX)
    {
      arr = borrowed[nborrowed++ % 64]; na = o->na;
      for (int i = 0; i < na; ++i) copy[i] = arr[i] = mk (o->arr[i]);
    }
  led_calls = 0; led_failed = 0; led_fail_at = o->f == 0 ? -1 : o->f == 9 ? 0 : o->f - 1; led_fail_count = o->f == 9 ? -1 : 1;
  switch (o->op)
    {
    case ADD: r = mr_ic_add (&ic, k); if (r) { rs = "elem"; rk = key_of (*r); } break;
    case FIND: r = mr_ic_find (&ic, k); if (r) { rs = "elem"; rk = key_of (*r); } break;
    case DEL: st = mr_ic_del (&ic, k); rs = st == MR_SUCCESS ? "ok" : "fail"; break;
    case INDEX: st = mr_ic_index (&ic, arr, na * sizeof (*arr)); rs = st == MR_SUCCESS ? "ok" : "fail"; break;
    case STOP: { stop_t s = { o->n, 0 }; st = mr_ic_foreach (&ic, visit_stop, &s); rs = st == MR_SUCCESS ? "ok" : "fail"; nseen = s.seen; break; }
    case FREE: mr_ic_free (&ic); rs = "ok"; break;
    }
  led_fail_at = -1;
  int same = 1;
  if (arr && kind == MR_IC_UNSORTED_ARRAY) for (int i = 0; i < na; ++i) if (arr[i].intptr != copy[i].intptr) same = 0;
  if (o->op == FREE) arr = NULL;
  sb_printf (&ln, ",\"key\":%s,\"arr\":[", kt);
  for (int i = 0; o->op == INDEX && i < o->na; ++i) sb_printf (&ln, "%s[%d,%d]", i ? "," : "", o->arr[i] >> 4, o->arr[i] & 15);
  sb_printf (&ln, "],\"n\":%d,\"seen\":%d,\"failed\":%d,\"res\":\"%s\",\"elem\":[%d,%d],\"live\":%ld,\"bad\":%ld,\"argsame\":%d,\"post\":", o->op == STOP ? o->n : 0, nseen,
	     led_failed > 0, rs, rk < 0 ? -1 : rk >> 4, rk < 0 ? -1 : rk & 15, o->op == FREE ? led_live : 0, led_bad, same);
  state (&ln);
  sb_puts (&ln, "}");
  led_bad = 0;
  if (once (ln.s)) puts (ln.s);
}
static op_t fr = { FREE };
static void all (int depth, int nv, int ni, int faults)
{
  /* alphabet */
  static op_t al[256]; int na = 0;
  for (int v = 0; v < nv; ++v) for (int i = 0; i < ni; ++i)
    for (int op = ADD; op <= FIND; ++op)
      for (int f = 0; f <= (faults && op != FIND ? 1 : 0); ++f)
	if (op != FIND || i == 0) al[na++] = (op_t){ op, f, 0, v * 16 + i };
  static int const arrs[][6] = { { 0 }, { 1, 0 }, { 2, 16, 17 }, { 3, 1, 0, 32 }, { 4, 32, 16, 0, 1 }, { 5, 33, 17, 2, 0, 16 } };
  for (int j = 0; j < 6; ++j) for (int f = 0; f <= (faults ? 2 : 0); ++f)
    { al[na] = (op_t){ INDEX, f == 2 ? 9 : f }; al[na].na = arrs[j][0]; for (int i = 0; i < arrs[j][0]; ++i) al[na].arr[i] = arrs[j][i + 1]; ++na; }
  al[na++] = (op_t){ STOP, 0, 1 }; al[na++] = (op_t){ STOP, 0, 2 };
  al[na++] = fr;
  int w[16] = { 0 };
  for (;;)
    {
      ic_make ();
      for (int d = 0; d < depth; ++d) step (&al[w[d]]);
      step (&fr);
      int d = depth - 1;
      while (d >= 0 && ++w[d] == na) w[d--] = 0;
      if (d < 0) break;
    }
}
int main (int argc, char ** argv)
{
  FILE * f = fopen (argv[1], "r");
  setvbuf (stdout, NULL, _IOFBF, 1 << 20);
  mr_conf.log_level = MR_LL_OFF;
  mr_conf_init ();
  led_install ();
  char c; static op_t o; int v, i, open = 0; long hist = 0;
  while (fscanf (f, " %c", &c) == 1)
    switch (c)
      {
      case 'K':
	{
	  char kn[16]; if (open) step (&fr);
	  fscanf (f, "%15s %d %d", kn, &cmpmode, &hashmode);
	  for (kind = 0; !(kind < 16 && kindn[kind] && !strcmp (kindn[kind], kn)); ++kind) if (kind > 20) return 3;
	  fprintf (stderr, "SC %ld %s\n", ++hist, kn);
	  ic_make (); open = 1; break;
	}
      case 'a': case 'd': case 'f': memset (&o, 0, sizeof o); o.op = c == 'a' ? ADD : c == 'd' ? DEL : FIND; fscanf (f, "%d %d %d", &v, &i, &o.f); o.key = v * 16 + i; step (&o); break;
      case 'x': o.op = INDEX; o.n = o.key = 0; fscanf (f, "%d %d", &o.f, &o.na); for (int j = 0; j < o.na; ++j) { fscanf (f, "%d %d", &v, &i); o.arr[j] = v * 16 + i; } step (&o); break;
      case 'e': memset (&o, 0, sizeof o); o.op = STOP; fscanf (f, "%d", &o.n); step (&o); break;
      case 'F': step (&fr); break;
      case 'E': { int d, nv, ni, fl; fscanf (f, "%d %d %d %d", &d, &nv, &ni, &fl); all (d, nv, ni, fl); open = 0; break; }
      }
  if (open) step (&fr);
  fflush (stdout);
  fprintf (stderr, "DONE %ld\n", transitions);
  return 0;
}
