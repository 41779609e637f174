/* Object-graph driver: builds objects from commands, runs library operations on them and reports what it sees.
   usage: heap CMDFILE   (events, one JSON object per line, on stdout) */
#define VF_TABLES
#include <metaresc.h>
#include "vf.h"
#include "types.gen.h"

#define FMTS(X) X(CINIT) X(JSON) X(SCM) X(XML1) X(XML2) X(YAML)
enum { FMT_CINIT, FMT_JSON, FMT_SCM, FMT_XML1, FMT_XML2, FMT_YAML, FMT_N };
static char const * fmt_name[] = { "CINIT", "JSON", "SCM", "XML1", "XML2", "YAML", "XDR" };

typedef struct {
  char const * name; vt_t * t; size_t size;
  char * (*save[FMT_N]) (void *);
  mr_status_t (*load[FMT_N]) (char *, void *);
  mr_status_t (*xsave) (XDR *, void *);
  mr_status_t (*xload) (XDR *, void *);
  mr_status_t (*copy) (void *, void *);
  mr_status_t (*freer) (void *);
  mr_hash_value_t (*hash) (void *);
  int (*cmp) (void *, void *);
  mr_ra_ptrdes_t (*graph) (void *);
} root_t;

#define MKF(T, F) static char * save_##F##_##T (void * p) { return MR_SAVE_##F (T, (T*)p); } \
  static mr_status_t load_##F##_##T (char * s, void * p) { return MR_LOAD_##F (T, s, (T*)p); }
#define MK(T) MKF (T, CINIT) MKF (T, JSON) MKF (T, SCM) MKF (T, XML1) MKF (T, XML2) MKF (T, YAML) \
  static mr_status_t xsave_##T (XDR * x, void * p) { return MR_SAVE_XDR (x, T, (T*)p); } \
  static mr_status_t xload_##T (XDR * x, void * p) { memset (p, 0, sizeof (T)); return MR_LOAD_XDR (T, x, (T*)p); } \
  static mr_status_t copy_##T (void * s, void * d) { return MR_COPY_RECURSIVELY (T, (T*)s, (T*)d); } \
  static mr_status_t freer_##T (void * p) { return MR_FREE_RECURSIVELY (T, (T*)p); } \
  static mr_hash_value_t hash_##T (void * p) { return MR_HASH_STRUCT (T, (T*)p); } \
  static int cmp_##T (void * x, void * y) { return MR_CMP_STRUCTS (T, (T*)x, (T*)y); } \
  static mr_ra_ptrdes_t graph_##T (void * p) { return MR_SAVE (T, (T*)p); }
FOR_ROOTS (MK)
#define ROW(T) { #T, &T_##T, sizeof (T), { save_CINIT_##T, save_JSON_##T, save_SCM_##T, save_XML1_##T, save_XML2_##T, save_YAML_##T }, \
  { load_CINIT_##T, load_JSON_##T, load_SCM_##T, load_XML1_##T, load_XML2_##T, load_YAML_##T }, \
  xsave_##T, xload_##T, copy_##T, freer_##T, hash_##T, cmp_##T, graph_##T },
static root_t roots[] = { FOR_ROOTS (ROW) { 0 } };

/* ---------------------------------------------------------------- model blocks */
typedef struct { char * p; vt_t * t; long n; } blk_t;
#define MAXB 512
static blk_t blk[MAXB];
static long cur_sc;
static vt_t * type_by_name (char const * n) { for (int i = 0; all_types[i]; ++i) if (!strcmp (all_types[i]->name, n)) return all_types[i]; fprintf (stderr, "no type %s\n", n); exit (3); }
static root_t * root_of (vt_t * t) { for (root_t * r = roots; r->name; ++r) if (r->t == t) return r; return NULL; }
static int fill;   /* what fresh blocks contain */
static struct { char * p; vt_t * t; } kept[64]; static int n_kept;
static char * kept_blk[64 * 40]; static int n_kept_blk;
static void blocks_forget (void) { for (int i = 0; i < MAXB; ++i) if (blk[i].p) { kept_blk[n_kept_blk++] = blk[i].p; blk[i].p = NULL; } }
static void kept_reset (void) { for (int i = 0; i < n_kept_blk; ++i) free (kept_blk[i]); n_kept = n_kept_blk = 0; }
static void blocks_reset (void) { for (int i = 0; i < MAXB; ++i) if (blk[i].p) { free (blk[i].p); blk[i].p = NULL; } }
/* path "0.next.2" inside a block; the first step is the element number */
static void * resolve (int b, char const * path, vt_t ** t, vt_t ** st, void ** sp, vf_t ** f)
{
  char tmp[512], * save, * s; strncpy (tmp, path, 511); tmp[511] = 0;
  s = strtok_r (tmp, ".", &save);
  vt_t * ct = blk[b].t; char * a = blk[b].p + atol (s) * ct->size; vt_t * cst = NULL; void * csp = NULL; vf_t * cf = NULL;
  while ((s = strtok_r (NULL, ".", &save)))
    {
      if (ct->k == K_ARR || ct->k == K_LARR) { ct = ct->elem; a += atol (s) * ct->size; cf = NULL; cst = NULL; csp = NULL; }
      else
	{
	  int i; for (i = 0; i < ct->nf; ++i) if (!strcmp (ct->f[i].name, s)) break;
	  if (i == ct->nf) { fprintf (stderr, "no field %s in %s (%s)\n", s, ct->name, path); exit (3); }
	  if (ct->k == K_STRUCT) { cst = ct; csp = a; cf = &ct->f[i]; } else { cf = NULL; cst = NULL; csp = NULL; }
	  a += ct->f[i].off; ct = ct->f[i].t;
	}
    }
  *t = ct; if (st) *st = cst; if (sp) *sp = csp; if (f) *f = cf;
  return a;
}

static void put_nodes (sb_t * o, char const * key, void * p, vt_t * t)
{
  wk_t w = {0};
  walk (&w, p, t, NULL, NULL, NULL);
  sb_printf (o, ",\"%s\":", key); wk_json (&w, o);
  wk_free (&w);
}
static void put_ids (sb_t * o, char const * key, long * v, long n)
{
  sb_printf (o, ",\"%s\":[", key);
  for (long i = 0; i < n; ++i) sb_printf (o, "%s%ld", i ? "," : "", v[i]);
  sb_puts (o, "]");
}
/* ids of ledger blocks (since) in which the reachable locations of the object lie, and the number of locations outside of them and outside the object itself */
static void put_owned (sb_t * o, void * p, vt_t * t, long since)
{
  wk_t w = {0}; long nr, n = 0, foreign = 0; rng_t * r = led_ranges (since, &nr);
  walk (&w, p, t, NULL, NULL, NULL);
  long * ids = calloc (w.nnode + 1, sizeof (long));
  for (int i = 0; i < w.nnode; ++i)
    {
      char * a = w.addr[i];
      if (!a || (a >= (char*)p && a < (char*)p + t->size)) continue;
      long id = rng_find (r, nr, a);
      if (id) ids[n++] = id; else ++foreign;
    }
  qsort (ids, n, sizeof (long), led_cmp);
  long m = 0; for (long i = 0; i < n; ++i) if (!m || ids[m - 1] != ids[i]) ids[m++] = ids[i];
  put_ids (o, "owned", ids, m);
  sb_printf (o, ",\"foreign\":%ld", foreign);
  free (ids); free (r); wk_free (&w);
}
static void flush (sb_t * o) { puts (o->s); fflush (stdout); free (o->s); memset (o, 0, sizeof (*o)); }

/* frees the object with the library and reports ids: live before, events during, live after */
static void do_free (sb_t * o, root_t * r, void * p, long since)
{
  long n; long * v = led_since (since, &n);
  put_ids (o, "live", v, n); free (v);
  long bad = led_bad, mark = led_next_id;
  led_log = 1; led_len = 0;
  mr_status_t st = r->freer (p);
  led_log = 0;
  /* only the release of blocks older than the call matters; the call's own temporary blocks must be gone as well */
  sb_puts (o, ",\"freed\":[");
  int first = 1; char * s = led_buf ? led_buf : "";
  for (size_t i = 0; i + 3 < led_len; )
    {
      char op = s[i + 2]; long id = strtol (s + i + 5, NULL, 10);
      if (op == 'D' && id < mark) { sb_printf (o, "%s%ld", first ? "" : ",", id); first = 0; }
      if (op == 'X') { sb_printf (o, "%s0", first ? "" : ","); first = 0; }
      char * e = memchr (s + i, ']', led_len - i); i = e - s + 2;
    }
  v = led_since (since, &n);
  sb_printf (o, "],\"fst\":%d,\"left\":%ld,\"bad\":%ld", st == MR_SUCCESS, n, led_bad - bad);
  free (v);
}

/* ---------------------------------------------------------------- descriptor graph */
static char const * mt_name (int t)
{
#define MTN(X) case MR_TYPE_##X: return #X;
  switch (t)
    {
      MTN (NONE) MTN (VOID) MTN (BOOL) MTN (CHAR) MTN (INT8) MTN (UINT8) MTN (INT16) MTN (UINT16) MTN (INT32) MTN (UINT32) MTN (INT64) MTN (UINT64) MTN (INT128) MTN (UINT128)
      MTN (FLOAT) MTN (COMPLEX_FLOAT) MTN (DOUBLE) MTN (COMPLEX_DOUBLE) MTN (LONG_DOUBLE) MTN (COMPLEX_LONG_DOUBLE) MTN (STRING) MTN (CHAR_ARRAY) MTN (FUNC) MTN (FUNC_TYPE)
      MTN (ARRAY) MTN (POINTER) MTN (BITFIELD) MTN (STRUCT) MTN (ENUM) MTN (UNION) MTN (ANON_UNION) MTN (NAMED_ANON_UNION)
    }
  return "?";
}
static void dump_graph (sb_t * o, char const * key, mr_ra_ptrdes_t * g)
{
  long n = g->ra ? g->size / sizeof (g->ra[0]) : 0;
  sb_printf (o, ",\"%s\":[", key);
  for (long i = 1; i < n; ++i)
    {
      mr_ptrdes_t * d = &g->ra[i];
      int b; for (b = 1; b < MAXB; ++b) if (blk[b].p && (char*)d->data.ptr >= blk[b].p && (char*)d->data.ptr < blk[b].p + blk[b].n * (blk[b].t->size ? blk[b].t->size : 1)) break;
      mr_td_t * td = d->fdp ? d->fdp->stype.tdp : NULL;
#define FL(F) ((d->flags & MR_IS_##F) != 0)
      sb_printf (o, "%s{\"nu\":%d,\"re\":%d,\"rd\":%d,\"cr\":%d,\"un\":%d,\"par\":%ld,\"nx\":%ld,\"fc\":%ld,\"mt\":\"%s\",\"aux\":\"%s\",\"idx\":%ld,\"b\":%d,\"o\":%ld,\"sz\":%ld,\"nm\":", i > 1 ? "," : "",
		 FL (NULL), FL (REFERENCE), FL (REFERENCED), FL (CONTENT_REFERENCE), FL (UNNAMED), (long)d->parent, (long)d->next, (long)d->first_child, mt_name (d->mr_type), mt_name (d->mr_type_aux), (long)d->idx,
		 b < MAXB ? b : 0, b < MAXB ? (long)((char*)d->data.ptr - blk[b].p) : 0L, d->mr_type == MR_TYPE_POINTER ? (long)d->MR_SIZE : 0L);
      sb_json (o, d->fdp && d->fdp->name.str ? d->fdp->name.str : "");
      sb_puts (o, ",\"ty\":"); sb_json (o, td && td->type.str ? td->type.str : "");
      sb_puts (o, "}");
    }
  sb_puts (o, "]");
}
typedef struct { sb_t * o; long n, stop; } dfs_t;
static mr_status_t dfs_visit (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order, void * context)
{
  dfs_t * c = context;
  sb_printf (c->o, "%s[%ld,%d,%d]", c->n ? "," : "", (long)idx, level, order == MR_DFS_PRE_ORDER ? 0 : order == MR_DFS_POST_ORDER ? 1 : 2);
  return (++c->n == c->stop || c->n > 100000) ? MR_FAILURE : MR_SUCCESS;
}
/* one traversal: start (0: whole graph), number of the call that fails (0: none) */
static void dump_dfs (sb_t * o, int first, mr_ra_ptrdes_t * g, long start, long stop)
{
  dfs_t c = { o, 0, stop };
  sb_printf (o, "%s{\"start\":%ld,\"stop\":%ld,\"v\":[", first ? "" : ",", start ? start : 1, stop);
  mr_status_t st = start ? mr_ptrs_dfs (g, dfs_visit, &c, start) : mr_ptrs_dfs (g, dfs_visit, &c);
  sb_printf (o, "],\"st\":%d}", st == MR_SUCCESS);
}

/* loads a document from outside */
static void op_doc (int f, char const * hex)
{
  root_t * r = root_of (blk[1].t); sb_t o = {0};
  void * d = calloc (1, r->size);
  char * s = calloc (1, (hex ? strlen (hex) / 2 : 0) + 1);
  if (hex) unhex (hex, (unsigned char*)s);
  long live0 = led_live, bad0 = led_bad, since = led_next_id;
  if (getenv ("VF_DOC")) fprintf (stderr, "--- %s\n%s\n+++\n", fmt_name[f], s);
  mr_status_t st = r->load[f] (s, d);
  sb_printf (&o, "{\"ev\":\"doc\",\"sc\":%ld,\"fmt\":\"%s\",\"ls\":%d,\"ll\":%ld", cur_sc, fmt_name[f], st == MR_SUCCESS, st == MR_SUCCESS ? 0 : led_live - live0);
  if (st == MR_SUCCESS)
    {
      memset (s, '#', strlen (s));
      put_nodes (&o, "nodes", d, r->t);
      put_owned (&o, d, r->t, since);
      do_free (&o, r, d, since);
    }
  sb_printf (&o, ",\"leak\":%ld,\"badf\":%ld}", led_live - live0, led_bad - bad0);
  flush (&o);
  free (s); free (d);
}

static void op_rt (int f)
{
  root_t * r = root_of (blk[1].t); sb_t o = {0};
  void * d = calloc (1, r->size);
  long since0 = led_next_id, live0 = led_live, bad0 = led_bad;
  sb_printf (&o, "{\"ev\":\"rt\",\"sc\":%ld,\"fmt\":\"%s\"", cur_sc, fmt_name[f]);
  if (f < FMT_N)
    {
      char * s = r->save[f] (blk[1].p);
      sb_printf (&o, ",\"ss\":%d", s != NULL);
      if (s)
	{
	  char * s2 = strdup (s), * s4 = strdup (s);
	  if (f != FMT_XML2) MR_FREE (s); else MR_FREE (s);
	  sb_printf (&o, ",\"sl\":%ld", led_live - live0);
	  long since = led_next_id, live1 = led_live;
	  mr_status_t st = r->load[f] (s2, d);
	  sb_printf (&o, ",\"ls\":%d,\"ll\":%ld", st == MR_SUCCESS, st == MR_SUCCESS ? 0 : led_live - live1);
	  if (st == MR_SUCCESS)
	    {
	      memset (s2, '#', strlen (s2));
	      put_nodes (&o, "nodes", d, r->t);
	      put_owned (&o, d, r->t, since);
	      char * s3 = r->save[f] (d);
	      sb_printf (&o, ",\"same\":%d", s3 && !strcmp (s3, s4));
	      if (getenv ("VF_DOC")) fprintf (stderr, "--- %s\n%s\n+++\n%s\n", fmt_name[f], s4, s3 ? s3 : "(null)");
	      if (s3) MR_FREE (s3);
	      do_free (&o, r, d, since);
	    }
	  else if (getenv ("VF_DOC")) fprintf (stderr, "--- %s\n%s\n", fmt_name[f], s4);
	  free (s2); free (s4);
	}
    }
  else
    {
      /* two copies in one stream, so that a loader that does not stop exactly at the end of the first is seen */
      mr_rarray_t ra; memset (&ra, 0, sizeof (ra)); ra.type = "uint8_t";
      XDR x; mr_xdrra_create (&x, &ra, XDR_ENCODE);
      mr_status_t s1 = r->xsave (&x, blk[1].p); long l1 = ra.MR_SIZE;
      mr_status_t s2 = s1 == MR_SUCCESS ? r->xsave (&x, blk[1].p) : MR_FAILURE; long l2 = ra.MR_SIZE;
      sb_printf (&o, ",\"ss\":%d", s1 == MR_SUCCESS && s2 == MR_SUCCESS);
      if (s2 == MR_SUCCESS)
	{
	  long since = led_next_id, live1 = led_live;
	  XDR y; mr_xdrra_create (&y, &ra, XDR_DECODE);
	  mr_status_t st = r->xload (&y, d);
	  if (st == MR_SUCCESS)
	    {
	      void * d2 = calloc (1, r->size);
	      int pos = xdr_getpos (&y) == l1;
	      mr_status_t st2 = r->xload (&y, d2);
	      sb_printf (&o, ",\"ls\":%d,\"ll\":0,\"pos\":%d", st2 == MR_SUCCESS, pos && xdr_getpos (&y) == l2);
	      if (st2 == MR_SUCCESS)
		{
		  memset (ra.data.ptr, 0x5a, ra.MR_SIZE);
		  put_nodes (&o, "nodes2", d2, r->t);
		  r->freer (d2);
		  put_nodes (&o, "nodes", d, r->t);
		  put_owned (&o, d, r->t, since);
		  mr_rarray_t ra2; memset (&ra2, 0, sizeof (ra2)); ra2.type = "uint8_t";
		  XDR z; mr_xdrra_create (&z, &ra2, XDR_ENCODE); r->xsave (&z, d);
		  sb_printf (&o, ",\"same\":%d", ra2.MR_SIZE == l1);
		  if (ra2.data.ptr) MR_FREE (ra2.data.ptr);
		  do_free (&o, r, d, since);
		}
	      free (d2);
	    }
	  else sb_printf (&o, ",\"ls\":0,\"ll\":%ld,\"pos\":0", led_live - live1);
	}
      if (ra.data.ptr) MR_FREE (ra.data.ptr);
    }
  sb_printf (&o, ",\"leak\":%ld,\"badf\":%ld}", led_live - live0, led_bad - bad0);
  flush (&o); free (d);
}

static void op_copy (void)
{
  root_t * r = root_of (blk[1].t); sb_t o = {0}; void * d = calloc (1, r->size);
  long since = led_next_id, live0 = led_live, bad0 = led_bad;
  sb_printf (&o, "{\"ev\":\"copy\",\"sc\":%ld", cur_sc);
  mr_status_t st = r->copy (blk[1].p, d);
  sb_printf (&o, ",\"cs\":%d", st == MR_SUCCESS);
  if (st == MR_SUCCESS)
    {
      put_nodes (&o, "nodes", d, r->t);
      put_nodes (&o, "src", blk[1].p, r->t);
      put_owned (&o, d, r->t, since);
      mr_hash_value_t h1 = r->hash (blk[1].p), h2 = r->hash (d);
      int c1 = r->cmp (blk[1].p, d), c2 = r->cmp (d, blk[1].p), c3 = r->cmp (d, d);
      sb_printf (&o, ",\"heq\":%d,\"c1\":%d,\"c2\":%d,\"c3\":%d", h1 == h2, (c1 > 0) - (c1 < 0), (c2 > 0) - (c2 < 0), (c3 > 0) - (c3 < 0));
      do_free (&o, r, d, since);
      put_nodes (&o, "src2", blk[1].p, r->t);
    }
  sb_printf (&o, ",\"leak\":%ld,\"badf\":%ld}", led_live - live0, led_bad - bad0);
  flush (&o); free (d);
}

/* ---------------------------------------------------------------- failing allocations */
typedef struct { root_t * r; int f; char * doc; mr_rarray_t xdr; char const * base; } fl_t;
static long fl_calls, fl_hit;
static void win_open (long k, long cnt) { led_calls = 0; led_failed = 0; led_fail_at = k; led_fail_count = cnt; }
static void win_close (void) { fl_calls = led_calls; fl_hit = led_failed > 0; led_fail_at = -1; }
static char * nodes_text (void * p, vt_t * t) { sb_t o = {0}; put_nodes (&o, "n", p, t); return o.s; }
/* each: one call with the k-th allocation (and the next cnt - 1 ones) failing; *eq: the result is the one of the undisturbed call */
static int fl_save (fl_t * c, long k, long cnt, int * eq)
{
  int st;
  if (c->f < FMT_N)
    {
      win_open (k, cnt); char * s = c->r->save[c->f] (blk[1].p); win_close ();
      st = s != NULL; *eq = !s || !c->base || !strcmp (s, c->base);
      if (s) { if (!c->base) c->base = strdup (s); MR_FREE (s); }
    }
  else
    {
      mr_rarray_t ra; memset (&ra, 0, sizeof (ra)); ra.type = "uint8_t";
      XDR x; mr_xdrra_create (&x, &ra, XDR_ENCODE);
      win_open (k, cnt); st = MR_SUCCESS == c->r->xsave (&x, blk[1].p); win_close ();
      *eq = !st || (ra.MR_SIZE == c->xdr.MR_SIZE && !memcmp (ra.data.ptr, c->xdr.data.ptr, ra.MR_SIZE));
      if (ra.data.ptr) MR_FREE (ra.data.ptr);
    }
  return st;
}
static int fl_result (fl_t * c, void * d, int st, int * eq)
{
  *eq = 1;
  if (st)
    {
      char * n = nodes_text (d, c->r->t);
      if (!c->base) c->base = strdup (n);
      *eq = !strcmp (n, c->base); free (n);
      c->r->freer (d);
    }
  free (d);
  return st;
}
static int fl_load (fl_t * c, long k, long cnt, int * eq)
{
  void * d = calloc (1, c->r->size); int st;
  if (c->f < FMT_N)
    {
      char * s = strdup (c->doc);
      win_open (k, cnt); st = MR_SUCCESS == c->r->load[c->f] (s, d); win_close ();
      free (s);
    }
  else
    {
      XDR y; mr_xdrra_create (&y, &c->xdr, XDR_DECODE);
      win_open (k, cnt); st = MR_SUCCESS == c->r->xload (&y, d); win_close ();
    }
  return fl_result (c, d, st, eq);
}
static int fl_copy (fl_t * c, long k, long cnt, int * eq)
{
  void * d = calloc (1, c->r->size);
  win_open (k, cnt); int st = MR_SUCCESS == c->r->copy (blk[1].p, d); win_close ();
  return fl_result (c, d, st, eq);
}
/* release of a copy: fails without releasing anything, or releases everything */
static int fl_free (fl_t * c, long k, long cnt, int * eq)
{
  void * d = calloc (1, c->r->size); long l0 = led_live; int st = MR_FAILURE;
  if (MR_SUCCESS == c->r->copy (blk[1].p, d))
    {
      long l1 = led_live;
      win_open (k, cnt); st = c->r->freer (d); win_close ();
      *eq = st == MR_SUCCESS ? led_live == l0 : led_live == l1;
      if (!c->base) c->base = strdup ("");
      if (st != MR_SUCCESS) c->r->freer (d);
    }
  free (d);
  return st == MR_SUCCESS;
}
static void op_fault (char const * what, int f)
{
  int (*fn) (fl_t *, long, long, int *) = what[0] == 's' ? fl_save : what[0] == 'l' ? fl_load : what[0] == 'c' ? fl_copy : fl_free;
  fl_t c; memset (&c, 0, sizeof (c)); c.r = root_of (blk[1].t); c.f = f; c.xdr.type = "uint8_t";
  sb_t o = {0}; int eq, st;
  sb_printf (&o, "{\"ev\":\"fault\",\"sc\":%ld,\"op\":\"%s\",\"fmt\":\"%s\"", cur_sc, what, f >= 0 ? fmt_name[f] : "");
  char * src = nodes_text (blk[1].p, blk[1].t);
  if (f >= 0 && f < FMT_N) { char * s = c.r->save[f] (blk[1].p); if (s) { c.doc = strdup (s); MR_FREE (s); } }
  else if (f == FMT_N) { XDR x; mr_xdrra_create (&x, &c.xdr, XDR_ENCODE); c.r->xsave (&x, blk[1].p); }
  long live0 = led_live, bad0 = led_bad;
  st = fn (&c, -1, 0, &eq);
  long n = fl_calls, step = n / 300 + 1;
  sb_printf (&o, ",\"n\":%ld,\"st\":%d,\"leak\":%ld,\"bad\":%ld", n, st, led_live - live0, led_bad - bad0);
  if (st && what[0] != 's' && what[0] != 'f') sb_printf (&o, ",\"nodes\":%s", strchr (c.base, ':') + 1);
  else sb_puts (&o, ",\"nodes\":[]");
  sb_puts (&o, ",\"rows\":[");
  int first = 1;
  for (int mode = 0; st && mode < 2; ++mode)
    for (long k = 0; k < n; k += step)
      {
	fprintf (stderr, "FAULT %s %s %ld %d\n", what, f >= 0 ? fmt_name[f] : "", k, mode);
	long l0 = led_live, b0 = led_bad; int hit, st2, eq2;
	st = fn (&c, k, mode ? -1 : 1, &eq); hit = fl_hit;
	long leak = led_live - l0, bad = led_bad - b0;
	st2 = fn (&c, -1, 0, &eq2);
	char * src2 = nodes_text (blk[1].p, blk[1].t);
	sb_printf (&o, "%s[%ld,%d,%d,%d,%d,%ld,%ld,%d,%d]", first ? "" : ",", k, mode, hit, st, eq, leak, bad, !strcmp (src, src2), st2 && eq2);
	first = 0; free (src2); st = 1;
      }
  sb_puts (&o, "]}");
  flush (&o);
  free (src); free (c.doc); if (c.xdr.data.ptr) MR_FREE (c.xdr.data.ptr); free ((char*)c.base);
}

static void op_graph (void)
{
  root_t * r = root_of (blk[1].t); sb_t o = {0};
  long live0 = led_live, bad0 = led_bad;
  mr_ra_ptrdes_t g = r->graph (blk[1].p);
  long n = g.ra ? g.size / sizeof (g.ra[0]) : 0;
  sb_printf (&o, "{\"ev\":\"graph\",\"sc\":%ld,\"ok\":%d", cur_sc, g.ra != NULL);
  dump_graph (&o, "g", &g);
  sb_puts (&o, ",\"dfs\":[");
  if (g.ra)
    {
      dump_dfs (&o, 1, &g, 0, 0);
      for (long k = 0; k < 4; ++k) dump_dfs (&o, 0, &g, 1 + (cur_sc * 7 + k * (n / 4 + 1)) % (n - 1), 0);
      dump_dfs (&o, 0, &g, 0, 1 + cur_sc % (2 * n));
    }
  sb_puts (&o, "]");
  if (g.ra)
    {
      mr_remove_empty_nodes (&g);
      dump_graph (&o, "g2", &g);
      mr_reorder_strings (&g);
      dump_graph (&o, "g3", &g);
    }
  else sb_puts (&o, ",\"g2\":[],\"g3\":[]");
  if (g.ra) MR_FREE (g.ra);
  put_nodes (&o, "nodes", blk[1].p, blk[1].t);
  sb_printf (&o, ",\"leak\":%ld,\"badf\":%ld}", led_live - live0, led_bad - bad0);
  flush (&o);
}

/* comparison of every two kept objects, their hashes, and what they look like afterwards */
static void op_pairs (void)
{
  sb_t o = {0}; long live0 = led_live;
  sb_printf (&o, "{\"ev\":\"pairs\",\"sc\":%ld,\"m\":[", cur_sc);
  for (int i = 0; i < n_kept; ++i)
    {
      sb_printf (&o, "%s[", i ? "," : "");
      for (int j = 0; j < n_kept; ++j) { int c = root_of (kept[i].t)->cmp (kept[i].p, kept[j].p); sb_printf (&o, "%s%d", j ? "," : "", (c > 0) - (c < 0)); }
      sb_puts (&o, "]");
    }
  sb_puts (&o, "],\"h\":[");
  for (int i = 0; i < n_kept; ++i) sb_printf (&o, "%s\"%llx\"", i ? "," : "", (unsigned long long)root_of (kept[i].t)->hash (kept[i].p));
  sb_puts (&o, "]");
  sb_puts (&o, ",\"after\":[");
  for (int i = 0; i < n_kept; ++i) { wk_t w = {0}; walk (&w, kept[i].p, kept[i].t, NULL, NULL, NULL); if (i) sb_puts (&o, ","); wk_json (&w, &o); wk_free (&w); }
  sb_printf (&o, "],\"leak\":%ld}", led_live - live0);
  flush (&o);
}

#ifdef __SANITIZE_ADDRESS__
#include "mal.h"
#else
static void op_mal (int f, char m, char const * a, char const * b, int j, long x, long y) {}
#endif
int main (int argc, char ** argv)
{
  static char line[1 << 20];
  led_install ();
  if (!getenv ("VF_LOG")) mr_conf.log_level = MR_LL_OFF;
  if (argc > 1 && !strcmp (argv[1], "--sizes")) { for (int i = 0; all_types[i]; ++i) printf ("%s %zu\n", all_types[i]->name, all_types[i]->size); return 0; }
  if (argc > 1 && !strcmp (argv[1], "--layout")) { for (int i = 0; all_layout[i].f; ++i) printf ("%s %s %ld\n", all_layout[i].s, all_layout[i].f, all_layout[i].off); return 0; }
  if (argc > 2 && !strcmp (argv[1], "--canon"))
    { /* canonical texts of leaf values: lines "type text" */
      FILE * f = fopen (argv[2], "r");
      while (fgets (line, sizeof line, f))
	{
	  char tn[128], tx[512]; if (sscanf (line, "%127s %511s", tn, tx) != 2) continue;
	  vt_t * t = type_by_name (tn); sb_t o = {0}; char buf[4096] = {0};
	  leaf_set (t, buf, NULL, tx); leaf_text (&o, t, buf, NULL); printf ("%s %s\n", tn, o.s); free (o.s);
	}
      return 0;
    }
  FILE * f = fopen (argv[1], "r");
  if (!f) return 3;
  { /* warm up: one-time allocations of the library */
    in_t x = {0}; char * s = MR_SAVE_CINIT (in_t, &x); if (s) MR_FREE (s);
    sf_t y; memset (&y, 0, sizeof y); for (int i = 0; i < 8; ++i) { y.func = i % 3 == 0 ? vf_fn_a : i % 3 == 1 ? vf_fn_b : NULL; s = MR_SAVE_CINIT (sf_t, &y); if (s) { MR_LOAD_CINIT (sf_t, s, &y); MR_FREE (s); } }
    s = MR_SAVE_XML2 (in_t, &x); if (s) MR_FREE (s);
  }
  while (fgets (line, sizeof line, f))
    {
      char * sv, * c = strtok_r (line, " \n", &sv);
      if (!c) continue;
#define TOK strtok_r (NULL, " \n", &sv)
      switch (c[0])
	{
	case 'S': blocks_reset (); kept_reset (); fill = 0; cur_sc = atol (TOK); fprintf (stderr, "SC %ld\n", cur_sc); break;
	case 'M': fill = atoi (TOK); break;
	case 'N': blocks_forget (); break;
	case 'B': { int b = atoi (TOK); vt_t * t = type_by_name (TOK); long n = atol (TOK); blk[b] = (blk_t){ malloc (n * t->size), t, n }; memset (blk[b].p, fill, n * t->size); break; }
	case 'X': { int b = atoi (TOK); char * h = TOK; size_t l = h ? strlen (h) / 2 : 0; blk[b] = (blk_t){ calloc (1, l + 1), type_by_name ("text"), l + 1 }; if (h) unhex (h, (unsigned char*)blk[b].p); break; }
	case 'L': { int b = atoi (TOK); vt_t * t, * st; void * sp; vf_t * ff; char * p = TOK; void * a = resolve (b, p, &t, &st, &sp, &ff); leaf_set (t, a, ff, TOK); break; }
	case 'P': { int b = atoi (TOK); vt_t * t, * t2; char * p = TOK; void * a = resolve (b, p, &t, 0, 0, 0); int b2 = atoi (TOK); char * p2 = TOK; *(void**)a = b2 ? resolve (b2, p2, &t2, 0, 0, 0) : NULL; break; }
	case 'R': { int b = atoi (TOK); vt_t * t, * t2, * st; void * sp; vf_t * ff; char * p = TOK; void * a = resolve (b, p, &t, &st, &sp, &ff);
	    int b2 = atoi (TOK); char * p2 = TOK; long n = atol (TOK); char num[32]; sprintf (num, "%ld", n);
	    if (t->k == K_RPTR) *(void**)a = b2 ? resolve (b2, p2, &t2, 0, 0, 0) : NULL;
	    vf_t * sf = &st->f[ff->sz]; leaf_set (sf->t, (char*)sp + sf->off, sf, num); break; }
	case 'D': { sb_t o = {0}; sb_printf (&o, "{\"ev\":\"built\",\"sc\":%ld", cur_sc); put_nodes (&o, "nodes", blk[1].p, blk[1].t); sb_puts (&o, "}"); flush (&o); break; }
	case 'O':
	  {
	    char * op = TOK;
	    if (!strcmp (op, "rt")) { char * fm = TOK; for (int i = 0; i <= FMT_N; ++i) if (!strcmp (fm, fmt_name[i])) op_rt (i); }
	    else if (!strcmp (op, "doc")) { char * fm = TOK, * hx = TOK; for (int i = 0; i < FMT_N; ++i) if (!strcmp (fm, fmt_name[i])) op_doc (i, hx); }
	    else if (!strcmp (op, "copy")) op_copy ();
	    else if (!strcmp (op, "fault")) { char * w = TOK, * fm = TOK; int fi = -1; for (int i = 0; fm && i <= FMT_N; ++i) if (!strcmp (fm, fmt_name[i])) fi = i; op_fault (w, fi); }
	    else if (!strcmp (op, "mal")) { char * fm = TOK, * md = TOK, * sf = TOK, * wf = TOK; int jd = atoi (TOK); long from = atol (TOK), step = atol (TOK); for (int i = 0; i <= FMT_N; ++i) if (!strcmp (fm, fmt_name[i])) op_mal (i, md[0], sf, wf, jd, from, step); }
	    else if (!strcmp (op, "graph")) op_graph ();
	    else if (!strcmp (op, "keep")) { kept[n_kept].p = blk[1].p; kept[n_kept++].t = blk[1].t; }
	    else if (!strcmp (op, "pairs")) op_pairs ();
	    break;
	  }
	}
    }
  blocks_reset ();
  fprintf (stderr, "DONE\n");
  return 0;
}
