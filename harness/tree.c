/* Explores red-black and AVL collections and prints every distinct transition between tree shapes and every distinct
   shape with its traversals as JSON lines.
   usage: tree FILE      lines of FILE:
     B kind n pool    all trees reachable with n keys by insertions and removals (pool: 1 tells apart the placement in the pool)
     K kind | a V | d V | f V | n V     one history; n: traversals from V
   kind: rb or avl */
#include <metaresc.h>
#include <mr_ic.h>
#include <mr_btree.h>
#include "vf.h"

static int kind;
static mr_ic_t ic;
static int vcmp (const mr_ptr_t x, const mr_ptr_t y, const void * ctx) { return x.intptr < y.intptr ? -7 : x.intptr > y.intptr ? 1 << 20 : 0; }
static mr_ptr_t mk (long v) { mr_ptr_t p; memset (&p, 0, sizeof p); p.intptr = v; return p; }
static int budget;
static void shape (sb_t * b, unsigned i)
{
  if (!i) { sb_puts (b, "[]"); return; }
  mr_tree_node_t * n = &ic.tree.pool[i];
  if (--budget < 0) { sb_puts (b, "[]"); return; }	/* a cycle: the sets of keys will differ */
  int c = kind == MR_IC_RBTREE ? n->rb.red : n->avl.balanced ? 0 : n->avl.longer == MR_LEFT ? -1 : 1;
  sb_printf (b, "[%ld,%d,", (long)n->key.intptr, c);
  shape (b, n->next[MR_LEFT].idx); sb_puts (b, ","); shape (b, n->next[MR_RIGHT].idx); sb_puts (b, "]");
}
static unsigned count (void) { long n = ic.tree.pool ? ic.tree.size / (long)sizeof (ic.tree.pool[0]) : 0; return n > 0 ? n - 1 : 0; }
static void tree (sb_t * b) { budget = count () + 1; shape (b, count () ? ic.tree.pool->root.idx : 0); }

static char ** seen; static size_t seen_n, seen_cap; static long transitions;
static unsigned long hs (char const * c) { unsigned long h = 5381; for (; *c; ++c) h = (h ^ *c) * 1099511628211ul; return h ^ (h >> 29); }
static int once (char const * s)
{
  if (seen_n * 2 >= seen_cap)
    {
      char ** o = seen; size_t oc = seen_cap;
      seen_cap = seen_cap ? seen_cap * 2 : 1 << 16; seen = calloc (seen_cap, sizeof (*seen));
      for (size_t i = 0; i < oc; ++i) if (o[i]) { unsigned long h = hs (o[i]); while (seen[h % seen_cap]) ++h; seen[h % seen_cap] = o[i]; }
      free (o);
    }
  unsigned long h = hs (s);
  for (; seen[h % seen_cap]; ++h) if (!strcmp (seen[h % seen_cap], s)) return 0;
  seen[h % seen_cap] = strdup (s); ++seen_n;
  return 1;
}
static sb_t ln;
static void out (void) { ++transitions; if (once (ln.s)) puts (ln.s); }
static sb_t lst;
static mr_status_t visit (mr_ptr_t p, void * c) { sb_printf (&lst, "%s%ld", lst.n ? "," : "", (long)p.intptr); return MR_SUCCESS; }
static void nav (long * probe, int np)
{
  ln.n = 0; sb_printf (&ln, "{\"ev\":\"nav\",\"kind\":\"%s\",\"t\":", kind == MR_IC_RBTREE ? "rb" : "avl"); tree (&ln);
  lst.n = 0; sb_puts (&lst, ""); mr_status_t st = mr_tree_walk (&ic.tree, visit, NULL);
  sb_printf (&ln, ",\"walk\":[%s],\"ok\":%d", lst.s, st == MR_SUCCESS);
  lst.n = 0; sb_puts (&lst, ""); mr_ic_foreach (&ic, visit, NULL);
  sb_printf (&ln, ",\"each\":[%s],\"cnt\":%u,\"valid\":%d,\"probes\":[", lst.s, ic.items_count,
	     kind == MR_IC_RBTREE ? mr_rbtree_is_valid (&ic.tree, vcmp, NULL) : mr_avltree_is_valid (&ic.tree, vcmp, NULL));
  for (int i = 0; i < np; ++i)
    {
      mr_tree_traverse_t t;
      mr_tree_find (mk (probe[i]), &ic.tree, vcmp, NULL, &t);
      sb_printf (&ln, "%s{\"k\":%ld,\"eq\":%d,\"fwd\":[", i ? "," : "", probe[i], !!t.equal);
      for (int dir = 0; dir < 2; ++dir)
	{
	  if (dir) { sb_puts (&ln, "],\"bwd\":["); mr_tree_find (mk (probe[i]), &ic.tree, vcmp, NULL, &t); }
	  for (unsigned n = 0; n <= count (); ++n)
	    {
	      mr_tree_next (&ic.tree, &t, dir ? MR_LEFT : MR_RIGHT);
	      unsigned sz = t.size / sizeof (t.path[0]);
	      if (sz <= 1) break;
	      sb_printf (&ln, "%s%ld", n ? "," : "", (long)ic.tree.pool[t.path[sz - 1].idx].key.intptr);
	    }
	}
      sb_puts (&ln, "]}");
    }
  sb_puts (&ln, "]}"); out ();
}
static void step (char op, long k)
{
  ln.n = 0; sb_printf (&ln, "{\"ev\":\"step\",\"kind\":\"%s\",\"op\":\"%c\",\"k\":%ld,\"pre\":", kind == MR_IC_RBTREE ? "rb" : "avl", op, k); tree (&ln);
  mr_ptr_t * r = NULL; int ok = 0;
  switch (op)
    {
    case 'a': r = mr_ic_add (&ic, mk (k)); ok = r && r->intptr == k; break;
    case 'f': r = mr_ic_find (&ic, mk (k)); ok = r && r->intptr == k; if (r && !ok) ok = 2; break;
    case 'd': ok = mr_ic_del (&ic, mk (k)) == MR_SUCCESS; break;
    }
  sb_printf (&ln, ",\"ok\":%d,\"cnt\":%u,\"post\":", ok, ic.items_count); tree (&ln); sb_puts (&ln, "}"); out ();
}
static void make (void) { if (mr_ic_new (&ic, NULL, vcmp, "intptr", kind, NULL) != MR_SUCCESS) exit (3); }
typedef struct { void * p; ssize_t size, alloc; } snap_t;
static snap_t take (void) { snap_t s = { malloc (ic.tree.size + 1), ic.tree.size, ic.tree.alloc_size }; if (ic.tree.size) memcpy (s.p, ic.tree.pool, ic.tree.size); return s; }
static void restore (snap_t * s)
{
  mr_ic_free (&ic); make ();
  if (s->size)
    {
      ic.tree.pool = mr_conf.mr_mem.realloc (__FILE__, __func__, __LINE__, NULL, s->alloc);
      memcpy (ic.tree.pool, s->p, s->size); ic.tree.size = s->size; ic.tree.alloc_size = s->alloc; ic.items_count = count ();
    }
}
static sb_t key;
static void canon (int pool)
{
  key.n = 0; sb_printf (&key, "%d%d:", kind, pool); tree (&key);
  if (pool) for (unsigned i = 1; i <= count (); ++i) sb_printf (&key, " %ld", (long)ic.tree.pool[i].key.intptr);
}
static void all (int n, int pool)
{
  snap_t * q = malloc (sizeof (*q) * (4 << 20)); long h = 0, t = 0;
  long * probe = malloc (sizeof (long) * (2 * n + 1)); for (int i = 0; i <= 2 * n; ++i) probe[i] = i;
  make (); canon (pool); once (key.s); q[t++] = take ();
  for (; h < t; ++h)
    {
      restore (&q[h]); nav (probe, 2 * n + 1);
      for (int i = 0; i <= 2 * n; ++i) step ('f', i);
      for (int o = 0; o < 2; ++o)
	for (int i = 1; i <= n; ++i)
	  {
	    restore (&q[h]); step ("ad"[o], 2 * i - 1);
	    canon (pool);
	    if (t < (4 << 20) && once (key.s)) q[t++] = take ();
	  }
      free (q[h].p);
    }
  free (q); free (probe); mr_ic_free (&ic);
}
int main (int argc, char ** argv)
{
  FILE * f = fopen (argv[1], "r"); char kn[16]; int n, p, open = 0; long v; char c;
  setvbuf (stdout, NULL, _IOFBF, 1 << 20);
  mr_conf.log_level = MR_LL_OFF; mr_conf_init (); led_install ();
  while (fscanf (f, " %c", &c) == 1)
    switch (c)
      {
      case 'B': fscanf (f, "%15s %d %d", kn, &n, &p); kind = !strcmp (kn, "rb") ? MR_IC_RBTREE : MR_IC_AVLTREE; if (open) mr_ic_free (&ic); open = 0; all (n, p); break;
      case 'K': fscanf (f, "%15s", kn); if (open) mr_ic_free (&ic); kind = !strcmp (kn, "rb") ? MR_IC_RBTREE : MR_IC_AVLTREE; make (); open = 1; break;
      case 'n': fscanf (f, "%ld", &v); { long pr[3] = { v - 1, v, v + 1 }; nav (pr, 3); } break;
      default: fscanf (f, "%ld", &v); step (c, v); break;
      }
  if (open) mr_ic_free (&ic);
  if (led_live || led_bad) { fprintf (stderr, "ERROR: AddressSanitizer ledger live %ld bad %ld\n", led_live, led_bad); fflush (stdout); return 77; }
  fflush (stdout); fprintf (stderr, "DONE %ld\n", transitions);
  return 0;
}
