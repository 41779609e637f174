/* Loads of damaged documents. */
#include <ctype.h>
void __sanitizer_set_death_callback (void (*) (void));
size_t __sanitizer_get_current_allocated_bytes (void);
#define MAL_MAX 20000
typedef struct { int n, ed[8][4], ne; } mscript_t;
static mscript_t * ml_s; static long ml_ns;
static struct { char * p; int n; } ml_w[256]; static int ml_nw;
static struct { char * p; int n; } * ml_tok; static int ml_nt;
static int ml_a[MAL_MAX + 1], ml_b[MAL_MAX + 1], ml_n;
static char ml_where[256]; static long ml_cur; static char * ml_doc; static size_t ml_len;

static void ml_died (void)
{
  fprintf (stderr, "\nMAL %s %ld ", ml_where, ml_cur);
  for (int i = 0; ml_ns > ml_cur && i < ml_s[ml_cur].ne; ++i) fprintf (stderr, "%d,%d,%d,%d;", ml_s[ml_cur].ed[i][0], ml_s[ml_cur].ed[i][1], ml_s[ml_cur].ed[i][2], ml_s[ml_cur].ed[i][3]);
  fprintf (stderr, " ");
  for (size_t i = 0; i < ml_len && i < 6000; ++i) fprintf (stderr, "%02x", ((unsigned char*)ml_doc)[i]);
  fprintf (stderr, "\n"); fflush (stderr);
}
static void ml_alarm (int s) { ml_died (); fprintf (stderr, "MALHANG\n"); _exit (78); }

static void ml_load_tables (char const * sf, char const * wf)
{
  static char line[1 << 16]; FILE * f = fopen (wf, "r");
  if (!f) exit (3);
  ml_nw = 0;
  while (fgets (line, sizeof line, f) && ml_nw < 255)
    { int l = strcspn (line, "\n"); line[l] = 0; ml_w[ml_nw].p = malloc (l / 2 + 1); ml_w[ml_nw].n = unhex (line, (unsigned char*)ml_w[ml_nw].p); ++ml_nw; }
  fclose (f);
  f = fopen (sf, "r"); if (!f) exit (3);
  long cap = 1024; ml_s = malloc (cap * sizeof (*ml_s)); ml_ns = 0;
  while (fgets (line, sizeof line, f))
    {
      if (ml_ns == cap) ml_s = realloc (ml_s, (cap *= 2) * sizeof (*ml_s));
      mscript_t * s = &ml_s[ml_ns++]; char * p = line; s->n = strtol (p, &p, 10); s->ne = 0;
      for (;; ++s->ne) { char * e; int j; long v = strtol (p, &e, 10); if (e == p || s->ne == 8) break; p = e; s->ed[s->ne][0] = v; for (j = 1; j < 4; ++j) s->ed[s->ne][j] = strtol (p, &p, 10); }
    }
  fclose (f);
}
static void ml_tokenize (char * d, int len, char mode, int xdr)
{
  ml_nt = 0; ml_tok = malloc ((len + 1) * sizeof (*ml_tok));
  for (int i = 0; i < len; )
    {
      int j = i;
      if (mode == 'b') j = i + 1;
      else if (xdr) j = i + 4 < len ? i + 4 : len;
      else
	{
	  if (isalnum ((unsigned char)d[j]) || d[j] == '_') while (j < len && (isalnum ((unsigned char)d[j]) || d[j] == '_' || d[j] == '.')) ++j;
	  else if (isspace ((unsigned char)d[j])) { while (j < len && isspace ((unsigned char)d[j])) ++j; }
	  else ++j;
	  if (!isspace ((unsigned char)d[i])) while (j < len && d[j] == ' ') ++j;
	}
      ml_tok[ml_nt].p = d + i; ml_tok[ml_nt].n = j - i; ++ml_nt;
      i = j;
    }
}
/* the edits on ml_a; 0: not applicable */
static int ml_apply (mscript_t * s)
{
  if (s->n && s->n != ml_nt) return 0;
  ml_n = ml_nt; for (int i = 0; i < ml_n; ++i) ml_a[i] = i + 1;
  for (int q = 0; q < s->ne; ++q)
    {
      int op = s->ed[q][0], i = s->ed[q][1], j = s->ed[q][2], k = s->ed[q][3], n = ml_n, m = 0;
      if (op == 1) { if (i < 0 || i >= n) return 0; ml_n = i; continue; }
      if (op == 2) { if (i < 1 || j < 1 || i + j - 1 > n) return 0; memmove (ml_a + i - 1, ml_a + i - 1 + j, (n - i + 1 - j) * sizeof (int)); ml_n -= j; continue; }
      if (op == 3) { if (i < 1 || i > n + 1 || j < 1 || j > ml_nw || n >= MAL_MAX) return 0; memmove (ml_a + i, ml_a + i - 1, (n - i + 1) * sizeof (int)); ml_a[i - 1] = -j; ++ml_n; continue; }
      if (op == 4) { if (i < 1 || i > n || j < 1 || j > ml_nw) return 0; ml_a[i - 1] = -j; continue; }
      if (op == 5) { if (i < 1 || i > n || j < 1 || j > n || i == j) return 0; ml_a[i - 1] = ml_a[j - 1]; continue; }
      if (op == 6)
	{
	  if (i < 1 || j < 1 || i + 2 * j - 1 > n) return 0;
	  for (int x = 0; x < j; ++x) { int t = ml_a[i - 1 + x]; ml_a[i - 1 + x] = ml_a[i - 1 + j + x]; ml_a[i - 1 + j + x] = t; }
	  continue;
	}
      if (op == 7)
	{
	  if (i < 1 || j < 1 || i + j - 1 > n || k < 1 || n + j * k > MAL_MAX) return 0;
	  for (int x = 0; x < i - 1; ++x) ml_b[m++] = ml_a[x];
	  for (int y = 0; y <= k; ++y) for (int x = 0; x < j; ++x) ml_b[m++] = ml_a[i - 1 + x];
	  for (int x = i - 1 + j; x < n; ++x) ml_b[m++] = ml_a[x];
	  memcpy (ml_a, ml_b, m * sizeof (int)); ml_n = m; continue;
	}
      return 0;
    }
  return 1;
}

/* locations reachable from a loaded object, with bounds checked before every access */
typedef struct { rng_t * r; long nr; char * root; size_t rsize; struct { int b; long o, s; char const * t; } c[4096]; int n; int bn; long bs[512]; char * bp[512]; int sane; struct { void * a; vt_t * t; } seen[4096]; int ns; } ms_t;
static ms_t * ms;
static char * ms_kind (vt_t * t, vf_t * f)
{
  static char * nm[] = { "none", "bool", "char", "int1", "int1", "int2", "int2", "int4", "int4", "int8", "int8", "int16", "int16", "f32", "f64", "f80", "c32", "c64", "c80", "fn", "ca", "ct" };
  return f && f->get ? "bits" : nm[t->leaf];
}
/* block of the bytes from p on; *room: bytes up to its end */
static int ms_block (char * p, long * room, long * off)
{
  char * s = NULL; size_t n = 0;
  if (p >= ms->root && p < ms->root + ms->rsize) { s = ms->root; n = ms->rsize; }
  else
    {
      long lo = 0, hi = ms->nr;
      while (lo < hi) { long m = (lo + hi) / 2; if (ms->r[m].p <= p) lo = m + 1; else hi = m; }
      if (lo && p < ms->r[lo - 1].p + ms->r[lo - 1].n) { s = ms->r[lo - 1].p; n = ms->r[lo - 1].n; }
    }
  if (!s) { *room = 0; *off = 0; return 0; }
  *room = s + n - p; *off = p - s;
  for (int i = 0; i < ms->bn; ++i) if (ms->bp[i] == s) return i + 1;
  if (ms->bn == 512) return 0;
  ms->bp[ms->bn] = s; ms->bs[ms->bn] = n;
  return ++ms->bn;
}
static int ms_cell (char * p, long size, char const * kind)
{
  long room, off; int b = ms_block (p, &room, &off);
  if (ms->n == 4096) { ms->sane = 0; return 0; }
  ms->c[ms->n].b = b; ms->c[ms->n].o = off; ms->c[ms->n].s = size; ms->c[ms->n++].t = kind;
  if (!b || size > room) { ms->sane = 0; return 0; }
  return 1;
}
static void ms_walk (void * a, vt_t * t, vf_t * f)
{
  if (!f || !f->get)
    {
      for (int i = 0; i < ms->ns; ++i) if (ms->seen[i].a == a && ms->seen[i].t == t) return;
      if (ms->ns == 4096) { ms->sane = 0; return; }
      ms->seen[ms->ns].a = a; ms->seen[ms->ns++].t = t;
    }
  switch (t->k)
    {
    case K_LEAF: ms_cell (a, f && f->get ? 1 : t->size, ms_kind (t, f)); break;
    case K_TEXT:
      {
	long room, off; int b = ms_block (a, &room, &off);
	ms_cell (a, b ? (long)strnlen (a, room) + 1 : 1, "text"); break;
      }
    case K_STR: case K_PTR:
      if (ms_cell (a, sizeof (void*), t->name) && *(void**)a) ms_walk (*(void**)a, t->elem, NULL);
      break;
    case K_ARR: for (long i = 0; i < t->n; ++i) ms_walk ((char*)a + i * t->elem->size, t->elem, NULL); break;
    case K_STRUCT: for (int i = 0; i < t->nf; ++i) ms_walk ((char*)a + t->f[i].off, t->f[i].t, &t->f[i]); break;
    default: ms->sane = 0; break;
    }
}
static int ms_textlike (char const * t) { return !strcmp (t, "text") || !strcmp (t, "char") || !strcmp (t, "ct") || !strcmp (t, "ca"); }
static void ms_run (void * d, root_t * r, long since)
{
  if (!ms) ms = malloc (sizeof (*ms));
  ms->n = ms->bn = ms->ns = 0; ms->sane = 1; ms->root = d; ms->rsize = r->size;
  ms->bp[0] = d; ms->bs[0] = r->size; ms->bn = 1;
  ms->r = led_ranges (since, &ms->nr);
  ms_walk (d, r->t, NULL);
  for (int i = 0; i < ms->n; ++i)
    for (int j = i + 1; ms->sane && j < ms->n; ++j)
      if (ms->c[i].b == ms->c[j].b && ms->c[i].o < ms->c[j].o + ms->c[j].s && ms->c[j].o < ms->c[i].o + ms->c[i].s)
	{
	  if (!strcmp (ms->c[i].t, ms->c[j].t) && ((ms->c[i].o == ms->c[j].o && ms->c[i].s == ms->c[j].s) || ms_textlike (ms->c[i].t) || !strcmp (ms->c[i].t, "bits"))) continue;
	  if (ms_textlike (ms->c[i].t) && ms_textlike (ms->c[j].t)) continue;
	  ms->sane = 0;
	}
  free (ms->r);
}

static void ml_release_since (long since)
{
  long n; rng_t * r = led_ranges (since, &n);
  for (long i = 0; i < n; ++i) { led_t * e = led_find (r[i].p); led_del (e); free (r[i].p); }
  free (r);
}
static mr_status_t ml_do_load (root_t * r, int f, void * d)
{
  mr_status_t st; char * s = malloc (ml_len + 1); memcpy (s, ml_doc, ml_len); s[ml_len] = 0;
  alarm (20);
  if (f < FMT_N) st = r->load[f] (s, d);
  else
    {
      mr_rarray_t ra; memset (&ra, 0, sizeof (ra)); ra.type = "uint8_t"; ra.data.ptr = s; ra.MR_SIZE = ml_len; ra.alloc_size = ml_len;
      XDR y; mr_xdrra_create (&y, &ra, XDR_DECODE);
      st = r->xload (&y, d);
    }
  free (s);
  return st;
}
typedef struct { char * key; long cnt; char * ex; } mrow_t;
static void op_mal (int f, char mode, char const * sf, char const * wf, int judged, long from, long step)
{
  root_t * r = root_of (blk[1].t); static char loaded[1024];
  char id[1024]; snprintf (id, sizeof id, "%s %s", sf, wf);
  if (strcmp (id, loaded)) { ml_load_tables (sf, wf); strcpy (loaded, id); }
  mr_conf.cache_func_resolve = false; /* names of functions are kept for ever otherwise */
  __sanitizer_set_death_callback (ml_died); signal (SIGALRM, ml_alarm);
  char * base; int blen;
  if (f < FMT_N) { char * s = r->save[f] (blk[1].p); if (!s) return; base = strdup (s); blen = strlen (base); MR_FREE (s); }
  else
    {
      mr_rarray_t ra; memset (&ra, 0, sizeof (ra)); ra.type = "uint8_t";
      XDR x; mr_xdrra_create (&x, &ra, XDR_ENCODE);
      if (MR_SUCCESS != r->xsave (&x, blk[1].p)) return;
      blen = ra.MR_SIZE; base = malloc (blen + 1); memcpy (base, ra.data.ptr, blen); if (ra.data.ptr) MR_FREE (ra.data.ptr);
    }
  ml_tokenize (base, blen, mode, f == FMT_N);
  sprintf (ml_where, "%ld %s %c %s", cur_sc, fmt_name[f], mode, r->name);
  sb_t o = {0};
  sb_printf (&o, "{\"ev\":\"mal\",\"sc\":%ld,\"root\":\"%s\",\"fmt\":\"%s\",\"mode\":\"%c\",\"judged\":%d,\"n\":%d,\"words\":%d", cur_sc, r->name, fmt_name[f], mode, judged, ml_nt, ml_nw);
  mrow_t * rows = NULL; long nrows = 0, cases = 0, acc = 0;
  size_t cap = 1 << 20; ml_doc = malloc (cap);
  char * d = malloc (r->size);
  for (ml_cur = from; ml_cur < ml_ns; ml_cur += step)
    {
      if (ml_nt >= MAL_MAX || !ml_apply (&ml_s[ml_cur])) continue;
      ml_len = 0;
      for (int i = 0; i < ml_n; ++i)
	{
	  char * p = ml_a[i] > 0 ? ml_tok[ml_a[i] - 1].p : ml_w[-ml_a[i] - 1].p; int n = ml_a[i] > 0 ? ml_tok[ml_a[i] - 1].n : ml_w[-ml_a[i] - 1].n;
	  if (ml_len + n + 1 > cap) { ml_len = cap; break; }
	  memcpy (ml_doc + ml_len, p, n); ml_len += n;
	}
      if (ml_len >= cap) continue;
      ++cases;
      if (getenv ("VF_DOC")) fprintf (stderr, "%.*s\n", (int)ml_len, ml_doc);
      sb_t k = {0};
      long since = led_next_id, live0 = led_live, bad0 = led_bad, grow = 0;
      memset (d, 0, r->size);
      size_t b0 = __sanitizer_get_current_allocated_bytes ();
      mr_status_t st = ml_do_load (r, f, d);
      size_t b1 = __sanitizer_get_current_allocated_bytes ();
      if (st != MR_SUCCESS)
	{
	  if (led_live == live0 && b1 > b0)
	    {
	      memset (d, 0, r->size); ml_do_load (r, f, d); size_t b2 = __sanitizer_get_current_allocated_bytes ();
	      memset (d, 0, r->size); ml_do_load (r, f, d); size_t b3 = __sanitizer_get_current_allocated_bytes ();
	      grow = b3 > b2 && b2 > b1;
	    }
	  sb_printf (&k, "\"st\":0,\"live\":%ld,\"bad\":%ld,\"grow\":%ld,\"sane\":1,\"cells\":[],\"size\":[],\"fst\":1,\"left\":0", led_live - live0, led_bad - bad0, grow);
	}
      else
	{
	  ++acc;
	  sb_printf (&k, "\"st\":1,\"live\":0");
	  int sane = 1, fst = 1; long left = 0;
	  sb_t c = {0};
	  if (judged)
	    {
	      ms_run (d, r, since); sane = ms->sane;
	      if (sane)
		{
		  if (f < FMT_N) { char * s = r->save[f] (d); if (s) MR_FREE (s); }
		  char * s = r->save[FMT_CINIT] (d); if (s) MR_FREE (s);
		  fst = MR_SUCCESS == r->freer (d); left = led_live - live0;
		}
	      sb_puts (&c, "\"cells\":[");
	      for (int i = 0; i < ms->n; ++i) sb_printf (&c, "%s{\"b\":%d,\"o\":%ld,\"s\":%ld,\"t\":\"%s\"}", i ? "," : "", ms->c[i].b, ms->c[i].o, ms->c[i].s, ms->c[i].t);
	      sb_puts (&c, "],\"size\":[");
	      for (int i = 0; i < ms->bn; ++i) sb_printf (&c, "%s%ld", i ? "," : "", ms->bs[i]);
	      sb_puts (&c, "]");
	    }
	  else sb_puts (&c, "\"cells\":[],\"size\":[]");
	  sb_printf (&k, ",\"bad\":%ld,\"grow\":0,\"sane\":%d,\"fst\":%d,\"left\":%ld,%s", led_bad - bad0, sane, fst, left, c.s);
	  free (c.s);
	}
      alarm (0);
      ml_release_since (since);
      long q; for (q = 0; q < nrows; ++q) if (!strcmp (rows[q].key, k.s)) break;
      if (q == nrows)
	{
	  sb_t x = {0}; mscript_t * s = &ml_s[ml_cur];
	  sb_puts (&x, "\"script\":[");
	  for (int i = 0; i < s->ne; ++i) sb_printf (&x, "%s[%d,%d,%d,%d]", i ? "," : "", s->ed[i][0], s->ed[i][1], s->ed[i][2], s->ed[i][3]);
	  sb_puts (&x, "],\"res\":["); for (int i = 0; i < ml_n; ++i) sb_printf (&x, "%s%d", i ? "," : "", ml_a[i]);
	  sb_puts (&x, "],\"doc\":\""); sb_hex (&x, ml_doc, ml_len < 3000 ? ml_len : 3000); sb_puts (&x, "\"");
	  rows = realloc (rows, (nrows + 1) * sizeof (*rows)); rows[nrows++] = (mrow_t){ k.s, 1, x.s };
	}
      else { ++rows[q].cnt; free (k.s); }
    }
  sb_printf (&o, ",\"cases\":%ld,\"accepted\":%ld,\"rows\":[", cases, acc);
  for (long q = 0; q < nrows; ++q) { sb_printf (&o, "%s{\"cnt\":%ld,%s,%s}", q ? "," : "", rows[q].cnt, rows[q].key, rows[q].ex); free (rows[q].key); free (rows[q].ex); }
  sb_puts (&o, "]}");
  flush (&o); free (rows); free (ml_doc); ml_doc = NULL; ml_len = 0; free (base); free (ml_tok); free (d);
}
