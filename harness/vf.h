/* Parts shared by the drivers: allocator ledger with fault injection, JSON output, independent object walker. */
#ifndef VF_H
#define VF_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <complex.h>
#include <math.h>
#include <signal.h>
#include <unistd.h>

/* ---------------------------------------------------------------- allocator ledger */
typedef struct { void * p; size_t size; long id; int live; } led_t;
#define LED_CAP (1 << 20)
static led_t * led_tab;              /* open addressing over addresses of live blocks */
static long led_next_id = 1, led_live, led_bad, led_calls, led_fail_at = -1, led_fail_count, led_failed;
static int led_log;                  /* 1: print ledger events into led_buf */
static char * led_buf; static size_t led_len, led_cap;
#define LED_MAX_REQ (1ul << 30)      /* larger requests fail as they would without memory */
static size_t led_hash (void * p) { uintptr_t x = (uintptr_t)p >> 4; x *= 0x9E3779B97F4A7C15ull; return x >> 44; }
static led_t * led_find (void * p)
{
  if (!led_tab) led_tab = calloc (LED_CAP, sizeof (*led_tab));
  size_t i = led_hash (p);
  while (led_tab[i].p) { if (led_tab[i].p == p) return &led_tab[i]; i = (i + 1) & (LED_CAP - 1); }
  return NULL;
}
static void led_put (void * p, size_t size, long id)
{
  if (!led_tab) led_tab = calloc (LED_CAP, sizeof (*led_tab));
  size_t i = led_hash (p);
  while (led_tab[i].p) i = (i + 1) & (LED_CAP - 1);
  led_tab[i] = (led_t){ p, size, id, 1 };
  ++led_live;
}
static void led_del (led_t * e)
{
  size_t i = e - led_tab, j = i;
  --led_live;
  for (;;)
    {
      led_tab[i].p = NULL;
      for (;;)
	{
	  j = (j + 1) & (LED_CAP - 1);
	  if (!led_tab[j].p) return;
	  size_t k = led_hash (led_tab[j].p);
	  if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
	  break;
	}
      led_tab[i] = led_tab[j]; i = j;
    }
}
static void led_ev (char const * op, long id, long id2)
{
  if (!led_log) return;
  if (led_len + 64 > led_cap) led_buf = realloc (led_buf, led_cap = led_cap * 2 + 4096);
  led_len += sprintf (led_buf + led_len, "%s[\"%s\",%ld,%ld]", led_len ? "," : "", op, id, id2);
}
static int led_must_fail (size_t size)
{
  long n = led_calls++;
  if (size > LED_MAX_REQ) { ++led_failed; return 1; }
  if (led_fail_at >= 0 && n >= led_fail_at && (led_fail_count < 0 || n < led_fail_at + led_fail_count)) { ++led_failed; return 1; }
  return 0;
}
static void * vf_calloc (const char * f, const char * fn, int l, size_t c, size_t s)
{
  if ((s && c > LED_MAX_REQ / s) || led_must_fail (c * s)) { if (s && c > LED_MAX_REQ / s) ++led_failed; led_ev ("F", 0, 0); return NULL; }
  void * p = calloc (c ? c : 1, s ? s : 1);
  led_put (p, c * s, led_next_id); led_ev ("A", led_next_id, 0); ++led_next_id;
  return p;
}
static void * vf_realloc (const char * f, const char * fn, int l, void * o, size_t s)
{
  if (led_must_fail (s)) { led_ev ("F", 0, 0); return NULL; }
  led_t * e = o ? led_find (o) : NULL;
  if (o && !e) { ++led_bad; led_ev ("X", 0, 0); return NULL; }
  size_t os = e ? e->size : 0; long oid = e ? e->id : 0;
  void * p = malloc (s ? s : 1);	/* always moves: stale pointers are seen by the sanitizer */
  memset (p, 0xA5, s ? s : 1);
  if (e) { memcpy (p, o, os < s ? os : s); led_del (e); free (o); }
  led_put (p, s, led_next_id); led_ev ("R", led_next_id, oid); ++led_next_id;
  return p;
}
static void vf_free (const char * f, const char * fn, int l, void * p)
{
  if (!p) return;
  led_t * e = led_find (p);
  if (!e) { ++led_bad; led_ev ("X", 0, 0); return; }
  led_ev ("D", e->id, 0);
  led_del (e);
  free (p);
}
static void led_install (void) { mr_conf.mr_mem.calloc = vf_calloc; mr_conf.mr_mem.realloc = vf_realloc; mr_conf.mr_mem.free = vf_free; }
static int led_cmp (void const * a, void const * b) { long x = *(long*)a, y = *(long*)b; return x < y ? -1 : x > y; }
/* ids of live blocks not older than id, sorted */
static long * led_since (long id, long * n)
{
  long c = 0, * r = malloc (sizeof (long) * (led_live + 1));
  for (size_t i = 0; led_tab && i < LED_CAP; ++i) if (led_tab[i].p && led_tab[i].id >= id) r[c++] = led_tab[i].id;
  qsort (r, c, sizeof (*r), led_cmp);
  *n = c;
  return r;
}
/* block that contains the address, by scan */
static long led_owner (void * p)
{
  for (size_t i = 0; led_tab && i < LED_CAP; ++i)
    if (led_tab[i].p && (char*)p >= (char*)led_tab[i].p && (char*)p < (char*)led_tab[i].p + (led_tab[i].size ? led_tab[i].size : 1)) return led_tab[i].id;
  return 0;
}
typedef struct { char * p; size_t n; long id; } rng_t;
static int rng_cmp (void const * a, void const * b) { char * x = ((rng_t*)a)->p, * y = ((rng_t*)b)->p; return x < y ? -1 : x > y; }
static rng_t * led_ranges (long since, long * n)
{
  long c = 0; rng_t * r = malloc (sizeof (rng_t) * (led_live + 1));
  for (size_t i = 0; led_tab && i < LED_CAP; ++i) if (led_tab[i].p && led_tab[i].id >= since) r[c++] = (rng_t){ led_tab[i].p, led_tab[i].size, led_tab[i].id };
  qsort (r, c, sizeof (*r), rng_cmp);
  *n = c;
  return r;
}
static long rng_find (rng_t * r, long n, void * p)
{
  long lo = 0, hi = n;
  while (lo < hi) { long m = (lo + hi) / 2; if (r[m].p <= (char*)p) lo = m + 1; else hi = m; }
  if (lo == 0) return 0;
  --lo;
  return ((char*)p < r[lo].p + (r[lo].n ? r[lo].n : 1)) ? r[lo].id : 0;
}

/* ---------------------------------------------------------------- growing output buffer */
typedef struct { char * s; size_t n, c; } sb_t;
static void sb_need (sb_t * b, size_t k) { if (b->n + k + 1 > b->c) b->s = realloc (b->s, b->c = (b->n + k + 1) * 2); }
static void sb_puts (sb_t * b, char const * s) { size_t k = strlen (s); sb_need (b, k); memcpy (b->s + b->n, s, k + 1); b->n += k; }
static void sb_printf (sb_t * b, char const * f, ...)
{
  va_list a; va_start (a, f); int k = vsnprintf (NULL, 0, f, a); va_end (a);
  sb_need (b, k); va_start (a, f); vsprintf (b->s + b->n, f, a); va_end (a); b->n += k;
}
static void sb_hex (sb_t * b, void const * p, size_t n) { for (size_t i = 0; i < n; ++i) sb_printf (b, "%02x", ((unsigned char const*)p)[i]); }
/* JSON string of arbitrary bytes */
static void sb_json (sb_t * b, char const * s)
{
  sb_puts (b, "\"");
  for (; s && *s; ++s)
    if ((unsigned char)*s < 32 || (unsigned char)*s > 126 || *s == '"' || *s == '\\') sb_printf (b, "\\u%04x", (unsigned char)*s);
    else sb_printf (b, "%c", *s);
  sb_puts (b, "\"");
}

/* ---------------------------------------------------------------- independent type tables */
enum { K_LEAF, K_TEXT, K_STR, K_ARR, K_LARR, K_PTR, K_RPTR, K_UNION, K_STRUCT };
enum { L_none, L_bool, L_char, L_i8, L_u8, L_i16, L_u16, L_i32, L_u32, L_i64, L_u64, L_i128, L_u128, L_f32, L_f64, L_f80, L_c32, L_c64, L_c80, L_fn, L_ca, L_ct };
typedef struct vt_s vt_t;
typedef struct { char const * name; vt_t * t; size_t off; int sz, disc; __int128 (*get) (void *); void (*set) (void *, __int128); } vf_t;
struct vt_s { char const * name; int k; size_t size; vt_t * elem; int n; vf_t * f; int nf; int leaf; char const * (*br)[2]; int nbr; };

int vf_fn_a (int x) { return x + 1; }
int vf_fn_b (int x) { return x + 2; }

static void fmt_i128 (sb_t * b, __int128 v, int uns)
{
  unsigned __int128 u = v; char t[64]; int i = 63; t[63] = 0;
  int neg = !uns && v < 0; if (neg) u = -u;
  do { t[--i] = '0' + (int)(u % 10); u /= 10; } while (u);
  if (neg) t[--i] = '-';
  sb_puts (b, t + i);
}
static unsigned __int128 parse_i128 (char const * s)
{
  int neg = *s == '-'; unsigned __int128 u = 0; s += neg;
  while (*s >= '0' && *s <= '9') u = u * 10 + (*s++ - '0');
  return neg ? -u : u;
}
static void fmt_f (sb_t * b, long double v, int kind)
{
  if (isnan (v)) { sb_puts (b, "nan"); return; }
  if (v == 0) { sb_puts (b, "0"); return; }
  sb_printf (b, "%.*Lg", kind == 0 ? 9 : kind == 1 ? 17 : 21, v);
}
static void leaf_text (sb_t * b, vt_t * t, void * p, vf_t * f)
{
  if (f && f->get) { __int128 v = f->get (p); fmt_i128 (b, v, 0); return; }
  switch (t->leaf)
    {
    case L_bool: sb_printf (b, "%d", *(unsigned char*)p); break;
    case L_char: sb_printf (b, "%d", *(unsigned char*)p); break;
    case L_i8: sb_printf (b, "%d", *(int8_t*)p); break;
    case L_u8: sb_printf (b, "%d", *(uint8_t*)p); break;
    case L_i16: sb_printf (b, "%d", *(int16_t*)p); break;
    case L_u16: sb_printf (b, "%d", *(uint16_t*)p); break;
    case L_i32: sb_printf (b, "%d", *(int32_t*)p); break;
    case L_u32: sb_printf (b, "%u", *(uint32_t*)p); break;
    case L_i64: sb_printf (b, "%lld", (long long)*(int64_t*)p); break;
    case L_u64: sb_printf (b, "%llu", (unsigned long long)*(uint64_t*)p); break;
    case L_i128: fmt_i128 (b, *(__int128*)p, 0); break;
    case L_u128: fmt_i128 (b, *(__int128*)p, 1); break;
    case L_f32: fmt_f (b, *(float*)p, 0); break;
    case L_f64: fmt_f (b, *(double*)p, 1); break;
    case L_f80: fmt_f (b, *(long double*)p, 2); break;
    case L_c32: case L_c64: case L_c80:
      {
	int k = t->leaf - L_c32;
	complex long double z;
	if (k == 0) { complex float y; memcpy (&y, p, sizeof y); z = y; }
	else if (k == 1) { complex double y; memcpy (&y, p, sizeof y); z = y; }
	else memcpy (&z, p, sizeof z);
	if (isnan (creall (z)) || isnan (cimagl (z))) { sb_puts (b, "nan"); break; }
	fmt_f (b, creall (z), k); sb_puts (b, "_"); fmt_f (b, cimagl (z), k);
	break;
      }
    case L_fn: { int (*fn) (int) = *(int (**) (int))p; sb_puts (b, fn == vf_fn_a ? "vf_fn_a" : fn == vf_fn_b ? "vf_fn_b" : fn ? "??" : "null"); break; }
    case L_ca: { int n = t->n; while (n && !((char*)p)[n - 1]) --n; sb_puts (b, "t:"); sb_hex (b, p, n); break; } /* an array of characters */
    case L_ct: { sb_puts (b, "t:"); sb_hex (b, p, strnlen (p, t->n)); break; } /* a text of bounded length */
    default: sb_puts (b, "?"); break;
    }
}
static int unhex (char const * s, unsigned char * o) { int n = 0; while (s[0] && s[1]) { unsigned x; sscanf (s, "%2x", &x); o[n++] = x; s += 2; } return n; }
static void leaf_set (vt_t * t, void * p, vf_t * f, char const * s)
{
  if (f && f->set) { f->set (p, (__int128)parse_i128 (s)); return; }
  unsigned __int128 v = parse_i128 (s);
  switch (t->leaf)
    {
    case L_bool: *(bool*)p = v; break;
    case L_char: case L_i8: case L_u8: *(uint8_t*)p = v; break;
    case L_i16: case L_u16: *(uint16_t*)p = v; break;
    case L_i32: case L_u32: *(uint32_t*)p = v; break;
    case L_i64: case L_u64: *(uint64_t*)p = v; break;
    case L_i128: case L_u128: *(unsigned __int128*)p = v; break;
    case L_f32: *(float*)p = strtof (s, NULL); break;
    case L_f64: *(double*)p = strtod (s, NULL); break;
    case L_f80: *(long double*)p = strtold (s, NULL); break;
    case L_c32: case L_c64: case L_c80:
      {
	char * e; long double re = strtold (s, &e), im = *e == '_' ? strtold (e + 1, NULL) : re;
	if (t->leaf == L_c32) { __real__ *(complex float*)p = re; __imag__ *(complex float*)p = im; }
	else if (t->leaf == L_c64) { __real__ *(complex double*)p = re; __imag__ *(complex double*)p = im; }
	else { __real__ *(complex long double*)p = re; __imag__ *(complex long double*)p = im; }
	break;
      }
    case L_fn: *(int (**) (int))p = !strcmp (s, "vf_fn_a") ? vf_fn_a : !strcmp (s, "vf_fn_b") ? vf_fn_b : NULL; break;
    case L_ca: case L_ct: { unsigned char b[4096]; int n = unhex (s + 2, b); memset (p, 0, t->n); memcpy (p, b, n < t->n ? n : t->n); break; }
    }
}

/* active branch of a union according to the table of the type (independent of the library) */
static int union_branch (vt_t * ut, vt_t * st, void * sp, vf_t * uf)
{
  sb_t b = {0};
  vf_t * df = &st->f[uf->disc];
  if (df->t->k == K_STR)
    {
      char * s = *(char**)((char*)sp + df->off);
      if (s) { sb_puts (&b, "t:"); sb_hex (&b, s, strlen (s)); }
    }
  else if (df->t->k == K_PTR) { void * v = *(void**)((char*)sp + df->off); if (v) leaf_text (&b, df->t->elem, v, NULL); }
  else leaf_text (&b, df->t, (char*)sp + df->off, df);
  int r = 0;
  for (int i = 0; i < ut->nbr; ++i)
    if (b.s && !strcmp (b.s, ut->br[i][0]))
      for (int j = 0; j < ut->nf; ++j) if (!strcmp (ut->f[j].name, ut->br[i][1])) r = j;
  free (b.s);
  return r;
}
static long get_size (vt_t * st, void * sp, int fi)
{
  sb_t b = {0};
  leaf_text (&b, st->f[fi].t, (char*)sp + st->f[fi].off, &st->f[fi]);
  long r = atol (b.s);
  free (b.s);
  return r;
}

/* ---------------------------------------------------------------- walker: object -> list of typed locations */
typedef struct { void * a; vt_t * t; int id; } vis_t;
typedef struct { vis_t * tab; size_t cap; int n; sb_t * node; int nnode, cnode; void ** addr; vt_t ** types; } wk_t;
#define WK_MAX 20000
static int wk_id (wk_t * w, void * a, vt_t * t, int * isnew)
{
  if (!w->tab) { w->cap = 1 << 16; w->tab = calloc (w->cap, sizeof (vis_t)); w->cnode = 64; w->node = calloc (w->cnode, sizeof (sb_t)); w->addr = calloc (w->cnode, sizeof (void*)); w->types = calloc (w->cnode, sizeof (void*)); }
  size_t h = ((uintptr_t)a * 31 + (uintptr_t)t) * 0x9E3779B97F4A7C15ull >> 48;
  *isnew = 0;
  if (a) for (; w->tab[h].a; h = (h + 1) & (w->cap - 1)) if (w->tab[h].a == a && w->tab[h].t == t) return w->tab[h].id;
  if (w->nnode >= WK_MAX) return 0;
  *isnew = 1;
  if (w->nnode >= w->cnode) { w->cnode *= 2; w->node = realloc (w->node, w->cnode * sizeof (sb_t)); memset (w->node + w->nnode, 0, (w->cnode - w->nnode) * sizeof (sb_t)); w->addr = realloc (w->addr, w->cnode * sizeof (void*)); w->types = realloc (w->types, w->cnode * sizeof (void*)); }
  if (a) w->tab[h] = (vis_t){ a, t, w->nnode + 1 };
  w->addr[w->nnode] = a; w->types[w->nnode] = t;
  return ++w->nnode;
}
static int walk (wk_t * w, void * a, vt_t * t, vt_t * st, void * sp, vf_t * f);
static void walk_list (wk_t * w, int id, char const * k, char const * v, int * c, int n)
{
  sb_t b = {0};
  sb_printf (&b, "{\"k\":\"%s\",\"v\":\"%s\",\"c\":[", k, v);
  for (int i = 0; i < n; ++i) sb_printf (&b, "%s%d", i ? "," : "", c[i]);
  sb_puts (&b, "]}");
  w->node[id - 1] = b;
}
static int walk (wk_t * w, void * a, vt_t * t, vt_t * st, void * sp, vf_t * f)
{
  int isnew, id;
  id = wk_id (w, f && f->get ? NULL : a, t, &isnew);
  if (!isnew) return id;
  switch (t->k)
    {
    case K_LEAF: { sb_t b = {0};
      /* a size means the whole elements it covers */
      if (st && f) for (int i = 0; i < st->nf; ++i) if (st->f[i].sz >= 0 && &st->f[st->f[i].sz] == f) { long v = get_size (st, sp, st->f[i].sz), e = st->f[i].t->elem->size; sb_printf (&b, "%ld", v - v % e); }
      if (!b.s) leaf_text (&b, t, a, f); walk_list (w, id, "v", b.s, NULL, 0); free (b.s); break; }
    case K_TEXT: { sb_t b = {0}; sb_puts (&b, "t:"); sb_hex (&b, a, strlen (a)); walk_list (w, id, "t", b.s, NULL, 0); free (b.s); break; }
    case K_STR: case K_PTR:
      {
	void * q = *(void**)a; int c[1], n = 0;
	if (q) { c[0] = walk (w, q, t->elem, NULL, NULL, NULL); n = 1; }
	walk_list (w, id, "p", n ? "p" : "null", c, n);
	break;
      }
    case K_ARR: case K_LARR:
      {
	long n = t->n;
	if (t->k == K_LARR) { n = get_size (st, sp, f->sz) / (long)t->elem->size; if (n > t->n) n = t->n; if (n < 0) n = 0; }
	int * c = calloc (n + 1, sizeof (int));
	for (long i = 0; i < n; ++i) c[i] = walk (w, (char*)a + i * t->elem->size, t->elem, NULL, NULL, NULL);
	char v[32]; sprintf (v, "%ld", n);
	walk_list (w, id, "a", v, c, n); free (c);
	break;
      }
    case K_RPTR:
      {
	char * q = *(void**)a; long n = get_size (st, sp, f->sz) / (long)t->elem->size;
	if (!q || n <= 0) { walk_list (w, id, "p", "null", NULL, 0); break; }
	if (n > 5000) n = 5000;
	int * c = calloc (n + 1, sizeof (int));
	for (long i = 0; i < n; ++i) c[i] = walk (w, q + i * t->elem->size, t->elem, NULL, NULL, NULL);
	char v[32]; sprintf (v, "%ld", n);
	walk_list (w, id, "r", v, c, n); free (c);
	break;
      }
    case K_STRUCT:
      {
	int * c = calloc (t->nf + 1, sizeof (int));
	for (int i = 0; i < t->nf; ++i) c[i] = walk (w, (char*)a + t->f[i].off, t->f[i].t, t, a, &t->f[i]);
	walk_list (w, id, "s", t->name, c, t->nf); free (c);
	break;
      }
    case K_UNION:
      {
	int b = union_branch (t, st, sp, f), c[1];
	c[0] = walk (w, a, t->f[b].t, NULL, NULL, NULL);
	walk_list (w, id, "u", t->f[b].name, c, 1);
	break;
      }
    }
  return id;
}
static void wk_json (wk_t * w, sb_t * o) { sb_puts (o, "["); for (int i = 0; i < w->nnode; ++i) { if (i) sb_puts (o, ","); sb_puts (o, w->node[i].s); } sb_puts (o, "]"); }
static void wk_free (wk_t * w) { for (int i = 0; i < w->nnode; ++i) free (w->node[i].s); free (w->node); free (w->tab); free (w->addr); free (w->types); memset (w, 0, sizeof (*w)); }
#endif
