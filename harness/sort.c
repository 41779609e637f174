/* Sorting driver: usage: sort CMDFILE   commands: one per line
   h SIZE CMP n k1..kn     mr_hsort of n elements of SIZE bytes with the given keys
   a SIZE CMP NK MAXN      the same for every key sequence over 0..NK-1 of length <= MAXN
   B SIZE CMP n SEED       mr_hsort of many elements with random keys
   b TYPE n r1..rn         typed sort (MR_GENERIC_SORT) of values given by rank in the table of the type
   g KIND n v1..vn         structural sort of described objects given by number
   One JSON object per sort on stdout. */
#include <metaresc.h>
#include <mr_hsort.h>
#include <math.h>
#include "vf.h"

TYPEDEF_STRUCT (so_in_t, (int, x), (char *, s))
TYPEDEF_STRUCT (so_t, (int32_t, a), (char *, s), (double, d), (so_in_t *, p), VOID (int, id), (uint8_t, bits, : 3), (so_in_t, in))
TYPEDEF_UNION (so_un_t, (int32_t, i), (char *, s), (double, d))
TYPEDEF_STRUCT (su_t, (uint8_t, k), (so_un_t, u, , "k"), VOID (int, id))
TYPEDEF_ENUM (so_en_t, (SO_A, = 3), (SO_B, = -2), (SO_C, = 100))

static long ncmds, nout;
static int bad_ctx, cur_cmp, cur_size;
static char ctx_tag;
static int keyof (void const * p) { return *(unsigned char const *)p; }
static int kcmp (const mr_ptr_t x, const mr_ptr_t y, const void * context)
{
  int a = keyof (x.ptr), b = keyof (y.ptr);
  if (context != &ctx_tag) ++bad_ctx;
  switch (cur_cmp)
    {
    case 0: return (a > b) - (a < b);
    case 1: return (b > a) - (b < a);
    case 2: return a / 2 - b / 2;           /* any positive or negative number, several keys alike */
    case 3: return (a - b) * 1000000;
    default: return 0;
    }
}
static void do_h (int size, int cmp, int n, int * k)
{
  /* the array starts and ends with the block, so that the sanitizer sees any access outside; the bytes of an element are a function of its number */
  unsigned char * a = malloc ((size_t)n * size + !n);
  for (int i = 0; i < n; ++i)
    {
      a[i * size] = k[i];
      for (int j = 1; j < size; ++j) a[i * size + j] = j == 1 ? i & 255 : j == 2 ? i >> 8 : (i * 7 + j * 13) & 255;
    }
  cur_cmp = cmp; cur_size = size; bad_ctx = 0;
  mr_hsort (a, n, size, kcmp, &ctx_tag);
  sb_t o = {0};
  sb_printf (&o, "{\"op\":\"hsort\",\"size\":%d,\"cmp\":%d,\"ctx\":%d,\"in\":[", size, cmp, bad_ctx);
  for (int i = 0; i < n; ++i) sb_printf (&o, "%s[%d,%d]", i ? "," : "", k[i], size == 1 ? 0 : size == 2 ? i & 255 : i);
  sb_puts (&o, "],\"out\":[");
  for (int i = 0; i < n; ++i)
    {
      unsigned char * e = a + i * size; int id = size == 1 ? 0 : size == 2 ? e[1] : e[1] + (e[2] << 8);
      for (int j = 3; j < size; ++j) if (e[j] != ((id * 7 + j * 13) & 255)) id = -1;   /* torn element */
      sb_printf (&o, "%s[%d,%d]", i ? "," : "", e[0], id);
    }
  sb_puts (&o, "]}"); puts (o.s); free (o.s); free (a); ++nout;
}
static void do_big (int size, int cmp, int n, unsigned seed)
{ /* 24 bit numbers of elements after the key */
  unsigned char * a = malloc ((size_t)n * size); unsigned char * k = malloc (n);
  for (int i = 0; i < n; ++i)
    {
      seed = seed * 1103515245 + 12345; unsigned char * e = a + (size_t)i * size;
      e[0] = k[i] = seed >> 20; e[1] = i; e[2] = i >> 8; e[3] = i >> 16;
      for (int j = 4; j < size; ++j) e[j] = (i * 7 + j * 13) & 255;
    }
  cur_cmp = cmp; cur_size = size; bad_ctx = 0;
  mr_hsort (a, n, size, kcmp, &ctx_tag);
  sb_t o = {0};
  sb_printf (&o, "{\"op\":\"big\",\"size\":%d,\"cmp\":%d,\"ctx\":%d,\"in\":[", size, cmp, bad_ctx);
  for (int i = 0; i < n; ++i) sb_printf (&o, "%s%d", i ? "," : "", k[i]);
  sb_puts (&o, "],\"out\":[");
  for (int i = 0; i < n; ++i)
    {
      unsigned char * e = a + (size_t)i * size; int id = e[1] + (e[2] << 8) + (e[3] << 16);
      for (int j = 4; j < size; ++j) if (e[j] != ((id * 7 + j * 13) & 255)) id = -1;
      if (id >= n || (id >= 0 && e[0] != k[id])) id = -1;
      sb_printf (&o, "%s%d", i ? "," : "", id + 1);
    }
  sb_puts (&o, "]}"); puts (o.s); free (o.s); free (a); free (k); ++nout;
}
static void all_h (int size, int cmp, int nk, int maxn)
{
  int k[16];
  for (int n = 0; n <= maxn; ++n)
    {
      long tot = 1; for (int i = 0; i < n; ++i) tot *= nk;
      for (long c = 0; c < tot; ++c) { long x = c; for (int i = 0; i < n; ++i) { k[i] = x % nk; x /= nk; } do_h (size, cmp, n, k); }
    }
}

/* tables of values in ascending order */
#define TBL(T, ...) static T tb_##T[] = { __VA_ARGS__ };
typedef char * str_t; typedef long double ld_t;
TBL (bool, 0, 1) TBL (int8_t, -128, -127, -1, 0, 1, 126, 127) TBL (uint8_t, 0, 1, 127, 128, 254, 255)
TBL (int16_t, -32768, -256, -1, 0, 1, 255, 256, 32767) TBL (uint16_t, 0, 1, 255, 256, 32767, 32768, 65535)
TBL (int32_t, -2147483647 - 1, -65536, -1, 0, 1, 65536, 2147483647) TBL (uint32_t, 0, 1, 65536, 2147483647, 2147483648u, 4294967295u)
TBL (int64_t, -9223372036854775807LL - 1, -4294967296LL, -1, 0, 1, 4294967296LL, 9223372036854775807LL) TBL (uint64_t, 0, 1, 4294967296LL, 9223372036854775807ULL, 9223372036854775808ULL, 18446744073709551615ULL)
TBL (mr_int128_t, ((mr_int128_t)1) << 127, -((mr_int128_t)1 << 64), -1, 0, 1, (mr_int128_t)1 << 64, ~(((mr_int128_t)1) << 127)) TBL (mr_uint128_t, 0, 1, (mr_uint128_t)1 << 64, (mr_uint128_t)1 << 127, ~(mr_uint128_t)0)
TBL (float, NAN, -1e38f, -1.5f, -1e-40f, 0, 1e-45f, 0.5f, 1, 1e38f) TBL (double, NAN, -1e308, -1.5, -1e-310, 0, 5e-324, 0.1, 1, 1e308) TBL (ld_t, NAN, -1e4000L, -1.5L, -1e-4940L, 0, 1e-4940L, 0.1L, 1, 1e4000L)
TBL (str_t, NULL, "", "A", "Aa", "B", "a", "aa", "z")
static char tb_char[] = { 'A', 'Z', 'a', 'z', '~' };
static void * tb_ptr[6]; static char ptr_area[6];
#define RUNB(T, NAME) if (!strcmp (t, NAME)) { \
    T * a = malloc (n * sizeof (T) + !n); for (int i = 0; i < n; ++i) memcpy (&a[i], &tb_##T[k[i]], sizeof (T)); st = MR_GENERIC_SORT (a, n); \
    for (int i = 0; i < n; ++i) { k2[i] = -1; for (int j = 0; j < sizeof (tb_##T) / sizeof (T); ++j) if (a[i] == tb_##T[j] || (a[i] != a[i] && tb_##T[j] != tb_##T[j])) k2[i] = j; } free (a); }
typedef char ca_t[4];
static char * tb_ca[] = { "", "A", "AAAA", "AAAB", "AAB", "AB", "BBBB", "C" };   /* some fill the array */
static void do_b (char const * t, int n, int * k)
{
  int * k2 = calloc (n + 1, sizeof (int)); mr_status_t st = MR_FAILURE;
  RUNB (bool, "bool") RUNB (char, "char") RUNB (int8_t, "i8") RUNB (uint8_t, "u8") RUNB (int16_t, "i16") RUNB (uint16_t, "u16") RUNB (int32_t, "i32") RUNB (uint32_t, "u32")
  RUNB (int64_t, "i64") RUNB (uint64_t, "u64") RUNB (mr_int128_t, "i128") RUNB (mr_uint128_t, "u128") RUNB (float, "f32") RUNB (double, "f64") RUNB (ld_t, "f80")
  if (!strcmp (t, "str"))
    { str_t * a = malloc (n * sizeof (*a) + !n); char cp[64][8]; for (int i = 0; i < n; ++i) a[i] = tb_str_t[k[i]] ? strcpy (cp[i], tb_str_t[k[i]]) : NULL; st = MR_GENERIC_SORT (a, n);
      for (int i = 0; i < n; ++i) { k2[i] = -1; for (int j = 0; j < 8; ++j) if (a[i] && tb_str_t[j] ? !strcmp (a[i], tb_str_t[j]) : a[i] == tb_str_t[j]) k2[i] = j; } free (a); }
  if (!strcmp (t, "ca"))
    { ca_t * a = malloc (n * sizeof (*a) + !n); for (int i = 0; i < n; ++i) { memset (a[i], 0x5a, 4); memcpy (a[i], tb_ca[k[i]], strnlen (tb_ca[k[i]], 3) + 1); } st = MR_GENERIC_SORT (a, n);
      for (int i = 0; i < n; ++i) { k2[i] = -1; for (int j = 0; j < 8; ++j) if (!strncmp (a[i], tb_ca[j], 4)) k2[i] = j; } free (a); }
  sb_t o = {0};
  sb_printf (&o, "{\"op\":\"typed\",\"t\":\"%s\",\"st\":%d,\"in\":[", t, st == MR_SUCCESS);
  for (int i = 0; i < n; ++i) sb_printf (&o, "%s[%d,0]", i ? "," : "", k[i]);
  sb_puts (&o, "],\"out\":[");
  for (int i = 0; i < n; ++i) sb_printf (&o, "%s[%d,0]", i ? "," : "", k2[i]);
  sb_puts (&o, "]}"); puts (o.s); free (o.s); free (k2); ++nout;
}

static char * texts[] = { NULL, "", "a", "ab", "b", "zz" };
static so_in_t ins[] = { { 0, NULL }, { 0, "a" }, { 5, NULL }, { 5, "b" }, { 6, "" } };
static void mk_so (so_t * x, int v, int id)
{ /* mixed radix, so that neighbours differ in one field */
  memset (x, 0x5a, sizeof (*x));
  x->a = v % 3 - 1; v /= 3; x->s = texts[v % 6]; v /= 6; x->d = v % 3 - 0.5; v /= 3;
  x->p = v % 6 ? &ins[v % 6 - 1] : NULL; v /= 6; x->bits = v % 3; v /= 3; x->in = ins[v % 5]; x->id = id;
}
static void mk_su (su_t * x, int v, int id)
{
  memset (x, 0xA5, sizeof (*x)); x->k = v % 3; x->id = id; v /= 3;
  if (x->k == 0) x->u.i = v % 5 - 2; else if (x->k == 1) x->u.s = texts[v % 6]; else x->u.d = v % 4 * 0.25;
}
#define RUNG(T, MKF, NAME) if (!strcmp (t, NAME)) { \
    T * a = malloc (n * sizeof (T) + !n), * c = malloc (n * sizeof (T) + !n); for (int i = 0; i < n; ++i) MKF (&a[i], k[i], i); memcpy (c, a, n * sizeof (T)); \
    int same = 1; st = mr_generic_sort (a, n, #T); for (int i = 0; i < n; ++i) { id[i] = a[i].id; if (id[i] < 0 || id[i] >= n || memcmp (&a[i], &c[id[i]], sizeof (T))) id[i] = -1; } \
    sb_printf (&o, "{\"op\":\"generic\",\"t\":\"%s\",\"st\":%d,\"out\":[", t, st == MR_SUCCESS); \
    for (int i = 0; i < n; ++i) sb_printf (&o, "%s%d", i ? "," : "", id[i] + 1); \
    sb_puts (&o, "],\"m\":["); \
    for (int i = 0; i < n; ++i) { sb_puts (&o, i ? ",[" : "["); for (int j = 0; j < n; ++j) { int r = MR_CMP_STRUCTS (T, &c[i], &c[j]); sb_printf (&o, "%s%d", j ? "," : "", (r > 0) - (r < 0)); } sb_puts (&o, "]"); } \
    sb_puts (&o, "]}"); free (a); free (c); }
static void do_g (char const * t, int n, int * k)
{
  int * id = calloc (n + 1, sizeof (int)); mr_status_t st; sb_t o = {0};
  RUNG (so_t, mk_so, "so") RUNG (su_t, mk_su, "su")
  puts (o.s); free (o.s); free (id); ++nout;
}

int main (int argc, char ** argv)
{
  static char line[1 << 20]; static int k[70000];
  mr_conf_init (); mr_conf.log_level = MR_LL_OFF;
  { so_t x; mk_so (&x, 0, 0); mr_hash_value_t h = MR_HASH_STRUCT (so_t, &x); su_t y; mk_su (&y, 0, 0); h += MR_HASH_STRUCT (su_t, &y); }
  FILE * f = fopen (argv[1], "r");
  while (fgets (line, sizeof line, f))
    {
      char * sv, * c = strtok_r (line, " \n", &sv); if (!c) continue; ++ncmds;
#define TOK strtok_r (NULL, " \n", &sv)
      if (c[0] == 'a') { int s = atoi (TOK), cm = atoi (TOK), nk = atoi (TOK); all_h (s, cm, nk, atoi (TOK)); continue; }
      if (c[0] == 'B') { int s = atoi (TOK), cm = atoi (TOK), n = atoi (TOK); do_big (s, cm, n, atoi (TOK)); continue; }
      char * t = TOK; int cm = c[0] == 'h' ? atoi (TOK) : 0, n = atoi (TOK);
      for (int i = 0; i < n; ++i) k[i] = atoi (TOK);
      if (c[0] == 'h') do_h (atoi (t), cm, n, k); else if (c[0] == 'b') do_b (t, n, k); else if (c[0] == 'g') do_g (t, n, k);
    }
  fflush (stdout); fprintf (stderr, "DONE %ld\n", nout);
  return 0;
}
