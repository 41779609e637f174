/* Growing buffers. usage: ra CMDFILE   commands: "H" new history; "<op> <n> <f>" ops raw elem str chr fmt text reset; f: the first allocation fails
   "E depth": every history of that length.  One JSON object per distinct transition. */
#include <metaresc.h>
#include <mr_stringify.h>
#include "vf.h"
static mr_rarray_t ra; static long transitions; static unsigned ctr;
static char ** seen; static long nseen, cseen;
static int once (char const * s)
{ /* open addressing set of lines */
  static uint64_t * tab; static long cap = 1 << 22;
  if (!tab) tab = calloc (cap, 8);
  uint64_t h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
  h |= 1; long i = h % cap; while (tab[i]) { if (tab[i] == h) return 0; i = (i + 1) % cap; } tab[i] = h; return 1;
}
static void bytes (sb_t * o, unsigned char const * p, long n) { sb_puts (o, "["); for (long i = 0; i < n; ++i) sb_printf (o, "%s%d", i ? "," : "", p[i]); sb_puts (o, "]"); }
static void state (sb_t * o) { sb_printf (o, "{\"some\":%d,\"b\":", ra.data.ptr != NULL); bytes (o, ra.data.ptr, ra.data.ptr ? ra.MR_SIZE : 0); sb_puts (o, "}"); }
static void fmt_op (char * buf, int * len, int n, int * ret)
{ /* the same call once into plain memory and once into the buffer */
  static char const * words[] = { "", "x", "long text with % sign", "0123456789012345678901234567890123456789" };
  char const * w = words[n % 4];
#define BOTH(...) { *len = snprintf (buf, 5000, __VA_ARGS__); *ret = mr_ra_printf (&ra, __VA_ARGS__); break; }
  switch (n % 15)
    {
    case 0: BOTH ("plain") case 1: BOTH ("%d", n * 7919 - 300) case 2: BOTH ("%s", w) case 3: BOTH ("[%*d]", n, n) case 4: BOTH ("%-*s|", n, w)
    case 5: BOTH ("%.3f %Lg", n / 7.0, (long double)n / 3) case 6: BOTH ("%%") case 7: BOTH ("%s%s%s", w, w, w) case 8: BOTH ("%lld/%x/%o", -1234567890123LL * n, n, n)
    case 9: BOTH ("%c%c", 'a' + n % 26, 'z') case 10: BOTH ("%0*d", n + 1, n) case 11: BOTH ("%s", "") case 12: BOTH ("\xff\x80%d", n) case 13: BOTH ("%.*s", n, words[3]) default: BOTH ("a%cb", 0)
    }
}
static void step (char const * op, int n, int f)
{
  static sb_t o; static char buf[8192]; int len = 0, ok = 0, ret = 0; long at = -1;
  o.n = 0; ++transitions; ++ctr;
  sb_printf (&o, "{\"op\":\"%s\",\"f\":%d,\"pre\":", op, f); state (&o);
  led_calls = 0; led_failed = 0; led_fail_at = f ? 0 : -1; led_fail_count = 1;
  if (!strcmp (op, "raw") || !strcmp (op, "elem"))
    {
      void * r = op[0] == 'r' ? mr_rarray_append (&ra, n) : mr_rarray_allocate_element (&ra.data.ptr, &ra.MR_SIZE, &ra.alloc_size, n);
      ok = r != NULL; len = n;
      for (int i = 0; i < n; ++i) buf[i] = (i * 31 + n) & 255;
      if (r) { memcpy (r, buf, n); at = (char*)r - (char*)ra.data.ptr; }
      if (n == 0 && !ra.data.ptr) { ok = !led_failed; at = ra.MR_SIZE; }   /* nothing asked for, nothing there */
    }
  else if (!strcmp (op, "str")) { len = n; for (int i = 0; i < n; ++i) buf[i] = 1 + (i * 37 + n) % 255; buf[n] = 0; ret = mr_ra_append_string (&ra, buf); ok = ret >= 0; }
  else if (!strcmp (op, "chr")) { len = 1; buf[0] = n * 11; ret = mr_ra_append_char (&ra, buf[0]); ok = ret >= 0; }
  else if (!strcmp (op, "fmt")) { fmt_op (buf, &len, n, &ret); ok = ret >= 0; }
  else if (!strcmp (op, "text")) { if (ra.data.ptr) MR_FREE (ra.data.ptr); memset (&ra, 0, sizeof ra); ra.data.string = mr_strdup (""); if (ra.data.ptr) ra.MR_SIZE = ra.alloc_size = 1; ok = ra.data.ptr != NULL; }
  else { if (ra.data.ptr) MR_FREE (ra.data.ptr); memset (&ra, 0, sizeof ra); ok = 1; }
  int failed = led_failed > 0; led_fail_at = -1;
  led_t * e = ra.data.ptr ? led_find (ra.data.ptr) : NULL;
  sb_puts (&o, ",\"d\":"); bytes (&o, (unsigned char*)buf, len);
  sb_printf (&o, ",\"failed\":%d,\"ok\":%d,\"ret\":%d,\"at\":%ld,\"size\":%ld,\"alloc\":%ld,\"block\":%ld,\"live\":%ld,\"bad\":%ld,\"post\":", failed, ok, ret, at, (long)ra.MR_SIZE, (long)ra.alloc_size, e ? (long)e->size : 0, led_live, led_bad);
  state (&o); sb_puts (&o, "}"); led_bad = 0;
  if (once (o.s)) puts (o.s);
}
static void newh (void) { if (ra.data.ptr) MR_FREE (ra.data.ptr); memset (&ra, 0, sizeof ra); }
static void all (int depth)
{
  static struct { char const * o; int n, f; } al[] = { {"raw",0,0},{"raw",1,0},{"raw",3,1},{"raw",5,0},{"elem",2,0},{"elem",4,1},{"text",0,0},{"text",0,1},{"str",0,0},{"str",1,0},{"str",6,1},{"chr",0,0},{"chr",9,0},{"chr",8,1},
    {"fmt",2,0},{"fmt",1,0},{"fmt",6,1},{"fmt",0,0},{"fmt",11,0},{"reset",0,0} };
  int na = sizeof al / sizeof *al, w[16] = {0};
  for (;;)
    {
      newh ();
      int bad = 0, raw = 0, text = 0;   /* text operations on a buffer without a terminated text are not defined */
      for (int d = 0; d < depth && !bad; ++d)
	{
	  char const * o = al[w[d]].o; int t = !strcmp (o, "str") || !strcmp (o, "chr") || !strcmp (o, "fmt"), r = !strcmp (o, "raw") || !strcmp (o, "elem");
	  if (t && ra.data.ptr && raw) { bad = 1; break; }
	  step (o, al[w[d]].n, al[w[d]].f);
	  if (r) raw = 1; if (!strcmp (o, "text") || !strcmp (o, "reset")) raw = 0; if (!ra.data.ptr) raw = 0;
	}
      int d = depth - 1;
      while (d >= 0 && ++w[d] == na) w[d--] = 0;
      if (d < 0) break;
    }
}
int main (int argc, char ** argv)
{
  mr_conf_init (); mr_conf.log_level = MR_LL_OFF; led_install ();
  FILE * f = fopen (argv[1], "r"); char op[32]; int n, fl;
  while (fscanf (f, "%31s", op) == 1)
    {
      if (!strcmp (op, "H")) { newh (); continue; }
      if (!strcmp (op, "E")) { fscanf (f, "%d", &n); all (n); continue; }
      fscanf (f, "%d %d", &n, &fl); step (op, n, fl);
    }
  newh (); fflush (stdout); fprintf (stderr, "DONE %ld\n", transitions);
  return 0;
}
