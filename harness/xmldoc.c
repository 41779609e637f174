/* Reading documents from a stream. usage: xmldoc CMDFILE
   "D <mode> <cuts> <fails> <kind:len,...> <hex>": a stream given by its tokens, read under the cuts/failing allocations asked for (0 none, 1 sampled, 2 all); mode 0 memory, 1 file, 2 pipe
   "L <fmt> <n> <seed> <mode>": n objects saved by the library one after another */
#include <metaresc.h>
#include <pthread.h>
#include "vf.h"
TYPEDEF_STRUCT (xd_t, (char *, s), (int, v), (char *, t), (xd_t *, next), (double, d));
typedef struct { char * p; size_t n; int fd; } src_t;
static void * feeder (void * a)
{ src_t * s = a; size_t i = 0; while (i < s->n) { size_t k = 1 + (i * 7919 + s->n) % 97; if (k > s->n - i) k = s->n - i; ssize_t w = write (s->fd, s->p + i, k); if (w <= 0) break; i += w; } close (s->fd); return NULL; }
static char tmpname[64];
/* reads documents until nothing comes */
static void reads (sb_t * o, char * text, size_t avail, int mode, long fail, char ** docs, int * ndocs)
{
  FILE * f; pthread_t th; src_t s = { text, avail }; int p[2];
  if (mode == 0 && avail) f = fmemopen (text, avail, "r");
  else if (mode == 2) { if (pipe (p)) exit (3); s.fd = p[1]; pthread_create (&th, NULL, feeder, &s); f = fdopen (p[0], "r"); }
  else { f = fopen (tmpname, "w+"); fwrite (text, 1, avail, f); rewind (f); }
  led_calls = 0; led_failed = 0; led_fail_at = fail; led_fail_count = 1;
  long pos = 0; int n = 0, failread = -1;
  sb_puts (o, "[");
  for (int i = 0; ; ++i)
    {
      long live = led_live, fb = led_failed;
      char * d = mr_read_xml_doc (f);
      if (led_failed > fb) failread = i;
      size_t len = d ? strlen (d) : 0;
      long at = d ? pos + len : -1;
      if (d && mode != 2) at = ftell (f);
      sb_printf (o, "%s{\"ok\":%d,\"len\":%zu,\"pos\":%ld,\"same\":%d,\"live\":%ld}", i ? "," : "", d != NULL, len, at, d && pos + len <= avail && !memcmp (d, text + pos, len), led_live - live);
      if (!d) break;
      pos += len;
      if (docs && n < 64) docs[n++] = strdup (d);
      MR_FREE (d);
    }
  led_fail_at = -1;
  sb_printf (o, "],\"fail\":%ld,\"failed\":%d,\"failread\":%d,\"bad\":%ld", fail, led_failed > 0, failread, led_bad); led_bad = 0;
  fclose (f); if (mode == 2) pthread_join (th, NULL);
  if (ndocs) *ndocs = n;
}
static void stream (int mode, int cuts, int fails, char * toks, char * text, size_t n)
{
  sb_t t = {0}; sb_puts (&t, "[");
  for (char * s = strtok (toks, ","), first = 1; s; s = strtok (NULL, ","), first = 0) { char * c = strchr (s, ':'); *c = 0; sb_printf (&t, "%s[\"%s\",%s]", first ? "" : ",", s, c + 1); }
  sb_puts (&t, "]");
  for (size_t cut = n + 1; cut-- > 0; )
    {
      if (cut < n && cuts == 0) break;
      if (cut < n && cuts == 1 && cut % 61 && (cut + 4) % 2048 > 8 && n - cut > 6) continue;
      sb_t o = {0}; sb_printf (&o, "{\"ev\":\"str\",\"toks\":%s,\"avail\":%zu,\"reads\":", t.s, cut); reads (&o, text, cut, mode, -1, NULL, NULL); sb_puts (&o, "}"); puts (o.s); free (o.s);
      long calls = led_calls;
      if (fails == 0 || (fails == 1 && cut < n)) continue;
      for (long k = 0; k < calls && k < 12; ++k) { sb_t o = {0}; sb_printf (&o, "{\"ev\":\"str\",\"toks\":%s,\"avail\":%zu,\"reads\":", t.s, cut); reads (&o, text, cut, mode, k, NULL, NULL); sb_puts (&o, "}"); puts (o.s); free (o.s); }
    }
  free (t.s);
}
static unsigned long rs; static unsigned rnd (unsigned n) { rs = rs * 6364136223846793005ul + 1442695040888963407ul; return (rs >> 33) % n; }
static char * rtext (void)
{ int n = rnd (4) ? rnd (30) : rnd (3000); char * s = malloc (n + 1); for (int i = 0; i < n; ++i) s[i] = rnd (5) ? 'a' + rnd (26) : "<>&/?'\"= !-]x\n"[rnd (14)]; s[n] = 0; return s; }
static void saved (int fmt, int n, int mode)
{
  xd_t x[40]; memset (x, 0, sizeof x); sb_t all = {0}, o = {0}; sb_puts (&o, "{\"ev\":\"lib\",\"docs\":["); sb_puts (&all, ""); long tail = 0;
  for (int i = 0; i < n; ++i)
    {
      x[i] = (xd_t){ rtext (), rnd (100000), rtext (), rnd (2) && i ? &x[i - 1] : NULL, rnd (1000) / 7.0 };
      char * s = fmt ? MR_SAVE_XML2 (xd_t, &x[i]) : MR_SAVE_XML1 (xd_t, &x[i]); long len = strlen (s), k = len; while (k && strchr (" \n\t\r", s[k - 1])) --k;
      sb_printf (&o, "%s%ld", i ? "," : "", tail + k); sb_puts (&all, s); tail = len - k;
      if (rnd (2)) { sb_puts (&all, "\n \t"); tail += 3; }
      MR_FREE (s);
    }
  sb_puts (&o, "],\"reads\":"); char * docs[64]; int nd, eq = 0;
  reads (&o, all.s, all.n, mode, -1, docs, &nd);
  for (int i = 0; i < nd; ++i)
    {
      char * d = docs[i]; while (strchr (" \n\t\r", *d)) ++d;
      xd_t y; memset (&y, 0, sizeof y); mr_status_t st = fmt ? MR_LOAD_XML2 (xd_t, d, &y) : MR_LOAD_XML1 (xd_t, d, &y);
      if (st == MR_SUCCESS) { if (i < n && !MR_CMP_STRUCTS (xd_t, &x[i], &y)) ++eq; MR_FREE_RECURSIVELY (xd_t, &y); }
      free (docs[i]);
    }
  sb_printf (&o, ",\"equal\":%d}", eq); puts (o.s); free (o.s); free (all.s);
  for (int i = 0; i < n; ++i) { free (x[i].s); free (x[i].t); }
}
int main (int argc, char ** argv)
{
  signal (SIGPIPE, SIG_IGN); mr_conf_init (); mr_conf.log_level = MR_LL_OFF; led_install (); snprintf (tmpname, sizeof tmpname, "%s.tmp", argv[1]);
  { xd_t x = { "a", 1, "b", NULL, 1.5 }; char * s = MR_SAVE_XML2 (xd_t, &x); if (s) MR_FREE (s); s = MR_SAVE_XML1 (xd_t, &x); if (s) MR_FREE (s); }
  FILE * f = fopen (argv[1], "r"); char * line = NULL; size_t cap = 0; ssize_t len; long n = 0;
  while ((len = getline (&line, &cap, f)) > 0)
    {
      if (line[len - 1] == '\n') line[--len] = 0;
      if (!line[0]) continue;
      ++n;
      if (line[0] == 'D')
	{
	  int mode, cuts, fails, k = 0; sscanf (line, "D %d %d %d %n", &mode, &cuts, &fails, &k); char * toks = line + k, * hex = strchr (toks, ' '); *hex++ = 0;
	  unsigned char * t = malloc (strlen (hex) / 2 + 1); size_t l = unhex (hex, t); stream (mode, cuts, fails, toks, (char*)t, l); free (t);
	}
      else { int fmt, cnt, mode; sscanf (line, "L %d %d %lu %d", &fmt, &cnt, &rs, &mode); saved (fmt, cnt, mode); }
    }
  fprintf (stderr, "DONE %ld\n", n); return 0;
}
