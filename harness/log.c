/* Diagnostics. usage: log CMDFILE; lines "m <level> <id> <text>": a direct message; "o <name> <arg>": an operation of the library that may emit some.
   Every line is run under every configuration (handler or none, every threshold, formatting with and without memory); one JSON object per run. */
#include <metaresc.h>
#include <fcntl.h>
#include "vf.h"
extern char * mr_message_format (mr_message_id_t message_id, va_list args);
TYPEDEF_ENUM (lg_e, ATTRIBUTES ( , "e"), (LG_A, = 1), LG_B);
TYPEDEF_ENUM (lg_bm, ATTRIBUTES ( , "bits"), (LG_X, = 1), (LG_Y, = 4));
TYPEDEF_UNION (lg_u, (int, ui), (float, uf), ATTRIBUTES ( , "union"));
TYPEDEF_STRUCT (lg_t, (int, x), (char, c), (string_t, s), (float, f), (complex_double_t, z), (lg_e, e), (lg_bm, b), (int, arr, [2]), (char, ca, [4]), (lg_t *, next), (lg_e, ud), (lg_u, un, , , "ud"), BITFIELD (int, bf, :3), (int *, dyn, , , { "dyn_size" }, "string"), (ssize_t, dyn_size));
static mr_td_t * mtd;
static char const * meta (unsigned id)
{
  for (int i = 0; mtd->param.enum_param.enums[i]; ++i) if (mtd->param.enum_param.enums[i]->value._unsigned == id) return mtd->param.enum_param.enums[i]->meta;
  return NULL;
}
/* ---- what the handler saw */
static sb_t seen; static long nseen;
static int live_before;
static void handler (const char * file, const char * func, int line, mr_log_level_t level, mr_message_id_t id, va_list args)
{
  va_list a; va_copy (a, args); char * t = mr_message_format (id, a); va_end (a);
  char const * m = meta (id); char * want = NULL;
  va_copy (a, args); if (m) vasprintf (&want, m, a); else want = strdup ("Unknown MR_MESSAGE_ID."); va_end (a);
  sb_printf (&seen, "%s{\"file\":", nseen++ ? "," : ""); sb_json (&seen, file); sb_puts (&seen, ",\"func\":"); sb_json (&seen, func);
  sb_printf (&seen, ",\"line\":%d,\"level\":%u,\"id\":%u,\"want\":", line, (unsigned)level, (unsigned)id); sb_json (&seen, want);
  sb_printf (&seen, ",\"made\":%d,\"text\":", t != NULL); sb_json (&seen, t ? t : ""); sb_puts (&seen, "}");
  if (t) MR_FREE (t);
  free (want);
}
static char capfile[64]; static int saved = -1;
static void cap_on (void) { fflush (stderr); saved = dup (2); int f = open (capfile, O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2 (f, 2); close (f); }
static char * cap_off (void)
{
  fflush (stderr); dup2 (saved, 2); close (saved);
  FILE * f = fopen (capfile, "r"); static char buf[1 << 16]; size_t n = fread (buf, 1, sizeof buf - 1, f); buf[n] = 0; fclose (f); return buf;
}
/* memory for formatting only */
static int fmt_fail;
static void * c_calloc (const char * f, const char * fn, int l, size_t c, size_t s)
{ if (fmt_fail && (!strcmp (fn, "mr_vasprintf") || !strcmp (fn, "mr_message_format") || !strcmp (fn, "mr_message"))) return NULL; return vf_calloc (f, fn, l, c, s); }
static void * c_realloc (const char * f, const char * fn, int l, void * p, size_t s)
{ if (fmt_fail && (!strcmp (fn, "mr_vasprintf") || !strcmp (fn, "mr_message_format") || !strcmp (fn, "mr_message"))) return NULL; return vf_realloc (f, fn, l, p, s); }
/* ---- operations */
static void unesc (char * s) { char * d = s; for (; *s; ++s) if (*s == '\\' && s[1] == 'n') { *d++ = '\n'; ++s; } else *d++ = *s; *d = 0; }
static void emit (int level, unsigned id)
{ /* the arguments the declared text asks for */
  char const * m = meta (id); char sig[16]; int n = 0;
  for (char const * s = m ? m : ""; *s; ++s)
    if (*s == '%')
      {
	++s; int l = 0; while (*s == 'l' || *s == 'z') { ++l; ++s; }
	sig[n++] = *s == 's' ? 's' : l ? 'l' : 'd';
      }
  sig[n] = 0;
#define M(...) mr_message ("some file.c", "some_func", 4711, level, id, ##__VA_ARGS__)
  if (!strcmp (sig, "")) M (); else if (!strcmp (sig, "s")) M ("<text %d \"q\">"); else if (!strcmp (sig, "d")) M (-42); else if (!strcmp (sig, "sd")) M ("nm", 77); else if (!strcmp (sig, "ss")) M ("one", "two");
  else if (!strcmp (sig, "sss")) M ("one", "two", "three"); else if (!strcmp (sig, "l")) M (-5L); else if (!strcmp (sig, "lss")) M (9876543210UL, "one", "two"); else if (!strcmp (sig, "ls")) M (1234567890123UL, "one");
  else if (!strcmp (sig, "ssll")) M ("one", "two", 1UL, ~0UL); else if (!strcmp (sig, "sdddd")) M ("err", 1, 2, 3, 4); else { printf ("{\"unknown\":\"%s %u\"}\n", sig, id); exit (3); }
}
static void outcome (sb_t * o, char const * what, char * arg)
{
  lg_t x; memset (&x, 0x33, sizeof x);
  if (!strcmp (what, "enum")) { mr_ed_t * e = mr_get_enum_by_name (arg); sb_printf (o, "%d", e != NULL); return; }
  if (!strcmp (what, "type")) { sb_printf (o, "%d", mr_get_td_by_name (arg) != NULL); return; }
  if (!strcmp (what, "xmldoc")) { FILE * f = fmemopen (arg, strlen (arg), "r"); char * s = mr_read_xml_doc (f); sb_printf (o, "%d:%ld", s != NULL, s ? (long)strlen (s) : 0); if (s) MR_FREE (s); fclose (f); return; }
  if (!strncmp (what, "save", 4))
    {
      memset (&x, 0, sizeof x); x.e = atoi (arg); x.b = atoi (arg) * 7; x.ud = LG_A; x.s = "text"; x.bf = atoi (arg); int d[4] = { 1, 2, 3, 4 }; x.dyn = d; x.dyn_size = atoi (arg);
      char * s = !strcmp (what, "saveCINIT") ? MR_SAVE_CINIT (lg_t, &x) : !strcmp (what, "saveXML1") ? MR_SAVE_XML1 (lg_t, &x) : !strcmp (what, "saveJSON") ? MR_SAVE_JSON (lg_t, &x) : !strcmp (what, "saveYAML") ? MR_SAVE_YAML (lg_t, &x) : MR_SAVE_SCM (lg_t, &x);
      uint32_t h = 0; for (char * p = s; p && *p; ++p) h = h * 31 + (unsigned char)*p;
      sb_printf (o, "%d:%u", s != NULL, h); if (s) MR_FREE (s); return;
    }
  if (!strcmp (what, "copyneg"))
    { memset (&x, 0, sizeof x); int d[4]; x.dyn = d; x.dyn_size = -8; lg_t y; mr_status_t r = MR_COPY_RECURSIVELY (lg_t, &x, &y); sb_printf (o, "%d", r); if (r == MR_SUCCESS) MR_FREE_RECURSIVELY (lg_t, &y); return; }
  if (!strcmp (what, "null")) { sb_printf (o, "%d", MR_LOAD_CINIT (lg_t, (char*)NULL, &x)); return; }
  char * t = strdup (arg); mr_status_t r = MR_FAILURE; memset (&x, 0, sizeof x);
  if (!strcmp (what, "CINIT")) r = MR_LOAD_CINIT (lg_t, t, &x); else if (!strcmp (what, "JSON")) r = MR_LOAD_JSON (lg_t, t, &x); else if (!strcmp (what, "SCM")) r = MR_LOAD_SCM (lg_t, t, &x);
  else if (!strcmp (what, "XML1")) r = MR_LOAD_XML1 (lg_t, t, &x); else if (!strcmp (what, "XML2")) r = MR_LOAD_XML2 (lg_t, t, &x); else if (!strcmp (what, "YAML")) r = MR_LOAD_YAML (lg_t, t, &x);
  free (t);
  sb_printf (o, "%d", r);
  if (r == MR_SUCCESS) { char * s = MR_SAVE_CINIT (lg_t, &x); sb_puts (o, ":"); sb_puts (o, s ? s : "?"); if (s) MR_FREE (s); MR_FREE_RECURSIVELY (lg_t, &x); }
}
static void one (char * line)
{
  char kind[32]; unsigned level = 0, id = 0; char what[32] = ""; char * arg = "";
  int k = 0;
  if (line[0] == 'm') sscanf (line, "m %u %u", &level, &id); else { sscanf (line, "o %31s%n", what, &k); arg = line + k + (line[k] == ' '); unesc (arg); }
  static unsigned levels[] = { MR_LL_ALL, MR_LL_TRACE, MR_LL_DEBUG, MR_LL_INFO, MR_LL_WARN, MR_LL_ERROR, MR_LL_FATAL, MR_LL_OFF, 9 };
  char * base = NULL; sb_t diag = {0}; long base_live = 0; int base_n = 0;
  for (int h = 1; h >= 0; --h)
    for (int l = 0; l < sizeof levels / sizeof *levels; ++l)
      for (int f = 0; f < 2; ++f)
	{
	  if (h && l > 0 && l != 4 && l != 7) continue;
	  mr_conf.msg_handler = h ? handler : NULL; mr_conf.log_level = levels[l]; fmt_fail = f;
	  seen.n = 0; nseen = 0; if (seen.s) seen.s[0] = 0;
	  long live = led_live; sb_t o = {0}; sb_puts (&o, "");
	  cap_on ();
	  if (line[0] == 'm') emit (level, id); else outcome (&o, what, arg);
	  char * err = cap_off ();
	  live = led_live - live;
	  if (!base) { base = strdup (o.s); base_live = live; sb_puts (&diag, seen.s ? seen.s : ""); base_n = nseen; }
	  sb_t e = {0};
	  sb_puts (&e, "{\"op\":"); sb_json (&e, line);
	  sb_printf (&e, ",\"handler\":%d,\"level\":%u,\"oom\":%d,\"same\":%d,\"live\":%ld,\"bad\":%ld,\"sent\":[%s],\"got\":[%s],\"err\":[", h, levels[l], f, !strcmp (base, o.s), live - base_live, led_bad, diag.s, seen.s ? seen.s : "");
	  int n = 0; for (char * s = err; *s; ) { char * q = strchr (s, '\n'); if (q) *q = 0; sb_puts (&e, n++ ? "," : ""); sb_json (&e, s); if (!q) break; s = q + 1; }
	  sb_printf (&e, "],\"m\":[%s]}", line[0] == 'm' ? (sprintf (kind, "%u,%u", level, id), kind) : "");
	  puts (e.s); free (e.s); free (o.s);
	}
  free (base); free (diag.s);
  mr_conf.log_level = MR_LL_OFF; mr_conf.msg_handler = NULL; fmt_fail = 0; led_bad = 0;
}
int main (int argc, char ** argv)
{
  mr_conf_init (); mr_conf.log_level = MR_LL_OFF; led_install (); mr_conf.mr_mem.calloc = c_calloc; mr_conf.mr_mem.realloc = c_realloc;
  mtd = mr_get_td_by_name ("mr_message_id_t"); snprintf (capfile, sizeof capfile, "%s.err", argv[1]);
  FILE * f = fopen (argv[1], "r"); char * line = NULL; size_t cap = 0; ssize_t len; long n = 0;
  while ((len = getline (&line, &cap, f)) > 0) { if (line[len - 1] == '\n') line[--len] = 0; if (line[0]) { one (line); ++n; } }
  fprintf (stderr, "DONE %ld\n", n); return 0;
}
