/* Expressions in C-initializer input. usage: expr CMDFILE; each line: "<kind>\t<tokens as JSON>\t<text>"; prints one JSON object per line */
#include <metaresc.h>
#include "vf.h"
TYPEDEF_ENUM (ex_e, ATTRIBUTES ( , "constants"), (VF_ZERO, = 0), (VF_ONE, = 1), (VF_SEVEN, = 7), (VF_NEG, = -5), (VF_BIG, = 100000), (VF_A_RATHER_LONG_CONSTANT_NAME_FOR_LIMITS, = 12));
TYPEDEF_ENUM (ex8_e, ATTRIBUTES (__attribute__ ((packed)), "narrow constants"), (VF_NARROW, = 200), (VF_MASK, = 0x55));
TYPEDEF_ENUM (exn_e, ATTRIBUTES (__attribute__ ((packed)), "narrow signed constants"), (VF_NNEG, = -128), (VF_NPOS, = 3));
TYPEDEF_STRUCT (ex_t, (int8_t, i8), (uint8_t, u8), (int16_t, i16), (uint16_t, u16), (int32_t, i32), (uint32_t, u32), (int64_t, i64), (uint64_t, u64), (mr_int128_t, i128), (mr_uint128_t, u128), (bool, bool_), (char, chr),
		(float, f32), (double, f64), (long double, f80), (complex_float_t, c32), (complex_double_t, c64), (complex_long_double_t, c80), (ex_e, enm), BITFIELD (int, bs5, :5), BITFIELD (unsigned int, bu3, :3), BITFIELD (uint64_t, bu11, :11));
static void dy (sb_t * o, long double v)
{ /* n * 2^-e with n odd, or zero */
  int e = 0; if (!isfinite (v)) { sb_puts (o, "[0,-999]"); return; }
  if (v == 0) { sb_puts (o, "[0,0]"); return; }
  v = frexpl (v, &e); e = -e;
  while (e < 400 && v != truncl (v)) { v *= 2; ++e; }
  if (fabsl (v) < 2147483647.0L) sb_printf (o, "[%lld,%d]", (long long)v, e); else sb_puts (o, "[0,-998]");
}
int main (int argc, char ** argv)
{
  mr_conf_init (); mr_conf.log_level = MR_LL_OFF; led_install ();
  FILE * f = fopen (argv[1], "r"); char * line = NULL; size_t cap = 0; ssize_t len;
  long n = 0;
  while ((len = getline (&line, &cap, f)) > 0)
    {
      if (line[len - 1] == '\n') line[--len] = 0;
      char * kind = strtok (line, "\t"), * id = strtok (NULL, "\t"), * t = strtok (NULL, ""); if (!t) t = "";
      for (char * s = t; *s; ++s) if (*s == '\1') *s = '\n';
      sb_t in = {0}, o = {0}; sb_printf (&in, "{ .%s = %s }", strcmp (kind, "bool") ? kind : "bool_", t);
      ex_t x, z; memset (&x, 0x5A, sizeof x); memset (&z, 0, sizeof z);
      int ok = MR_SUCCESS == MR_LOAD_CINIT (ex_t, in.s, &x);
      sb_printf (&o, "{\"kind\":\"%s\",\"t\":%s,\"ok\":%d,\"re\":", kind, id, ok);
      if (ok)
	{
	  long double re = 0, im = 0;
#define I_(K, T) if (!strcmp (kind, #K)) { re = (T)x.K; x.K = 0; }
	  I_ (i8, int8_t) I_ (u8, uint8_t) I_ (i16, int16_t) I_ (u16, int16_t) I_ (i32, int32_t) I_ (u32, int32_t) I_ (i64, int64_t) I_ (u64, int64_t) I_ (i128, __int128) I_ (u128, __int128) I_ (chr, signed char) I_ (enm, int)
	  I_ (f32, long double) I_ (f64, long double) I_ (f80, long double) I_ (bs5, int) I_ (bu3, int) I_ (bu11, int)
	  if (!strcmp (kind, "bool")) { re = x.bool_; x.bool_ = 0; }
#define C_(K) if (!strcmp (kind, #K)) { re = creall (x.K); im = cimagl (x.K); memset (&x.K, 0, sizeof x.K); }
	  C_ (c32) C_ (c64) C_ (c80)
	  int rest = x.i8 == 0 && x.u8 == 0 && x.i16 == 0 && x.u16 == 0 && x.i32 == 0 && x.u32 == 0 && x.i64 == 0 && x.u64 == 0 && x.i128 == 0 && x.u128 == 0 && x.bool_ == 0 && x.chr == 0 && x.f32 == 0 && x.f64 == 0
	    && x.c32 == 0 && x.c64 == 0 && x.c80 == 0 && x.enm == 0 && x.bs5 == 0 && x.bu3 == 0 && x.bu11 == 0;
	  dy (&o, re); sb_puts (&o, ",\"im\":"); dy (&o, im); sb_printf (&o, ",\"rest\":%d}", rest);
	}
      else sb_puts (&o, "[0,0],\"im\":[0,0],\"rest\":1}");
      puts (o.s); free (o.s); free (in.s); ++n;
    }
  fprintf (stderr, "DONE %ld\n", n);
  return 0;
}
