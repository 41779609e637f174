/* Bit-fields. usage: bf CMDFILE   lines: <type> <shift> <width> <memory hex> <value hex> */
#include <metaresc.h>
#include <mr_stringify.h>
#include "vf.h"
#define AT 4
TYPEDEF_ENUM (be_a_t, (BE_A0, = 0), (BE_A1, = 100000), (BE_A2, = -5))
TYPEDEF_ENUM (be_b_t, ATTRIBUTES (__attribute__ ((packed))), (BE_B0, = 0), (BE_B1, = 255))
TYPEDEF_ENUM (be_c_t, (BE_C0, = 0), (BE_C1, = -5000000000LL))
TYPEDEF_ENUM (be_d_t, ATTRIBUTES (__attribute__ ((packed))), (BE_D0, = 1), (BE_D1, = -128))
static struct { char const * n; mr_type_t t; int sg; char const * tn; } T[] = { {"bool",MR_TYPE_BOOL,0}, {"i8",MR_TYPE_INT8,1}, {"u8",MR_TYPE_UINT8,0}, {"i16",MR_TYPE_INT16,1}, {"u16",MR_TYPE_UINT16,0},
  {"i32",MR_TYPE_INT32,1}, {"u32",MR_TYPE_UINT32,0}, {"i64",MR_TYPE_INT64,1}, {"u64",MR_TYPE_UINT64,0}, {"i128",MR_TYPE_INT128,1}, {"u128",MR_TYPE_UINT128,0},
  {"ea",MR_TYPE_ENUM,1,"be_a_t"}, {"eb",MR_TYPE_ENUM,0,"be_b_t"}, {"ec",MR_TYPE_ENUM,1,"be_c_t"}, {"ed",MR_TYPE_ENUM,1,"be_d_t"} };
static void hex (char const * s, unsigned char * o) { for (; s[0] && s[1]; s += 2) { unsigned x; sscanf (s, "%2x", &x); *o++ = x; } }
static void bytes (char const * k, unsigned char const * p, int n) { printf ("\"%s\":[", k); for (int i = 0; i < n; ++i) printf ("%s%d", i ? "," : "", p[i]); printf ("],"); }
int main (int argc, char ** argv)
{
  mr_conf_init (); mr_conf.log_level = MR_LL_OFF;
  FILE * f = fopen (argv[1], "r"); char ty[16], mh[256], vh[256]; int s, w; long n = 0;
  while (fscanf (f, "%15s %d %d %255s %255s", ty, &s, &w, mh, vh) == 5)
    {
      int t = 0; while (strcmp (T[t].n, ty)) ++t;
      unsigned char pre[24], post[24], v[16]; hex (mh, pre); hex (vh, v); memcpy (post, pre, 24);
      mr_fd_t fd; memset (&fd, 0, sizeof fd); fd.stype.mr_type = MR_TYPE_BITFIELD; fd.stype.mr_type_aux = T[t].t; fd.bitfield_param.shift = s; fd.bitfield_param.width = w; fd.bitfield_param.initialized = true;
      if (T[t].tn) { fd.stype.type = (char*)T[t].tn; fd.stype.tdp = mr_get_td_by_name (T[t].tn); if (!fd.stype.tdp) return 3; }
      mr_ptrdes_t p; memset (&p, 0, sizeof p); p.mr_type = MR_TYPE_BITFIELD; p.mr_type_aux = T[t].t; p.fdp = &fd; p.data.ptr = pre + AT;
      mr_uintmax_t rd = 0, wr; memcpy (&wr, v, 16);
      mr_save_bitfield_value (&p, &rd);
      mr_rarray_t ra; memset (&ra, 0, sizeof ra); ra.data.string = mr_strdup (""); ra.MR_SIZE = ra.alloc_size = 1; int txt = !T[t].tn && T[t].t != MR_TYPE_BOOL;
      if (txt && (mr_ra_printf_bitfield (&ra, &p, "|") < 0)) return 4;
      p.data.ptr = post + AT; mr_load_bitfield_value (&p, &wr);
      printf ("{\"ty\":\"%s\",\"sg\":%d,\"at\":%d,\"s\":%d,\"w\":%d,", ty, T[t].sg, AT, s, w);
      bytes ("pre", pre, 24); bytes ("v", v, 16); bytes ("post", post, 24); bytes ("rd", (unsigned char *)&rd, 16);
      char * q = txt ? ra.data.ptr : ""; int neg = *q == '-', c = 0; q += neg;
      printf ("\"txt\":%d,\"neg\":%d,\"dig\":[", txt, neg); for (; *q; ++q) printf ("%s%d", c++ ? "," : "", *q - '0'); printf ("]}\n");
      if (ra.data.ptr) MR_FREE (ra.data.ptr);
      ++n;
    }
  fflush (stdout); fprintf (stderr, "DONE %ld\n", n);
  return 0;
}
