/* Answers lookups about the generated types. usage: reg CMDFILE
   T name | F type via,via|- name | A name | B name type | C name | V type value | G type ; an empty name is written as "-" */
#include <metaresc.h>
#include "vf.h"
extern void tu1_facts (void), tu2_facts (void);
extern int tu1_ev (char * type, void (*f) (char *, char *, void *)), tu2_ev (char * type, void (*f) (char *, char *, void *));
static void * seen[200000]; static int nseen;
static int id (void * p) { if (!p) return 0; for (int i = 0; i < nseen; ++i) if (seen[i] == p) return i + 1; seen[nseen++] = p; return nseen; }
#define N(x) [MR_TYPE_##x] = #x
static char * kn (int k)
{
  static char * n[] = {N(NONE),N(VOID),N(STRING),N(CHAR_ARRAY),N(CHAR),N(BOOL),N(INT8),N(UINT8),N(INT16),N(UINT16),N(INT32),N(UINT32),N(INT64),N(UINT64),N(INT128),N(UINT128),N(FLOAT),N(COMPLEX_FLOAT),N(DOUBLE),N(COMPLEX_DOUBLE),N(LONG_DOUBLE),N(COMPLEX_LONG_DOUBLE),N(STRUCT),N(ENUM),N(BITFIELD),N(ARRAY),N(UNION),N(ANON_UNION),N(NAMED_ANON_UNION),N(END_ANON_UNION),N(FUNC),N(FUNC_TYPE),N(POINTER)};
  return k >= 0 && k < sizeof n / sizeof *n && n[k] ? n[k] : "?";
}
static void stypes (mr_stype_t ** a, mr_size_t size)
{
  printf (",\"args\":[");
  for (int i = 0; i < size / sizeof (a[0]); ++i)
    { printf ("%s[\"%s\",\"%s\",[", i ? "," : "", kn (a[i]->mr_type), a[i]->mr_type == MR_TYPE_POINTER || a[i]->mr_type == MR_TYPE_ARRAY ? kn (a[i]->mr_type_aux) : "");
      if (a[i]->mr_type == MR_TYPE_ARRAY) for (int j = 0; j < a[i]->dim.size / sizeof (a[i]->dim.dim[0]); ++j) printf ("%s%u", j ? "," : "", (unsigned)a[i]->dim.dim[j]);
      printf ("]]"); }
  printf ("]");
}
static int nfields (mr_td_t * t) { return t->param.struct_param.fields_size / sizeof (t->param.struct_param.fields[0]); }
static bool is_struct (mr_td_t * t) { return t && (t->mr_type == MR_TYPE_STRUCT || t->mr_type == MR_TYPE_UNION || t->mr_type == MR_TYPE_ANON_UNION || t->mr_type == MR_TYPE_NAMED_ANON_UNION); }
static void td_out (mr_td_t * t)
{
  printf ("\"id\":%d", id (t)); if (!t) return;
  printf (",\"nm\":\"%s\",\"mt\":\"%s\",\"sz\":%ld,\"fs\":[", t->type.str, kn (t->mr_type), (long)t->size);
  if (is_struct (t)) for (int i = 0; i < nfields (t); ++i) { mr_fd_t * f = t->param.struct_param.fields[i]; printf ("%s\"%s\"", i ? "," : "", f->unnamed ? "" : f->name.str); }
  if (t->mr_type == MR_TYPE_ENUM) for (int i = 0; i < t->param.enum_param.enums_size / sizeof (t->param.enum_param.enums[0]); ++i) printf ("%s\"%s\"", i ? "," : "", t->param.enum_param.enums[i]->name.str);
  printf ("]");
  if (t->mr_type == MR_TYPE_ENUM) printf (",\"eff\":\"%s\"", kn (t->param.enum_param.mr_type_effective));
  if (t->mr_type == MR_TYPE_FUNC_TYPE) stypes (t->param.func_param.args, t->param.func_param.size);
}
static void fd_out (mr_fd_t * f, long base)
{
  printf ("\"id\":%d", id (f)); if (!f) return;
  printf (",\"nm\":\"%s\",\"mt\":\"%s\",\"aux\":\"%s\",\"base\":\"%s\",\"off\":%ld,\"sz\":%ld,\"w\":%d,\"s\":%d,\"td\":\"%s\",\"dims\":[", f->name.str, kn (f->stype.mr_type),
    f->stype.mr_type == MR_TYPE_POINTER || f->stype.mr_type == MR_TYPE_ARRAY || f->stype.mr_type == MR_TYPE_BITFIELD ? kn (f->stype.mr_type_aux) : "", kn (f->mr_type_base), base + (long)f->offset, (long)f->stype.size,
    f->stype.mr_type == MR_TYPE_BITFIELD ? (int)f->bitfield_param.width : 0, f->stype.mr_type == MR_TYPE_BITFIELD ? (int)f->bitfield_param.shift : 0, f->stype.tdp ? f->stype.tdp->type.str : "");
  if (f->stype.mr_type == MR_TYPE_ARRAY) for (int i = 0; i < f->stype.dim.size / sizeof (f->stype.dim.dim[0]); ++i) printf ("%s%u", i ? "," : "", (unsigned)f->stype.dim.dim[i]);
  printf ("]");
  if (f->stype.mr_type == MR_TYPE_FUNC) stypes (f->func_param.args, f->func_param.size);
}
static void ed_out (mr_ed_t * e) { printf ("\"id\":%d", id (e)); if (e) printf (",\"nm\":\"%s\",\"v\":\"%llu\"", e->name.str, (unsigned long long)e->value._unsigned); }
static mr_td_t * gtd;
static void ev (char * type, char * name, void * val) { mr_enum_value_type_t v = mr_get_enum_value (gtd, val); printf ("{\"k\":\"gv\",\"t\":\"%s\",\"q\":\"%s\",\"v\":\"%llu\",", type, name, (unsigned long long)v); ed_out (mr_get_enum_by_value (gtd, v)); puts ("}"); }
int main (int argc, char ** argv)
{
  static char line[100000]; FILE * f = fopen (argv[1], "r"); long n = 0;
  setvbuf (stdout, NULL, _IOFBF, 1 << 16);
  mr_conf.log_level = MR_LL_OFF;
  tu1_facts (); tu2_facts ();
  while (fgets (line, sizeof line, f))
    {
      line[strcspn (line, "\n")] = 0; if (!line[0]) continue;
      char * a[4] = { 0 }; int k = 0; for (char * s = strtok (line, " "); s && k < 4; s = strtok (NULL, " ")) a[k++] = strcmp (s, "-") ? s : "";
      fflush (stdout); ++n;
      /* names are given in memory of their own, nothing stays at their address */
      char * q = strdup (a[1] ? a[1] : ""), * q2 = strdup (a[2] ? a[2] : ""), * q3 = strdup (a[3] ? a[3] : "");
      switch (a[0][0])
        {
        case 'T': printf ("{\"k\":\"td\",\"q\":\"%s\",", q); td_out (mr_get_td_by_name (q)); puts ("}"); break;
        case 'F':
          {
            mr_td_t * t = mr_get_td_by_name (q); long base = 0; bool ok = t != NULL;
            printf ("{\"k\":\"fd\",\"t\":\"%s\",\"q\":\"%s\",\"via\":[", q, q3);
            for (char * v = strtok (q2, ","), * c = ""; v; v = strtok (NULL, ","), c = ",")
              {
                mr_td_t * nt = NULL; printf ("%s\"%s\"", c, v);
                if (ok && is_struct (t)) for (int i = 0; i < nfields (t); ++i)
                  { mr_fd_t * fd = t->param.struct_param.fields[i];
                    if ((fd->stype.mr_type == MR_TYPE_ANON_UNION || fd->stype.mr_type == MR_TYPE_NAMED_ANON_UNION) && mr_get_fd_by_name (fd->stype.tdp, v)) { nt = fd->stype.tdp; base += fd->offset; break; } }
                t = nt; ok = t != NULL;
              }
            printf ("],\"reach\":%d,", ok); fd_out (ok ? mr_get_fd_by_name (t, q3) : NULL, base); puts ("}");
            break;
          }
        case 'A': { mr_fd_t * fd = mr_get_any_fd_by_name (q, NULL); printf ("{\"k\":\"any\",\"q\":\"%s\",\"id\":%d,\"nm\":\"%s\"}\n", q, id (fd), fd ? fd->name.str : ""); break; }
        case 'B': { mr_td_t * t = mr_get_td_by_name (q2); mr_fd_t * fd = t ? mr_get_any_fd_by_name (q, t) : NULL; printf ("{\"k\":\"anyt\",\"q\":\"%s\",\"t\":\"%s\",\"id\":%d,\"nm\":\"%s\",\"td\":\"%s\"}\n", q, q2, id (fd), fd ? fd->name.str : "", fd && fd->stype.tdp ? fd->stype.tdp->type.str : ""); break; }
        case 'C': printf ("{\"k\":\"en\",\"q\":\"%s\",", q); ed_out (mr_get_enum_by_name (q)); puts ("}"); break;
        case 'V': { mr_td_t * t = mr_get_td_by_name (q); printf ("{\"k\":\"ev\",\"t\":\"%s\",\"q\":\"%s\",", q, q2); ed_out (t && t->mr_type == MR_TYPE_ENUM ? mr_get_enum_by_value (t, strtoull (q2, NULL, 10)) : NULL); puts ("}"); break; }
        case 'G': gtd = mr_get_td_by_name (q); if (gtd) { if (q2[0] == '2') tu2_ev (q, ev); else tu1_ev (q, ev); } break;
        }
      free (q); free (q2); free (q3);
    }
  fflush (stdout); fprintf (stderr, "DONE %ld\n", n);
  return 0;
}
