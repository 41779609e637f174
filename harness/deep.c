/* Deeply nested documents: a list of N nodes is saved in a format, the document is loaded in a thread with a stack of 8 MB.
   usage: deep FORMAT N; prints "status count sum". The stack a loader takes must not depend on the depth of the document. */
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <metaresc.h>
#include <pthread.h>
TYPEDEF_STRUCT (dn_t, (int32_t, v), (dn_t *, next), (string_t, s));
static char * fmt; static int n; static dn_t x; static mr_status_t st; static char * doc; static mr_rarray_t ra;
static void msg (const char * f, const char * fn, int l, mr_log_level_t ll, mr_message_id_t id, va_list a) {}
#define L(N) if (!strcmp (fmt, #N)) st = MR_LOAD_##N (dn_t, doc, &x)
static void * load (void * a) { L (CINIT); L (JSON); L (SCM); L (XML1); L (XML2); L (YAML); if (!strcmp (fmt, "XDR")) st = MR_LOAD_XDR_RA (dn_t, &ra, &x); return NULL; }
#define S(N) if (!strcmp (fmt, #N)) doc = MR_SAVE_##N (dn_t, h)
int main (int c, char ** v)
{
  mr_conf.msg_handler = msg;
  fmt = v[1]; n = atoi (v[2]);
  dn_t * h = NULL;
  for (int i = 0; i < n; ++i) { dn_t * p = calloc (1, sizeof *p); p->v = i; p->next = h; h = p; }
  S (CINIT); S (JSON); S (SCM); S (XML1); S (YAML);
  S (XML2);
  if (!strcmp (fmt, "XDR")) ra = MR_SAVE_XDR_RA (dn_t, h);
  printf ("saved\n"); fflush (stdout);
  pthread_attr_t at; pthread_t t; pthread_attr_init (&at); pthread_attr_setstacksize (&at, 8 << 20);
  pthread_create (&t, &at, load, NULL); pthread_join (t, NULL);
  long k = 0, sum = 0; dn_t * p;
  if (st == MR_SUCCESS) for (p = &x; p; p = p->next) { ++k; sum += p->v; }
  if (st == MR_SUCCESS) MR_FREE_RECURSIVELY (dn_t, &x);
  printf ("%d %ld %ld\n", st == MR_SUCCESS, k, sum);
  return 0;
}
