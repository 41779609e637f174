From c5d6043e9ecfae041791107a34de0bde5be7c4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 01/40] fix: multidimensional arrays with different extents are
 serialized completely

---
 src/mr_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index cc0d974..c2f6190 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -1216,7 +1216,7 @@ mr_save_array (mr_save_data_t * mr_save_data)
   else
     {
       fd_.stype.dim.size -= sizeof (fd_.stype.dim.dim[0]);
-      memmove (&fd_.stype.dim.dim[0], &fd_.stype.dim.dim[0], fd_.stype.dim.size);
+      memmove (&fd_.stype.dim.dim[0], &fd_.stype.dim.dim[1], fd_.stype.dim.size);
     }
 
   for (i = 0; i < count; )
-- 
2.43.0


From b9ce7c888fc734b890a66e5ac1b58a1d26c6f8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 02/40] fix: octal escapes in C-initializer strings are at most
 three digits long

---
 src/cinit_load.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index ce9636c..fcd7226 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -54,7 +54,7 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 	  int size;
 	  if (c > 0)
 	    dst[length++] = c;
-	  else if (1 == sscanf (&substr->str[i], "%o%n", &c, &size))
+	  else if (1 == sscanf (&substr->str[i], "%3o%n", &c, &size))
 	    {
 	      i += size - 1;
 	      dst[length++] = c;
-- 
2.43.0


From 66c108c27f4826ceb63ab57c6c0466ef4112a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 03/40] fix: fields named as keywords or numeric constants load
 from C-initializer and S-expression

---
 src/cinit_load.l |  5 +++++
 src/cinit_load.y | 12 ++++++++----
 src/scm_load.l   |  5 +++++
 src/scm_load.y   | 14 +++++++++-----
 4 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/cinit_load.l b/src/cinit_load.l
index 22a5858..77a94ac 100644
--- a/src/cinit_load.l
+++ b/src/cinit_load.l
@@ -73,6 +73,11 @@ IMAGENARY_NUMBER {INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?[Ii]
   return (TOK_CINIT_NUMBER);
 }
 
+"."{WS}{ID}{WS}"=" { /* any field name, even the one that coincides with a keyword or with a numeric constant */
+  mr_get_id (&yylval->string, &yytext[1]);
+  return (TOK_CINIT_FIELD_PREFIX);
+}
+
 {ID} {
   yylval->string.str = yytext;
   yylval->string.length = strlen (yytext);
diff --git a/src/cinit_load.y b/src/cinit_load.y
index fcd7226..f338ac6 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -98,6 +98,7 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 %left TOK_CINIT_MUL TOK_CINIT_DIV TOK_CINIT_MOD
 %precedence NEG 
 %type <value> expr
+%type <string> field_prefix
 
 %start cinit
 
@@ -247,7 +248,7 @@ compaund: TOK_CINIT_LBRACE list TOK_CINIT_RBRACE
 list: | list_element | list_element TOK_CINIT_COMMA list
 
 list_element: cinit
-| TOK_CINIT_DOT TOK_CINIT_ID TOK_CINIT_ASSIGN cinit {
+| field_prefix cinit {
   mr_load_t * mr_load = MR_LOAD;
   mr_idx_t idx = mr_last_child_for_parent (mr_load->ptrs, mr_load->parent);
   if (MR_NULL_IDX == idx)
@@ -257,15 +258,18 @@ list_element: cinit
     }
 
   mr_td_t * tdp = mr_load->ptrs->ra[idx].fdp ? mr_load->ptrs->ra[idx].fdp->stype.tdp : NULL;
-  $2.str[$2.length] = 0;
-  mr_load->ptrs->ra[idx].fdp = mr_get_any_fd_by_name ($2.str, tdp);
+  $1.str[$1.length] = 0;
+  mr_load->ptrs->ra[idx].fdp = mr_get_any_fd_by_name ($1.str, tdp);
   if (NULL == mr_load->ptrs->ra[idx].fdp)
     {
-      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNKNOWN_FIELD_NAME, $2.str);
+      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNKNOWN_FIELD_NAME, $1.str);
       YYERROR;
     }
 }
 
+field_prefix: TOK_CINIT_FIELD_PREFIX { $$ = $1; }
+| TOK_CINIT_DOT TOK_CINIT_ID TOK_CINIT_ASSIGN { $$ = $2; }
+
 %%
 
 MR_LOAD_FUNC (cinit);
diff --git a/src/scm_load.l b/src/scm_load.l
index 04ec4cd..5e2c66a 100644
--- a/src/scm_load.l
+++ b/src/scm_load.l
@@ -96,6 +96,11 @@ FLOAT_NUMBER {FLOAT_NAN}|{FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{IN
 
 ";"[^\n]*{WS}* { }
 
+"("{WS}*{ID}{WS}"."{WS} { /* any field name, even the one that coincides with a keyword or with a numeric constant */
+  mr_get_id (&yylval->string, &yytext[1]);
+  return (TOK_SCM_FIELD_PREFIX);
+}
+
 "("{WS}*       { return (TOK_SCM_LPARENTHESIS); }
 {WS}*")"       { return (TOK_SCM_RPARENTHESIS); }
 
diff --git a/src/scm_load.y b/src/scm_load.y
index ae8c47a..eb00b4c 100644
--- a/src/scm_load.y
+++ b/src/scm_load.y
@@ -90,7 +90,8 @@
 }
 
 /* Bison declarations.  */
-%token <string> TOK_SCM_VALUE TOK_SCM_ID TOK_SCM_STRING
+%token <string> TOK_SCM_VALUE TOK_SCM_ID TOK_SCM_STRING TOK_SCM_FIELD_PREFIX
+%type <string> field_prefix
 %token <value> TOK_SCM_CHAR TOK_SCM_NUMBER
 %token <id_ivalue> TOK_SCM_ID_IVALUE
 %token TOK_SCM_FALSE TOK_SCM_WS TOK_SCM_LPARENTHESIS TOK_SCM_RPARENTHESIS TOK_SCM_LBRACKETS TOK_SCM_RBRACKETS TOK_SCM_DOT TOK_SCM_ERROR
@@ -187,17 +188,20 @@ compaund: TOK_SCM_LPARENTHESIS list TOK_SCM_RPARENTHESIS
 
 list: | scm ws list
 
-named_node: TOK_SCM_LPARENTHESIS TOK_SCM_ID TOK_SCM_DOT value TOK_SCM_RPARENTHESIS {
+named_node: field_prefix value TOK_SCM_RPARENTHESIS {
   mr_load_t * mr_load = MR_LOAD;
-  $2.str[$2.length] = 0;
-  mr_load->ptrs->ra[mr_load->parent].fdp = mr_get_any_fd_by_name ($2.str, NULL);
+  $1.str[$1.length] = 0;
+  mr_load->ptrs->ra[mr_load->parent].fdp = mr_get_any_fd_by_name ($1.str, NULL);
   if (NULL == mr_load->ptrs->ra[mr_load->parent].fdp)
     {
-      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNKNOWN_FIELD_NAME, $2.str);
+      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNKNOWN_FIELD_NAME, $1.str);
       YYERROR;
     }
 }
 
+field_prefix: TOK_SCM_FIELD_PREFIX { $$ = $1; }
+| TOK_SCM_LPARENTHESIS TOK_SCM_ID TOK_SCM_DOT { $$ = $2; }
+
 ws: | TOK_SCM_WS
 
 %%
-- 
2.43.0


From 63f4aa2acf3a1ada3d0de4e9c6aee15a08db949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 04/40] fix: infinite imaginary parts load from C-initializer

---
 src/cinit_load.l | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cinit_load.l b/src/cinit_load.l
index 77a94ac..1390bd1 100644
--- a/src/cinit_load.l
+++ b/src/cinit_load.l
@@ -48,10 +48,10 @@ INT_NUMBER [[:digit:]]+
 HEX_NUMBER (0x|0X)[[:xdigit:]]+
 OCT_NUMBER 0[[0-7]]+
 NUMBER {INT_NUMBER}|{HEX_NUMBER}|{OCT_NUMBER}
-FLOAT_NAN [+-]?[Nn][Aa][Nn]
-FLOAT_INF [+-]?[Ii][Nn][Ff]
+FLOAT_NAN [Nn][Aa][Nn]
+FLOAT_INF [Ii][Nn][Ff]
 FLOAT_NUMBER {FLOAT_NAN}|{FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?
-IMAGENARY_NUMBER {INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?[Ii]
+IMAGENARY_NUMBER ({INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?|{FLOAT_INF})[Ii]
 %%
 
 {WS}  { /* eat up whitespace */ }
@@ -69,7 +69,8 @@ IMAGENARY_NUMBER {INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?[Ii]
 
 {IMAGENARY_NUMBER} {
   yylval->value.value_type = MR_VT_COMPLEX;
-  yylval->value.vt_complex = I * strtold (yytext, NULL);
+  yylval->value.vt_complex = 0;
+  __imag__ yylval->value.vt_complex = strtold (yytext, NULL);
   return (TOK_CINIT_NUMBER);
 }
 
-- 
2.43.0


From 1b0776eca0d1a1ea00441cdc8bf0b89761bb50d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 05/40] fix: invalid operations in C-initializer expressions
 make the load fail

---
 src/cinit_load.y | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index f338ac6..21915f9 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -224,15 +224,15 @@ compaund
 }
 
 expr:
-  expr TOK_CINIT_PLUS expr { mr_value_add (&$$, &$1, &$3); }
-| expr TOK_CINIT_MINUS expr { mr_value_sub (&$$, &$1, &$3); }
-| expr TOK_CINIT_MUL expr { mr_value_mul (&$$, &$1, &$3); }
-| expr TOK_CINIT_DIV expr { mr_value_div (&$$, &$1, &$3); }
-| expr TOK_CINIT_MOD expr { mr_value_mod (&$$, &$1, &$3); }
-| expr TOK_CINIT_BIT_OR expr { mr_value_bit_or (&$$, &$1, &$3); }
-| expr TOK_CINIT_BIT_AND expr { mr_value_bit_and (&$$, &$1, &$3); }
-| expr TOK_CINIT_BIT_XOR expr { mr_value_bit_xor (&$$, &$1, &$3); }
-| TOK_CINIT_MINUS expr %prec NEG { $$ = $2; mr_value_neg (&$$); }
+  expr TOK_CINIT_PLUS expr { if (MR_SUCCESS != mr_value_add (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_MINUS expr { if (MR_SUCCESS != mr_value_sub (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_MUL expr { if (MR_SUCCESS != mr_value_mul (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_DIV expr { if (MR_SUCCESS != mr_value_div (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_MOD expr { if (MR_SUCCESS != mr_value_mod (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_BIT_OR expr { if (MR_SUCCESS != mr_value_bit_or (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_BIT_AND expr { if (MR_SUCCESS != mr_value_bit_and (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_BIT_XOR expr { if (MR_SUCCESS != mr_value_bit_xor (&$$, &$1, &$3)) { YYERROR; } }
+| TOK_CINIT_MINUS expr %prec NEG { $$ = $2; if (MR_SUCCESS != mr_value_neg (&$$)) { YYERROR; } }
 | TOK_CINIT_PLUS expr %prec NEG { $$ = $2; }
 | TOK_CINIT_NUMBER { $$ = $1; }
 | TOK_CINIT_ID {
-- 
2.43.0


From c12d9b9d29612d0e35c96c794a3d64556b229d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 06/40] fix: bitwise operators of C-initializer expressions
 have C precedence

---
 src/cinit_load.y | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index 21915f9..05e17fa 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -93,7 +93,9 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 %token <string> TOK_CINIT_FIELD_PREFIX TOK_CINIT_FIELD_CAST TOK_CINIT_STRING TOK_CINIT_CHAR TOK_CINIT_ID
 %token TOK_CINIT_NULL TOK_CINIT_DOT TOK_CINIT_ASSIGN TOK_CINIT_LBRACE TOK_CINIT_RBRACE TOK_CINIT_LPAREN TOK_CINIT_RPAREN TOK_CINIT_COMMA TOK_CINIT_ERROR
 
-%left TOK_CINIT_BIT_OR TOK_CINIT_BIT_AND TOK_CINIT_BIT_XOR
+%left TOK_CINIT_BIT_OR
+%left TOK_CINIT_BIT_XOR
+%left TOK_CINIT_BIT_AND
 %left TOK_CINIT_PLUS TOK_CINIT_MINUS
 %left TOK_CINIT_MUL TOK_CINIT_DIV TOK_CINIT_MOD
 %precedence NEG 
-- 
2.43.0


From ec2c5577004a4488ac62c0a13e1b778eed43ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 07/40] fix: float and long double are printed with enough
 digits to restore the same value

---
 src/mr_stringify.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mr_stringify.c b/src/mr_stringify.c
index dbd0ac2..46c4dfc 100644
--- a/src/mr_stringify.c
+++ b/src/mr_stringify.c
@@ -2,6 +2,7 @@
 /* I hate this bloody country. Smash. */
 /* This file is a part of Metaresc project */
 
+#include <float.h>
 #include <math.h>
 #include <stdbool.h>
 
@@ -40,6 +41,20 @@ int mr_ra_printf_bool_default (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)
   int mr_ra_printf_ ## TYPE ## _default (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)	\
   { return (mr_ra_printf (mr_ra_str, TMPLT, *(TYPE *)ptrdes->data.ptr)); }
 
+/* number of digits sufficient for exact restoration of any value */
+#ifdef FLT_DECIMAL_DIG
+#undef MR_FLT_DIG
+#define MR_FLT_DIG FLT_DECIMAL_DIG
+#endif /* FLT_DECIMAL_DIG */
+#ifdef DBL_DECIMAL_DIG
+#undef MR_DBL_DIG
+#define MR_DBL_DIG DBL_DECIMAL_DIG
+#endif /* DBL_DECIMAL_DIG */
+#ifdef LDBL_DECIMAL_DIG
+#undef MR_LDBL_DIG
+#define MR_LDBL_DIG LDBL_DECIMAL_DIG
+#endif /* LDBL_DECIMAL_DIG */
+
 MR_RA_PRINTF_TMPLT (float, "%." MR_STRINGIFY_READONLY (MR_FLT_DIG) "g");
 MR_RA_PRINTF_TMPLT (double, "%." MR_STRINGIFY_READONLY (MR_DBL_DIG) "g");
 MR_RA_PRINTF_TMPLT (long_double_t, "%." MR_STRINGIFY_READONLY (MR_LDBL_DIG) "Lg");
-- 
2.43.0


From 1063f8827f848f859695012fdacc4f4beb1f26f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 08/40] fix: non-ASCII text survives the libxml2 round trip

---
 src/xml_save.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/xml_save.c b/src/xml_save.c
index 0018660..fa048c8 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -373,6 +373,36 @@ mr_xml1_save (mr_ra_ptrdes_t * ptrs)
 
 #ifdef HAVE_LIBXML2
 
+/* libxml2 keeps content as UTF-8, so valid multibyte sequences are passed as is, because
+   character references on individual bytes would be decoded as different characters */
+static int
+xml2_ra_printf_quote_string (mr_rarray_t * mr_ra_str, char * str)
+{
+  int count = 0;
+  bool is_utf8 = xmlCheckUTF8 (BAD_CAST str);
+  for ( ; *str; ++str)
+    if (is_utf8 && ((unsigned char)*str >= 0x80))
+      count += TRY_CATCH_THROW (mr_ra_append_char (mr_ra_str, *str));
+    else
+      count += TRY_CATCH_THROW (xml_ra_printf_quote_char (mr_ra_str, *str));
+  return (count);
+}
+
+static int
+xml2_ra_printf_char_array (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)
+{
+  char buffer[ptrdes->MR_SIZE + 1];
+  strncpy (buffer, ptrdes->data.ptr, ptrdes->MR_SIZE);
+  buffer[ptrdes->MR_SIZE] = 0;
+  return (xml2_ra_printf_quote_string (mr_ra_str, buffer));
+}
+
+static int
+xml2_ra_printf_string (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)
+{
+  return (xml2_ra_printf_quote_string (mr_ra_str, *(char**)ptrdes->data.ptr));
+}
+
 static mr_status_t
 xml2_save_node (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order, void * context)
 {
@@ -388,6 +418,11 @@ xml2_save_node (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t o
   if ((ptrs->ra[idx].mr_type >= 0) && (ptrs->ra[idx].mr_type < MR_TYPE_LAST))
     save_handler = xml_ra_printf_tbl[ptrs->ra[idx].mr_type];
   
+  if (MR_TYPE_STRING == ptrs->ra[idx].mr_type)
+    save_handler = xml2_ra_printf_string;
+  else if (MR_TYPE_CHAR_ARRAY == ptrs->ra[idx].mr_type)
+    save_handler = xml2_ra_printf_char_array;
+
   if (NULL == save_handler)
     {
       save_handler = mr_ra_printf_void;
-- 
2.43.0


From ae0f05ea6fb82af646894c53dcb674d187115f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 09/40] fix: item count of a hash collection when growing runs
 out of memory

---
 src/mr_ic.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 4478663..08b8ed3 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -551,7 +551,10 @@ mr_ic_hash_add (mr_ic_t * ic, mr_ptr_t key)
 	return (NULL);
       ++ic->items_count;
       if (MR_SUCCESS != mr_ic_hash_reindex (&dst_ic, ic))
-	return (NULL);
+	{
+	  --ic->items_count;
+	  return (NULL);
+	}
 
       mr_ic_free (ic);
       *ic = dst_ic;
-- 
2.43.0


From 7b13fbbd736564f798f3118468e7fd2a2e5dae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 10/40] fix: hash collections keep one of the elements equal to
 the zero key

---
 src/mr_ic.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 08b8ed3..7090ea3 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -454,6 +454,9 @@ mr_ic_hash_index_add (mr_ic_t * ic, mr_ptr_t key)
       
       if (0 == key.intptr)
 	{
+	  mr_ptr_t * find = mr_ic_hash_find (ic, key);
+	  if (NULL != find)
+	    return (find);
 	  ++ic->items_count;
 	  ic->hash.zero_key = true;
 	  ic->hash.hash_table[count].intptr = 0;
@@ -466,6 +469,8 @@ mr_ic_hash_index_add (mr_ic_t * ic, mr_ptr_t key)
 	{
 	  if (0 == ic->hash.hash_table[i].intptr)
 	    {
+	      if (ic->hash.zero_key && (0 == ic->compar_fn (key, ic->hash.hash_table[count], ic->context.data.ptr)))
+		return (&ic->hash.hash_table[count]);
 	      ++ic->items_count;
 	      ic->hash.hash_table[i] = key;
 	      return (&ic->hash.hash_table[i]);
-- 
2.43.0


From 4714ab25a7fe19c4c791391e7c58c25d1cdb0e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 11/40] fix: item count of empty tree collections

---
 src/mr_ic.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 7090ea3..3e542ad 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -854,11 +854,19 @@ mr_ic_static_array_new (mr_ic_t * ic, mr_hash_fn_t hash_fn, mr_compar_fn_t compa
 
 /* ----------------------- MR_IC_RBTREE ----------------------- */
 
+static inline unsigned
+mr_ic_tree_items_count (mr_tree_t * tree)
+{
+  /* pool has one extra slot for the root node, an empty tree might have no pool at all */
+  unsigned count = tree->size / sizeof (tree->pool[0]);
+  return ((count > 0) ? count - 1 : 0);
+}
+
 mr_ptr_t *
 mr_ic_rbtree_add (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_ptr_t * add = mr_rbtree_add (key, &ic->rb, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->rb.size / sizeof (ic->rb.pool[0]) - 1;
+  ic->items_count = mr_ic_tree_items_count (&ic->rb);
   return (add);
 }
 
@@ -866,7 +874,7 @@ mr_status_t
 mr_ic_rbtree_del (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_status_t status = mr_rbtree_del (key, &ic->rb, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->rb.size / sizeof (ic->rb.pool[0]) - 1;
+  ic->items_count = mr_ic_tree_items_count (&ic->rb);
   return (status);
 }
 
@@ -910,6 +918,7 @@ mr_ic_tree_index (mr_ic_t * ic, mr_ptr_t * rarray, size_t size)
   /* Add elements into the tree in the natuaral order. In case of equal elements only first will be added. */
   int i, count = size / sizeof (rarray[0]);
   mr_tree_reserve (&ic->tree, count, true);
+  ic->items_count = 0;
   for (i = 0; i < count; ++i)
     if (NULL == mr_ic_add (ic, rarray[i]))
       return (MR_FAILURE);
@@ -972,7 +981,7 @@ mr_ptr_t *
 mr_ic_avltree_add (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_ptr_t * add = mr_avltree_add (key, &ic->avl, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->avl.size / sizeof (ic->avl.pool[0]) - 1;
+  ic->items_count = mr_ic_tree_items_count (&ic->avl);
   return (add);
 }
 
@@ -980,7 +989,7 @@ mr_status_t
 mr_ic_avltree_del (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_status_t status = mr_avltree_del (key, &ic->avl, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->avl.size / sizeof (ic->avl.pool[0]) - 1;
+  ic->items_count = mr_ic_tree_items_count (&ic->avl);
   return (status);
 }
 
-- 
2.43.0


From 62b0a71c8647b806f8c349c6a872c8d0901a292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 12/40] fix: hash and comparison of char arrays do not read
 past their end

---
 src/mr_extra.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index a1b5256..cd80e5f 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -242,7 +242,7 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
       break;
 	  
     case MR_TYPE_CHAR_ARRAY:
-      ptrdes->res.data.uintptr = mr_hash_str ((char*)ptrdes->data.ptr);
+      ptrdes->res.data.uintptr = mr_hash_block (ptrdes->data.ptr, strnlen (ptrdes->data.ptr, ptrdes->MR_SIZE));
       break;
 	  
     case MR_TYPE_BOOL:
@@ -404,7 +404,7 @@ mr_cmp_structs (mr_ra_ptrdes_t * x, mr_ra_ptrdes_t * y)
 	  }
 	  
 	case MR_TYPE_CHAR_ARRAY:
-	  diff = strcmp (x_i->data.ptr, y_i->data.ptr);
+	  diff = strncmp (x_i->data.ptr, y_i->data.ptr, x_i->MR_SIZE);
 	  if (diff)
 	    return (diff);
 	  break;
-- 
2.43.0


From 05fa02b34838af5a1776ccb78de501bcd1944e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 13/40] fix: positive and negative zero have equal hashes as
 they compare equal

---
 src/mr_extra.c | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index cd80e5f..8d9b2da 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -255,31 +255,45 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
 	  mr_hash_block (ptrdes->data.ptr, sizeof (TYPE));	\
 	break;
 
-#define CASE_MR_FLOAT_TYPE_HASH(TYPE)					\
-      case MR_TYPE_DETECT (TYPE):					\
-	ptrdes->res.data.uintptr = __builtin_isnan (*(TYPE*)ptrdes->data.ptr) ? -1 : mr_hash_block (ptrdes->data.ptr, sizeof (TYPE)); \
-	break;
+/* negative zero is equal to positive zero and must have the same hash */
+#define MR_NORMALIZE_ZERO(VALUE) ({ if (0 == (VALUE)) (VALUE) = 0; })
+
+#define MR_FLOAT_HASH(VALUE, SIZE) ({					\
+      MR_NORMALIZE_ZERO (VALUE);					\
+      __builtin_isnan (VALUE) ? (mr_hash_value_t)-1 : mr_hash_block (&(VALUE), (SIZE)); \
+    })
+
+#define CASE_MR_FLOAT_TYPE_HASH(TYPE, SIZE)			\
+      case MR_TYPE_DETECT (TYPE):				\
+      {								\
+	TYPE value = *(TYPE*)ptrdes->data.ptr;			\
+	ptrdes->res.data.uintptr = MR_FLOAT_HASH (value, SIZE);	\
+	break;							\
+      }
 
 #define CASE_MR_COMPLEX_FLOAT_TYPE_HASH(TYPE)				\
       case MR_TYPE_DETECT (TYPE):					\
-	ptrdes->res.data.uintptr = (__builtin_isnan (__real__ *(TYPE*)ptrdes->data.ptr) || __builtin_isnan (__imag__ *(TYPE*)ptrdes->data.ptr)) ? -1 : mr_hash_block (ptrdes->data.ptr, sizeof (TYPE)); \
-	break;
+      {									\
+	TYPE value = *(TYPE*)ptrdes->data.ptr;				\
+	MR_NORMALIZE_ZERO (__real__ value);				\
+	MR_NORMALIZE_ZERO (__imag__ value);				\
+	ptrdes->res.data.uintptr = (__builtin_isnan (__real__ value) || __builtin_isnan (__imag__ value)) ? -1 : mr_hash_block (&value, sizeof (value)); \
+	break;								\
+      }
 
       MR_FOREACH (CASE_MR_TYPE_HASH, char, uint8_t, int8_t, uint16_t, int16_t, uint32_t, int32_t, uint64_t, int64_t, mr_uint128_t, mr_int128_t);
-      MR_FOREACH (CASE_MR_FLOAT_TYPE_HASH, float, double);
+      CASE_MR_FLOAT_TYPE_HASH (float, sizeof (float));
+      CASE_MR_FLOAT_TYPE_HASH (double, sizeof (double));
+      CASE_MR_FLOAT_TYPE_HASH (long_double_t, MR_SIZEOF_LONG_DOUBLE);
       MR_FOREACH (CASE_MR_COMPLEX_FLOAT_TYPE_HASH, complex_float_t, complex_double_t);
 	  
-    case MR_TYPE_LONG_DOUBLE:
-      ptrdes->res.data.uintptr = __builtin_isnan (*(long_double_t*)ptrdes->data.ptr) ? -1 : mr_hash_block (ptrdes->data.ptr, MR_SIZEOF_LONG_DOUBLE);
-      break;
-
     case MR_TYPE_COMPLEX_LONG_DOUBLE:
       {
-	long double * real = &__real__ *(complex long double *)ptrdes->data.ptr;
-	long double * imag = &__imag__ *(complex long double *)ptrdes->data.ptr;
+	long double real = __real__ *(complex long double *)ptrdes->data.ptr;
+	long double imag = __imag__ *(complex long double *)ptrdes->data.ptr;
 	ptrdes->res.data.uintptr =
-	  (__builtin_isnan (*real) || __builtin_isnan (*imag)) ? -1 :
-	  mr_hash_block (real, MR_SIZEOF_LONG_DOUBLE) + mr_hash_block (imag, MR_SIZEOF_LONG_DOUBLE);
+	  (__builtin_isnan (real) || __builtin_isnan (imag)) ? -1 :
+	  MR_FLOAT_HASH (real, MR_SIZEOF_LONG_DOUBLE) + MR_FLOAT_HASH (imag, MR_SIZEOF_LONG_DOUBLE);
       }
       break;
 	  
-- 
2.43.0


From 29c7baf289bdf8185b8b7d3fa137a93e41bf947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 14/40] fix: comparison of complex numbers with partial NaN is
 transitive

---
 src/mr_extra.c | 44 ++++++++++++++------------------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 8d9b2da..d715898 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -453,36 +453,20 @@ mr_cmp_structs (mr_ra_ptrdes_t * x, mr_ra_ptrdes_t * y)
 	    {								\
 	      TYPE _x = *(TYPE*)x_i->data.ptr;				\
 	      TYPE _y = *(TYPE*)y_i->data.ptr;				\
-	      bool rx_isnan = __builtin_isnan (__real__ _x);		\
-	      bool ix_isnan = __builtin_isnan (__imag__ _x);		\
-	      bool ry_isnan = __builtin_isnan (__real__ _y);		\
-	      bool iy_isnan = __builtin_isnan (__imag__ _y);		\
-	      if (((rx_isnan || ix_isnan)) && ((ry_isnan || iy_isnan)))	\
-		continue;						\
-	      if (!rx_isnan && !ry_isnan)				\
-		{							\
-		  diff = (__real__ _x > __real__ _y) - (__real__ _x < __real__ _y); \
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      else							\
-		{							\
-		  diff = !rx_isnan - !ry_isnan;				\
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      if (!ix_isnan && !iy_isnan)				\
-		{							\
-		  diff = (__imag__ _x > __imag__ _y) - (__imag__ _x < __imag__ _y); \
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      else							\
-		{							\
-		  diff = !ix_isnan - !iy_isnan;				\
-		  if (diff)						\
-		    return (diff);					\
-		}							\
+	      /* value is NaN if any of its parts is NaN */		\
+	      bool x_isnan = __builtin_isnan (__real__ _x) || __builtin_isnan (__imag__ _x); \
+	      bool y_isnan = __builtin_isnan (__real__ _y) || __builtin_isnan (__imag__ _y); \
+	      diff = !x_isnan - !y_isnan;				\
+	      if (diff)							\
+		return (diff);						\
+	      if (x_isnan)						\
+		break;							\
+	      diff = (__real__ _x > __real__ _y) - (__real__ _x < __real__ _y); \
+	      if (diff)							\
+		return (diff);						\
+	      diff = (__imag__ _x > __imag__ _y) - (__imag__ _x < __imag__ _y); \
+	      if (diff)							\
+		return (diff);						\
 	    }								\
 	    break;
 
-- 
2.43.0


From b00bf4c0a938bfd41db808adf4facce1ca982822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 15/40] fix: sorting of char arrays does not compare past their
 end

---
 src/mr_ic.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 3e542ad..02a73fc 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -76,9 +76,11 @@ static int MR_TYPE_CMP_FUNC_NAME (string_t) (const mr_ptr_t x, const mr_ptr_t y,
 
 static int MR_TYPE_CMP_FUNC_NAME (char_array) (const mr_ptr_t x, const mr_ptr_t y, const void * context)
 {
+  /* completely filled arrays have no terminating zero */
+  const size_t * size = context;
   char * _x = x.ptr;
   char * _y = y.ptr;
-  return (strcmp (_x, _y));
+  return (strncmp (_x, _y, *size));
 }
 
 static mr_compar_fn_t
@@ -108,7 +110,7 @@ mr_basic_types_sort (void * data, size_t count, char * key_type, mr_type_t mr_ty
       mr_compar_fn_t compar_fn = mr_type_compar_fn (mr_type);
       if (NULL == compar_fn)
 	return (MR_FAILURE);
-      mr_hsort (data, count, element_size, compar_fn, NULL);
+      mr_hsort (data, count, element_size, compar_fn, &element_size);
     }
   return (MR_SUCCESS);
 }
-- 
2.43.0


From 8de6ce08d2a0838cdc1cf85150baaca317835e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:15 +0000
Subject: [PATCH 16/40] fix: sorting of floating point arrays with NaN

---
 src/mr_ic.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 02a73fc..36b61a7 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -59,11 +59,25 @@ mr_generic_sort (void * data, size_t count, char * key_type)
     return ((*_x > *_y) - (*_x < *_y));					\
   }
 
+/* NaN is equal to itself and precedes all other values, as in comparison of structures */
+#define MR_FLOAT_TYPE_CMP_FUNC(TYPE)					\
+  static int MR_TYPE_CMP_FUNC_NAME (TYPE)				\
+       (const mr_ptr_t x, const mr_ptr_t y, const void * context)	\
+  {									\
+    TYPE * _x = x.ptr;							\
+    TYPE * _y = y.ptr;							\
+    if (__builtin_isnan (*_x) || __builtin_isnan (*_y))			\
+      return (!__builtin_isnan (*_x) - !__builtin_isnan (*_y));		\
+    return ((*_x > *_y) - (*_x < *_y));					\
+  }
+
 typedef void * void_ptr;
 
-#define MR_BASIC_TYPES char, bool, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, mr_int128_t, mr_uint128_t, float, double, long_double_t
+#define MR_BASIC_TYPES char, bool, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, mr_int128_t, mr_uint128_t
+#define MR_BASIC_FLOAT_TYPES float, double, long_double_t
 
 MR_FOREACH (MR_TYPE_CMP_FUNC, void_ptr, MR_BASIC_TYPES);
+MR_FOREACH (MR_FLOAT_TYPE_CMP_FUNC, MR_BASIC_FLOAT_TYPES);
 
 static int MR_TYPE_CMP_FUNC_NAME (string_t) (const mr_ptr_t x, const mr_ptr_t y, const void * context)
 {
@@ -92,7 +106,7 @@ mr_type_compar_fn (mr_type_t mr_type)
       [MR_TYPE_CHAR_ARRAY] = MR_TYPE_CMP_FUNC_NAME (char_array),
       [MR_TYPE_FUNC] = MR_TYPE_CMP_FUNC_NAME (void_ptr),
       [MR_TYPE_FUNC_TYPE] = MR_TYPE_CMP_FUNC_NAME (void_ptr),
-      MR_FOREACH (MR_TYPE_CMP_FUNC_ENTRY, string_t, MR_BASIC_TYPES)
+      MR_FOREACH (MR_TYPE_CMP_FUNC_ENTRY, string_t, MR_BASIC_TYPES, MR_BASIC_FLOAT_TYPES)
     };
 
   if ((mr_type >= 0) && (mr_type < MR_TYPE_LAST))
-- 
2.43.0


From 8b23a27b6ce0e2176b780aa430a39a0136faed43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 17/40] fix: unknown message numbers and severities do not read
 past the tables of names

---
 src/mr_message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mr_message.c b/src/mr_message.c
index d408e15..554eac1 100644
--- a/src/mr_message.c
+++ b/src/mr_message.c
@@ -64,7 +64,7 @@ mr_message_format (mr_message_id_t message_id, va_list args)
 	}
     }
 
-  if ((message_id <= sizeof (messages) / sizeof (messages[0])) && messages[message_id])
+  if ((message_id < sizeof (messages) / sizeof (messages[0])) && messages[message_id])
     format = messages[message_id];
 
   if (format)
@@ -99,7 +99,7 @@ mr_message (const char * file_name, const char * func_name, int line, mr_log_lev
 	{ MR_FOREACH (LL_INIT, ALL, TRACE, DEBUG, INFO, WARN, ERROR, FATAL, OFF) };
 
       if (((int)log_level >= 0)
-	  && ((int)log_level <= sizeof (log_level_str) / sizeof (log_level_str[0])))
+	  && ((int)log_level < sizeof (log_level_str) / sizeof (log_level_str[0])))
 	if (log_level_str[log_level])
 	  log_level_str_ = log_level_str[log_level];
 
-- 
2.43.0


From 606f89fdf911a39213851572fb142a11052c5b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 18/40] fix: offsets of bitfields within anonymous unions

---
 src/metaresc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metaresc.c b/src/metaresc.c
index 15b1fe2..314957f 100644
--- a/src/metaresc.c
+++ b/src/metaresc.c
@@ -843,6 +843,7 @@ mr_get_td_by_name (char * type)
 }
 
 static void mr_init_struct (mr_td_t * tdp); /* recursive call */
+static void mr_fd_init_bitfield_params (mr_fd_t * fdp);
 /**
  * Preprocessign of a new type. Anonymous unions should be extracted into new independant types.
  * @param tdp pointer on a new type descriptor
@@ -896,6 +897,8 @@ mr_anon_unions_extract (mr_td_t * tdp)
 	    tdp_->size = 0;
 	    for (j = 0; j < fields_count - 1; ++j)
 	      {
+		/* offset of the bitfield is within the whole structure and must be determined before it is reset to zero */
+		mr_fd_init_bitfield_params (fields[j]);
 		/* offset of union memebers may differ from offset of anonymous union place holder */
 		if (fields[j]->offset != 0) /* MR_VOID and MR_END_ANON_UNION has zero offset */
 		  fdp->offset = fields[j]->offset;
@@ -1144,7 +1147,7 @@ mr_get_enum_by_name (char * name)
 static void
 mr_fd_init_bitfield_params (mr_fd_t * fdp)
 {
-  if (fdp->stype.mr_type != MR_TYPE_BITFIELD)
+  if ((fdp->stype.mr_type != MR_TYPE_BITFIELD) && !fdp->stype.is_bitfield)
     return;
 
   int i, j;
-- 
2.43.0


From f29edd1969db2569d13cedbb1f3cb7e4b642e68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 19/40] fix: lookups of enumeration constants and fields by
 name before any other call

---
 src/metaresc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/metaresc.c b/src/metaresc.c
index 314957f..46493bd 100644
--- a/src/metaresc.c
+++ b/src/metaresc.c
@@ -1133,6 +1133,7 @@ mr_get_enum_by_value (mr_td_t * tdp, mr_enum_value_type_t value)
 mr_ed_t *
 mr_get_enum_by_name (char * name)
 {
+  mr_conf_init ();
   mr_hashed_string_t hashed_name = { .str = name, .hash_value = mr_hash_str (name), }; 
   uintptr_t key = (uintptr_t)&hashed_name - offsetof (mr_ed_t, name);
   mr_ptr_t * result = mr_ic_find (&mr_conf.enum_by_name, key);
@@ -1711,6 +1712,7 @@ mr_type_void_fields_impl (char * type, char * name, ...)
 mr_fd_t *
 mr_get_any_fd_by_name (const char * name, mr_td_t * tdp)
 {
+  mr_conf_init ();
   mr_fd_t fd_ = { .name.str = (char*)name, .name.hash_value = 0, .stype.tdp = tdp, };
   mr_ic_t * ic = tdp ? &mr_conf.field_by_name_and_type : &mr_conf.field_by_name;
   mr_ptr_t * find = mr_ic_find (ic, &fd_);
-- 
2.43.0


From f2cee70b363cfd7e79a8a77d0d5652db12634c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 20/40] fix: concurrent savings of functions corrupted the
 cache of their names

---
 src/mr_stringify.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mr_stringify.c b/src/mr_stringify.c
index 46c4dfc..a945781 100644
--- a/src/mr_stringify.c
+++ b/src/mr_stringify.c
@@ -298,10 +298,14 @@ mr_fn_cache_cleanup (void)
 
 const char * mr_serialize_func (void * func)
 {
+  const char * name = NULL;
 #ifdef HAVE_LIBDL
+  static bool cache_busy = false;
   mr_func_name_t * new_fn = NULL;
+  /* only one thread at a time works with the cache, others resolve the name without it */
+  bool use_cache = mr_conf.cache_func_resolve && !__atomic_test_and_set (&cache_busy, __ATOMIC_ACQUIRE);
 
-  if (mr_conf.cache_func_resolve)
+  if (use_cache)
     {
       intptr_t idx = ra_fn.size / sizeof (ra_fn.ra[0]);
 
@@ -325,7 +329,8 @@ const char * mr_serialize_func (void * func)
 	    if (add->intptr != idx)
 	      {
 		ra_fn.size -= sizeof (ra_fn.ra[0]);
-		return (ra_fn.ra[add->intptr].name);
+		name = ra_fn.ra[add->intptr].name;
+		goto unlock;
 	      }
 	}
     }
@@ -339,14 +344,18 @@ const char * mr_serialize_func (void * func)
 	  void * func_ = dlsym (RTLD_DEFAULT, info.dli_sname); /* try backward resolve. MAC OS X could resolve static functions, but can't make backward resolution */
 	  if (func_ == func)
 	    {
+	      name = info.dli_sname;
 	      if (new_fn)
 		new_fn->name = info.dli_sname;
-	      return (info.dli_sname);
 	    }
 	}
     }
+
+ unlock:
+  if (use_cache)
+    __atomic_clear (&cache_busy, __ATOMIC_RELEASE);
 #endif /* HAVE_LIBDL */
-  return (NULL);
+  return (name);
 }
 
 int mr_ra_append_char (mr_rarray_t * mr_ra_str, char c)
-- 
2.43.0


From 468729aaa74984114b8c44f92f0361d34a775a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 21/40] fix: names of constants were rejected while another
 thread measured the longest one

---
 src/mr_value.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mr_value.c b/src/mr_value.c
index 8d1b9bc..ef191df 100644
--- a/src/mr_value.c
+++ b/src/mr_value.c
@@ -74,9 +74,14 @@ enum_names_visitor (mr_ptr_t key, void * context)
 static char *
 mr_get_enum (char * str, mr_uintmax_t * data)
 {
-  static int enum_max_length = 0;
+  static volatile int max_length = 0;
+  int enum_max_length = max_length;
   if (0 == enum_max_length)
-    mr_ic_foreach (&mr_conf.enum_by_name, enum_names_visitor, &enum_max_length);
+    {
+      /* other threads should not see the length until all names are visited */
+      mr_ic_foreach (&mr_conf.enum_by_name, enum_names_visitor, &enum_max_length);
+      max_length = enum_max_length;
+    }
   
   char * name = str;
   int size = 0;
-- 
2.43.0


From cdf983e641203071084c1a6d6e936b5162a2e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:47 +0000
Subject: [PATCH 22/40] fix: tables of escape sequences were cleared while
 other threads used them

---
 src/cinit_load.y | 1 -
 src/json_load.y  | 1 -
 src/scm_load.y   | 1 -
 src/xml_save.c   | 1 -
 4 files changed, 4 deletions(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index 05e17fa..8a0a790 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -35,7 +35,6 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 
   if (!initialized)
     {
-      memset (map, 0, sizeof (map));
       for (i = 0; i < MR_ESC_CHAR_MAP_SIZE; ++i)
 	if (mr_esc_char_map[i])
 	  map[(unsigned char)mr_esc_char_map[i]] = i;
diff --git a/src/json_load.y b/src/json_load.y
index 55fe4ec..22f7671 100644
--- a/src/json_load.y
+++ b/src/json_load.y
@@ -34,7 +34,6 @@ json_unquote_str (mr_substr_t * substr, char * dst)
 
   if (!initialized)
     {
-      memset (map, 0, sizeof (map));
       for (i = 0; i < MR_ESC_CHAR_MAP_SIZE; ++i)
 	if (mr_esc_char_map[i])
 	  map[(unsigned char)mr_esc_char_map[i]] = i;
diff --git a/src/scm_load.y b/src/scm_load.y
index eb00b4c..675029e 100644
--- a/src/scm_load.y
+++ b/src/scm_load.y
@@ -37,7 +37,6 @@
 
     if (!initialized)
       {
-	memset (map, 0, sizeof (map));
 	for (i = 0; i < MR_ESC_CHAR_MAP_SIZE; ++i)
 	  if (mr_esc_char_map[i])
 	    map[(unsigned char)mr_esc_char_map[i]] = i;
diff --git a/src/xml_save.c b/src/xml_save.c
index fa048c8..83b81d5 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -55,7 +55,6 @@ xml_unquote_string (mr_substr_t * substr, char * dst)
   
   if (!inited)
     {
-      memset (esc_seq_hash, 0, sizeof (esc_seq_hash));
       for (i = 0; i < sizeof (esc_seq_hash) / sizeof (esc_seq_hash[0]); ++i)
 	if (esc_char_map[i])
 	  {
-- 
2.43.0


From b6347e53b1fb0bb87119aa329fb95367eec7caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 23/40] fix: depth-first traversal from a leaf entry continued
 beyond it

---
 src/mr_save.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mr_save.c b/src/mr_save.c
index c2f6190..b4ad765 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -1254,6 +1254,8 @@ mr_ptrs_dfs_impl (mr_ra_ptrdes_t * ptrs, mr_ptrdes_processor_t processor, mr_ptr
 	{
 	  if (MR_SUCCESS != processor (ptrs, idx, level, MR_DFS_POST_ORDER, context))
 	    return (MR_FAILURE);
+	  if (idx == start)
+	    return (MR_SUCCESS);
 	  while ((ptrs->ra[idx].next == MR_NULL_IDX) && (ptrs->ra[idx].parent != MR_NULL_IDX))
 	    {
 	      idx = ptrs->ra[idx].parent;
-- 
2.43.0


From 0e32e1b3690e0a0ca5fb4c884a0297942be01a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:56 +0000
Subject: [PATCH 24/40] fix: reordering strings lost the mark of string
 variables that pointers refer to

---
 src/mr_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index b4ad765..f15cbc2 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -1288,7 +1288,7 @@ mr_reorder_strings_visitor (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_d
 	  ptrs->ra[idx].flags |= MR_IS_REFERENCED;
 	  ptrs->ra[idx].flags &= ~MR_IS_CONTENT_REFERENCE;
 	  ptrs->ra[ref_idx].first_child = idx;
-	  ptrs->ra[ref_idx].flags &= ~MR_IS_REFERENCED;
+	  /* MR_IS_REFERENCED has to stay, the string variable itself may be a target of another pointer */
 	  ptrs->ra[ref_idx].flags |= MR_IS_CONTENT_REFERENCE;
 	}
     }
-- 
2.43.0


From e51cc435bf26b6bf57dfcbc3f7f955255abd3b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 25/40] fix: saving fails when memory for discriminators of
 unions is exhausted

A union that was not resolved because of a failed allocation was saved as
empty or with a default branch, and the saving reported success.
---
 src/mr_protos.h |  1 +
 src/mr_save.c   | 30 +++++++++++++++++++++++-------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/mr_protos.h b/src/mr_protos.h
index ea006ca..4ace4e6 100644
--- a/src/mr_protos.h
+++ b/src/mr_protos.h
@@ -628,6 +628,7 @@ TYPEDEF_STRUCT (mr_save_data_t, ATTRIBUTES ( , "save routines data and lookup st
 		(mr_union_discriminator_t *, mr_ra_ud, , "allocation of union discriminators",
 		{ .offset = offsetof (mr_save_data_t, mr_ra_ud_size) }, "offset"),
 		VOID (ssize_t, mr_ra_ud_alloc_size, , "allocated size of 'mr_ra_ud'"),
+		(bool, failed, , "resolution of some union failed"),
 		)
 
 TYPEDEF_FUNC (int, mr_ra_printf_t, (mr_rarray_t *, mr_ptrdes_t *))
diff --git a/src/mr_save.c b/src/mr_save.c
index f15cbc2..13004aa 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -303,6 +303,7 @@ mr_ud_add (mr_ud_set_t * uds, mr_ptr_t key, mr_save_data_t * mr_save_data)
       status = mr_ic_index (dst_ic, idx, sizeof (idx));
       if (MR_SUCCESS != status)
 	{
+	  mr_ic_free (dst_ic);
 	  MR_FREE (dst_ic);
 	  return (-1);
 	}
@@ -372,7 +373,10 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
 				   sizeof (mr_save_data->mr_ra_ud[0]));
   /* create a record for further lookups in parent nodes for discriminator value */
   if (NULL == ud)
-    return (NULL);
+    {
+      mr_save_data->failed = true;
+      return (NULL);
+    }
 
   memset (ud, 0, sizeof (*ud));
   /* this record is only for lookups and there is no guarantee that parents already have union resolution info */
@@ -381,6 +385,7 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
   if ((ud_idx >> __CHAR_BIT__) >= (1UL << (__CHAR_BIT__ * (sizeof (MR_RA_UD_IDX_TYPE) - 1))))
     {
       MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_TOO_MANY_UD, MR_STRINGIFY_READONLY (MR_RA_UD_IDX_TYPE));
+      mr_save_data->failed = true;
       return (NULL);
     }
   ud->union_fdp = union_fdp; /* union field descriptor */
@@ -427,7 +432,10 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
       ud->discriminated_fdp = fdp;
       mr_ptr_t * add = mr_ic_add (&mr_save_data->union_discriminators, ud_idx);
       if (NULL == add)
-	return (NULL);
+	{
+	  mr_save_data->failed = true;
+	  return (NULL);
+	}
       if (add->uintptr == ud_idx)
 	/* union discriminator info was not found in the set so we add new record */
 	mr_save_data->mr_ra_ud_size += sizeof (mr_save_data->mr_ra_ud[0]);
@@ -441,7 +449,10 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
   /* add union discriminator information to all parents which doesn't have it yet */
   for (idx = node; idx != parent; idx = mr_save_data->ptrs.ra[idx].parent)
     if (-1 == mr_ud_add (&mr_save_data->ptrs.ra[idx].save_params.ud_set, ud_find, mr_save_data))
-      return (NULL);
+      {
+	mr_save_data->failed = true;
+	return (NULL);
+      }
 
   return (fdp);
 }
@@ -1483,15 +1494,18 @@ resolve_void_ptr_and_strings (mr_save_data_t * mr_save_data, mr_idx_t idx)
  * Set indexes to nodes according to DFS saving sequence.
  * Adjust primary etries for strings to be first in DFS sequence.
  * @param mr_save_data save routines data and lookup structures
+ * @return status
  */
-static void
+static mr_status_t
 mr_post_process (mr_save_data_t * mr_save_data)
 {
   mr_idx_t i, count = mr_save_data->ptrs.size / sizeof (mr_save_data->ptrs.ra[0]);
   for (i = 1; i < count; ++i)
-    resolve_void_ptr_and_strings (mr_save_data, i);
+    if (MR_SUCCESS != resolve_void_ptr_and_strings (mr_save_data, i))
+      return (MR_FAILURE);
   i = 1;
   mr_ptrs_dfs (&mr_save_data->ptrs, mr_renumber_node, &i); /* enumeration of nodes should be done only after strings processing */
+  return (MR_SUCCESS);
 }
 
 /**
@@ -1592,13 +1606,15 @@ mr_save (void * data, mr_fd_t * fdp)
 	      break;
 	  }
       if (nodes_added > 0)
-	mr_post_process (&mr_save_data);
+	if (MR_SUCCESS != mr_post_process (&mr_save_data))
+	  nodes_added = 0;
     }
 
   for (i = mr_save_data.ptrs.size / sizeof (mr_save_data.ptrs.ra[0]) - 1; i > 0; --i)
     mr_ud_free (&mr_save_data.ptrs.ra[i].save_params.ud_set);
 
-  if ((nodes_added == 0) && (mr_save_data.ptrs.ra != NULL))
+  /* unions might be resolved incorrectly if memory allocation failed */
+  if (((nodes_added == 0) || mr_save_data.failed) && (mr_save_data.ptrs.ra != NULL))
     {
       MR_FREE (mr_save_data.ptrs.ra);
       mr_save_data.ptrs.ra = NULL;
-- 
2.43.0


From cfcd4f0d2bf95c8a3e2e31bae35380e9106a087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 26/40] fix: libxml2 saving returned an incomplete document
 after a failed allocation

---
 src/xml_save.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/xml_save.c b/src/xml_save.c
index 83b81d5..9457eb7 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -506,11 +506,21 @@ mr_xml2_save (mr_ra_ptrdes_t * ptrs)
       ptrs->res.data.ptr = doc;
       ptrs->res.type = NULL;
 
-      mr_ptrs_dfs (ptrs, xml2_save_node, &mr_ra_str);
-      
-      if (ptrs->size >= 2 * sizeof (ptrs->ra[0]))
+      mr_size_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
+      for (i = 1; i < count; ++i)
+	ptrs->ra[i].res.data.ptr = NULL;
+
+      mr_status_t status = mr_ptrs_dfs (ptrs, xml2_save_node, &mr_ra_str);
+
+      if (count > 1)
 	if (NULL != ptrs->ra[1].res.data.ptr)
 	  xmlDocSetRootElement (doc, ptrs->ra[1].res.data.ptr);
+
+      if (MR_SUCCESS != status) /* document is incomplete */
+	{
+	  xmlFreeDoc (doc);
+	  doc = NULL;
+	}
     }
 
   if (mr_ra_str.data.ptr)
-- 
2.43.0


From 6a6cfd59596250fe15faec4509f4504d3fff1dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 27/40] fix: YAML loading lost references when memory was
 exhausted

---
 src/yaml_load.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/yaml_load.c b/src/yaml_load.c
index bc670b7..76246dc 100644
--- a/src/yaml_load.c
+++ b/src/yaml_load.c
@@ -1,7 +1,7 @@
 #include <yaml.h>
 #include <metaresc.h>
 
-static void
+static mr_status_t
 add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
 {
   mr_idx_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
@@ -14,7 +14,10 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
 
   table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
   if (NULL == table)
-    return;
+    {
+      MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
+      return (MR_FAILURE);
+    }
 
   for (i = 1; i < count; ++i)
     if (ptrs->ra[i].idx != MR_NULL_IDX)
@@ -35,6 +38,7 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
     }
   
   MR_FREE (table);
+  return (MR_SUCCESS);
 }
 
 static mr_status_t
@@ -218,8 +222,9 @@ mr_yaml_load (char * str, mr_ra_ptrdes_t * ptrs)
     }
 
   if (MR_SUCCESS == status)
-    add_missed_crossrefs (ptrs);
-  else
+    status = add_missed_crossrefs (ptrs);
+
+  if (MR_SUCCESS != status)
     mr_free_load_values (ptrs);
 
   return (status);
-- 
2.43.0


From 4469d4f2a89a63172d446f16c2b3fa385fc97dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 28/40] fix: failed XDR loading leaked everything loaded before
 the failure

---
 src/xdr.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/xdr.c b/src/xdr.c
index 389875d..a826d8e 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -318,6 +318,25 @@ xdr_load_inner (void * data, mr_fd_t * fdp, XDR * xdrs, mr_ra_ptrdes_t * ptrs, m
   return (status);
 }
 
+/**
+ * Free memory allocated by incomplete load. References don't own memory and only reset.
+ * @param ptrs array with descriptor of loaded data
+ */
+static void
+mr_free_loaded (mr_ra_ptrdes_t * ptrs)
+{
+  mr_idx_t i;
+  /* content of pointers goes after pointers and should be released first */
+  for (i = ptrs->size / sizeof (ptrs->ra[0]) - 1; i > 0; --i)
+    if ((MR_TYPE_POINTER == ptrs->ra[i].mr_type) || (MR_TYPE_STRING == ptrs->ra[i].mr_type))
+      {
+	void ** data = ptrs->ra[i].data.ptr;
+	if (!(ptrs->ra[i].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)) && (*data != NULL))
+	  MR_FREE (*data);
+	*data = NULL;
+      }
+}
+
 mr_status_t
 mr_xdr_load (void * data, mr_fd_t * fdp, XDR * xdrs)
 {
@@ -333,10 +352,12 @@ mr_xdr_load (void * data, mr_fd_t * fdp, XDR * xdrs)
     return (MR_FAILURE);
 
   mr_status_t status = xdr_load_inner (data, fdp, xdrs, &ptrs, 0);
-  mr_status_t crossref_status = mr_set_crossrefs (&ptrs);
 
   if (MR_SUCCESS == status)
-    status = crossref_status;
+    status = mr_set_crossrefs (&ptrs);
+
+  if (MR_SUCCESS != status)
+    mr_free_loaded (&ptrs);
 
   if (ptrs.ra != NULL)
     MR_FREE (ptrs.ra);
@@ -618,6 +639,8 @@ xdr_save_string (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 static mr_status_t
 xdr_load_string (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 {
+  *(char**)ptrs->ra[idx].data.ptr = NULL;
+
   if (!xdr_uint8_t (xdrs, (uint8_t*)&ptrs->ra[idx].flags))
     return (MR_FAILURE);
 
@@ -630,16 +653,11 @@ xdr_load_string (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       return (MR_SUCCESS);
     }
   else if (ptrs->ra[idx].flags & MR_IS_NULL)
-    {
-      char ** str = ptrs->ra[idx].data.ptr;
-      *str = NULL;
-      return (MR_SUCCESS);
-    }
+    return (MR_SUCCESS);
   else
     {
       char ** str = ptrs->ra[idx].data.ptr;
       uint32_t size = 0;
-      *str = NULL;
       if (!xdr_uint32_t (xdrs, &size))
 	return (MR_FAILURE);
       *str = MR_CALLOC (size + 1, sizeof (**str));
@@ -746,9 +764,11 @@ xdr_load_union (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  else
 	    status = xdr_load_inner (data + fdp->offset, fdp, xdrs, ptrs, idx);
 	}
-      MR_FREE (discriminator);
     }
 
+  if (discriminator != NULL)
+    MR_FREE (discriminator);
+
   return (status);
 }
 
-- 
2.43.0


From 0c3bcd5fdaa9e4eeac66aa506638cf463e333357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 29/40] fix: cleanup of a failed copy released memory of
 pointers that are references

---
 src/mr_extra.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index d715898..ac87299 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -185,6 +185,8 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
     if ((MR_TYPE_STRING == ptrs->ra[i].mr_type) && (ptrs->ra[i].res.type != NULL))
       MR_FREE (ptrs->ra[i].res.type);
     else if ((MR_TYPE_POINTER == ptrs->ra[i].mr_type) &&
+	     (ptrs->ra[i].idx != MR_NULL_IDX) &&
+	     !(ptrs->ra[i].flags & (MR_IS_NULL | MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)) && /* references don't own memory */
 	     (ptrs->ra[i].first_child != MR_NULL_IDX))
       if (ptrs->ra[ptrs->ra[i].first_child].res.data.ptr != NULL)
 	{
-- 
2.43.0


From cc799252a1e6edab9316f98333eb1a93c4c6a550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:56 +0000
Subject: [PATCH 30/40] fix: reference of a wrong type in a document was
 resolved to memory of another type

Index of a reference comes from a document and could denote any node, or be
large enough to overflow the size of the lookup table.
---
 src/mr_load.c | 102 +++++++++++++++++++++++++++++++++++++++++++++++++-
 src/mr_load.h |   1 +
 2 files changed, 102 insertions(+), 1 deletion(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 38c9a22..fa4f7b9 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -19,6 +19,100 @@
 
 TYPEDEF_FUNC (mr_status_t, mr_load_handler_t, (mr_idx_t /* idx */, mr_ra_ptrdes_t * /* ptrs */));
 
+/**
+ * Checks that reference may be substituted with an address of a target node (or with a pointer kept
+ * in the target node for a reference on a content). Reference and its target are both came from an input data.
+ * @param ptrs array with descriptor of loaded data
+ * @param idx index of a node with reference
+ * @param ref_idx index of a target node
+ * @return true if target has a type that is expected by reference.
+ */
+bool
+mr_is_ref_type_valid (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, mr_idx_t ref_idx)
+{
+  mr_ptrdes_t * src = &ptrs->ra[idx];
+  mr_ptrdes_t * dst = &ptrs->ra[ref_idx];
+  mr_type_t src_type = (MR_TYPE_STRING == src->mr_type) ? MR_TYPE_CHAR_ARRAY : src->mr_type_aux;
+  mr_type_t dst_type = dst->mr_type;
+
+  if (NULL == dst->data.ptr)
+    return (false);
+
+  if (src->flags & MR_IS_CONTENT_REFERENCE)
+    switch (dst->mr_type)
+      {
+      case MR_TYPE_STRING:
+	dst_type = MR_TYPE_CHAR_ARRAY;
+	break;
+      case MR_TYPE_POINTER:
+	dst_type = dst->mr_type_aux;
+	break;
+      default:
+	return (false);
+      }
+  else
+    {
+      /* size of resizable array is known only for pointers with a field for the size, for other pointers only the first element might be referenced */
+      mr_idx_t parent, node = ref_idx;
+      for (parent = ptrs->ra[node].parent; parent != MR_NULL_IDX; parent = ptrs->ra[node].parent)
+	{
+	  if (MR_TYPE_POINTER == ptrs->ra[parent].mr_type)
+	    {
+	      mr_ptrdes_t size_ptrdes;
+	      if (ptrs->ra[parent].first_child == node)
+		break;
+	      if (NULL == ptrs->ra[parent].fdp)
+		return (false);
+	      mr_pointer_get_size_ptrdes (&size_ptrdes, parent, ptrs);
+	      if (NULL == size_ptrdes.data.ptr)
+		return (false);
+	      break;
+	    }
+	  node = parent;
+	}
+    }
+
+  switch (src_type)
+    {
+    case MR_TYPE_NONE:
+    case MR_TYPE_VOID:
+      return (true);
+
+    case MR_TYPE_CHAR_ARRAY:
+      /* strings have to be null-terminated, fixed size character array might be not */
+      if ((MR_TYPE_CHAR_ARRAY == dst->mr_type) && (MR_TYPE_POINTER != ptrs->ra[dst->parent].mr_type))
+	{
+	  /* elements of arrays have no descriptor of their own, they refer to descriptor of pointers on their type */
+	  mr_size_t size = 0;
+	  if (dst->fdp)
+	    {
+	      if (MR_TYPE_CHAR_ARRAY == dst->fdp->stype.mr_type)
+		size = dst->fdp->stype.size;
+	      else if (dst->fdp->stype.tdp)
+		size = dst->fdp->stype.tdp->size;
+	    }
+	  if (NULL == memchr (dst->data.ptr, 0, size))
+	    return (false);
+	}
+      break;
+
+    case MR_TYPE_STRUCT:
+    case MR_TYPE_ENUM:
+    case MR_TYPE_UNION:
+    case MR_TYPE_ANON_UNION:
+    case MR_TYPE_NAMED_ANON_UNION:
+    case MR_TYPE_POINTER:
+      if ((NULL == src->fdp) || (NULL == dst->fdp) || (src->fdp->stype.tdp != dst->fdp->stype.tdp))
+	return (false);
+      break;
+
+    default:
+      break;
+    }
+
+  return (src_type == dst_type);
+}
+
 /**
  * Post load references setting. If node was marked as references
  * it should be substitute with actual pointer. This substition
@@ -37,7 +131,7 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
     if (ptrs->ra[i].idx > max_idx)
       max_idx = ptrs->ra[i].idx;
 
-  table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
+  table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
   if (NULL == table)
     {
       MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
@@ -79,6 +173,12 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
 	    continue;
 	  }
 
+	if (!mr_is_ref_type_valid (ptrs, i, idx))
+	  {
+	    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[idx].mr_type);
+	    continue;
+	  }
+
 	if (ptrs->ra[i].flags & MR_IS_CONTENT_REFERENCE)
 	  {
 	    if (NULL == data)
diff --git a/src/mr_load.h b/src/mr_load.h
index 6d8ebd6..f7ea2a0 100644
--- a/src/mr_load.h
+++ b/src/mr_load.h
@@ -5,6 +5,7 @@
 
 extern mr_status_t mr_load_integer (mr_idx_t, mr_ra_ptrdes_t *);
 extern mr_status_t mr_load_func (mr_idx_t, mr_ra_ptrdes_t *);
+extern bool mr_is_ref_type_valid (mr_ra_ptrdes_t *, mr_idx_t, mr_idx_t);
 extern void mr_pointer_set_size (mr_idx_t, mr_ra_ptrdes_t *);
 
 #endif /* _MR_LOAD_H_ */
-- 
2.43.0


From 93e4001f63f9d09e67331cd25463e9f7eb403ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:38 +0000
Subject: [PATCH 31/40] fix: references on structures and arrays in a document
 were followed as nested nodes

---
 src/metaresc.c | 10 +++++++++-
 src/mr_load.c  | 14 ++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/metaresc.c b/src/metaresc.c
index 46493bd..add5b2d 100644
--- a/src/metaresc.c
+++ b/src/metaresc.c
@@ -629,7 +629,7 @@ mr_last_child_for_parent (mr_ra_ptrdes_t * ptrs, mr_idx_t parent)
 
   mr_idx_t last_child = ptrs->last_child;
   mr_ptrdes_t * ra = ptrs->ra;
-  if (MR_NULL_IDX == ra[parent].first_child)
+  if ((MR_NULL_IDX == ra[parent].first_child) || (ra[parent].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)))
     return (MR_NULL_IDX);
 
   while ((last_child != MR_NULL_IDX) && (ra[last_child].parent != parent))
@@ -652,6 +652,14 @@ void
 mr_add_child (mr_ra_ptrdes_t * ptrs, mr_idx_t parent, mr_idx_t child)
 {
   mr_ptrdes_t * ra = ptrs->ra;
+
+  /* for references first_child is an index of reference, so nodes nested into a reference are not linked */
+  if ((parent != MR_NULL_IDX) && (ra[parent].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)))
+    {
+      ra[child].parent = parent;
+      return;
+    }
+
   mr_idx_t last_child = mr_last_child_for_parent (ptrs, parent);
 
   ptrs->last_child = child;
diff --git a/src/mr_load.c b/src/mr_load.c
index fa4f7b9..4fa58fa 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -689,6 +689,13 @@ mr_load_struct (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       return (MR_FAILURE);
     }
 
+  /* only pointers and strings may be references, for them first_child is an index of reference */
+  if (ptrs->ra[idx].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE))
+    {
+      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[idx].mr_type);
+      return (MR_FAILURE);
+    }
+
   /* loop on all subnodes */
   for (idx = first_child; (MR_SUCCESS == status) && (idx != MR_NULL_IDX); idx = ptrs->ra[idx].next)
     {
@@ -724,6 +731,13 @@ mr_load_array (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
   mr_status_t status = MR_SUCCESS;
   mr_idx_t i, count = fd_.stype.dim.dim[0];
 
+  /* only pointers and strings may be references, for them first_child is an index of reference */
+  if (ptrs->ra[idx].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE))
+    {
+      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[idx].mr_type);
+      return (MR_FAILURE);
+    }
+
   if (0 == count)
     {
       if (ptrs->ra[idx].first_child != MR_NULL_IDX)
-- 
2.43.0


From 358f06cea5acd92b8f14b40b5ecfd343f1a861a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:30 +0000
Subject: [PATCH 32/40] fix: unquoting of an incomplete XML escape sequence
 read and wrote out of bounds

---
 src/xml_save.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/xml_save.c b/src/xml_save.c
index 9457eb7..e2e8f8f 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -73,18 +73,18 @@ xml_unquote_string (mr_substr_t * substr, char * dst)
     else
       {
 	char esc[ESC_SIZE + 1];
-	strncpy (esc, &substr->str[i], sizeof (esc) - 1);
+	size_t esc_length = MR_MIN (substr->length - i, sizeof (esc) - 1);
+	memcpy (esc, &substr->str[i], esc_length);
+	esc[esc_length] = 0;
 	char * semicolon = strchr (esc, ';');
 	if (semicolon)
 	  semicolon[1] = 0;
-	else
-	  esc[sizeof (esc) - 1] = 0;
 	
-	if ('#' == substr->str[i + 1])
+	if ('#' == esc[1])
 	  {
 	    int32_t code = 0;
 	    int size = 0;
-	    if (1 != sscanf (&substr->str[i], XML_QUOTE_CHAR_PATTERN "%n", &code, &size))
+	    if ((1 != sscanf (esc, XML_QUOTE_CHAR_PATTERN "%n", &code, &size)) || (0 == size))
 	      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_WRONG_XML_ESC, esc);
 	    else
 	      {
@@ -95,11 +95,9 @@ xml_unquote_string (mr_substr_t * substr, char * dst)
 	else
 	  {
 	    bool found = false;
-	    unsigned char hash = tolower (substr->str[i + 1]);
+	    unsigned char hash = tolower ((unsigned char)esc[1]);
 	    if (esc_seq_hash[hash].esc_seq)
-	      if (0 == strncasecmp (&substr->str[i + 2],
-				    &esc_seq_hash[hash].esc_seq[2],
-				    esc_seq_hash[hash].length - 2))
+	      if (0 == strncasecmp (&esc[2], &esc_seq_hash[hash].esc_seq[2], esc_seq_hash[hash].length - 2))
 		{
 		  dst[length++] = esc_seq_hash[hash].symbol;
 		  i += esc_seq_hash[hash].length - 1; /* one more increase in the loop */
-- 
2.43.0


From f94068f90aad4035a44cc265f8d7da2de2fd7f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 33/40] fix: repeated fields in a document leaked memory and
 broke members of unions

---
 src/mr_load.c   | 15 +++++++++++++++
 src/mr_protos.h |  1 +
 2 files changed, 16 insertions(+)

diff --git a/src/mr_load.c b/src/mr_load.c
index 4fa58fa..3e676fe 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -696,6 +696,9 @@ mr_load_struct (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       return (MR_FAILURE);
     }
 
+  bool is_union = (MR_TYPE_UNION == tdp->mr_type) || (MR_TYPE_ANON_UNION == tdp->mr_type) || (MR_TYPE_NAMED_ANON_UNION == tdp->mr_type);
+  mr_idx_t prev;
+
   /* loop on all subnodes */
   for (idx = first_child; (MR_SUCCESS == status) && (idx != MR_NULL_IDX); idx = ptrs->ra[idx].next)
     {
@@ -710,6 +713,17 @@ mr_load_struct (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  continue;
 	}
 
+      /* each field might be loaded only once, and only one member of a union might be loaded */
+      for (prev = first_child; prev != idx; prev = ptrs->ra[prev].next)
+	if ((ptrs->ra[prev].fdp != NULL) && (is_union || (ptrs->ra[prev].fdp == fdp)))
+	  break;
+      if (prev != idx)
+	{
+	  MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_DUPLICATED_SUBNODE, tdp->type.str, fdp->name.str);
+	  status = MR_FAILURE;
+	  continue;
+	}
+
       /* recursively load subnode */
       status = mr_load (&data[fdp->offset], fdp, idx, ptrs);
     }
@@ -907,6 +921,7 @@ mr_load_anon_union (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
     if (NULL == ptrs->ra[ptrdes->next].fdp) /* there should be a next node without name */
       {
 	ptrs->ra[ptrdes->next].fdp = ptrdes->fdp;
+	ptrdes->fdp = NULL; /* this node has no content, it only names the next one */
 	return (MR_SUCCESS); /* now next node has a name and will be loaded by top level procedure */
       }
   return (mr_load_struct (idx, ptrs));
diff --git a/src/mr_protos.h b/src/mr_protos.h
index 4ace4e6..27988a2 100644
--- a/src/mr_protos.h
+++ b/src/mr_protos.h
@@ -52,6 +52,7 @@ TYPEDEF_ENUM (mr_message_id_t, ATTRIBUTES ( , "Messages enum. Message string sav
 	      (MR_MESSAGE_READ_FUNC, , "Can't read function address from string `%s`."),
 	      (MR_MESSAGE_STRING_TRUNCATED, , "Char array range check: string truncated."),
 	      (MR_MESSAGE_UNKNOWN_SUBNODE, , "Struct type '%s': unknown subnode '%s'."),
+	      (MR_MESSAGE_DUPLICATED_SUBNODE, , "Struct type '%s': duplicated subnode '%s'."),
 	      (MR_MESSAGE_SAVE_IDX_RANGE_CHECK, , "Save node index is out of range."),
 	      (MR_MESSAGE_NODE_NAME_MISSMATCH, , "Node name mismatch: expected '%s' got '%s'."),
 	      (MR_MESSAGE_NODE_TYPE_MISSMATCH, , "Node '%s' type mismatch: expected '%s' got '%s'."),
-- 
2.43.0


From dafe35382a3598e8a369ff72ef819abad828eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:23 +0000
Subject: [PATCH 34/40] fix: XDR loading trusted sizes, flags and references of
 a stream

---
 src/xdr.c | 55 ++++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/xdr.c b/src/xdr.c
index a826d8e..e3fb2f6 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -250,7 +250,7 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
     if (ptrs->ra[i].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE))
       {
 	mr_idx_t ref_idx = ptrs->ra[i].first_child;
-	if (ref_idx >= count)
+	if ((MR_NULL_IDX == ref_idx) || (ref_idx >= count))
 	  {
 	    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNDEFINED_REF_IDX, "ref_idx", ref_idx);
 	    status = MR_FAILURE;
@@ -267,6 +267,13 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
 		continue;
 	      }
 
+	    if (!mr_is_ref_type_valid (ptrs, i, ref_idx))
+	      {
+		MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[ref_idx].mr_type);
+		status = MR_FAILURE;
+		continue;
+	      }
+
 	    if (ptrs->ra[i].flags & MR_IS_CONTENT_REFERENCE)
 	      {
 		if (NULL == data)
@@ -315,6 +322,9 @@ xdr_load_inner (void * data, mr_fd_t * fdp, XDR * xdrs, mr_ra_ptrdes_t * ptrs, m
   else
     MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNSUPPORTED_NODE_TYPE, fdp->stype.mr_type);
 
+  if (fdp->non_persistent)
+    ptrs->ra[idx].fdp = fdp->stype.tdp ? &fdp->stype.tdp->mr_ptr_fd : NULL;
+
   return (status);
 }
 
@@ -584,17 +594,37 @@ xdr_char_array_ (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
   if (!xdr_uint32_t (xdrs, &str_len))
     return (MR_FAILURE);
 
-  if ((XDR_DECODE == xdrs->x_op) && (str_len > sizeof (char)) && is_a_dynamic_string)
+  if (XDR_ENCODE == xdrs->x_op)
+    return (xdr_opaque (xdrs, ptrs->ra[idx].data.ptr, str_len) ? MR_SUCCESS : MR_FAILURE);
+
+  typeof (ptrdes->MR_SIZE) max_size = ptrdes->fdp ? ptrdes->fdp->stype.size : 0;
+  if (is_a_dynamic_string && (max_size < sizeof (char)))
+    max_size = sizeof (char);
+
+  if (str_len > max_size)
     {
+      /* only a single string may be reallocated */
+      if (!is_a_dynamic_string || (ptrs->ra[parent].MR_SIZE > max_size))
+	{
+	  MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_STRING_TRUNCATED);
+	  return (MR_FAILURE);
+	}
       void * data = MR_REALLOC (ptrs->ra[idx].data.ptr, str_len);
       if (NULL == data)
 	{
 	  MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
 	  return (MR_FAILURE);
 	}
-      *(void**)ptrs->ra[idx - 1].data.ptr = ptrs->ra[idx].data.ptr = data;
+      *(void**)ptrs->ra[parent].data.ptr = ptrs->ra[idx].data.ptr = data;
     }
-  return (xdr_opaque (xdrs, ptrs->ra[idx].data.ptr, str_len) ? MR_SUCCESS : MR_FAILURE);
+
+  if (!xdr_opaque (xdrs, ptrs->ra[idx].data.ptr, str_len))
+    return (MR_FAILURE);
+  
+  if (is_a_dynamic_string && (str_len > 0))
+    ptrs->ra[idx].data.string[str_len - 1] = 0; /* dynamic strings are always null-terminated */
+
+  return (MR_SUCCESS);
 }
 
 /**
@@ -660,7 +690,7 @@ xdr_load_string (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       uint32_t size = 0;
       if (!xdr_uint32_t (xdrs, &size))
 	return (MR_FAILURE);
-      *str = MR_CALLOC (size + 1, sizeof (**str));
+      *str = MR_CALLOC ((size_t)size + 1, sizeof (**str));
       if (NULL == *str)
 	{
 	  MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
@@ -929,6 +959,12 @@ xdr_load_array (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  if (fd_.stype.size == 0)
 	    return (MR_SUCCESS);
 
+	  if (ptrs->ra[idx].MR_SIZE / fd_.stype.size > count)
+	    {
+	      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_RANGE_CHECK, fd_.name.str);
+	      return (MR_FAILURE);
+	    }
+
 	  count = ptrs->ra[idx].MR_SIZE / fd_.stype.size;
 	  ptrs->ra[idx].MR_SIZE = count * fd_.stype.size;
 
@@ -1023,6 +1059,15 @@ xdr_load_pointer (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
   if (!xdr_uint32_t (xdrs, &ptrs->ra[idx].MR_SIZE))
     return (MR_FAILURE);
 
+  /* raw content is allowed only for a special pointer */
+  if (ptrs->ra[idx].flags & MR_IS_OPAQUE_DATA)
+    if ((NULL == ptrs->ra[idx].fdp) || (NULL == ptrs->ra[idx].fdp->name.str) ||
+	(strcmp (ptrs->ra[idx].fdp->name.str, MR_OPAQUE_DATA_STR) != 0))
+      {
+	MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[idx].mr_type_aux);
+	return (MR_FAILURE);
+      }
+
   mr_idx_t count = 0;
       
   if (!(ptrs->ra[idx].flags & MR_IS_OPAQUE_DATA))
-- 
2.43.0


From 516c537f43f3270c902a8b4d1f64bc19b8cb3721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 35/40] fix: YAML loading used negative indexes for big numbers
 of references

---
 src/yaml_load.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml_load.c b/src/yaml_load.c
index 76246dc..da8c4bc 100644
--- a/src/yaml_load.c
+++ b/src/yaml_load.c
@@ -12,7 +12,7 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
     if (ptrs->ra[i].idx > max_idx)
       max_idx = ptrs->ra[i].idx;
 
-  table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
+  table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
   if (NULL == table)
     {
       MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
@@ -25,7 +25,7 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
 
   for (i = 1; i < count; ++i)
     {
-      int ref_idx = ptrs->ra[i].first_child;
+      mr_idx_t ref_idx = ptrs->ra[i].first_child;
       if (ptrs->ra[i].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE))
 	if ((ref_idx > max_idx) || (table[ref_idx] == 0))
 	  if ((ref_idx < count) && (ptrs->ra[ref_idx].idx == MR_NULL_IDX))
-- 
2.43.0


From fb28698a6ff74372f4ce812741867f387f01d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:38 +0000
Subject: [PATCH 36/40] fix: pointer on a pointer in a document might refer to
 itself

---
 src/mr_load.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mr_load.c b/src/mr_load.c
index 3e676fe..f72aae6 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -104,6 +104,9 @@ mr_is_ref_type_valid (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, mr_idx_t ref_idx)
     case MR_TYPE_POINTER:
       if ((NULL == src->fdp) || (NULL == dst->fdp) || (src->fdp->stype.tdp != dst->fdp->stype.tdp))
 	return (false);
+      /* pointer on a pointer may not be a target for another pointer on a pointer */
+      if ((MR_TYPE_POINTER == src_type) && (MR_TYPE_POINTER == dst->mr_type_aux) && !(src->flags & MR_IS_CONTENT_REFERENCE))
+	return (false);
       break;
 
     default:
-- 
2.43.0


From 4b5941e75228133bdcc64ef66272a334f6000a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:52 +0000
Subject: [PATCH 37/40] fix: octal numbers were never recognized in Scheme
 documents

---
 src/scm_load.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scm_load.l b/src/scm_load.l
index 5e2c66a..e9023d2 100644
--- a/src/scm_load.l
+++ b/src/scm_load.l
@@ -24,7 +24,7 @@ WS	[[:space:]]+
 ID	[_[:alpha:]][_[:alnum:]]*
 INT_NUMBER [+-]?[[:digit:]]+
 HEX_NUMBER [+-]?#(x|X)[[:xdigit:]]+
-OCT_NUMBER [+-]?#(o|O)[[0-7]]+
+OCT_NUMBER [+-]?#(o|O)[0-7]+
 FLOAT_NAN [+-]?[Nn][Aa][Nn]
 FLOAT_INF [+-]?[Ii][Nn][Ff]
 FLOAT_NUMBER {FLOAT_NAN}|{FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?
-- 
2.43.0


From 6aee36d710ab425badf815fde19dea155c8531fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:52 +0000
Subject: [PATCH 38/40] fix: type cast without a field name was refused for
 named fields

---
 src/mr_load.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index f72aae6..b37533e 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -1003,7 +1003,10 @@ mr_load (void * data, mr_fd_t * fdp, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	return (MR_FAILURE);
       }
 
-  if (!fdp->unnamed && ptrs->ra[idx].fdp && fdp->name.str)
+  /* type cast without a field name leaves descriptor of the type instead of the field descriptor */
+  bool type_cast_only = (ptrs->ra[idx].flags & MR_IS_TYPED) && fdp->stype.tdp && (ptrs->ra[idx].fdp == &fdp->stype.tdp->mr_ptr_fd);
+
+  if (!fdp->unnamed && ptrs->ra[idx].fdp && fdp->name.str && !type_cast_only)
     if (ptrs->ra[idx].fdp->name.str)
       if (0 != strcmp (fdp->name.str, ptrs->ra[idx].fdp->name.str))
 	{
-- 
2.43.0


From 4f9a8fda9ef9ac125cf768926d7286c0cfeefa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 39/40] fix: union discriminators wider than int were truncated

---
 src/mr_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index 13004aa..82da4a2 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -12,7 +12,7 @@ TYPEDEF_FUNC (mr_idx_t, mr_save_handler_t, (mr_save_data_t *))
 static mr_save_handler_t mr_save_handler[];
 
 static inline mr_fd_t *
-mr_union_discriminator_by_idx (mr_td_t * tdp, int idx)
+mr_union_discriminator_by_idx (mr_td_t * tdp, mr_intmax_t idx)
 {
   /* check that field index in union is valid and reset to default otherwise */
   if ((idx < 0) || (idx >= tdp->param.union_param.fields_size / sizeof (tdp->param.union_param.fields[0])))
-- 
2.43.0


From 0e3f9ac2560f5995d1aee579cc02ed30809820fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 40/40] fix: char array that discriminates a union was read
 past its end

---
 src/mr_save.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index 82da4a2..9dcba55 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -121,7 +121,15 @@ mr_union_discriminator_by_type (mr_td_t * tdp, mr_fd_t * parent_fdp, void * disc
 	  }
 	
 	case MR_TYPE_CHAR_ARRAY:
-	  return (mr_union_discriminator_by_name (tdp, (char*)discriminator));
+	  {
+	    /* char array that is filled completely has no terminating zero */
+	    mr_size_t size = parent_fdp->stype.tdp ? parent_fdp->stype.tdp->size : parent_fdp->stype.size;
+	    size_t length = strnlen (discriminator, size);
+	    char name[length + 1];
+	    memcpy (name, discriminator, length);
+	    name[length] = 0;
+	    return (mr_union_discriminator_by_name (tdp, name));
+	  }
 	
 	case MR_TYPE_STRING:
 	  return (mr_union_discriminator_by_name (tdp, *(char**)discriminator));
-- 
2.43.0

