From 90c7784f77156655a48af2e33a89f5f8f33e0995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 01/39] fix: fail cinit load when an arithmetic expression
 cannot be evaluated

---
 src/cinit_load.y | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index ce9636c..d75bda6 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -223,15 +223,15 @@ compaund
 }
 
 expr:
-  expr TOK_CINIT_PLUS expr { mr_value_add (&$$, &$1, &$3); }
-| expr TOK_CINIT_MINUS expr { mr_value_sub (&$$, &$1, &$3); }
-| expr TOK_CINIT_MUL expr { mr_value_mul (&$$, &$1, &$3); }
-| expr TOK_CINIT_DIV expr { mr_value_div (&$$, &$1, &$3); }
-| expr TOK_CINIT_MOD expr { mr_value_mod (&$$, &$1, &$3); }
-| expr TOK_CINIT_BIT_OR expr { mr_value_bit_or (&$$, &$1, &$3); }
-| expr TOK_CINIT_BIT_AND expr { mr_value_bit_and (&$$, &$1, &$3); }
-| expr TOK_CINIT_BIT_XOR expr { mr_value_bit_xor (&$$, &$1, &$3); }
-| TOK_CINIT_MINUS expr %prec NEG { $$ = $2; mr_value_neg (&$$); }
+  expr TOK_CINIT_PLUS expr { if (MR_SUCCESS != mr_value_add (&$$, &$1, &$3)) YYERROR; }
+| expr TOK_CINIT_MINUS expr { if (MR_SUCCESS != mr_value_sub (&$$, &$1, &$3)) YYERROR; }
+| expr TOK_CINIT_MUL expr { if (MR_SUCCESS != mr_value_mul (&$$, &$1, &$3)) YYERROR; }
+| expr TOK_CINIT_DIV expr { if (MR_SUCCESS != mr_value_div (&$$, &$1, &$3)) YYERROR; }
+| expr TOK_CINIT_MOD expr { if (MR_SUCCESS != mr_value_mod (&$$, &$1, &$3)) YYERROR; }
+| expr TOK_CINIT_BIT_OR expr { if (MR_SUCCESS != mr_value_bit_or (&$$, &$1, &$3)) YYERROR; }
+| expr TOK_CINIT_BIT_AND expr { if (MR_SUCCESS != mr_value_bit_and (&$$, &$1, &$3)) YYERROR; }
+| expr TOK_CINIT_BIT_XOR expr { if (MR_SUCCESS != mr_value_bit_xor (&$$, &$1, &$3)) YYERROR; }
+| TOK_CINIT_MINUS expr %prec NEG { $$ = $2; if (MR_SUCCESS != mr_value_neg (&$$)) YYERROR; }
 | TOK_CINIT_PLUS expr %prec NEG { $$ = $2; }
 | TOK_CINIT_NUMBER { $$ = $1; }
 | TOK_CINIT_ID {
-- 
2.43.0


From f17680f24d7610192f90a8e081d235c831ee5f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 02/39] fix: report a failed node instead of returning a
 truncated document from the text savers

---
 src/cinit_save.c | 7 ++++++-
 src/json_save.c  | 7 ++++++-
 src/scm_save.c   | 7 ++++++-
 src/xml_save.c   | 9 ++++++++-
 4 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/cinit_save.c b/src/cinit_save.c
index 2be16ca..d162fcc 100644
--- a/src/cinit_save.c
+++ b/src/cinit_save.c
@@ -287,7 +287,12 @@ mr_cinit_save (mr_ra_ptrdes_t * ptrs)
 
   ptrs->ptrdes_type = MR_PD_CUSTOM;
 
-  mr_ptrs_dfs (ptrs, cinit_print_node, &mr_ra_str);
+  if (MR_SUCCESS != mr_ptrs_dfs (ptrs, cinit_print_node, &mr_ra_str))
+    {
+      if (NULL != mr_ra_str.data.string)
+	MR_FREE (mr_ra_str.data.string);
+      return (NULL);
+    }
 
   return (mr_ra_str.data.string);
 }
diff --git a/src/json_save.c b/src/json_save.c
index 63e48e8..8151b9d 100644
--- a/src/json_save.c
+++ b/src/json_save.c
@@ -303,7 +303,12 @@ mr_json_save (mr_ra_ptrdes_t * ptrs)
 
   ptrs->ptrdes_type = MR_PD_CUSTOM;
 
-  mr_ptrs_dfs (ptrs, json_print_node, &mr_ra_str);
+  if (MR_SUCCESS != mr_ptrs_dfs (ptrs, json_print_node, &mr_ra_str))
+    {
+      if (NULL != mr_ra_str.data.string)
+	MR_FREE (mr_ra_str.data.string);
+      return (NULL);
+    }
 
   return (mr_ra_str.data.string);
 }
diff --git a/src/scm_save.c b/src/scm_save.c
index d225503..183ce9e 100644
--- a/src/scm_save.c
+++ b/src/scm_save.c
@@ -375,7 +375,12 @@ mr_scm_save (mr_ra_ptrdes_t * ptrs)
   if (NULL == mr_ra_str.data.string)
     return (NULL);
 
-  mr_ptrs_dfs (ptrs, scm_print_node, &mr_ra_str);
+  if (MR_SUCCESS != mr_ptrs_dfs (ptrs, scm_print_node, &mr_ra_str))
+    {
+      if (NULL != mr_ra_str.data.string)
+	MR_FREE (mr_ra_str.data.string);
+      return (NULL);
+    }
 
   if (NULL != mr_ra_str.data.string)
     memmove (mr_ra_str.data.string, &mr_ra_str.data.string[1], mr_ra_str.mr_size - 1);
diff --git a/src/xml_save.c b/src/xml_save.c
index 0018660..f780033 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -291,6 +291,8 @@ xml1_pre_print_node (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_rarray_t
       if (mr_ra_append_char (mr_ra_str, '>') < 0)
 	return (MR_FAILURE);
       int count = save_handler (mr_ra_str, &ptrs->ra[idx]);
+      if (count < 0)
+	return (MR_FAILURE);
       empty_tag = (ptrs->ra[idx].first_child == MR_NULL_IDX) && (0 == count);
       if (empty_tag)
 	mr_ra_str->data.string[--mr_ra_str->MR_SIZE] = 0;
@@ -363,7 +365,12 @@ mr_xml1_save (mr_ra_ptrdes_t * ptrs)
   if (NULL == mr_ra_str.data.ptr)
     return (NULL);
 
-  mr_ptrs_dfs (ptrs, xml1_print_node, &mr_ra_str);
+  if (MR_SUCCESS != mr_ptrs_dfs (ptrs, xml1_print_node, &mr_ra_str))
+    {
+      if (NULL != mr_ra_str.data.ptr)
+	MR_FREE (mr_ra_str.data.ptr);
+      return (NULL);
+    }
 
   if (mr_ra_append_char (&mr_ra_str, '\n') < 0)
     return (NULL);
-- 
2.43.0


From 2fb7824506749388c7bb71b3cf604209305a33ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 03/39] fix: honour node failures while building an XML2
 document

---
 src/xml_save.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/xml_save.c b/src/xml_save.c
index f780033..d7e6bf8 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -417,6 +417,13 @@ xml2_save_node (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t o
       return (MR_FAILURE);
     }
 
+  if (parent != MR_NULL_IDX)
+    if (NULL == xmlAddChild (ptrs->ra[parent].res.data.ptr, node))
+      {
+	xmlFreeNode (node);
+	return (MR_FAILURE);
+      }
+
   ptrs->ra[idx].res.data.ptr = node;
   ptrs->ra[idx].res.type = "xmlNode";
   node->_private = (void*)(intptr_t)idx;
@@ -428,25 +435,26 @@ xml2_save_node (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t o
     {
       /* set REF_IDX property */
       sprintf (number, "%" SCNd32, (uint32_t)ptrs->ra[ptrs->ra[idx].first_child].idx);
-      xmlSetProp (node, BAD_CAST MR_REF, BAD_CAST number);
+      if (NULL == xmlSetProp (node, BAD_CAST MR_REF, BAD_CAST number))
+	return (MR_FAILURE);
     }
   if (ptrs->ra[idx].flags & MR_IS_CONTENT_REFERENCE)
     {
       /* set REF_CONTENT property */
       sprintf (number, "%" SCNd32, (uint32_t)ptrs->ra[ptrs->ra[idx].first_child].idx);
-      xmlSetProp (node, BAD_CAST MR_REF_CONTENT, BAD_CAST number);
+      if (NULL == xmlSetProp (node, BAD_CAST MR_REF_CONTENT, BAD_CAST number))
+	return (MR_FAILURE);
     }
   if (ptrs->ra[idx].flags & MR_IS_REFERENCED)
     {
       /* set IDX property */
       sprintf (number, "%" SCNd32, (uint32_t)ptrs->ra[idx].idx);
-      xmlSetProp (node, BAD_CAST MR_REF_IDX, BAD_CAST number);
+      if (NULL == xmlSetProp (node, BAD_CAST MR_REF_IDX, BAD_CAST number))
+	return (MR_FAILURE);
     }
   if (ptrs->ra[idx].flags & MR_IS_NULL)
-    xmlSetProp (node, BAD_CAST MR_ISNULL, BAD_CAST MR_ISNULL_VALUE);
-
-  if (parent != MR_NULL_IDX)
-    xmlAddChild (ptrs->ra[parent].res.data.ptr, node);
+    if (NULL == xmlSetProp (node, BAD_CAST MR_ISNULL, BAD_CAST MR_ISNULL_VALUE))
+      return (MR_FAILURE);
 
   return (MR_SUCCESS);
 }
@@ -479,11 +487,17 @@ mr_xml2_save (mr_ra_ptrdes_t * ptrs)
       ptrs->res.data.ptr = doc;
       ptrs->res.type = NULL;
 
-      mr_ptrs_dfs (ptrs, xml2_save_node, &mr_ra_str);
+      mr_status_t status = mr_ptrs_dfs (ptrs, xml2_save_node, &mr_ra_str);
       
       if (ptrs->size >= 2 * sizeof (ptrs->ra[0]))
 	if (NULL != ptrs->ra[1].res.data.ptr)
 	  xmlDocSetRootElement (doc, ptrs->ra[1].res.data.ptr);
+
+      if (MR_SUCCESS != status)
+	{
+	  xmlFreeDoc (doc);
+	  doc = NULL;
+	}
     }
 
   if (mr_ra_str.data.ptr)
-- 
2.43.0


From 26597e93c0ee4b15244f60657b2cceccd9e2d590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 04/39] fix: drop the outermost dimension when saving a
 multidimensional array

---
 src/mr_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index cc0d974..c2f6190 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -1216,7 +1216,7 @@ mr_save_array (mr_save_data_t * mr_save_data)
   else
     {
       fd_.stype.dim.size -= sizeof (fd_.stype.dim.dim[0]);
-      memmove (&fd_.stype.dim.dim[0], &fd_.stype.dim.dim[0], fd_.stype.dim.size);
+      memmove (&fd_.stype.dim.dim[0], &fd_.stype.dim.dim[1], fd_.stype.dim.size);
     }
 
   for (i = 0; i < count; )
-- 
2.43.0


From dd885f4abf12457c773e9e928f1e75ba8e1b0352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 05/39] fix: off-by-one bounds of the message and log level
 tables

---
 src/mr_message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mr_message.c b/src/mr_message.c
index d408e15..554eac1 100644
--- a/src/mr_message.c
+++ b/src/mr_message.c
@@ -64,7 +64,7 @@ mr_message_format (mr_message_id_t message_id, va_list args)
 	}
     }
 
-  if ((message_id <= sizeof (messages) / sizeof (messages[0])) && messages[message_id])
+  if ((message_id < sizeof (messages) / sizeof (messages[0])) && messages[message_id])
     format = messages[message_id];
 
   if (format)
@@ -99,7 +99,7 @@ mr_message (const char * file_name, const char * func_name, int line, mr_log_lev
 	{ MR_FOREACH (LL_INIT, ALL, TRACE, DEBUG, INFO, WARN, ERROR, FATAL, OFF) };
 
       if (((int)log_level >= 0)
-	  && ((int)log_level <= sizeof (log_level_str) / sizeof (log_level_str[0])))
+	  && ((int)log_level < sizeof (log_level_str) / sizeof (log_level_str[0])))
 	if (log_level_str[log_level])
 	  log_level_str_ = log_level_str[log_level];
 
-- 
2.43.0


From be277a7f16a78dae83e066e7375bdfad729488fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 06/39] fix: mr_save reports out of memory during post
 processing

---
 src/mr_save.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index c2f6190..1db8859 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -1481,15 +1481,17 @@ resolve_void_ptr_and_strings (mr_save_data_t * mr_save_data, mr_idx_t idx)
  * Set indexes to nodes according to DFS saving sequence.
  * Adjust primary etries for strings to be first in DFS sequence.
  * @param mr_save_data save routines data and lookup structures
+ * @return status, failure means that there was not enough memory
  */
-static void
+static mr_status_t
 mr_post_process (mr_save_data_t * mr_save_data)
 {
   mr_idx_t i, count = mr_save_data->ptrs.size / sizeof (mr_save_data->ptrs.ra[0]);
   for (i = 1; i < count; ++i)
-    resolve_void_ptr_and_strings (mr_save_data, i);
+    if (MR_SUCCESS != resolve_void_ptr_and_strings (mr_save_data, i))
+      return (MR_FAILURE);
   i = 1;
-  mr_ptrs_dfs (&mr_save_data->ptrs, mr_renumber_node, &i); /* enumeration of nodes should be done only after strings processing */
+  return mr_ptrs_dfs (&mr_save_data->ptrs, mr_renumber_node, &i); /* enumeration of nodes should be done only after strings processing */
 }
 
 /**
@@ -1590,7 +1592,8 @@ mr_save (void * data, mr_fd_t * fdp)
 	      break;
 	  }
       if (nodes_added > 0)
-	mr_post_process (&mr_save_data);
+	if (MR_SUCCESS != mr_post_process (&mr_save_data))
+	  nodes_added = 0;
     }
 
   for (i = mr_save_data.ptrs.size / sizeof (mr_save_data.ptrs.ra[0]) - 1; i > 0; --i)
-- 
2.43.0


From 74f9cbedade1727f009a7e3cb6e8c8351b3af36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 07/39] fix: indexing a static array collection reports a
 failed insertion

---
 src/mr_ic.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 4478663..4bdcf50 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -790,7 +790,8 @@ mr_ic_static_array_index (mr_ic_t * ic, mr_ptr_t * rarray, size_t size)
   
   int i;
   for (i = 0; i < size; ++i)
-    mr_ic_add (ic, rarray[i]);
+    if (NULL == mr_ic_add (ic, rarray[i]))
+      return (MR_FAILURE);
 
   return (MR_SUCCESS);
 }
-- 
2.43.0


From 1c0e32e11019aac7556375ce5c1b30220c940182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 08/39] fix: reference tables of a loaded document are never
 allocated with a wrapped size

---
 src/mr_load.c   | 2 +-
 src/yaml_load.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 38c9a22..f1dc352 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -37,7 +37,7 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
     if (ptrs->ra[i].idx > max_idx)
       max_idx = ptrs->ra[i].idx;
 
-  table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
+  table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
   if (NULL == table)
     {
       MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
diff --git a/src/yaml_load.c b/src/yaml_load.c
index bc670b7..cc5a197 100644
--- a/src/yaml_load.c
+++ b/src/yaml_load.c
@@ -12,7 +12,7 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
     if (ptrs->ra[i].idx > max_idx)
       max_idx = ptrs->ra[i].idx;
 
-  table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
+  table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
   if (NULL == table)
     return;
 
-- 
2.43.0


From 214a3cf6315a4997129ad03b47efd894bc3d08b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 09/39] fix: yaml load reports out of memory while resolving
 references

---
 src/yaml_load.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/yaml_load.c b/src/yaml_load.c
index cc5a197..b44b19f 100644
--- a/src/yaml_load.c
+++ b/src/yaml_load.c
@@ -1,7 +1,7 @@
 #include <yaml.h>
 #include <metaresc.h>
 
-static void
+static mr_status_t
 add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
 {
   mr_idx_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
@@ -14,7 +14,10 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
 
   table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
   if (NULL == table)
-    return;
+    {
+      MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
+      return (MR_FAILURE);
+    }
 
   for (i = 1; i < count; ++i)
     if (ptrs->ra[i].idx != MR_NULL_IDX)
@@ -35,6 +38,7 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
     }
   
   MR_FREE (table);
+  return (MR_SUCCESS);
 }
 
 static mr_status_t
@@ -218,8 +222,9 @@ mr_yaml_load (char * str, mr_ra_ptrdes_t * ptrs)
     }
 
   if (MR_SUCCESS == status)
-    add_missed_crossrefs (ptrs);
-  else
+    status = add_missed_crossrefs (ptrs);
+
+  if (MR_SUCCESS != status)
     mr_free_load_values (ptrs);
 
   return (status);
-- 
2.43.0


From 1e8e847f58c9654e0124bcb2e3f1f29e611bb004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 10/39] fix: cinit octal escape consumes at most three digits

---
 src/cinit_load.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index d75bda6..f8a0328 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -54,7 +54,7 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 	  int size;
 	  if (c > 0)
 	    dst[length++] = c;
-	  else if (1 == sscanf (&substr->str[i], "%o%n", &c, &size))
+	  else if (1 == sscanf (&substr->str[i], "%3o%n", &c, &size))
 	    {
 	      i += size - 1;
 	      dst[length++] = c;
-- 
2.43.0


From d3eecd4bf9b9fa3cad3a72d71937b69c021b6c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 11/39] fix: floating point text keeps enough digits to be read
 back exactly

---
 src/mr_stringify.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mr_stringify.c b/src/mr_stringify.c
index dbd0ac2..3f5a9ca 100644
--- a/src/mr_stringify.c
+++ b/src/mr_stringify.c
@@ -2,6 +2,7 @@
 /* I hate this bloody country. Smash. */
 /* This file is a part of Metaresc project */
 
+#include <float.h>
 #include <math.h>
 #include <stdbool.h>
 
@@ -40,9 +41,9 @@ int mr_ra_printf_bool_default (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)
   int mr_ra_printf_ ## TYPE ## _default (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)	\
   { return (mr_ra_printf (mr_ra_str, TMPLT, *(TYPE *)ptrdes->data.ptr)); }
 
-MR_RA_PRINTF_TMPLT (float, "%." MR_STRINGIFY_READONLY (MR_FLT_DIG) "g");
-MR_RA_PRINTF_TMPLT (double, "%." MR_STRINGIFY_READONLY (MR_DBL_DIG) "g");
-MR_RA_PRINTF_TMPLT (long_double_t, "%." MR_STRINGIFY_READONLY (MR_LDBL_DIG) "Lg");
+MR_RA_PRINTF_TMPLT (float, "%." MR_STRINGIFY_READONLY (FLT_DECIMAL_DIG) "g");
+MR_RA_PRINTF_TMPLT (double, "%." MR_STRINGIFY_READONLY (DBL_DECIMAL_DIG) "g");
+MR_RA_PRINTF_TMPLT (long_double_t, "%." MR_STRINGIFY_READONLY (LDBL_DECIMAL_DIG) "Lg");
 
 MR_RA_PRINTF_TMPLT (int8_t, "%" SCNi8);
 MR_RA_PRINTF_TMPLT (uint8_t, "%" SCNu8);
-- 
2.43.0


From c1c244108529cddaedd2cf7e4f7995f121d66881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 12/39] fix: unterminated numeric character reference no longer
 derails XML unquoting

---
 src/xml_save.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/xml_save.c b/src/xml_save.c
index d7e6bf8..a9b106a 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -75,17 +75,16 @@ xml_unquote_string (mr_substr_t * substr, char * dst)
       {
 	char esc[ESC_SIZE + 1];
 	strncpy (esc, &substr->str[i], sizeof (esc) - 1);
+	esc[sizeof (esc) - 1] = 0;
 	char * semicolon = strchr (esc, ';');
 	if (semicolon)
 	  semicolon[1] = 0;
-	else
-	  esc[sizeof (esc) - 1] = 0;
 	
 	if ('#' == substr->str[i + 1])
 	  {
 	    int32_t code = 0;
 	    int size = 0;
-	    if (1 != sscanf (&substr->str[i], XML_QUOTE_CHAR_PATTERN "%n", &code, &size))
+	    if ((1 != sscanf (&substr->str[i], XML_QUOTE_CHAR_PATTERN "%n", &code, &size)) || (0 == size))
 	      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_WRONG_XML_ESC, esc);
 	    else
 	      {
-- 
2.43.0


From 0a2225421013ee0e1f0947075296a580962ac9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 13/39] fix: length of a string from an XDR stream must not
 wrap on allocation

---
 src/xdr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xdr.c b/src/xdr.c
index 389875d..ae4f1d5 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -642,7 +642,7 @@ xdr_load_string (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       *str = NULL;
       if (!xdr_uint32_t (xdrs, &size))
 	return (MR_FAILURE);
-      *str = MR_CALLOC (size + 1, sizeof (**str));
+      *str = MR_CALLOC ((size_t)size + 1, sizeof (**str));
       if (NULL == *str)
 	{
 	  MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
-- 
2.43.0


From fdbb6029c1fa567e78aef9742c1c01544dca2869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 14/39] fix: counts read from an XDR stream are checked against
 the in-place array they fill

---
 src/xdr.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/xdr.c b/src/xdr.c
index ae4f1d5..c2ed630 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -573,6 +573,16 @@ xdr_char_array_ (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	}
       *(void**)ptrs->ra[idx - 1].data.ptr = ptrs->ra[idx].data.ptr = data;
     }
+  else if (XDR_DECODE == xdrs->x_op)
+    {
+      /* content is stored in place and must fit into the array */
+      typeof (ptrdes->MR_SIZE) max_size = is_a_dynamic_string ? sizeof (char) : ptrdes->fdp->stype.size;
+      if (str_len > max_size)
+	{
+	  MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_RANGE_CHECK, "char array");
+	  return (MR_FAILURE);
+	}
+    }
   return (xdr_opaque (xdrs, ptrs->ra[idx].data.ptr, str_len) ? MR_SUCCESS : MR_FAILURE);
 }
 
@@ -909,7 +919,13 @@ xdr_load_array (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  if (fd_.stype.size == 0)
 	    return (MR_SUCCESS);
 
+	  mr_idx_t max_count = count;
 	  count = ptrs->ra[idx].MR_SIZE / fd_.stype.size;
+	  if (count > max_count)
+	    {
+	      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_RANGE_CHECK, ptrs->ra[idx].fdp->name.str);
+	      return (MR_FAILURE);
+	    }
 	  ptrs->ra[idx].MR_SIZE = count * fd_.stype.size;
 
 	  mr_pointer_set_size (idx, ptrs);
-- 
2.43.0


From 611dcc22eb23061a934764f8eccb90b96e9d35c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 15/39] fix: union discriminator is released when its content
 cannot be read from an XDR stream

---
 src/xdr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xdr.c b/src/xdr.c
index c2ed630..ef2d2c0 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -756,9 +756,11 @@ xdr_load_union (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  else
 	    status = xdr_load_inner (data + fdp->offset, fdp, xdrs, ptrs, idx);
 	}
-      MR_FREE (discriminator);
     }
 
+  if (NULL != discriminator)
+    MR_FREE (discriminator);
+
   return (status);
 }
 
-- 
2.43.0


From af9e55a0b84d8d0dfbb4b97011408ca7f4607226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 16/39] fix: MR_FREE_RECURSIVELY reports the status of the
 release

---
 src/metaresc.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/metaresc.h b/src/metaresc.h
index 8a667b8..1f536be 100644
--- a/src/metaresc.h
+++ b/src/metaresc.h
@@ -951,11 +951,8 @@
 #define MR_FREE_RECURSIVELY(...) MR_PASTE2 (MR_FREE_RECURSIVELY_ARGS, MR_NARG (__VA_ARGS__)) (__VA_ARGS__)
 #define MR_FREE_RECURSIVELY_ARGS2(MR_TYPE_NAME, S_PTR) ({	\
       mr_ra_ptrdes_t ptrs = MR_SAVE (MR_TYPE_NAME, S_PTR);	\
-      mr_status_t status = MR_SUCCESS;				\
-      mr_free_recursively (&ptrs);				\
-      if (NULL == ptrs.ra)					\
-	status = MR_FAILURE;					\
-      else							\
+      mr_status_t status = mr_free_recursively (&ptrs);		\
+      if (NULL != ptrs.ra)					\
 	MR_FREE (ptrs.ra);					\
       status;							\
     })
-- 
2.43.0


From 96eae78561c481fa3a16a4b2050b96ba7d71ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 17/39] fix: every va_start in mr_type_void_fields_impl is
 matched by va_end

---
 src/metaresc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metaresc.c b/src/metaresc.c
index 15b1fe2..4afeb98 100644
--- a/src/metaresc.c
+++ b/src/metaresc.c
@@ -1669,9 +1669,6 @@ mr_get_fd_by_name (mr_td_t * tdp, char * name)
 void __attribute__ ((sentinel(0)))
 mr_type_void_fields_impl (char * type, char * name, ...)
 {
-  va_list args;
-  va_start (args, name);
-
   mr_conf_init ();
 
   if (type == NULL)
@@ -1687,6 +1684,9 @@ mr_type_void_fields_impl (char * type, char * name, ...)
       return;
     }
 
+  va_list args;
+  va_start (args, name);
+
   for ( ; name; name = va_arg (args, char *))
     {
       mr_fd_t * fdp = mr_get_fd_by_name (tdp, name);
-- 
2.43.0


From 47fb1086de270115f8a924da48472ea3ef01170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 18/39] fix: arguments of free and copy are checked before they
 are used

---
 src/mr_extra.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index a1b5256..c36107e 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -8,7 +8,6 @@
 mr_status_t
 mr_free_recursively (mr_ra_ptrdes_t * ptrs)
 {
-  mr_idx_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
   mr_status_t status = MR_SUCCESS;
 
   mr_conf_init ();
@@ -18,6 +17,7 @@ mr_free_recursively (mr_ra_ptrdes_t * ptrs)
   if (NULL == ptrs->ra)
     return (MR_FAILURE);
 
+  mr_idx_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
   ptrs->ptrdes_type = MR_PD_CUSTOM;
 
   for (i = 1; i < count; ++i)
@@ -69,8 +69,6 @@ calc_relative_addr (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order
 mr_status_t
 mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
 {
-  mr_idx_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
-
   mr_conf_init ();
 
   if ((NULL == ptrs) || (NULL == dst))
@@ -78,6 +76,8 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
   if (NULL == ptrs->ra)
     return (MR_FAILURE);
 
+  mr_idx_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
+
   ptrs->ptrdes_type = MR_PD_CUSTOM;
 
   /* copy first level struct */
-- 
2.43.0


From 6caa83fb6de1a7457754c9dfaeec327d34eac451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 19/39] fix: failed copy releases only the chunks it has
 allocated

---
 src/mr_extra.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index c36107e..625f71e 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -185,6 +185,7 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
     if ((MR_TYPE_STRING == ptrs->ra[i].mr_type) && (ptrs->ra[i].res.type != NULL))
       MR_FREE (ptrs->ra[i].res.type);
     else if ((MR_TYPE_POINTER == ptrs->ra[i].mr_type) &&
+	     !(ptrs->ra[i].flags & (MR_IS_NULL | MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)) && /* references own nothing */
 	     (ptrs->ra[i].first_child != MR_NULL_IDX))
       if (ptrs->ra[ptrs->ra[i].first_child].res.data.ptr != NULL)
 	{
-- 
2.43.0


From 7cd14b9a91a4260a4cd7ba68fbe4806d0bc8cc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 20/39] fix: failed copy leaves the destination untouched

---
 src/mr_extra.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 625f71e..64d9b7e 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -80,8 +80,6 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
 
   ptrs->ptrdes_type = MR_PD_CUSTOM;
 
-  /* copy first level struct */
-  memcpy (dst, ptrs->ra[1].data.ptr, ptrs->ra[1].MR_SIZE);
   ptrs->ra[1].res.data.ptr = dst;
 
   for (i = 2; i < count; ++i)
@@ -147,6 +145,9 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
 	  break;
 	}
 
+  /* copy first level struct, destination is left untouched until copies of all chunks are allocated */
+  memcpy (dst, ptrs->ra[1].data.ptr, ptrs->ra[1].MR_SIZE);
+
   /* depth search thru the graph and calculate new addresses for all nodes */
   mr_ptrs_dfs (ptrs, calc_relative_addr, NULL);
 
-- 
2.43.0


From a20bedb8f599d2c097e60400c2a207efe2c22e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 21/39] fix: failed growth of a hashed collection leaves its
 element count unchanged

---
 src/mr_ic.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 4bdcf50..49d15e6 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -551,7 +551,11 @@ mr_ic_hash_add (mr_ic_t * ic, mr_ptr_t key)
 	return (NULL);
       ++ic->items_count;
       if (MR_SUCCESS != mr_ic_hash_reindex (&dst_ic, ic))
-	return (NULL);
+	{
+	  --ic->items_count; /* element was not added */
+	  mr_ic_free (&dst_ic);
+	  return (NULL);
+	}
 
       mr_ic_free (ic);
       *ic = dst_ic;
-- 
2.43.0


From 8066d151d570f7daa86fc782b9e98fdc44c8c4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 22/39] fix: an empty tree collection counts zero elements

---
 src/mr_ic.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 49d15e6..4e42950 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -851,11 +851,19 @@ mr_ic_static_array_new (mr_ic_t * ic, mr_hash_fn_t hash_fn, mr_compar_fn_t compa
 
 /* ----------------------- MR_IC_RBTREE ----------------------- */
 
+static unsigned
+mr_ic_tree_items_count (mr_tree_t * tree)
+{
+  /* there is an extra slot for the root node, but a tree that never allocated it has no nodes at all */
+  unsigned count = tree->size / sizeof (tree->pool[0]);
+  return ((count > 0) ? count - 1 : 0);
+}
+
 mr_ptr_t *
 mr_ic_rbtree_add (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_ptr_t * add = mr_rbtree_add (key, &ic->rb, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->rb.size / sizeof (ic->rb.pool[0]) - 1;
+  ic->items_count = mr_ic_tree_items_count (&ic->rb);
   return (add);
 }
 
@@ -863,7 +871,7 @@ mr_status_t
 mr_ic_rbtree_del (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_status_t status = mr_rbtree_del (key, &ic->rb, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->rb.size / sizeof (ic->rb.pool[0]) - 1;
+  ic->items_count = mr_ic_tree_items_count (&ic->rb);
   return (status);
 }
 
@@ -969,7 +977,7 @@ mr_ptr_t *
 mr_ic_avltree_add (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_ptr_t * add = mr_avltree_add (key, &ic->avl, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->avl.size / sizeof (ic->avl.pool[0]) - 1;
+  ic->items_count = mr_ic_tree_items_count (&ic->avl);
   return (add);
 }
 
@@ -977,7 +985,7 @@ mr_status_t
 mr_ic_avltree_del (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_status_t status = mr_avltree_del (key, &ic->avl, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->avl.size / sizeof (ic->avl.pool[0]) - 1;
+  ic->items_count = mr_ic_tree_items_count (&ic->avl);
   return (status);
 }
 
-- 
2.43.0


From 8f684ecc4b5f5609bf6aef51478d0e479e54be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 23/39] fix: out of memory while resolving a union fails the
 save instead of dropping the union content

---
 src/mr_save.c | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index 1db8859..c8157ea 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -349,9 +349,13 @@ mr_ud_free (mr_ud_set_t * uds)
 /**
  * Finds out union discriminator
  * @param mr_save_data save routines data and lookup structures
+ * @param node index of the node to start traversal from
+ * @param union_fdp a pointer on descriptor of the union field
+ * @param[out] discriminated_fdp a pointer on descriptor of the selected branch, NULL if there is none
+ * @return status
  */
-static mr_fd_t *
-mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t * union_fdp)
+static mr_status_t
+mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t * union_fdp, mr_fd_t ** discriminated_fdp)
 {
   mr_fd_t * fdp = NULL; /* marker that discriminator was not found */
   mr_idx_t parent, idx;
@@ -360,19 +364,24 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
   char * discriminator = union_fdp->meta;
   mr_td_t * tdp = union_fdp->stype.tdp;
 
+  *discriminated_fdp = NULL;
+
   if (NULL == tdp)
-    return (NULL);
+    return (MR_SUCCESS);
 
   /* if union meta field is a valid field name, then traverse thruogh parents and look for union discriminator */
   if (mr_get_any_fd_by_name (discriminator, NULL) == NULL)
-    return (mr_union_discriminator_by_name (tdp, NULL));
+    {
+      *discriminated_fdp = mr_union_discriminator_by_name (tdp, NULL);
+      return (MR_SUCCESS);
+    }
 
   ud = mr_rarray_allocate_element ((void*)&mr_save_data->mr_ra_ud,
 				   &mr_save_data->mr_ra_ud_size, &mr_save_data->mr_ra_ud_alloc_size,
 				   sizeof (mr_save_data->mr_ra_ud[0]));
   /* create a record for further lookups in parent nodes for discriminator value */
   if (NULL == ud)
-    return (NULL);
+    return (MR_FAILURE);
 
   memset (ud, 0, sizeof (*ud));
   /* this record is only for lookups and there is no guarantee that parents already have union resolution info */
@@ -381,7 +390,7 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
   if ((ud_idx >> __CHAR_BIT__) >= (1UL << (__CHAR_BIT__ * (sizeof (MR_RA_UD_IDX_TYPE) - 1))))
     {
       MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_TOO_MANY_UD, MR_STRINGIFY_READONLY (MR_RA_UD_IDX_TYPE));
-      return (NULL);
+      return (MR_FAILURE);
     }
   ud->union_fdp = union_fdp; /* union field descriptor */
 
@@ -427,7 +436,7 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
       ud->discriminated_fdp = fdp;
       mr_ptr_t * add = mr_ic_add (&mr_save_data->union_discriminators, ud_idx);
       if (NULL == add)
-	return (NULL);
+	return (MR_FAILURE);
       if (add->uintptr == ud_idx)
 	/* union discriminator info was not found in the set so we add new record */
 	mr_save_data->mr_ra_ud_size += sizeof (mr_save_data->mr_ra_ud[0]);
@@ -441,9 +450,10 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
   /* add union discriminator information to all parents which doesn't have it yet */
   for (idx = node; idx != parent; idx = mr_save_data->ptrs.ra[idx].parent)
     if (-1 == mr_ud_add (&mr_save_data->ptrs.ra[idx].save_params.ud_set, ud_find, mr_save_data))
-      return (NULL);
+      return (MR_FAILURE);
 
-  return (fdp);
+  *discriminated_fdp = fdp;
+  return (MR_SUCCESS);
 }
 
 /**
@@ -566,9 +576,9 @@ mr_check_ud (mr_ptr_t key, void * context)
       return (MR_SUCCESS);
   
   /* otherwise we need to find union resolution in the context of new parent */
-  fdp = mr_union_discriminator (mr_save_data, parent, ud->union_fdp);
+  mr_status_t status = mr_union_discriminator (mr_save_data, parent, ud->union_fdp, &fdp);
 
-  return ((fdp == discriminated_fdp) ? MR_SUCCESS : MR_FAILURE);
+  return (((MR_SUCCESS == status) && (fdp == discriminated_fdp)) ? MR_SUCCESS : MR_FAILURE);
 }
 
 static bool
@@ -1156,7 +1166,10 @@ mr_save_union (mr_save_data_t * mr_save_data)
       
   mr_fd_t * discriminated_fdp = NULL;
   if (parent != MR_NULL_IDX)
-    discriminated_fdp = mr_union_discriminator (mr_save_data, idx, mr_save_data->ptrs.ra[parent].fdp);
+    {
+      if (MR_SUCCESS != mr_union_discriminator (mr_save_data, idx, mr_save_data->ptrs.ra[parent].fdp, &discriminated_fdp))
+	return (0);
+    }
   else if (union_tdp != NULL)
     discriminated_fdp = mr_union_discriminator_by_idx (union_tdp, 0);
 
-- 
2.43.0


From 67b6ec86990f07ae1fe2a23ec9fb823d41177eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 24/39] fix: MR_SAVE_XDR_RA does not return a truncated stream
 when the save fails

---
 src/metaresc.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metaresc.h b/src/metaresc.h
index 1f536be..a7eaada 100644
--- a/src/metaresc.h
+++ b/src/metaresc.h
@@ -1095,7 +1095,13 @@
       mr_rarray_t _ra_ = { .alloc_size = 0, .MR_SIZE = 0, .data = { NULL }, .type = "uint8_t" }; \
       mr_xdrra_create (&_xdrs_, &_ra_, XDR_ENCODE);			\
       if (MR_SUCCESS != MR_SAVE_XDR (&_xdrs_, __VA_ARGS__))		\
-	MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_XDR_SAVE_FAILED);		\
+	{								\
+	  MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_XDR_SAVE_FAILED);		\
+	  if (_ra_.data.ptr)						\
+	    MR_FREE (_ra_.data.ptr);					\
+	  _ra_.data.ptr = NULL;						\
+	  _ra_.MR_SIZE = _ra_.alloc_size = 0;				\
+	}								\
       _ra_;								\
     })
 
-- 
2.43.0


From 0369b8de10423e5d69530f31d97231013027f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 25/39] fix: diagnostics pass arguments of the size their
 templates read

---
 src/mr_extra.c | 2 +-
 src/mr_save.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 64d9b7e..1ea901f 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -123,7 +123,7 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
 	    
 	    if (size < 0)
 	      {
-		MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_WRONG_SIZE_FOR_DYNAMIC_ARRAY, size);
+		MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_WRONG_SIZE_FOR_DYNAMIC_ARRAY, (ssize_t)size);
 		goto failure;
 	      }
 	    
diff --git a/src/mr_save.c b/src/mr_save.c
index c8157ea..9a8a779 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -270,7 +270,7 @@ mr_ud_add (mr_ud_set_t * uds, mr_ptr_t key, mr_save_data_t * mr_save_data)
 
   if (uds->size > sizeof (uds->idx))
     {
-      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNEXPECTED_NUMBER_OF_ITEMS, uds->size / sizeof (uds->idx[0]));
+      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNEXPECTED_NUMBER_OF_ITEMS, (int)(uds->size / sizeof (uds->idx[0])));
       uds->size = 0;
     }
 
-- 
2.43.0


From 94645de7c1a18bdff4337f6e6d58ac546a90f580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 26/39] fix: one-time lookup tables are never cleared or
 exposed half built

---
 src/cinit_load.y | 1 -
 src/json_load.y  | 1 -
 src/mr_value.c   | 6 +++++-
 src/scm_load.y   | 1 -
 src/xml_save.c   | 1 -
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index f8a0328..70ed3fc 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -35,7 +35,6 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 
   if (!initialized)
     {
-      memset (map, 0, sizeof (map));
       for (i = 0; i < MR_ESC_CHAR_MAP_SIZE; ++i)
 	if (mr_esc_char_map[i])
 	  map[(unsigned char)mr_esc_char_map[i]] = i;
diff --git a/src/json_load.y b/src/json_load.y
index 55fe4ec..22f7671 100644
--- a/src/json_load.y
+++ b/src/json_load.y
@@ -34,7 +34,6 @@ json_unquote_str (mr_substr_t * substr, char * dst)
 
   if (!initialized)
     {
-      memset (map, 0, sizeof (map));
       for (i = 0; i < MR_ESC_CHAR_MAP_SIZE; ++i)
 	if (mr_esc_char_map[i])
 	  map[(unsigned char)mr_esc_char_map[i]] = i;
diff --git a/src/mr_value.c b/src/mr_value.c
index 8d1b9bc..5d860ec 100644
--- a/src/mr_value.c
+++ b/src/mr_value.c
@@ -76,7 +76,11 @@ mr_get_enum (char * str, mr_uintmax_t * data)
 {
   static int enum_max_length = 0;
   if (0 == enum_max_length)
-    mr_ic_foreach (&mr_conf.enum_by_name, enum_names_visitor, &enum_max_length);
+    {
+      int max_length = 0;
+      mr_ic_foreach (&mr_conf.enum_by_name, enum_names_visitor, &max_length);
+      enum_max_length = max_length;
+    }
   
   char * name = str;
   int size = 0;
diff --git a/src/scm_load.y b/src/scm_load.y
index ae8c47a..a277404 100644
--- a/src/scm_load.y
+++ b/src/scm_load.y
@@ -37,7 +37,6 @@
 
     if (!initialized)
       {
-	memset (map, 0, sizeof (map));
 	for (i = 0; i < MR_ESC_CHAR_MAP_SIZE; ++i)
 	  if (mr_esc_char_map[i])
 	    map[(unsigned char)mr_esc_char_map[i]] = i;
diff --git a/src/xml_save.c b/src/xml_save.c
index a9b106a..dc92e3c 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -55,7 +55,6 @@ xml_unquote_string (mr_substr_t * substr, char * dst)
   
   if (!inited)
     {
-      memset (esc_seq_hash, 0, sizeof (esc_seq_hash));
       for (i = 0; i < sizeof (esc_seq_hash) / sizeof (esc_seq_hash[0]); ++i)
 	if (esc_char_map[i])
 	  {
-- 
2.43.0


From 98e10642949ba3a9e25616cf8d078c39b72f8f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 27/39] fix: element of an array behind a pointer is never
 reallocated as if it were a chunk of its own

---
 src/mr_load.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index f1dc352..3c9f929 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -481,7 +481,8 @@ mr_get_char_array (mr_idx_t idx, mr_ra_ptrdes_t * ptrs, char * str, size_t str_l
   mr_status_t status = MR_SUCCESS;
 
   if ((str_len >= max_size) && (ptrdes->parent != MR_NULL_IDX))
-    if (MR_TYPE_POINTER == ptrs->ra[ptrdes->parent].mr_type)
+    if ((MR_TYPE_POINTER == ptrs->ra[ptrdes->parent].mr_type) &&
+	(idx == ptrs->ra[ptrdes->parent].first_child) && (MR_NULL_IDX == ptrdes->next)) /* elements of an array are not separate memory chunks */
       {
 	void * data = MR_REALLOC (ptrdes->data.ptr, str_len + 1);
 	if (NULL == data)
-- 
2.43.0


From ab65e53ec73f349ba307105991dd3002f9bf1e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 28/39] fix: char arrays of fixed size behind a pointer keep
 their size in XDR streams

---
 src/xdr.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/xdr.c b/src/xdr.c
index ef2d2c0..514c597 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -540,24 +540,20 @@ static mr_status_t
 xdr_char_array_ (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 {
   mr_idx_t parent = ptrs->ra[idx].parent;
-  bool is_a_dynamic_string = ((parent != MR_NULL_IDX) && (MR_TYPE_POINTER == ptrs->ra[parent].mr_type));
   mr_ptrdes_t * ptrdes = &ptrs->ra[idx];
+  /* arrays of a fixed size might be referenced by a pointer as well */
+  bool is_a_dynamic_string = ((parent != MR_NULL_IDX) && (MR_TYPE_POINTER == ptrs->ra[parent].mr_type) && (0 == ptrdes->fdp->stype.size));
   typeof (ptrdes->MR_SIZE) str_len;
 
   if (XDR_ENCODE == xdrs->x_op)
     {
       typeof (ptrdes->MR_SIZE) size = ptrdes->MR_SIZE;
       char * string = ptrs->ra[idx].data.string;
-      if (is_a_dynamic_string)
-	str_len = strlen (string) + 1;
-      else
-	{
-	  for (str_len = 0; (str_len < size) && (*string != 0); ++str_len)
-	    ++string;
+      for (str_len = 0; (str_len < size) && (*string != 0); ++str_len)
+	++string;
 
-	  if (str_len < size)
-	    str_len += 1;
-	}
+      if (str_len < size)
+	str_len += 1;
     }
 
   if (!xdr_uint32_t (xdrs, &str_len))
-- 
2.43.0


From 5a4af2d8f3d2a3a151bc326549e47efa46539bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 29/39] fix: hash, comparison, sorting and union resolution
 never read past a char array of fixed size

---
 src/mr_extra.c |  4 ++--
 src/mr_ic.c    |  5 +++--
 src/mr_save.c  | 15 ++++++++++++++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 1ea901f..721ebc9 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -244,7 +244,7 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
       break;
 	  
     case MR_TYPE_CHAR_ARRAY:
-      ptrdes->res.data.uintptr = mr_hash_str ((char*)ptrdes->data.ptr);
+      ptrdes->res.data.uintptr = mr_hash_block (ptrdes->data.ptr, strnlen (ptrdes->data.ptr, ptrdes->MR_SIZE));
       break;
 	  
     case MR_TYPE_BOOL:
@@ -406,7 +406,7 @@ mr_cmp_structs (mr_ra_ptrdes_t * x, mr_ra_ptrdes_t * y)
 	  }
 	  
 	case MR_TYPE_CHAR_ARRAY:
-	  diff = strcmp (x_i->data.ptr, y_i->data.ptr);
+	  diff = strncmp (x_i->data.ptr, y_i->data.ptr, x_i->MR_SIZE);
 	  if (diff)
 	    return (diff);
 	  break;
diff --git a/src/mr_ic.c b/src/mr_ic.c
index 4e42950..fe85b07 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -78,7 +78,8 @@ static int MR_TYPE_CMP_FUNC_NAME (char_array) (const mr_ptr_t x, const mr_ptr_t
 {
   char * _x = x.ptr;
   char * _y = y.ptr;
-  return (strcmp (_x, _y));
+  const size_t * size = context;
+  return (strncmp (_x, _y, *size));
 }
 
 static mr_compar_fn_t
@@ -108,7 +109,7 @@ mr_basic_types_sort (void * data, size_t count, char * key_type, mr_type_t mr_ty
       mr_compar_fn_t compar_fn = mr_type_compar_fn (mr_type);
       if (NULL == compar_fn)
 	return (MR_FAILURE);
-      mr_hsort (data, count, element_size, compar_fn, NULL);
+      mr_hsort (data, count, element_size, compar_fn, &element_size);
     }
   return (MR_SUCCESS);
 }
diff --git a/src/mr_save.c b/src/mr_save.c
index 9a8a779..f752ff4 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -69,6 +69,7 @@ static mr_fd_t *
 mr_union_discriminator_by_type (mr_td_t * tdp, mr_fd_t * parent_fdp, void * discriminator, mr_ic_t * ud_overrides)
 {
   mr_type_t mr_type = parent_fdp->stype.mr_type;
+  bool is_pointer_content = false;
   mr_fd_t fd;
   for (;;)
     {
@@ -121,7 +122,17 @@ mr_union_discriminator_by_type (mr_td_t * tdp, mr_fd_t * parent_fdp, void * disc
 	  }
 	
 	case MR_TYPE_CHAR_ARRAY:
-	  return (mr_union_discriminator_by_name (tdp, (char*)discriminator));
+	  {
+	    /* text that fills the whole array is not NULL-terminated */
+	    size_t size = !is_pointer_content ? parent_fdp->stype.size : parent_fdp->stype.tdp ? parent_fdp->stype.tdp->size : 0;
+	    if (0 == size) /* size of the text is not known */
+	      return (mr_union_discriminator_by_name (tdp, (char*)discriminator));
+	    size_t length = strnlen ((char*)discriminator, size);
+	    char name[length + 1];
+	    memcpy (name, discriminator, length);
+	    name[length] = 0;
+	    return (mr_union_discriminator_by_name (tdp, name));
+	  }
 	
 	case MR_TYPE_STRING:
 	  return (mr_union_discriminator_by_name (tdp, *(char**)discriminator));
@@ -155,6 +166,7 @@ mr_union_discriminator_by_type (mr_td_t * tdp, mr_fd_t * parent_fdp, void * disc
 	  discriminator = *(void**)discriminator;
 	  if (NULL == discriminator)
 	    return (mr_union_discriminator_by_name (tdp, NULL));
+	  is_pointer_content = true;
 	  mr_type = parent_fdp->stype.mr_type_aux;
 	  if (MR_TYPE_POINTER == mr_type)
 	    mr_init_pointer_fd (&parent_fdp, &fd);
@@ -178,6 +190,7 @@ mr_union_discriminator_by_type (mr_td_t * tdp, mr_fd_t * parent_fdp, void * disc
 		discriminator = (char*)discriminator + parent_fdp->stype.tdp->param.union_param.fields[0]->offset;
 		parent_fdp = parent_fdp->stype.tdp->param.union_param.fields[0];
 		mr_type = parent_fdp->stype.mr_type;
+		is_pointer_content = false;
 		break;
 	      }
 	  __attribute__ ((fallthrough));
-- 
2.43.0


From 1afb34e8f39752c86636dff7db8cf2afde2445da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:39 +0000
Subject: [PATCH 30/39] fix: sign of a bit-field discriminator is taken from
 the type of the bit-field

---
 src/mr_save.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index f752ff4..a947685 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -101,7 +101,12 @@ mr_union_discriminator_by_type (mr_td_t * tdp, mr_fd_t * parent_fdp, void * disc
 	case MR_TYPE_BITFIELD:
 	  {
 	    mr_uintmax_t value = 0;
-	    mr_ptrdes_t ptrdes = { .data.ptr = discriminator, .fdp = parent_fdp, };
+	    mr_ptrdes_t ptrdes = {
+	      .data.ptr = discriminator,
+	      .fdp = parent_fdp,
+	      .mr_type = parent_fdp->stype.mr_type,
+	      .mr_type_aux = parent_fdp->stype.mr_type_aux,
+	    };
 	    mr_td_t * enum_tdp = parent_fdp->stype.tdp;
 
 	    mr_save_bitfield_value (&ptrdes, &value); /* get value of the bitfield */
-- 
2.43.0


From e864447309f863338d25ef122139fb55be844ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:09 +0000
Subject: [PATCH 31/39] fix: wide union discriminators are compared in full
 width, not truncated to a valid index

---
 src/mr_save.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index a947685..6ea5dac 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -12,7 +12,7 @@ TYPEDEF_FUNC (mr_idx_t, mr_save_handler_t, (mr_save_data_t *))
 static mr_save_handler_t mr_save_handler[];
 
 static inline mr_fd_t *
-mr_union_discriminator_by_idx (mr_td_t * tdp, int idx)
+mr_union_discriminator_by_idx (mr_td_t * tdp, mr_intmax_t idx)
 {
   /* check that field index in union is valid and reset to default otherwise */
   if ((idx < 0) || (idx >= tdp->param.union_param.fields_size / sizeof (tdp->param.union_param.fields[0])))
@@ -41,10 +41,14 @@ mr_union_discriminator_by_name (mr_td_t * tdp, char * name)
 }
 
 static inline mr_fd_t *
-mr_ud_override_value (mr_ic_t * ud_overrides, uint64_t value)
+mr_ud_override_value (mr_ic_t * ud_overrides, mr_intmax_t discriminator)
 {
+  uint64_t value = discriminator;
   if (NULL == ud_overrides)
     return (NULL);
+  /* check that value was not truncated */
+  if ((discriminator != (int64_t)value) && (discriminator != value))
+    return (NULL);
   
   uintptr_t key = (uintptr_t)&value - offsetof (mr_ud_override_t, value); /* (mr_ud_override_t[]){{ .value = value }}; */
   mr_ptr_t * result = mr_ic_find (ud_overrides, key);
-- 
2.43.0


From 6db20813b978942d6d48347e7a50460735091bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:38 +0000
Subject: [PATCH 32/39] fix: sort floating point keys with NaN consistently

A NaN key compared equal to every other key, so the comparator was not
transitive and the rest of the sorted data ended up out of order.
---
 src/mr_ic.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index fe85b07..cb65b09 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -59,11 +59,26 @@ mr_generic_sort (void * data, size_t count, char * key_type)
     return ((*_x > *_y) - (*_x < *_y));					\
   }
 
+/* NaN is unordered, so NaNs are equal to each other and less than any other value */
+#define MR_FLOAT_TYPE_CMP_FUNC(TYPE)					\
+  static int MR_TYPE_CMP_FUNC_NAME (TYPE)				\
+       (const mr_ptr_t x, const mr_ptr_t y, const void * context)	\
+  {									\
+    TYPE * _x = x.ptr;							\
+    TYPE * _y = y.ptr;							\
+    if (__builtin_isnan (*_x) || __builtin_isnan (*_y))			\
+      return (!__builtin_isnan (*_x) - !__builtin_isnan (*_y));		\
+    return ((*_x > *_y) - (*_x < *_y));					\
+  }
+
 typedef void * void_ptr;
 
-#define MR_BASIC_TYPES char, bool, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, mr_int128_t, mr_uint128_t, float, double, long_double_t
+#define MR_INT_TYPES char, bool, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, mr_int128_t, mr_uint128_t
+#define MR_FLOAT_TYPES float, double, long_double_t
+#define MR_BASIC_TYPES MR_INT_TYPES, MR_FLOAT_TYPES
 
-MR_FOREACH (MR_TYPE_CMP_FUNC, void_ptr, MR_BASIC_TYPES);
+MR_FOREACH (MR_TYPE_CMP_FUNC, void_ptr, MR_INT_TYPES);
+MR_FOREACH (MR_FLOAT_TYPE_CMP_FUNC, MR_FLOAT_TYPES);
 
 static int MR_TYPE_CMP_FUNC_NAME (string_t) (const mr_ptr_t x, const mr_ptr_t y, const void * context)
 {
-- 
2.43.0


From 9678e4fed04c5602d908ae4748ec46ccd8152f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:55 +0000
Subject: [PATCH 33/39] fix: order complex values with a NaN part consistently

(1, NaN) and (2, NaN) were equal to each other, while (1, 0) compared
against them by its real part: the relation was not transitive.
---
 src/mr_extra.c | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 721ebc9..53a6f6f 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -445,32 +445,17 @@ mr_cmp_structs (mr_ra_ptrdes_t * x, mr_ra_ptrdes_t * y)
 	      bool ix_isnan = __builtin_isnan (__imag__ _x);		\
 	      bool ry_isnan = __builtin_isnan (__real__ _y);		\
 	      bool iy_isnan = __builtin_isnan (__imag__ _y);		\
-	      if (((rx_isnan || ix_isnan)) && ((ry_isnan || iy_isnan)))	\
+	      diff = !(rx_isnan || ix_isnan) - !(ry_isnan || iy_isnan);	\
+	      if (diff)							\
+		return (diff);						\
+	      if (rx_isnan || ix_isnan)					\
 		continue;						\
-	      if (!rx_isnan && !ry_isnan)				\
-		{							\
-		  diff = (__real__ _x > __real__ _y) - (__real__ _x < __real__ _y); \
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      else							\
-		{							\
-		  diff = !rx_isnan - !ry_isnan;				\
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      if (!ix_isnan && !iy_isnan)				\
-		{							\
-		  diff = (__imag__ _x > __imag__ _y) - (__imag__ _x < __imag__ _y); \
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      else							\
-		{							\
-		  diff = !ix_isnan - !iy_isnan;				\
-		  if (diff)						\
-		    return (diff);					\
-		}							\
+	      diff = (__real__ _x > __real__ _y) - (__real__ _x < __real__ _y); \
+	      if (diff)							\
+		return (diff);						\
+	      diff = (__imag__ _x > __imag__ _y) - (__imag__ _x < __imag__ _y); \
+	      if (diff)							\
+		return (diff);						\
 	    }								\
 	    break;
 
-- 
2.43.0


From 4fc63e7db8e7abcddf1ea5e4ca90a299593a5b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:08 +0000
Subject: [PATCH 34/39] fix: hash 0.0 and -0.0 alike

They compare equal, but a hash collection looked for -0.0 in another
bucket than the one 0.0 was stored in.
---
 src/mr_extra.c | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 53a6f6f..4ad1e57 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -257,34 +257,35 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
 	  mr_hash_block (ptrdes->data.ptr, sizeof (TYPE));	\
 	break;
 
-#define CASE_MR_FLOAT_TYPE_HASH(TYPE)					\
+/* 0.0 and -0.0 are equal, so they must have the same hash */
+#define MR_FLOAT_HASH(VALUE, SIZE) ({					\
+      typeof (VALUE) __value__ = (VALUE);				\
+      if (0 == __value__)						\
+	__value__ = 0;							\
+      mr_hash_block (&__value__, SIZE);					\
+    })
+
+#define CASE_MR_FLOAT_TYPE_HASH(TYPE, SIZE)				\
       case MR_TYPE_DETECT (TYPE):					\
-	ptrdes->res.data.uintptr = __builtin_isnan (*(TYPE*)ptrdes->data.ptr) ? -1 : mr_hash_block (ptrdes->data.ptr, sizeof (TYPE)); \
+	ptrdes->res.data.uintptr = __builtin_isnan (*(TYPE*)ptrdes->data.ptr) ? -1 : \
+	  MR_FLOAT_HASH (*(TYPE*)ptrdes->data.ptr, SIZE);		\
 	break;
 
-#define CASE_MR_COMPLEX_FLOAT_TYPE_HASH(TYPE)				\
+#define CASE_MR_COMPLEX_FLOAT_TYPE_HASH(TYPE, SIZE)			\
       case MR_TYPE_DETECT (TYPE):					\
-	ptrdes->res.data.uintptr = (__builtin_isnan (__real__ *(TYPE*)ptrdes->data.ptr) || __builtin_isnan (__imag__ *(TYPE*)ptrdes->data.ptr)) ? -1 : mr_hash_block (ptrdes->data.ptr, sizeof (TYPE)); \
+	ptrdes->res.data.uintptr = (__builtin_isnan (__real__ *(TYPE*)ptrdes->data.ptr) || __builtin_isnan (__imag__ *(TYPE*)ptrdes->data.ptr)) ? -1 : \
+	  MR_FLOAT_HASH (__real__ *(TYPE*)ptrdes->data.ptr, SIZE) +	\
+	  MR_FLOAT_HASH (__imag__ *(TYPE*)ptrdes->data.ptr, SIZE);	\
 	break;
 
       MR_FOREACH (CASE_MR_TYPE_HASH, char, uint8_t, int8_t, uint16_t, int16_t, uint32_t, int32_t, uint64_t, int64_t, mr_uint128_t, mr_int128_t);
-      MR_FOREACH (CASE_MR_FLOAT_TYPE_HASH, float, double);
-      MR_FOREACH (CASE_MR_COMPLEX_FLOAT_TYPE_HASH, complex_float_t, complex_double_t);
-	  
-    case MR_TYPE_LONG_DOUBLE:
-      ptrdes->res.data.uintptr = __builtin_isnan (*(long_double_t*)ptrdes->data.ptr) ? -1 : mr_hash_block (ptrdes->data.ptr, MR_SIZEOF_LONG_DOUBLE);
-      break;
+      CASE_MR_FLOAT_TYPE_HASH (float, sizeof (float));
+      CASE_MR_FLOAT_TYPE_HASH (double, sizeof (double));
+      CASE_MR_FLOAT_TYPE_HASH (long_double_t, MR_SIZEOF_LONG_DOUBLE);
+      CASE_MR_COMPLEX_FLOAT_TYPE_HASH (complex_float_t, sizeof (float));
+      CASE_MR_COMPLEX_FLOAT_TYPE_HASH (complex_double_t, sizeof (double));
+      CASE_MR_COMPLEX_FLOAT_TYPE_HASH (complex_long_double_t, MR_SIZEOF_LONG_DOUBLE);
 
-    case MR_TYPE_COMPLEX_LONG_DOUBLE:
-      {
-	long double * real = &__real__ *(complex long double *)ptrdes->data.ptr;
-	long double * imag = &__imag__ *(complex long double *)ptrdes->data.ptr;
-	ptrdes->res.data.uintptr =
-	  (__builtin_isnan (*real) || __builtin_isnan (*imag)) ? -1 :
-	  mr_hash_block (real, MR_SIZEOF_LONG_DOUBLE) + mr_hash_block (imag, MR_SIZEOF_LONG_DOUBLE);
-      }
-      break;
-	  
     case MR_TYPE_STRUCT:
     case MR_TYPE_ARRAY:
     case MR_TYPE_POINTER:
-- 
2.43.0


From fc848adeb442d98d43715b37384dd67d5758a7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:06 +0000
Subject: [PATCH 35/39] fix: order of fields at one offset is transitive

Bit-fields were compared by shift and width with each other but by size
with other fields.
---
 src/metaresc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metaresc.c b/src/metaresc.c
index 4afeb98..f5baf25 100644
--- a/src/metaresc.c
+++ b/src/metaresc.c
@@ -780,7 +780,13 @@ mr_fd_offset_cmp_sorting (const mr_ptr_t x, const mr_ptr_t y, const void * conte
   if (diff)
     return (diff);
 
-  if ((x_fdp->stype.mr_type == MR_TYPE_BITFIELD) && (y_fdp->stype.mr_type == MR_TYPE_BITFIELD))
+  bool x_bitfield = (x_fdp->stype.mr_type == MR_TYPE_BITFIELD);
+  bool y_bitfield = (y_fdp->stype.mr_type == MR_TYPE_BITFIELD);
+  diff = x_bitfield - y_bitfield;
+  if (diff)
+    return (diff);
+
+  if (x_bitfield)
     {
       diff = ((x_fdp->bitfield_param.shift > y_fdp->bitfield_param.shift) -
 	      (x_fdp->bitfield_param.shift < y_fdp->bitfield_param.shift));
-- 
2.43.0


From 6946e43af51392dfda78c958947ea8d116a3bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:02 +0000
Subject: [PATCH 36/39] fix: inline access to an XDR stream in memory advances
 the position

---
 src/xdr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xdr.c b/src/xdr.c
index 514c597..56e62b6 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -154,7 +154,9 @@ xdrra_inline (XDR * xdrs, u_int len)
     return (NULL);
 
   char * base = ra->data.ptr;
-  return ((int32_t*)&base[xdrs->x_handy]);
+  int32_t * ptr = (int32_t*)&base[xdrs->x_handy];
+  xdrs->x_handy += len;
+  return (ptr);
 }
 
 /**
-- 
2.43.0


From 4fb5211eedd4a8a32bb23f4aec2138aaf534d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:02 +0000
Subject: [PATCH 37/39] fix: positioning of an XDR stream in memory beyond the
 data is refused

---
 src/xdr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xdr.c b/src/xdr.c
index 56e62b6..0fc429d 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -132,6 +132,11 @@ xdrra_getpostn (__const XDR * xdrs)
 static bool_t
 xdrra_setpostn (XDR * xdrs, u_int pos)
 {
+  mr_rarray_t * ra = (mr_rarray_t*)xdrs->x_private;
+
+  if ((NULL == ra) || (pos > ra->MR_SIZE))
+    return (false);
+
   xdrs->x_handy = pos;
   return (true);
 }
-- 
2.43.0


From 7c2bc03eb5b7c75d226c69331b0232d3428ff4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:17 +0000
Subject: [PATCH 38/39] fix: indexing a tree from nothing brings its count of
 items up to date

---
 src/mr_ic.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index cb65b09..7791be8 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -931,6 +931,7 @@ mr_ic_tree_index (mr_ic_t * ic, mr_ptr_t * rarray, size_t size)
   /* Add elements into the tree in the natuaral order. In case of equal elements only first will be added. */
   int i, count = size / sizeof (rarray[0]);
   mr_tree_reserve (&ic->tree, count, true);
+  ic->items_count = mr_ic_tree_items_count (&ic->tree);
   for (i = 0; i < count; ++i)
     if (NULL == mr_ic_add (ic, rarray[i]))
       return (MR_FAILURE);
-- 
2.43.0


From e7e71d000825c1531eb14ee91121b5fd24e99894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:17 +0000
Subject: [PATCH 39/39] fix: a null key that is already in a hash collection is
 not counted again

---
 src/mr_ic.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 7791be8..1f2ab6c 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -470,7 +470,8 @@ mr_ic_hash_index_add (mr_ic_t * ic, mr_ptr_t key)
       
       if (0 == key.intptr)
 	{
-	  ++ic->items_count;
+	  if (!ic->hash.zero_key)
+	    ++ic->items_count;
 	  ic->hash.zero_key = true;
 	  ic->hash.hash_table[count].intptr = 0;
 	  return (&ic->hash.hash_table[count]);
-- 
2.43.0

