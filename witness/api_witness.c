/* Expands every public entry macro of metaresc.h once, each in a function of
   its own, so that the code the macros contain is part of the analysed
   program.  It is compiled to IR and never linked or run. */
#include <mr_config.h>
#include <metaresc.h>

TYPEDEF_STRUCT (wit_t, (int, x), (char *, s), (double, d), VOID (void *, v));

char * wit_save_xml1 (wit_t * p) { return MR_SAVE_XML1 (wit_t, p); }
char * wit_save_cinit (wit_t * p) { return MR_SAVE_CINIT (wit_t, p); }
char * wit_save_json (wit_t * p) { return MR_SAVE_JSON (wit_t, p); }
char * wit_save_scm (wit_t * p) { return MR_SAVE_SCM (wit_t, p); }
char * wit_save_yaml (wit_t * p) { return MR_SAVE_YAML (wit_t, p); }
char * wit_save_xml2 (wit_t * p) { return MR_SAVE_XML2 (wit_t, p); }
mr_status_t wit_save_xdr (XDR * xdrs, wit_t * p) { return MR_SAVE_XDR (xdrs, wit_t, p); }
mr_rarray_t wit_save_xdr_ra (wit_t * p) { return MR_SAVE_XDR_RA (wit_t, p); }
mr_rarray_t wit_save_json_ra (wit_t * p) { return MR_SAVE_JSON_RA (wit_t, p); }

mr_status_t wit_load_xml1 (char * str, wit_t * p) { return MR_LOAD_XML1 (wit_t, str, p); }
mr_status_t wit_load_cinit (char * str, wit_t * p) { return MR_LOAD_CINIT (wit_t, str, p); }
mr_status_t wit_load_json (char * str, wit_t * p) { return MR_LOAD_JSON (wit_t, str, p); }
mr_status_t wit_load_scm (char * str, wit_t * p) { return MR_LOAD_SCM (wit_t, str, p); }
mr_status_t wit_load_yaml (char * str, wit_t * p) { return MR_LOAD_YAML (wit_t, str, p); }
mr_status_t wit_load_xml2 (char * str, wit_t * p) { return MR_LOAD_XML2 (wit_t, str, p); }
mr_status_t wit_load_xml2_node (xmlNodePtr n, wit_t * p) { return MR_LOAD_XML2_NODE (wit_t, n, p); }
mr_status_t wit_load_xdr (XDR * xdrs, wit_t * p) { return MR_LOAD_XDR (wit_t, xdrs, p); }
mr_status_t wit_load_xdr_ra (mr_rarray_t * ra, wit_t * p) { return MR_LOAD_XDR_RA (wit_t, ra, p); }
mr_status_t wit_load_json_ra (mr_rarray_t * ra, wit_t * p) { return MR_LOAD_JSON_RA (wit_t, ra, p); }

mr_ra_ptrdes_t wit_save (wit_t * p) { return MR_SAVE (wit_t, p); }
mr_status_t wit_copy (wit_t * s, wit_t * d) { return MR_COPY_RECURSIVELY (wit_t, s, d); }
wit_t wit_copy2 (wit_t * s) { return MR_COPY_RECURSIVELY (wit_t, s); }
mr_status_t wit_free (wit_t * p) { return MR_FREE_RECURSIVELY (wit_t, p); }
mr_hash_value_t wit_hash (wit_t * p) { return MR_HASH_STRUCT (wit_t, p); }
int wit_cmp (wit_t * a, wit_t * b) { return MR_CMP_STRUCTS (wit_t, a, b); }
int wit_print (wit_t * p) { return MR_FPRINT (stdout, "a", 1, 2.0, (wit_t *, p)); }

/* offsets of members of anonymous unions, for field naming */
const size_t wit_offsets[] = { offsetof (mr_ptrdes_t, data), offsetof (mr_ptrdes_t, save_params) };
