/* Declarations of the libprov error interface (a git submodule that is absent
 * here), so that the provider's main source can be parsed and analysed. */
#ifndef STUB_PROV_ERR_H
#define STUB_PROV_ERR_H
#include <openssl/core.h>
struct proverr_functions_st;
struct proverr_functions_st *proverr_new_handle(const OSSL_CORE_HANDLE *core, const OSSL_DISPATCH *in);
void proverr_free_handle(struct proverr_functions_st *handle);
void proverr_new_error(struct proverr_functions_st *handle);
void proverr_set_error_debug(struct proverr_functions_st *handle, const char *file, int line, const char *func);
void proverr_set_error(struct proverr_functions_st *handle, unsigned int reason, const char *fmt, ...);
#endif
