#include <stddef.h>
unsigned long long hx_hash_calls(void) { return 0; }
unsigned long long hx_hash_kgcalls(void) { return 0; }
void hx_hash_reset(size_t pad, size_t n) { (void)pad; (void)n; }
void hx_hash_hook(void (*f)(void), unsigned long long at) { (void)f; (void)at; }
void hx_hash_log(int on) { (void)on; }
unsigned char *hx_hash_log_get(size_t *n) { *n = 0; return 0; }
