/* formatting functions of libwdns and libmy that a harness does not exercise */
#include "libmy/my_format.h"
size_t my_uint64_to_str(uint64_t v, char *d, size_t n, const char **s) { (void) v; (void) d; (void) n; (void) s; return 0; }
size_t wdns_domain_to_str(const uint8_t *src, size_t n, char *dst) { (void) src; (void) n; dst[0] = 0; return 0; }
const char *wdns_rrtype_to_str(uint16_t t) { (void) t; return NULL; }
char *wdns_rdata_to_str(const uint8_t *r, uint16_t l, uint16_t t, uint16_t c) { (void) r; (void) l; (void) t; (void) c; return NULL; }
