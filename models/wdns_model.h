/* definitions for wdns.h; include once per harness */
#ifndef WDNS_MODEL_DEFS_H
#define WDNS_MODEL_DEFS_H
#include "wdns.h"

wdns_res wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz)
{
	size_t avail = (size_t) (eop - p), off = 0;
	if (p > eop) return wdns_res_parse_error;
	for (;;) {
		if (off >= avail) return wdns_res_parse_error;
		uint8_t l = p[off++];
		if (l == 0) break;
		if (l > WDNS_MAXLEN_LABEL || l > avail - off) return wdns_res_parse_error;
		off += l;
	}
	if (off > WDNS_MAXLEN_NAME) return wdns_res_parse_error;
	*sz = off;
	return wdns_res_success;
}

#ifndef WDNS_MODEL_NO_REVERSE
wdns_res wdns_reverse_name(const uint8_t *name, size_t len_name, uint8_t *rev_name)
{
	size_t remain = 0, d = 0, top = len_name - 1;
	if (len_name == 0) return wdns_res_parse_error;
	rev_name[top] = 0;
	for (size_t i = 0; i < len_name; i++) {
		if (remain == 0) {
			uint8_t l = name[i];
			if (l == 0) return top == 0 && i == len_name - 1 ? wdns_res_success : wdns_res_parse_error;
			if (l > WDNS_MAXLEN_LABEL || (size_t) l + 1 > top) return wdns_res_parse_error;
			remain = (size_t) l + 1;
			top -= remain;
			d = top;
		}
		rev_name[d++] = name[i];
		remain--;
	}
	return wdns_res_parse_error;
}
#endif

#ifndef WDNS_MODEL_NO_DOWNCASE
void wdns_downcase_name(wdns_name_t *name)
{
	for (size_t i = 0; i < name->len; i++)
		if (name->data[i] >= 'A' && name->data[i] <= 'Z') name->data[i] += 32;
}
#endif
#endif
