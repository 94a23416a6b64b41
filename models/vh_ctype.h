/* C-locale character classes for the symbolic side (glibc's go through a table pointer) */
#ifndef VH_CTYPE_H
#define VH_CTYPE_H
#include <ctype.h>
#ifndef REPLAY
#undef isprint
#undef isdigit
#undef isxdigit
#undef isspace
#undef isalpha
#undef isalnum
#undef isupper
#undef islower
#undef iscntrl
#undef isgraph
#undef ispunct
#undef toupper
#undef tolower
#define isprint(c) vh_isprint(c)
#define isdigit(c) vh_isdigit(c)
#define isxdigit(c) vh_isxdigit(c)
#define isspace(c) vh_isspace(c)
#define isalpha(c) vh_isalpha(c)
#define isalnum(c) vh_isalnum(c)
#define isupper(c) vh_isupper(c)
#define islower(c) vh_islower(c)
#define iscntrl(c) vh_iscntrl(c)
#define isgraph(c) vh_isgraph(c)
#define ispunct(c) vh_ispunct(c)
#define toupper(c) vh_toupper(c)
#define tolower(c) vh_tolower(c)
static inline int vh_isprint(int c) { return c >= 0x20 && c <= 0x7e; }
static inline int vh_isdigit(int c) { return c >= '0' && c <= '9'; }
static inline int vh_isupper(int c) { return c >= 'A' && c <= 'Z'; }
static inline int vh_islower(int c) { return c >= 'a' && c <= 'z'; }
static inline int vh_isalpha(int c) { return vh_isupper(c) || vh_islower(c); }
static inline int vh_isalnum(int c) { return vh_isalpha(c) || vh_isdigit(c); }
static inline int vh_isxdigit(int c) { return vh_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static inline int vh_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static inline int vh_iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
static inline int vh_isgraph(int c) { return c > 0x20 && c <= 0x7e; }
static inline int vh_ispunct(int c) { return vh_isgraph(c) && !vh_isalnum(c); }
static inline int vh_toupper(int c) { return vh_islower(c) ? c - 32 : c; }
static inline int vh_tolower(int c) { return vh_isupper(c) ? c + 32 : c; }
#endif
#endif
