/* L17: a spool directory, shared with another consumer and a producer */
#define VH_COUNT 1
#include "vh.h"
#include "vh_libc.h"
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <unistd.h>
#include <dirent.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/stat.h>
#include "libmy/my_alloc.h"
#include "libmy/ubuf.h"
#ifndef NF		/* file names */
#define NF 2
#endif
#ifndef CALLS
#define CALLS 2
#endif
/* ---- the spool: contents are numbered, 0 is no file ---- */
static unsigned in[NF], act[NF], nextid = 1;
static bool regular[NF];
static unsigned taken[NF * (CALLS + 2) + 8];	/* how often each content was claimed by someone */
static bool is_lost[NF * (CALLS + 2) + 8];
static bool locked, adversary, rename_refused;
static unsigned cursor; static bool eof; static struct dirent de;
static unsigned char vh_dir;
static unsigned moves;
/* anyone else may act whenever this process makes a system call */
static void others(void)
{
	if (!adversary || moves == 0) return;
	uint64_t what = ND_raw(2);
	unsigned x = (unsigned) ND_raw(NF - 1);
	if (what == 0) return;
	moves--;
	if (what == 1) {		/* the other consumer claims a file */
		if (in[x] && regular[x]) { taken[in[x]]++; act[x] = in[x]; in[x] = 0; }
	} else if (!in[x]) {		/* a producer drops a file */
		in[x] = nextid++; regular[x] = true;
	}
}
/* "S/incoming/x" and "S/active/x"; 2 is neither */
static int where(const char *p, unsigned *x)
{
	static const char a[] = "S/active/", i[] = "S/incoming/";
	int r = 2; unsigned n = 0;
	if (p[2] == 'a') { r = 1; for (unsigned k = 0; k < sizeof a - 1; k++) if (p[k] != a[k]) return 2; n = sizeof a - 1; }
	else if (p[2] == 'i') { r = 0; for (unsigned k = 0; k < sizeof i - 1; k++) if (p[k] != i[k]) return 2; n = sizeof i - 1; }
	else return 2;
	if (p[n] < 'a' || p[n] >= 'a' + NF || p[n + 1] != '\0') return 2;
	*x = (unsigned) (p[n] - 'a');
	return r;
}
static int vh_stat(const char *p, struct stat *sb)
{
	unsigned x; others();
	if (p[0] == 'S' && (p[1] == '\0' || (p[1] == '/' && (p[2] == 'a' || p[2] == 'i') && (p[2] == 'a' ? p[8] : p[10]) == '\0'))) { sb->st_mode = S_IFDIR; return 0; }
	int w = where(p, &x);
	CHECK(w != 2, "only the spool is looked at");
	if (w == 2) return -1;
	if ((w ? act : in)[x]) { sb->st_mode = S_IFREG; return 0; }
	errno = ENOENT; return -1;
}
static int vh_fstatat(int fd, const char *name, struct stat *sb, int fl)
{
	(void) fd; (void) fl; others();
	CHECK(locked, "the directory is read under the lock");
	CHECK(name[0] >= 'a' && name[0] < 'a' + NF && name[1] == '\0', "only names in the directory are looked at");
	unsigned x = (unsigned) (name[0] - 'a');
	ASSUME(x < NF);
	if (!in[x]) { errno = ENOENT; return -1; }
	sb->st_mode = regular[x] ? S_IFREG : S_IFDIR;
	return 0;
}
static struct dirent *vh_readdir(DIR *d)
{
	(void) d; others();
	CHECK(locked, "the directory is read under the lock");
	if (cursor == 0) { cursor = 1; de.d_name[0] = '.'; de.d_name[1] = '\0'; return &de; }
	while (cursor <= NF) {
		unsigned x = cursor++ - 1;
		/* a file there now, or one that was there a moment ago */
		if (in[x] || (adversary && ND_bool())) { de.d_name[0] = (char) ('a' + x); de.d_name[1] = '\0'; return &de; }
	}
	return NULL;
}
static int vh_rename(const char *from, const char *to)
{
	unsigned x, y; others();
	int f = where(from, &x), t = where(to, &y);
	CHECK(f == 0 && t == 1 && x == y, "a file is claimed by moving it from incoming to active");
	ASSUME(f == 0 && t == 1);
	if (!in[x]) { errno = ENOENT; return -1; }
	if (rename_refused) { errno = EACCES; return -1; }
	taken[in[x]]++;
	act[y] = in[x]; in[x] = 0;
	return 0;
}
static int vh_unlink(const char *p)
{
	unsigned x; others();
	int w = where(p, &x);
	CHECK(w != 0, "a file that is not claimed is not removed");
	if (w == 1) { is_lost[act[x]] = true; act[x] = 0; }
	return 0;
}
static int vh_lock(pthread_mutex_t *m) { (void) m; CHECK(!locked, "lock not held"); locked = true; return 0; }
static int vh_unlock(pthread_mutex_t *m) { (void) m; CHECK(locked, "lock held"); locked = false; return 0; }
#ifndef REPLAY
static int vh_errno;
#undef errno
#define errno vh_errno
char *strerror(int e) { (void) e; static char m[1]; return m; }
static char *vh_realpath(void) { VH_MORE(1); char *p = __CPROVER_allocate(2, 1); p[0] = 'S'; return p; }
static void ubuf_add_fmt(ubuf *u, const char *fmt, ...)
{
	va_list ap;
	if (u->_n > 0 && u->_v[u->_n - 1] == 0) u->_n--;
	va_start(ap, fmt);
	for (unsigned i = 0; fmt[i] != '\0'; i++) {
		if (fmt[i] != '%') { ubuf_add(u, (uint8_t) fmt[i]); continue; }
		i++;
		CHECK(fmt[i] == 's', "only texts are formatted");
		ubuf_add_cstr(u, va_arg(ap, const char *));
	}
	va_end(ap);
	ubuf_cterm(u);
}
#else
static char *vh_realpath(void) { char *p = malloc(2); p[0] = 'S'; p[1] = '\0'; return p; }
#endif
#ifndef REPLAY
#define free(p) vh_free(p)
#endif
#define stat(p, b) vh_stat((p), (b))
#define fstatat vh_fstatat
#define readdir vh_readdir
#define rewinddir(d) ((void) (cursor = 0))
#define opendir(p) ((DIR *) (void *) &vh_dir)
#define closedir(d) 0
#define dirfd(d) 3
#define mkdir(p, m) 0
#define rename vh_rename
#define unlink vh_unlink
#define realpath(p, b) vh_realpath()
#define usleep(x) 0
#define pthread_mutex_init(a, b) 0
#define pthread_mutex_destroy(a) 0
#define pthread_mutex_lock vh_lock
#define pthread_mutex_unlock vh_unlock
#include "plain_spooldir.c"
#undef stat

static void any_spool(void)
{
	for (unsigned x = 0; x < NF; x++) {
		regular[x] = ND_bool();
		if (ND_bool()) in[x] = nextid++;
		if (ND_bool()) act[x] = nextid++;	/* claimed earlier under the same name */
	}
}
void h_spool(void)
{
	struct spooldir *s = spooldir_init("whatever");
	any_spool();
	adversary = true; moves = MOVES;
	for (int c = 0; c < CALLS; c++) {
		rename_refused = ND_bool();
		char *f = spooldir_next(s);
		CHECK(!locked, "the lock is released");
		unsigned x;
		if (f != NULL) {
			CHECK(where(f, &x) == 1, "what is handed out lies in active");
			ASSUME(where(f, &x) == 1);
			CHECK(act[x] != 0, "what is handed out has been claimed");
			REACH("a file is handed out");
#ifndef REPLAY
			vh_free(f);
#else
			(free)(f);
#endif
		} else {
			for (unsigned i = 0; i < sizeof is_lost / sizeof *is_lost; i++)
				CHECK(!is_lost[i], "nothing claimed is removed when nothing is handed out");
			REACH_IF(rename_refused, "nothing handed out");
		}
		for (unsigned i = 0; i < sizeof is_lost / sizeof *is_lost; i++) is_lost[i] = false;
	}
	for (unsigned i = 1; i < sizeof taken / sizeof *taken; i++) CHECK(taken[i] <= 1, "a file is claimed once");
	spooldir_destroy(&s);
	CHECK(s == NULL, "destroying clears the handle");
#ifndef REPLAY
	CHECK(vh_live_mem == 0, "everything allocated is released");
#endif
}
/* alone, every file is handed out in the end, each once, and nothing else */
void h_drain(void)
{
	struct spooldir *s = spooldir_init("whatever");
	any_spool();
	unsigned got = 0, want = 0;
	bool had[NF];
	for (unsigned x = 0; x < NF; x++) { had[x] = in[x] && regular[x]; want += had[x]; }
	uint64_t refuse_at = ND_raw(NF + 1);	/* one refusal at most, at any call */
	for (unsigned c = 0; c < NF + 2; c++) {
		rename_refused = c == refuse_at;
		char *f = spooldir_next(s);
		if (f == NULL) continue;
		unsigned x;
		CHECK(where(f, &x) == 1, "what is handed out lies in active");
		ASSUME(where(f, &x) == 1);
		CHECK(had[x], "only regular files that were there are handed out, each once");
		had[x] = false; got++;
#ifndef REPLAY
		vh_free(f);
#else
		(free)(f);
#endif
	}
	/* one more pass over the directory */
	rename_refused = false;
	for (unsigned c = 0; c < 2; c++) {
		char *f = spooldir_next(s);
		if (f != NULL) { unsigned x; if (where(f, &x) == 1 && had[x]) { had[x] = false; got++; } }
	}
	CHECK(got == want, "every file is handed out");
	REACH_IF(want == NF && refuse_at == 0, "all handed out after a refusal");
}
