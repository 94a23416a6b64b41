/* L16: a file set follows its list file */
#define VH_COUNT 1
#include "vh.h"
#include "vh_libc.h"
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <unistd.h>
#include <libgen.h>
#include <sys/stat.h>
#include "libmy/my_alloc.h"
#include "libmy/ubuf.h"
#ifndef NF		/* different file names */
#define NF 3
#endif
#ifndef RELOADS
#define RELOADS 2
#endif
#ifndef LINES
#define LINES 2
#endif
#ifndef F1
#define F1 0
#endif
#ifndef F2
#define F2 0
#endif
#ifndef F3
#define F3 0
#endif
#ifndef N1
#define N1 1
#endif
#ifndef N2
#define N2 1
#endif
#ifndef N3
#define N3 1
#endif
/* ---- the file system ---- */
static uint64_t cur_ino, cur_mtime;
static unsigned nlines, atline; static uint8_t lines[LINES];
static bool exists[NF], stat_ok, open_ok;
static int nopen, ngets; static bool reads;
static int vh_stat(const char *path, struct stat *sb)
{
	if (path[0] == 'd' && path[1] == '/' && path[2] == 'S') {
		if (!stat_ok) { errno = EIO; return -1; }
		sb->st_ino = cur_ino; sb->st_mtime = (time_t) cur_mtime;
		return 0;
	}
	CHECK(path[0] == 'd' && path[1] == '/' && path[2] >= 'a' && path[2] < 'a' + NF && path[3] == '\0', "names are taken relative to the directory of the list");
	ASSUME(path[2] >= 'a' && path[2] < 'a' + NF);
	if (!exists[path[2] - 'a']) { errno = ENOENT; return -1; }
	return 0;
}
static char vh_file;
static FILE *vh_fopen(const char *path, const char *mode)
{
	(void) mode;
	CHECK(path[2] == 'S', "only the list is read");
	if (!open_ok) { errno = EACCES; return NULL; }
	nopen++; atline = 0;
	return (FILE *) (void *) &vh_file;
}
static int vh_fclose(FILE *f) { (void) f; nopen--; return 0; }
static ssize_t vh_getline(char **line, size_t *len, FILE *f)
{
	(void) f;
	if (*line == NULL) {
#ifdef REPLAY
		*line = malloc(8);
#else
		static char linebuf[8];
		VH_MORE(1); *line = linebuf;
#endif
		*len = 8;
	}
	if (atline >= nlines) return -1;
	(*line)[0] = (char) ('a' + lines[atline]); atline++;
#ifdef LASTNL	/* the last line may lack its newline */
	if (atline == nlines) { (*line)[1] = '\0'; return 1; }
#endif
	(*line)[1] = '\n'; (*line)[2] = '\0';
	return 2;
}
/* what the C library promises of these, no more */
static void *vh_bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
	size_t lo = 0, hi = n;
	while (lo < hi) {
		size_t mid = (lo + hi) / 2;
		const void *e = (const char *) base + mid * sz;
		int c = cmp(key, e);
		if (c == 0) return (void *) (uintptr_t) e;
		if (c < 0) hi = mid; else lo = mid + 1;
	}
	return NULL;
}
static void vh_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
	void **v = base;
	CHECK(sz == sizeof(void *), "elements are pointers");
	for (size_t i = 1; i < n; i++)
		for (size_t j = i; j > 0 && cmp(&v[j - 1], &v[j]) > 0; j--) { void *t = v[j]; v[j] = v[j - 1]; v[j - 1] = t; }
}
#ifndef REPLAY
char *dirname(char *p) { p[1] = '\0'; return p; }	/* of "d/S" */
#undef errno
static int vh_errno;
#define errno vh_errno
char *strerror(int e) { (void) e; static char m[1]; return m; }
#define free(p) vh_free(p)
#endif
#define stat(p, b) vh_stat((p), (b))
#define fopen vh_fopen
#define fclose vh_fclose
#define getline vh_getline
#define bsearch vh_bsearch
#define qsort vh_qsort
#include "plain_my_fileset.c"
#undef stat

/* ---- the user ---- */
#define NH (LINES * RELOADS + 1)
static unsigned nh; static bool hopen[NH]; static uint8_t hname[NH];
static unsigned nload, nunload; static int marker;
static uint8_t name_of(const char *f)
{
	CHECK(f[0] == 'd' && f[1] == '/' && f[2] >= 'a' && f[2] < 'a' + NF && f[3] == '\0', "the name is that of a listed file");
	return (uint8_t) (f[2] - 'a');
}
static void *do_load(struct my_fileset *fs, const char *fname)
{
	CHECK(my_fileset_user(fs) == &marker, "the caller's data is at hand");
	uint8_t n = name_of(fname);
	for (unsigned i = 0; i < nh; i++) CHECK(!(hopen[i] && hname[i] == n), "a file is opened once");
	CHECK(nh < NH, "a file is opened once per reload");
	ASSUME(nh < NH);
	hname[nh] = n; hopen[nh] = true; nload++;
	return (void *) (uintptr_t) (++nh);
}
static void do_unload(struct my_fileset *fs, const char *fname, void *p)
{
	(void) fs;
	uintptr_t h = (uintptr_t) p;
	CHECK(h >= 1 && h <= nh && hopen[h - 1], "a file is closed once");
	ASSUME(h >= 1 && h <= nh);
	CHECK(hname[h - 1] == name_of(fname), "the file closed is the one named");
	hopen[h - 1] = false; nunload++;
}
static void check_contents(struct my_fileset *fs, const uintptr_t *want)
{
	size_t i = 0;
	const char *f; void *p;
	for (unsigned n = 0; n < NF; n++) {
		if (!want[n]) continue;
		bool r = my_fileset_get(fs, i, &f, &p);
		CHECK(r, "every listed file is in the set");
		if (r) {
			CHECK(name_of(f) == n, "the files come in order, each once");
			CHECK((uintptr_t) p == want[n], "with what opening them returned");
		}
		i++;
	}
	CHECK(!my_fileset_get(fs, i, &f, &p), "no other file is in the set");
}
void h_fileset(void)
{
	stat_ok = true;
	uintptr_t want[NF] = { 0 };
	struct my_fileset *fs = my_fileset_init("d/S", do_load, do_unload, &marker);
	check_contents(fs, want);
	uint64_t rino = 0, rtime = 0; bool read_once = false;
	for (int r = 0; r < RELOADS; r++) {
		cur_ino = ND_range(1, 2); cur_mtime = ND_range(1, 2);
		bool same = read_once && cur_ino == rino && cur_mtime == rtime;
		static const unsigned fault[3] = { F1, F2, F3 };	/* 1: the list cannot be examined; 2: it cannot be opened */
		stat_ok = fault[r] != 1; open_ok = fault[r] != 2;
		static const unsigned nl[3] = { N1, N2, N3 };	/* how many lines the list has each time */
		nlines = nl[r];
		for (unsigned i = 0; i < LINES; i++) lines[i] = (uint8_t) ND_raw(NF - 1);
#ifdef DISTINCT
		for (unsigned i = 1; i < nlines; i++) ASSUME(lines[i] > lines[i - 1]);
#endif
		for (unsigned i = 0; i < NF; i++) exists[i] = ND_bool();
		unsigned nh0 = nh, nu0 = nunload;
		my_fileset_reload(fs);
		CHECK(nopen == 0, "the list is closed again");
		if (same || !stat_ok || !open_ok) {
			CHECK(nh == nh0 && nunload == nu0, "nothing is opened or closed while the list is unchanged or unreadable");
		} else {
			read_once = true; rino = cur_ino; rtime = cur_mtime;
			for (unsigned n = 0; n < NF; n++) {
				bool in = false;
				for (unsigned i = 0; i < LINES; i++) if (i < nl[r] && lines[i] == n && exists[n]) in = true;
				uintptr_t h = 0;
				for (unsigned i = 0; i < nh; i++) if (hopen[i] && hname[i] == n) h = i + 1;
				CHECK(in == (h != 0), "exactly the listed files that exist are open");
				if (in && want[n]) CHECK(h == want[n], "a file that stays listed stays open");
				want[n] = h;
			}
		}
		check_contents(fs, want);
		if (r == RELOADS - 1 && fault[r] == 0) {
			REACH_IF(nh > nh0, "a file opened");
			REACH_IF(nl[r - 1] && !fault[r - 1] && same && nh > 0 || !nl[r - 1] || fault[r - 1], "an unchanged list");
			REACH_IF(nl[r - 1] && !fault[r - 1] && nunload > 0 && nh > nh0 || !nl[r - 1] || fault[r - 1], "one closed, one opened");
		}
	}
	my_fileset_destroy(&fs);
	CHECK(fs == NULL, "destroying clears the handle");
	for (unsigned i = 0; i < NH; i++) CHECK(!hopen[i], "destroying closes every file");
	CHECK(nunload == nh, "every file opened is closed once");
#ifndef REPLAY
	CHECK(vh_live_mem == 0, "everything allocated is released");
#endif
}
