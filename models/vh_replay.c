/* native side: feeds the values of a solver trace to a harness */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint64_t *vals; static size_t nvals, pos;
uint64_t vh_next(void) { return pos < nvals ? vals[pos++] : (pos++, 0); }
void vh_assume_failed(const char *c, const char *f, int l)
{ printf("REPLAY-ASSUME %s (%s:%d)\n", c, f, l); fflush(stdout); _Exit(77); }
void vh_check_failed(const char *m, const char *f, int l)
{ printf("REPLAY-FAIL %s (%s:%d)\n", m, f, l); fflush(stdout); _Exit(66); }
void vh_reach(const char *m) { printf("REPLAY-REACH %s\n", m); }
extern void VH_ENTRY(void);
int main(int argc, char **argv)
{
	setvbuf(stdout, NULL, _IONBF, 0);
	vals = malloc(sizeof(*vals) * 65536);
	if (argc > 1) {
		FILE *fp = fopen(argv[1], "r");
		if (!fp) return 2;
		unsigned long long v;
		while (nvals < 65536 && fscanf(fp, "%llu", &v) == 1) vals[nvals++] = v;
		fclose(fp);
	}
	VH_ENTRY();
	printf("REPLAY-OK\n");
	return 0;
}
