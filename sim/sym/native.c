// Native side of the harness primitives: a replay reads the solver's inputs from $RSYM_REPLAY
// (one "name hexbytes" line per input, in creation order) and executes the same harness for real.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *f; static int opened;
static void op(void) { if (!opened) { opened = 1; const char *p = getenv("RSYM_REPLAY"); f = p ? fopen(p, "r") : 0; } }
void rsym_symbolic(uint8_t *p, size_t n, const uint8_t *name, size_t nl) {
  op(); memset(p, 0, n); (void)name; (void)nl;
  if (!f) return;
  static char nm[512]; if (fscanf(f, "%511s", nm) != 1) { return; }
  int c = fgetc(f); if (c == '\n' || c == EOF) return;
  for (size_t i = 0;; i++) { int a = fgetc(f); if (a == '\n' || a == EOF) break; int b = fgetc(f); char h[3] = {(char)a, (char)b, 0}; if (i < n) p[i] = (uint8_t)strtoul(h, 0, 16); }
}
void rsym_assume(uint32_t c) { if (!c) { fprintf(stderr, "RSYM-ASSUME-FALSE\n"); fflush(0); _Exit(77); } }
void rsym_assert(uint32_t c, const uint8_t *l, size_t n) { if (!c) { fprintf(stderr, "RSYM-ASSERT-FAILED %.*s\n", (int)n, (const char *)l); fflush(0); _Exit(99); } }
void rsym_cover(const uint8_t *l, size_t n) { if (getenv("RSYM_VERBOSE")) fprintf(stderr, "cover %.*s\n", (int)n, (const char *)l); }
void rsym_note(const uint8_t *l, size_t n) { if (getenv("RSYM_VERBOSE")) fprintf(stderr, "note %.*s\n", (int)n, (const char *)l); }
uint64_t rsym_concretize(uint64_t v) { return v; }
uint32_t rsym_is_symbolic_run(void) { return 0; }
uint64_t rsym_ite64(uint32_t c, uint64_t a, uint64_t b) { return c ? a : b; }
uint32_t rsym_byteseq(const uint8_t *a, const uint8_t *b, size_t n) { return memcmp(a, b, n) == 0; }
