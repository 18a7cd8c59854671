/* Native side of the harness interface: inputs come from a replay file. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint64_t *in; static size_t n, pos; static int quiet;
void sym_load(const char *p, uint64_t len) {
  char path[4096]; if (len >= sizeof path) exit(9); memcpy(path, p, len); path[len] = 0;
  FILE *f = fopen(path, "r"); if (!f) { fprintf(stderr, "cannot read %s\n", path); exit(9); }
  char line[256]; size_t cap = 0;
  while (fgets(line, sizeof line, f)) {
    if (line[0] == 'h' || line[0] == '#' || line[0] == '\n') continue;
    if (n == cap) { cap = cap ? 2 * cap : 64; in = realloc(in, cap * sizeof *in); }
    in[n++] = strtoull(line, 0, 16);
  }
  fclose(f);
}
static uint64_t next(void) { return pos < n ? in[pos++] : (pos++, 0); }
static void bad(void) { fprintf(stderr, "replay value out of range\n"); exit(4); }
int32_t sym_int(int32_t lo, int32_t hi) { int32_t v = (int32_t)next(); if (v < lo || v > hi) bad(); return v; }
uint8_t sym_byte(uint8_t lo, uint8_t hi) { uint8_t v = (uint8_t)next(); if (v < lo || v > hi) bad(); return v; }
uint8_t sym_set(const uint8_t *p, uint64_t k) { uint8_t v = (uint8_t)next(); if (!memchr(p, v, k)) bad(); return v; }
float sym_f32(int32_t lo, int32_t hi, int32_t frac) { uint32_t b = (uint32_t)next(); float f; memcpy(&f, &b, 4); (void)lo; (void)hi; (void)frac; return f; }
uint32_t sym_choose(uint32_t k) { uint32_t v = (uint32_t)next(); if (v >= k) bad(); return v; }
_Bool sym_bool(void) { return next() & 1; }
void sym_assume(_Bool b) { if (!b) { fflush(stdout); exit(4); } }
void sym_assert(_Bool b, const char *p, uint64_t k) { if (!b) { fflush(stdout); fprintf(stderr, "ASSERT %.*s\n", (int)k, p); exit(3); } }
void sym_reach(const char *p, uint64_t k) { (void)p; (void)k; }
_Bool sym_native(void) { return 1; }
float sym_float_ref(uint32_t e) { (void)e; abort(); }
int32_t sym_conc_i32(int32_t x) { return x; }
float sym_conc_f32(float x) { return x; }
void sym_note(uint64_t x) { printf("note %llx\n", (unsigned long long)x); }
void sym_hash_mode(uint32_t x) { (void)x; }
void sym_log(const char *p, uint64_t k) { fprintf(stderr, "LOG %.*s\n", (int)k, p); }
/* The arguments have to be there when the process starts: start it again with them. */
#include <unistd.h>
#include <sys/syscall.h>
void sym_args(int argc, const char *const *argv) {
  (void)argc;
  if (getenv("SYM_ARGS")) return;
  setenv("SYM_ARGS", "1", 1);
  execv("/proc/self/exe", (char *const *)argv);
  fprintf(stderr, "cannot start again\n"); exit(9);
}
long sym_sys3(long n, long a, const void *b, unsigned long c) { return syscall(n, a, b, c); }
