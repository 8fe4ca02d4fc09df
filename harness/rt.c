// Native side of the harness intrinsics: replays the inputs of one symbolic path.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
void vf_dispatch(const char *name, size_t n);
static FILE *in; static int nparam; static uint64_t param[16];
void vf_bytes(unsigned char *p, size_t n, const char *name, size_t nl) {
  memset(p, 0, n);
  if (!in) return;
  static char nm[512]; 
  if (fscanf(in, "%511s", nm) != 1) return;
  if (strlen(nm) != nl || memcmp(nm, name, nl)) { printf("INPUT-MISMATCH %s %.*s\n", nm, (int)nl, name); fflush(stdout); exit(12); }
  int c; while ((c = fgetc(in)) == ' ') ;
  size_t i = 0;
  while (c != '\n' && c != EOF) {
    int d = fgetc(in); char b[3] = {(char)c, (char)d, 0};
    if (i < n) p[i++] = (unsigned char)strtoul(b, 0, 16);
    c = fgetc(in);
  }
}
void vf_assume(_Bool c) { if (!c) { printf("ASSUME-FAIL\n"); fflush(stdout); exit(11); } }
void vf_assert(_Bool c, const char *id, size_t n) { if (!c) { printf("ASSERT-FAIL %.*s\n", (int)n, id); fflush(stdout); exit(10); } }
void vf_reach(const char *id, size_t n) { printf("REACH %.*s\n", (int)n, id); }
uint64_t vf_param(size_t i) { return i < 16 ? param[i] : 0; }
uint64_t vf_fork(uint64_t x) { return x; }
_Bool vf_is_symbolic(uint64_t x) { return 0; }
void vf_observe(uint32_t id, const unsigned char *p, size_t n) { printf("OBS %u ", id); for (size_t i = 0; i < n; i++) printf("%02x", p[i]); printf("\n"); }
int main(int argc, char **argv) {
  setvbuf(stdout, 0, _IOLBF, 0);
  if (argc < 2) return 2;
  if (argc > 2 && strcmp(argv[2], "-")) { in = fopen(argv[2], "r"); if (!in) return 2; }
  for (int i = 3; i < argc && i < 19; i++) param[i - 3] = strtoull(argv[i], 0, 10);
  vf_dispatch(argv[1], strlen(argv[1]));
  printf("DONE\n");
  return 0;
}
