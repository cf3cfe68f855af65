// Native side of the harness API, used to replay solver models against the real code.
// usage: rumpy-sx <harness-index> [file]   (file: lines of hex inputs; "-" = stdin)
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
static const uint8_t *in; static size_t in_n, in_p; static uint64_t pick; static int allow_panic;
extern int sx_main(void); extern int sx_count(void); extern void sx_name(int, char *, size_t);
void sx_sym(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = in_p < in_n ? in[in_p++] : 0; }
void sx_assume(_Bool b) { if (!b) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(40); } }
void sx_check(_Bool b, uint32_t id) { if (!b) { printf("CHECK-FAILED %u\n", id); fflush(stdout); _exit(41); } }
uint64_t sx_fork(uint64_t v) { return v; }
void sx_observe(uint64_t v) { printf("O %llu\n", (unsigned long long)v); }
void sx_cover(uint32_t id) { (void)id; }
uint64_t sx_pick(void) { return pick; }
void sx_allow_panic(_Bool b) { allow_panic = b; printf("ALLOW %d\n", b); fflush(stdout); }
void sx_touch(const uint8_t *p, size_t n) { volatile uint8_t x = 0; for (size_t i = 0; i < n; i++) { if (((volatile const uint8_t *)p)[i] == 77) x++; } (void)x; }
void sx_real_fmt(_Bool b) { (void)b; }
_Bool sx_is_native(void) { return 1; }
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
int main(int argc, char **argv) {
  if (argc > 1 && !strcmp(argv[1], "--list")) { char b[256]; for (int i = 0; i < sx_count(); i++) { sx_name(i, b, sizeof b); puts(b); } return 0; }
  if (argc < 3) return 3;
  pick = strtoull(argv[1], 0, 10);
  if (argc > 3) { // single hex input on the command line, no fork
    size_t n = strlen(argv[3]) / 2; uint8_t *b = malloc(n + 1); for (size_t i = 0; i < n; i++) b[i] = hexv(argv[3][2 * i]) * 16 + hexv(argv[3][2 * i + 1]); in = b; in_n = n; sx_main(); printf("END 0\n"); fflush(stdout); _exit(0); }
  FILE *f = fopen(argv[2], "r"); if (!f) return 3; char *line = 0; size_t cap = 0; ssize_t len;
  while ((len = getline(&line, &cap, f)) >= 0) {
    while (len && (line[len - 1] == '\n')) len--; size_t n = len / 2; uint8_t *b = malloc(n + 1); for (size_t i = 0; i < n; i++) b[i] = hexv(line[2 * i]) * 16 + hexv(line[2 * i + 1]);
    printf("RUN\n"); fflush(stdout); pid_t p = fork(); if (!p) { in = b; in_n = n; in_p = 0; alarm(60); sx_main(); fflush(stdout); _exit(0); }
    int st; waitpid(p, &st, 0); printf("END %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)); fflush(stdout); free(b);
  }
  return 0;
}
