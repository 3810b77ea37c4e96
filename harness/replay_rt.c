/* runtime of the native replay: feeds the values of a counterexample to the harness */
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern void VF_ENTRY(void);
static FILE* values;
uint64_t vf_next(int width) {
  char name[64];
  int w;
  uint64_t v;
  if (3 != fscanf(values, "%63s %d %" SCNu64, name, &w, &v)) {
    fprintf(stderr, "values exhausted\n");
    _exit(4);
  }
  if (w != width) {
    fprintf(stderr, "value %s has width %d, expected %d\n", name, w, width);
    _exit(4);
  }
  return (v);
}
void vf_fail(const char* msg, const char* file, int line) {
  fflush(stdout);
  fprintf(stderr, "VIOLATED: %s (%s:%d)\n", msg, file, line);
  _exit(3);
}
void vf_reject(const char* msg) {
  fprintf(stderr, "assumption not met: %s\n", msg);
  _exit(4);
}
static int fill = 0xa5;
void vf_fill(void* p, size_t n) { memset(p, fill, n); }
int main(int argc, char** argv) {
  char* f = getenv("VF_FILL");
  if (f) fill = strtol(f, 0, 16);
  if (argc < 2 || !(values = fopen(argv[1], "r"))) return (5);
  VF_ENTRY();
  printf("harness finished without violation\n");
  return (0);
}
