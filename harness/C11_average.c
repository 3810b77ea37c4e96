/* centered moving average */
#include "vf.h"
#include "vf_repo.h"
#ifndef N
#define N 4
#endif
#ifndef RAD
#define RAD 1
#endif
#ifndef V
#define V 2
#endif
#ifndef PREV
#define PREV 0
#define NEXT 0
#endif
/* only every EVERYth sample is symbolic, the others are distinct constants */
#ifndef EVERY
#define EVERY 1
#endif
#define VALUE(i) (((i) + 1) % EVERY ? (double)((7 * (i)) % 11 - 5) : vf_small(-V, V))
#define W (2 * RAD + 1)
static sp_sample_t in[N];
static sp_sample_t prev[N];
static sp_sample_t next[RAD];
static sp_sample_t out[N + 2];
static double at(int i) {
  if (i < 0) return (PREV ? prev[N + i] : -in[-i]);
  if (i >= N) return (NEXT ? next[i - N] : -in[2 * (N - 1) - i]);
  return (in[i]);
}
/*@ {"property":"C11","entry":"h_average","unwind":15,
 "quick":["-DN=4 -DRAD=1 -DPREV=0 -DNEXT=0","-DN=4 -DRAD=1 -DPREV=1 -DNEXT=0","-DN=4 -DRAD=1 -DPREV=0 -DNEXT=1","-DN=4 -DRAD=1 -DPREV=1 -DNEXT=1","-DN=6 -DRAD=2 -DPREV=0 -DNEXT=0 -DV=1","-DN=6 -DRAD=2 -DPREV=1 -DNEXT=1 -DV=1 -DEVERY=2","-DN=8 -DRAD=3 -DPREV=1 -DNEXT=0 -DEVERY=4","-DN=8 -DRAD=3 -DPREV=0 -DNEXT=1 -DEVERY=4","-DN=9 -DRAD=2 -DPREV=1 -DNEXT=0 -DEVERY=4"],
 "thorough":["-DN=6 -DRAD=2 -DPREV=1 -DNEXT=1 -DV=1","-DN=8 -DRAD=3 -DPREV=1 -DNEXT=1 -DV=1 -DEVERY=2","-DN=10 -DRAD=4 -DPREV=1 -DNEXT=1 -DEVERY=4","-DN=12 -DRAD=1 -DPREV=0 -DNEXT=0 -DEVERY=3"],
 "about":"N samples, radius RAD, with and without neighbouring segments. samples are integers in -V..V, for which the sums are exact (EVERY: only every so many samples are symbolic, the others are constants)"} @*/
void h_average(void) {
  for (int i = 0; i < N; i++) {
    in[i] = VALUE(i);
    prev[i] = VALUE(i + 1);
  }
  for (int i = 0; i < RAD; i++) next[i] = VALUE(i + 2);
  out[0] = out[N + 1] = 77;
  sp_sample_t* p = PREV ? &prev[0] : 0;
  sp_sample_t* n = NEXT ? &next[0] : 0;
  sp_moving_average(in, N, p, n, RAD, out + 1);
  for (int i = 0; i < N; i++) {
    double sum = 0;
    for (int k = -RAD; k <= RAD; k++) sum += at(i + k);
    vf_assert(out[i + 1] == sum / W, "mean of the values around the sample");
  }
  vf_assert(out[0] == 77 && out[N + 1] == 77, "only the output is written");
  vf_witness("end");
}
