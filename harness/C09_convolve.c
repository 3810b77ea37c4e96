/* convolution of a signal in blocks */
#include "vf.h"
#include "vf_repo.h"
#ifndef N
#define N 4
#endif
#ifndef M
#define M 3
#endif
#ifndef SYM
#define SYM 0
#endif
/* signal and impulse response: SYM 0 the signal is symbolic, 1 the response, 2 both */
static const double constants_a[8] = {1, -2, 3, 5, -1, 4, 2, -3};
static const double constants_b[8] = {1, 2, -4, 8, -16, 32, 64, 128};
static sp_sample_t a[N];
static sp_sample_t b[M];
static sp_sample_t y[N + M];
static sp_sample_t out[N + M + 2];
static sp_sample_t carry[M + 2];
static void data(void) {
  for (int i = 0; i < N; i++) a[i] = SYM == 1 ? constants_a[i] : vf_small(-2, 2);
  for (int i = 0; i < M; i++) b[i] = SYM == 0 ? constants_b[i] : vf_small(-2, 2);
  for (int i = 0; i < N + M; i++) y[i] = 0;
  /* definition */
  for (int n = 0; n < N + M - 1; n++)
    for (int k = 0; k < N; k++)
      if (n - k >= 0 && n - k < M) y[n] += a[k] * b[n - k];
}
/* blocks 0..b1, b1..b2, b2..N */
static void stream(sp_time_t b1, sp_time_t b2, int first) {
  sp_time_t at[4] = {0, b1, b2, N};
  sp_time_t carry_len = first ? 0 : M - 1;
  for (int k = 0; k < 3; k++)
    if (at[k] < at[k + 1]) {
      sp_convolve(a + at[k], at[k + 1] - at[k], b, M, carry_len, carry + 1, out + 1 + at[k]);
      carry_len = M - 1;
      vf_assert(out[1 + at[k + 1]] == 77 && out[0] == 77 && carry[0] == 77 && carry[M] == 77, "only the given arrays are written");
    }
  for (int i = 0; i < N; i++) vf_assert(out[1 + i] == y[i], "output equals the convolution of the whole signal");
  for (int i = 0; i < M - 1; i++) vf_assert(carry[1 + i] == y[N + i], "the rest of the response is carried over");
  vf_witness("end");
}
/*@ {"property":"C09","entry":"h_convolve","unwind":9,
 "quick":["-DN=4 -DM=3 -DSYM=0","-DN=4 -DM=3 -DSYM=1","-DN=3 -DM=2 -DSYM=2","-DN=3 -DM=1 -DSYM=2","-DN=2 -DM=3 -DSYM=2","-DN=3 -DM=5 -DSYM=0","-DN=3 -DM=4 -DSYM=1","-DN=5 -DM=2 -DSYM=0"],
 "thorough":["-DN=4 -DM=3 -DSYM=2","-DN=6 -DM=4 -DSYM=0","-DN=4 -DM=6 -DSYM=0","-DN=6 -DM=3 -DSYM=1","-DN=3 -DM=4 -DSYM=2"],
 "about":"signals of N samples in every division into up to three blocks, impulse responses of M samples, with and without carryover for the first call. samples are small integers, for which double arithmetic is exact: SYM=0 symbolic signal, 1 symbolic response, 2 both"} @*/
void h_convolve(void) {
  data();
  for (int i = 0; i < N + M + 2; i++) out[i] = 77;
  for (int i = 0; i < M + 2; i++) carry[i] = i && i < M ? 0 : 77;
  sp_time_t s1 = vf_u8();
  sp_time_t s2 = vf_u8();
  int first = vf_bool();
  for (sp_time_t b1 = 1; b1 <= N; b1++)
    for (sp_time_t b2 = b1; b2 <= N; b2++)
      for (int f = 0; f < 2; f++)
        if (s1 == b1 && s2 == b2 && f == first && (b2 > b1 || b1 == N)) {
          stream(b1, b2, f);
          return;
        }
}
/*@ {"property":"C09","entry":"h_convolve_one","unwind":9,
 "quick":["-DN=4 -DM=3 -DSYM=0","-DN=2 -DM=4 -DSYM=1","-DN=3 -DM=2 -DSYM=2","-DN=1 -DM=1 -DSYM=2"],
 "about":"sp_convolve_one with N and M samples"} @*/
void h_convolve_one(void) {
  data();
  for (int i = 0; i < N + M + 2; i++) out[i] = i && i < N + M ? 0 : 77;
  sp_convolve_one(a, N, b, M, out + 1);
  for (int i = 0; i < N + M - 1; i++) vf_assert(out[1 + i] == y[i], "discrete linear convolution");
  vf_assert(out[0] == 77 && out[N + M] == 77, "only the output is written");
  vf_witness("end");
}
