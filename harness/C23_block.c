/* blocks of samples and interleaving */
#include "vf.h"
#include "vf_repo.h"
#ifndef N
#define N 4
#endif
#ifndef C
#define C 3
#endif
/*@ {"property":["C23","C22"],"entry":"h_block","unwind":20,"quick":["-DN=4"],"thorough":["-DN=9"],
 "about":"new blocks of up to sp_channel_count_limit channels and N samples, with any one allocation failing, then writing, offset blocks of every offset, zeroing of them and copying"} @*/
static void block(int channels, int n, int offset, int fail, double* values) {
  sp_block_t a, b, o;
  status_t s;
  vf_fail_at = fail;
  s = sp_block_new(channels, n, &a);
  vf_assert(!s.id == !vf_failed, "failing allocation is returned");
  if (s.id) {
    vf_assert(!vf_live, "memory is released on failure");
    vf_witness("failed");
    return;
  }
  vf_fail_at = -1;
  vf_assert(a.size == n && a.channel_count == channels, "size and channel count");
  for (int j = 0; j < channels; j++)
    for (int i = 0; i < n; i++) {
      vf_assert(a.samples[j][i] == 0, "new blocks are zero");
      a.samples[j][i] = values[j * N + i];
    }
  for (int j = 0; j < channels; j++)
    for (int i = 0; i < n; i++) vf_assert(a.samples[j][i] == values[j * N + i], "channels are separate");
  s = sp_block_new(sp_channel_count_limit, n + 1, &b);
  vf_assert(!s.id, "second block");
  for (int j = 0; j < sp_channel_count_limit; j++)
    for (int i = 0; i < n + 1; i++) b.samples[j][i] = 7;
  sp_block_copy(a, b);
  for (int j = 0; j < sp_channel_count_limit; j++)
    for (int i = 0; i < n + 1; i++) vf_assert(b.samples[j][i] == (j < channels && i < n ? values[j * N + i] : 7), "copies all channels and samples");
  for (int j = 0; j < channels; j++)
    for (int i = 0; i < n; i++) vf_assert(a.samples[j][i] == values[j * N + i], "the source is unchanged");
  o = sp_block_with_offset(a, offset);
  vf_assert(o.size == n - offset && o.channel_count == channels, "size of the rest");
  vf_assert(a.size == n, "the original block is unchanged");
  for (int j = 0; j < channels; j++) vf_assert(o.samples[j] == a.samples[j] + offset, "samples from the offset on");
  sp_block_zero(o);
  for (int j = 0; j < channels; j++)
    for (int i = 0; i < n; i++) vf_assert(a.samples[j][i] == (i < offset ? values[j * N + i] : 0), "all samples from the offset on are zeroed");
  sp_block_free(&a);
  sp_block_free(&b);
  vf_assert(!vf_live, "memory is released");
  vf_witness("end");
}
void h_block(void) {
  double values[sp_channel_count_limit * N];
  int channels = vf_int(0, sp_channel_count_limit);
  int n = vf_int(0, N);
  int offset = vf_int(0, N);
  int fail = vf_int(-1, sp_channel_count_limit - 1);
  for (int i = 0; i < sp_channel_count_limit * N; i++) {
    values[i] = vf_f64();
    vf_assume(values[i] == values[i]);
  }
  for (int i = 0; i <= sp_channel_count_limit; i++)
    for (int j = 0; j <= N; j++)
      for (int k = 0; k <= j; k++)
        for (int l = -1; l < i; l++)
          if (channels == i && n == j && offset == k && fail == l && (l < 0 || k == 0)) {
            block(i, j, k, l, values);
            return;
          }
}
/*@ {"property":"C23","entry":"h_interleave","unwind":20,"quick":["-DN=4 -DC=3"],"thorough":["-DN=7 -DC=5 unwind=40"],
 "about":"interleaving and deinterleaving of up to N samples of up to C channels of any value"} @*/
static void interleaving(int channels, int n, double* values) {
  double d[C][N + 1];
  double back[C][N + 1];
  double e[C * N + 1];
  double* p[C];
  for (int j = 0; j < C; j++)
    for (int i = 0; i < N + 1; i++) d[j][i] = back[j][i] = 5;
  for (int i = 0; i < C * N + 1; i++) e[i] = 6;
  for (int j = 0; j < channels; j++) {
    p[j] = d[j];
    for (int i = 0; i < n; i++) d[j][i] = values[j * N + i];
  }
  sp_interleave(p, e, n, channels);
  for (int i = 0; i < C * N + 1; i++)
    vf_assert(e[i] == (i < n * channels ? values[i % channels * N + i / channels] : 6), "sample i of channel c is at i * channels + c");
  for (int j = 0; j < C; j++) {
    p[j] = back[j];
    for (int i = 0; i < N + 1; i++) vf_assert(d[j][i] == (j < channels && i < n ? values[j * N + i] : 5), "the source is unchanged");
  }
  sp_deinterleave(p, e, n, channels);
  for (int j = 0; j < C; j++)
    for (int i = 0; i < N + 1; i++) vf_assert(back[j][i] == (j < channels && i < n ? values[j * N + i] : 5), "deinterleaving is the inverse");
  vf_witness("end");
}
void h_interleave(void) {
  double values[C * N];
  int channels = vf_int(1, C);
  int n = vf_int(0, N);
  for (int i = 0; i < C * N; i++) {
    values[i] = vf_f64();
    vf_assume(values[i] == values[i]);
  }
  for (int i = 1; i <= C; i++)
    for (int j = 0; j <= N; j++)
      if (channels == i && n == j) {
        interleaving(i, j, values);
        return;
      }
}
