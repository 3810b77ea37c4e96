/* statistics and sorting */
#include "vf.h"
static double vf_sqrt(double a) {
  /* newton iterations, computed while executing for constants */
  double b = a > 1 ? a : 1;
  if (a == 0) return (0);
  for (int i = 0; i < 24; i++) b = 0.5 * (b + a / b);
  return (b);
}
#define sqrt vf_sqrt
#include "vf_repo.h"
static int near(double p, double q) { return (p - q < 1e-6 && q - p < 1e-6); }
#ifndef N
#define N 3
#endif
#ifndef SAMPLES
#define SAMPLES 0
#endif
#if SAMPLES
#define value_t sp_sample_t
#define S(name) sp_stat_samples_##name
#define SORT_LESS sp_sample_sort_less
#define SORT_SWAP sp_sample_sort_swap
#else
#define value_t sp_time_t
#define S(name) sp_stat_times_##name
#define SORT_LESS sp_time_sort_less
#define SORT_SWAP sp_time_sort_swap
#endif
/* the values of the case number c: digits in base B */
#ifndef B
#define B 4
#endif
#ifndef LOW
#define LOW 0
#endif
static int power(int n) { return (n ? B * power(n - 1) : 1); }
static void values(int c, int n, value_t* out) {
  for (int i = 0; i < n; i++, c /= B) out[i] = c % B + LOW;
}

/*@ {"property":"C18","entry":"h_sort","unwind":300,"quick":["-DN=4 -DB=3 -DSAMPLES=0","-DN=3 -DB=3 -DSAMPLES=1 -DLOW=-1","-DN=4 -DB=4 -DPERMUTED=1"],"thorough":["-DN=4 -DB=4 -DSAMPLES=0","-DN=5 -DB=5 -DPERMUTED=1 unwind=4000"],
 "about":"sort of N elements with every order of up to B different values (PERMUTED: only different values). the sort only compares, so this covers arrays of N elements of any values if B is N"} @*/
#ifndef PERMUTED
#define PERMUTED 0
#endif
static void sorting(int c) {
  value_t a[N + 1], x[N + 1];
  values(c, N, a);
  if (PERMUTED)
    for (int i = 0; i < N; i++)
      for (int j = 0; j < i; j++)
        if (a[i] == a[j]) return;
  a[N] = LOW - 1;
  for (int i = 0; i < N + 1; i++) x[i] = a[i];
  quicksort(SORT_LESS, SORT_SWAP, x, 0, N - 1);
  for (int i = 0; i < N; i++) {
    int e = 0;
    int f = 0;
    if (i) vf_assert(x[i - 1] <= x[i], "ordered");
    for (int j = 0; j < N; j++) {
      e += a[j] == a[i];
      f += x[j] == a[i];
    }
    vf_assert(e == f, "permutation of the input");
  }
  vf_assert(x[N] == a[N], "nothing else is changed");
  vf_witness("end");
}
void h_sort(void) {
  int c = vf_int(0, power(N) - 1);
  for (int i = 0; i < power(N); i++)
    if (c == i) {
      sorting(i);
      return;
    }
}
/*@ {"property":"C18","entry":"h_moments","unwind":90,"quick":["-DN=3 -DSAMPLES=0","-DN=3 -DSAMPLES=1 -DLOW=-1","-DN=2 -DSAMPLES=0 -DB=5","-DN=1 -DSAMPLES=0 -DB=5","-DN=1 -DSAMPLES=1 -DB=5"],"thorough":["-DN=4 -DB=4 -DSAMPLES=0 unwind=300","-DN=4 -DB=4 -DSAMPLES=1 -DLOW=-2 unwind=300"],
 "about":"mean, range, deviation, median, skewness and kurtosis of N values out of B consecutive ones starting at LOW"} @*/
static void moments(int c) {
  value_t a[N + 1], x[N + 1];
  double mean = 0;
  double m2 = 0;
  double m3 = 0;
  double m4 = 0;
  double out[3];
  double lo, hi;
  values(c, N, a);
  a[N] = 77;
  for (int i = 0; i < N + 1; i++) x[i] = a[i];
  lo = hi = a[0];
  for (int i = 0; i < N; i++) {
    mean += a[i];
    if (a[i] < lo) lo = a[i];
    if (a[i] > hi) hi = a[i];
  }
  mean /= N;
  for (int i = 0; i < N; i++) {
    double d = a[i] - mean;
    m2 += d * d;
    m3 += d * d * d;
    m4 += d * d * d * d;
  }
  m2 /= N;
  m3 /= N;
  m4 /= N;
  vf_assert(!S(mean)(x, N, out) && near(out[0], mean), "mean");
  vf_assert(!S(range)(x, N, out) && near(out[0], lo) && near(out[1], hi) && near(out[2], hi - lo), "minimum, maximum and range");
  vf_assert(!S(deviation)(x, N, out) && out[0] >= 0 && near(out[0] * out[0], m2), "standard deviation");
  if (m2 > 0.01) {
    vf_assert(!S(skewness)(x, N, out) && near(out[0] * out[0] * m2 * m2 * m2, m3 * m3) && (m3 < 1e-9 || out[0] > 0) && (m3 > -1e-9 || out[0] < 0), "skewness");
    vf_assert(!S(kurtosis)(x, N, out) && near(out[0] * m2 * m2, m4), "kurtosis");
  }
  vf_assert(!S(median)(x, N, out), "succeeds");
  /* half of the values are not greater, half are not less */
  double below = -1e9;
  double above = 1e9;
  int under = 0;
  int over = 0;
  for (int i = 0; i < N; i++) {
    under += a[i] <= out[0] + 1e-9;
    over += a[i] >= out[0] - 1e-9;
    if (a[i] <= out[0] && a[i] > below) below = a[i];
    if (a[i] >= out[0] && a[i] < above) above = a[i];
  }
  vf_assert(2 * under >= N && 2 * over >= N, "median divides the values in halves");
  vf_assert(near(out[0] * 2, below + above), "median is a value or the middle of two");
  for (int i = 0; i < N + 1; i++) vf_assert(x[i] == a[i], "input is unchanged");
  vf_assert(!vf_live, "temporary memory is released");
  vf_witness("end");
}
void h_moments(void) {
  int c = vf_int(0, power(N) - 1);
  for (int i = 0; i < power(N); i++)
    if (c == i) {
      moments(i);
      return;
    }
}
/*@ {"property":"C18","entry":"h_inharmonicity","unwind":90,"quick":["-DN=3 -DLOW=1 -DSAMPLES=0","-DN=2 -DLOW=1 -DB=5 -DSAMPLES=1"],"thorough":["-DN=4 -DLOW=1 -DB=4 -DSAMPLES=0 unwind=300","-DN=3 -DLOW=1 -DB=4 -DSAMPLES=1"],
 "about":"inharmonicity of N values out of B consecutive ones starting at LOW"} @*/
static void inharmonicity(int c) {
  value_t a[N], x[N];
  double out;
  double best = 1e9;
  values(c, N, a);
  for (int i = 0; i < N; i++) x[i] = a[i];
  for (int i = 0; i < N; i++) {
    /* distances to the nearest multiple of a[i], in units of one part of a[i] */
    int sum = 0;
    int ai = a[i];
    for (int j = 0; j < N; j++) {
      int m = (int)(a[j]) % ai;
      sum += 2 * m <= ai ? m : ai - m;
    }
    double v = sum / (double)(ai * N);
    if (v < best) best = v;
  }
  vf_assert(!S(inharmonicity)(x, N, &out) && near(out, best), "inharmonicity");
  for (int i = 0; i < N; i++) vf_assert(x[i] == a[i], "input is unchanged");
  vf_witness("end");
}
void h_inharmonicity(void) {
  int c = vf_int(0, power(N) - 1);
  for (int i = 0; i < power(N); i++)
    if (c == i) {
      inharmonicity(i);
      return;
    }
}
/*@ {"property":"C18","entry":"h_linear","unwind":12,"quick":["-DN=3 -DSAMPLES=0","-DN=2 -DSAMPLES=1"],"thorough":["-DN=4 -DSAMPLES=0"],
 "about":"mean and range of N times that are less than 2^30 and multiples of 2^28 or up to 3 greater (the sum of times is required to fit in 32 bit), or samples -3..3"} @*/
void h_linear(void) {
  value_t x[N];
  double out[3];
  double sum = 0;
  int lo = 0;
  int hi = 0;
  for (int i = 0; i < N; i++) {
#if SAMPLES
    x[i] = vf_small(-3, 3);
#else
    x[i] = vf_u32() & 0x30000003;
#endif
    sum += x[i];
    if (x[i] < x[lo]) lo = i;
    if (x[i] > x[hi]) hi = i;
  }
  vf_assert(!S(mean)(x, N, out) && out[0] * N - sum < 0.001 && sum - out[0] * N < 0.001, "mean");
  vf_assert(!S(range)(x, N, out) && out[0] == x[lo] && out[1] == x[hi] && out[2] == x[hi] - x[lo], "minimum, maximum and range");
  vf_witness("end");
}
/*@ {"property":"C18","entry":"h_center","unwind":90,"quick":["-DN=3 -DSAMPLES=0","-DN=3 -DSAMPLES=1","-DN=1 -DSAMPLES=0"],"thorough":["-DN=4 -DSAMPLES=0 unwind=300","-DN=4 -DSAMPLES=1 -DLOW=-1 unwind=300"],
 "about":"center of mass of N values out of B consecutive ones starting at LOW. for times, the first value is counted twice (known finding)"} @*/
static void center(int c) {
  value_t a[N], x[N];
  double out;
  double sum = 0;
  double indices = 0;
  values(c, N, a);
  for (int i = 0; i < N; i++) {
    x[i] = a[i];
    sum += a[i];
    indices += i * a[i];
  }
  if (sum == 0) return;
  vf_assert(!S(center)(x, N, &out), "succeeds");
  if (SAMPLES || a[0] == 0) vf_assert(near(out * sum, indices), "center of mass");
  else vf_assert(near(out * sum, indices) || near(out * (sum + a[0]), indices), "center of mass, apart from the weight of the first value");
  for (int i = 0; i < N; i++) vf_assert(x[i] == a[i], "input is unchanged");
  vf_witness("end");
}
void h_center(void) {
  int c = vf_int(0, power(N) - 1);
  for (int i = 0; i < power(N); i++)
    if (c == i) {
      center(i);
      return;
    }
}
/*@ {"property":"C18","entry":"h_center_first","unwind":8,"quick":[""],
 "about":"center of mass of the times (2, k) with k in 0..3"} @*/
void h_center_first(void) {
  sp_time_t x[2];
  double out;
  x[0] = 2;
  x[1] = vf_int(0, 3);
  vf_assert(!sp_stat_times_center(x, 2, &out), "succeeds");
  vf_assert(near(out * (x[0] + x[1]), x[1]), "center of mass of times with a first value greater than zero");
  vf_witness("end");
}
/*@ {"property":"C18","entry":"h_median","unwind":300,"quick":["-DN=4 -DB=3 -DSAMPLES=0","-DN=3 -DB=4 -DSAMPLES=0","-DN=4 -DB=3 -DSAMPLES=1 -DLOW=-1"],"thorough":["-DN=4 -DB=4 -DSAMPLES=0","-DN=4 -DB=4 -DSAMPLES=1 -DLOW=-2","-DN=5 -DB=3 -DSAMPLES=0"],
 "about":"median of N values out of B, which for times are apart by 1431655765 and up to the largest time"} @*/
static void median(int c) {
  value_t a[N + 1], x[N + 1];
  double out, e;
  double below = -1e30;
  double above = 1e30;
  int under = 0;
  int over = 0;
  for (int i = 0, k = c; i < N; i++, k /= B) a[i] = SAMPLES ? k % B + LOW : (value_t)((k % B) * 1431655765u);
  a[N] = 77;
  for (int i = 0; i < N + 1; i++) x[i] = a[i];
  vf_assert(!S(median)(x, N, &out), "succeeds");
  for (int i = 0; i < N; i++) {
    e = a[i];
    under += e <= out;
    over += e >= out;
    if (e <= out && e > below) below = e;
    if (e >= out && e < above) above = e;
  }
  vf_assert(2 * under >= N && 2 * over >= N, "median divides the values in halves");
  vf_assert(near(out * 2, below + above), "median is a value or the middle of two");
  for (int i = 0; i < N + 1; i++) vf_assert(x[i] == a[i], "input is unchanged");
  vf_assert(!vf_live, "temporary memory is released");
  vf_witness("end");
}
void h_median(void) {
  int c = vf_int(0, power(N) - 1);
  for (int i = 0; i < power(N); i++)
    if (c == i) {
      median(i);
      return;
    }
}
/*@ {"property":["C18","C22"],"entry":"h_median_memory","unwind":8,"quick":["-DSAMPLES=0","-DSAMPLES=1"],
 "about":"median when temporary memory is not available"} @*/
void h_median_memory(void) {
  value_t x[3] = {1, 2, 3};
  double out;
  vf_fail_at = vf_bool() - 1;
  int r = S(median)(x, 3, &out);
  vf_assert((r != 0) == vf_failed, "allocation failure is returned");
  vf_assert(vf_live == 0, "temporary memory is released");
  vf_witness("end");
}
/*@ {"property":"C18","entry":"h_scale_to_times","unwind":90,"quick":["-DN=3 -DLOW=-2 -DSAMPLES=1"],
 "about":"mapping of N samples (-2..1) into times 0..10"} @*/
static void scale_to_times(int c) {
  sp_sample_t a[N], x[N];
  sp_time_t out[N + 1];
  double lo = 0;
  double hi = -1e9;
  for (int i = 0, k = c; i < N; i++, k /= B) {
    a[i] = x[i] = k % B + LOW;
    if (a[i] < lo) lo = a[i];
    if (a[i] > hi) hi = a[i];
  }
  out[N] = 99;
  if (hi == lo) return;
  sp_samples_scale_to_times(x, N, 10, out);
  for (int i = 0; i < N; i++) {
    double e = (a[i] - lo) * 10 / (hi - lo);
    vf_assert(out[i] <= e + 0.5 && out[i] >= e - 0.5, "value relative to the range");
    vf_assert(x[i] == a[i], "input is unchanged");
  }
  vf_assert(out[N] == 99, "nothing is written behind the result");
  vf_witness("end");
}
void h_scale_to_times(void) {
  int c = vf_int(0, power(N) - 1);
  for (int i = 0; i < power(N); i++)
    if (c == i) {
      scale_to_times(i);
      return;
    }
}
