/* scaling, limiting, blending and accumulation */
#include "vf.h"
#include "vf_repo.h"
#ifndef N
#define N 3
#endif
#ifndef SAMPLES
#define SAMPLES 0
#endif
#if SAMPLES
#define value_t sp_sample_t
#define F(name) sp_samples_##name
#else
#define value_t sp_time_t
#define F(name) sp_times_##name
#endif
static int near(double p, double q) { return (p - q < 1e-6 && q - p < 1e-6); }
static double mag(double p) { return (p < 0 ? -p : p); }
static value_t a[N + 2], b[N + 2], x[N + 2], y[N + 2], out[4 * N + 2];
#define UNSET 777
static value_t any(void) {
#if SAMPLES
  return (vf_small(-3, 3));
#else
  return (vf_u8() & 7);
#endif
}
static void data(void) {
  for (int i = 0; i < N + 2; i++) {
    a[i] = x[i] = any();
    b[i] = y[i] = any();
  }
  for (int i = 0; i < 4 * N + 2; i++) out[i] = UNSET;
}
static void outside(const value_t* p, int from, int to, int size) {
  for (int i = 0; i < size; i++)
    if (i < from || i >= to) vf_assert(p[i] == UNSET, "nothing is written outside of the result");
}

/*@ {"property":"C16","entry":"h_scale_y","unwind":20,"quick":["-DSAMPLES=0 -DTARGET=10","-DSAMPLES=0 -DTARGET=3","-DSAMPLES=1 -DTARGET=5 -DN=2","-DSAMPLES=1 -DTARGET=2 -DN=2 -DSET=1","-DSAMPLES=1 -DTARGET=2 -DN=2 -DSET=2"],"thorough":["-DSAMPLES=0 -DTARGET=1000 -DN=4","-DSAMPLES=1 -DTARGET=5 -DN=3"],
 "about":"N values (times 0..7, samples -3..3, at least one not zero) scaled to a maximum of TARGET (SET: by sp_samples_set_gain, or sp_samples_set_unity_gain with a reference)"} @*/
#ifndef TARGET
#define TARGET 1
#endif
#ifndef SET
#define SET 0
#endif
void h_scale_y(void) {
  double max = 0;
  double result = 0;
  data();
  for (int i = 1; i <= N; i++)
    if (mag(a[i]) > max) max = mag(a[i]);
  vf_assume(max > 0);
#if SAMPLES
  for (int i = 0; i < N + 2; i++) out[i] = x[i];
#if SET == 0
  sp_samples_scale_y(out + 1, N, TARGET);
#elif SET == 1
  sp_samples_set_gain(out + 1, N, TARGET);
#else
  for (int i = 0; i < N + 2; i++) y[i] = i == 2 ? -TARGET : (i == 0 ? 9 : 0);
  sp_samples_set_unity_gain(out + 1, y + 1, N);
#endif
  for (int i = 1; i <= N; i++) {
    if (mag(out[i]) > result) result = mag(out[i]);
    vf_assert(near(out[i] * max, a[i] * (double)(TARGET)), "value is scaled by the target relative to the maximum");
  }
  vf_assert(near(result, TARGET), "largest magnitude is the target");
  vf_assert(out[0] == a[0] && out[N + 1] == a[N + 1], "elements outside of the range are unchanged");
#else
  sp_times_scale_y(x + 1, N, TARGET, out + 1);
  for (int i = 1; i <= N; i++) {
    if (out[i] > result) result = out[i];
    vf_assert(out[i] * max <= a[i] * (double)(TARGET) + 0.5001 * max && out[i] * max >= a[i] * (double)(TARGET)-0.5001 * max, "value is scaled by the target relative to the maximum");
    vf_assert(x[i] == a[i], "input is unchanged");
  }
  vf_assert(result == TARGET, "maximum is the target");
  outside(out, 1, 1 + N, 4 * N + 2);
#endif
  vf_witness("end");
}
/*@ {"property":"C16","entry":"h_scale_sum","unwind":20,"quick":["-DSAMPLES=0 -DTARGET=10","-DSAMPLES=0 -DTARGET=3","-DSAMPLES=1 -DTARGET=4 -DN=2"],"thorough":["-DSAMPLES=0 -DTARGET=1000 -DN=4","-DSAMPLES=1 -DTARGET=5 -DN=3"],
 "about":"N values (times 0..7, samples -3..3, sum not zero) scaled to a sum of TARGET, in place or not"} @*/
void h_scale_sum(void) {
  double sum = 0;
  double result = 0;
  int in_place = vf_bool();
  data();
  for (int i = 1; i <= N; i++) sum += a[i];
  vf_assume(sum != 0);
  value_t* o = &out[0];
  if (in_place) {
    for (int i = 0; i < N + 2; i++) out[i] = i > 0 && i <= N ? x[i] : UNSET;
    F(scale_sum)(out + 1, N, TARGET, out + 1);
  } else F(scale_sum)(x + 1, N, TARGET, out + 1);
  for (int i = 1; i <= N; i++) {
    result += out[i];
    vf_assert(x[i] == a[i], "input is unchanged");
#if SAMPLES
    vf_assert(near(out[i] * sum, a[i] * (double)(TARGET)), "relative size is kept");
#else
    vf_assert(out[i] * sum <= a[i] * (double)(TARGET) + 0.5001 * sum && out[i] * sum >= a[i] * (double)(TARGET)-0.5001 * sum, "relative size is kept");
#endif
  }
#if SAMPLES
  vf_assert(near(result, TARGET), "sum is the target");
#else
  vf_assert(result <= TARGET + N * 0.5 && result >= TARGET - N * 0.5, "sum is the target up to rounding");
#endif
  outside(out, 1, 1 + N, 4 * N + 2);
  vf_witness("end");
}
/*@ {"property":"C16","entry":"h_limit","unwind":20,"quick":["-DSAMPLES=0 -DBITS=5","-DSAMPLES=1"],"thorough":["-DSAMPLES=0 -DN=6","-DSAMPLES=1 -DN=6"],
 "about":"limits of up to N values (times of BITS bits, samples -3..3), in place and not"} @*/
static void limit(int op, int count, int in_place, value_t n) {
  for (int i = 0; i < N + 2; i++) out[i] = (in_place || op == 1) ? x[i] : UNSET;
#if SAMPLES
  if (op) sp_samples_limit(out + 1, count, n);
  else sp_samples_limit_abs((in_place ? &out[0] : &x[0]) + 1, count, n, out + 1);
#else
  sp_times_limit((in_place ? &out[0] : &x[0]) + 1, count, n, out + 1);
#endif
  for (int i = 1; i <= count; i++) {
    value_t e = a[i] > n ? n : a[i];
    if (SAMPLES && !op && a[i] < -n) e = -n;
    vf_assert(out[i] == e, "values beyond the limit are set to the limit, others are kept");
  }
  for (int i = 0; i < N + 2; i++)
    if (i < 1 || i > count) vf_assert(out[i] == ((in_place || op == 1) ? a[i] : UNSET), "elements outside of the range are unchanged");
  vf_witness("end");
}
void h_limit(void) {
  int op = SAMPLES ? vf_bool() : 0;
  int count = vf_int(0, N);
  int in_place = vf_bool();
  data();
#if SAMPLES
  value_t n = vf_small(0, 3) + 0.5;
  if (op && vf_bool()) n = -n;
#else
#ifndef BITS
#define BITS 32
#endif
  value_t n = vf_u32() & (uint32_t)((1ull << BITS) - 1);
  for (int i = 0; i < N + 2; i++) a[i] = x[i] = vf_u32() & (uint32_t)((1ull << BITS) - 1);
#endif
  for (int o = 0; o < 1 + SAMPLES; o++)
    for (int i = 0; i <= N; i++)
      for (int j = 0; j < 2; j++)
        if (op == o && count == i && in_place == j) {
          limit(o, i, j, n);
          return;
        }
}
/*@ {"property":"C16","entry":"h_blend","unwind":20,"quick":["-DSAMPLES=0 -DN=2","-DSAMPLES=1 -DN=2","-DSAMPLES=0 -DMASK=1 -DN=3"],"thorough":["-DSAMPLES=0 -DN=4","-DSAMPLES=1 -DN=4","-DSAMPLES=0 -DMASK=1 -DN=4"],
 "about":"interpolation of N values (times 0..7, samples -3..3) at fractions 0, 0.25, 0.5, 0.75 or 1 (MASK: with one fraction per element)"} @*/
#ifndef MASK
#define MASK 0
#endif
static void blend(double f) {
  double c[N + 2];
  for (int i = 0; i < N + 2; i++) c[i] = i & 1 ? f : 1 - f;
#if MASK
  sp_times_mask(x + 1, y + 1, c + 1, N, out + 1);
#else
  F(blend)(x + 1, y + 1, f, N, out + 1);
#endif
  for (int i = 1; i <= N; i++) {
    double g = MASK ? c[i] : f;
    double e = a[i] * (1 - g) + b[i] * g;
#if SAMPLES
    vf_assert(near(out[i], e), "value at the fraction between both");
#else
    vf_assert(out[i] <= e + 0.5 && out[i] >= e - 0.5, "rounded value at the fraction between both");
#endif
    vf_assert(x[i] == a[i] && y[i] == b[i], "input is unchanged");
  }
  outside(out, 1, 1 + N, 4 * N + 2);
  vf_witness("end");
}
void h_blend(void) {
  int f = vf_int(0, 4);
  data();
  for (int i = 0; i < 5; i++)
    if (f == i) {
      blend(i / 4.0);
      return;
    }
}
/*@ {"property":"C16","entry":"h_recurrences","unwind":20,"quick":["-DSAMPLES=0","-DSAMPLES=1"],"thorough":["-DSAMPLES=0 -DN=6","-DSAMPLES=1 -DN=5"],
 "about":"cumulative sums, differences, repeated additions, multiplications and divisions: up to N values (times 0..7, samples -3..3)"} @*/
static void recurrences(int op, int count) {
  value_t e = a[1];
  if (op == 0) {
    F(cusum)(x + 1, count, out + 1);
    for (int i = 1; i <= count; i++) {
      if (i > 1) e += a[i];
      vf_assert(out[i] == e, "cumulative sum");
    }
  } else if (op == 1) {
    F(additions)(x[1], b[1], count, out + 1);
    for (int i = 1; i <= count; i++, e += b[1]) vf_assert(out[i] == e, "cumulative addition");
  } else {
#if SAMPLES
    if (op == 2) {
      sp_samples_differences(x + 1, count, out + 1);
      for (int i = 1; i < count; i++) vf_assert(out[i] == a[i + 1] - a[i], "difference");
      count -= 1;
    } else {
      sp_samples_divisions(x[1], 2, count, out + 1);
      double p = 1;
      for (int i = 1; i <= count; i++, p *= 2) vf_assert(near(out[i] * p, a[1]), "repeated division");
    }
#else
    sp_times_multiplications(x[1], b[1], count, out + 1);
    for (int i = 1; i <= count; i++, e *= b[1]) vf_assert(out[i] == e, "repeated multiplication");
#endif
  }
  for (int i = 0; i < N + 2; i++) vf_assert(x[i] == a[i], "input is unchanged");
  outside(out, 1, 1 + count, 4 * N + 2);
  vf_witness("end");
}
void h_recurrences(void) {
  int op = vf_int(0, SAMPLES ? 3 : 2);
  int count = vf_int(1, N);
  data();
  for (int i = 0; i < 4; i++)
    for (int j = 1; j <= N; j++)
      if (op == i && count == j) {
        recurrences(i, j);
        return;
      }
}
/*@ {"property":"C16","entry":"h_round","unwind":8,"quick":["-DSAMPLES=0","-DSAMPLES=1"],
 "about":"rounding of 1..1023 (samples in steps of an eighth) to multiples of 1, 2, 3, 5, 8 (samples: 0.5, 1, 2, 2.5, 8). zero gives the base by definition"} @*/
static void rounding(double base, int k) {
#if SAMPLES
  double p = k / 8.0;
  double r = sp_sample_round_to_multiple(p, base);
  vf_assert(r - p <= base / 2 && p - r <= base / 2, "nearest multiple");
  double q = r / base;
  vf_assert(near(q, (double)((int64_t)(q + 0.25))), "multiple of the base");
#else
  sp_time_t r = sp_time_round_to_multiple(k, base);
  vf_assert(r % (sp_time_t)(base) == 0, "multiple of the base");
  vf_assert(2 * (r > k ? r - k : k - r) <= base, "nearest multiple");
#endif
  vf_witness("end");
}
void h_round(void) {
  int op = vf_int(0, 4);
  int k = vf_int(1, SAMPLES ? 63 : 1023);
  static const double bases[2][5] = {{1, 2, 3, 5, 8}, {0.5, 1, 2, 2.5, 8}};
  for (int i = 0; i < 5; i++)
    if (op == i) {
      rounding(bases[SAMPLES][i], k);
      return;
    }
}
/*@ {"property":"C16","entry":"h_times_scale","unwind":20,"quick":["-DN=3"],"thorough":["-DN=4"],
 "about":"up to N times 0..7 scaled in both dimensions by one to three, temporary memory not available"} @*/
static void times_scale(int count, int factor, int fail) {
  if (fail) vf_fail_at = 0;
  status_t s = sp_times_scale(x + 1, count, factor, out + 1);
  vf_assert((s.id != 0) == fail, "allocation failure is returned");
  vf_assert(!vf_live, "temporary memory is released");
  if (!fail)
    for (int i = 0; i + 1 < count; i++)
      for (int j = 0; j < factor; j++) {
        /* times factor twice */
        double e = (double)(a[1 + i]) * (factor - j) + (double)(a[2 + i]) * j;
        vf_assert(out[1 + i * factor + j] <= e + 0.5001 && out[1 + i * factor + j] >= e - 0.5001, "values are multiplied and interpolated");
      }
  for (int i = 0; i < N + 2; i++) vf_assert(x[i] == a[i], "input is unchanged");
  outside(out, 1, fail ? 1 : 1 + (count - 1) * factor, 4 * N + 2);
  vf_witness("end");
}
void h_times_scale(void) {
  int count = vf_int(1, N);
  int factor = vf_int(1, 3);
  int fail = vf_bool();
  data();
  for (int i = 1; i <= N; i++)
    for (int j = 1; j < 4; j++)
      for (int k = 0; k < 2; k++)
        if (count == i && factor == j && fail == k) {
          times_scale(i, j, k);
          return;
        }
}
