/* random numbers */
#include "vf.h"
/* for the numbers with a given distribution, the underlying number is chosen by the solver */
#ifdef DISTRIBUTION
static uint32_t vf_random_bounded(void* state, uint32_t range);
#define sp_time_random_bounded_primitive vf_random_bounded
#endif
#include "vf_repo.h"
#ifndef N
#define N 3
#endif
#ifdef DISTRIBUTION
static uint32_t picks[2 * N + 2];
static int pick_count;
static int pick_limit = 2 * N + 2;
static uint32_t vf_random_bounded(void* state, uint32_t range) {
  vf_assert(range > 0 && pick_count < pick_limit, "range of the random number");
  vf_assume(picks[pick_count] < range);
  return (picks[pick_count++]);
}
#endif
/* random 64 bit numbers that are chosen by the solver, where the way in which numbers are used is decided */
static uint64_t draws[12];
static int draw_count;
uint64_t vf_draw(sph_random_state_t* state) {
  vf_assert(draw_count < 12, "numbers are drawn");
  state->data[0] += 1;
  return (draws[draw_count++]);
}
/* the generators as they are published (xoshiro256, splitmix64) */
static uint64_t left(uint64_t x, int k) { return ((x << k) | (x >> (64 - k))); }
static void advance(uint64_t* s) {
  uint64_t t = s[1] << 17;
  s[2] ^= s[0];
  s[3] ^= s[1];
  s[1] ^= s[2];
  s[0] ^= s[3];
  s[2] ^= t;
  s[3] = left(s[3], 45);
}
static uint64_t starstar(uint64_t* s) {
  uint64_t r = left(s[1] * 5, 7) * 9;
  advance(s);
  return (r);
}
static uint64_t plus(uint64_t* s) {
  uint64_t r = s[0] + s[3];
  advance(s);
  return (r);
}
static uint64_t splitmix(uint64_t* x) {
  uint64_t z = (*x += 0x9e3779b97f4a7c15);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9;
  z = (z ^ (z >> 27)) * 0x94d049bb133111eb;
  return (z ^ (z >> 31));
}
static sp_random_state_t any_state(void) {
  sp_random_state_t r;
  for (int i = 0; i < 4; i++) r.data[i] = vf_u64();
  return (r);
}
static int same(sp_random_state_t a, uint64_t* b) {
  int r = 1;
  for (int i = 0; i < 4; i++) r = r && a.data[i] == b[i];
  return (r);
}
static void keep(sp_random_state_t a, uint64_t* b) {
  for (int i = 0; i < 4; i++) b[i] = a.data[i];
}
/*@ {"property":"C19","entry":"h_step","unwind":8,"quick":[""],"thorough":[""],
 "about":"one number of each generator from any of the 2^256 states: value, next state and range"} @*/
void h_step(void) {
  sp_random_state_t a = any_state();
  sp_random_state_t b = a;
  uint64_t s[4];
  int kind = vf_int(0, 4);
  keep(a, s);
  if (kind == 0) {
    uint64_t r = sph_random_u64(&a);
    vf_assert(r == starstar(s) && same(a, s), "64 bit number");
  } else if (kind == 1) {
    uint32_t r = sp_time_random_primitive(&a);
    vf_assert(r == starstar(s) >> 32 && same(a, s), "32 bit number");
  } else if (kind == 2) {
    double r = sp_sample_random_primitive(&a);
    vf_assert(r >= -1 && r < 1, "sample between -1 and 1");
    vf_assert(r == ((int64_t)(plus(s) >> 11) - 0x10000000000000) * 0x1.0p-52 && same(a, s), "sample");
  } else if (kind == 3) {
    double r = sp_unit_random_primitive(&a);
    vf_assert(r >= 0 && r < 1, "number between 0 and 1");
    vf_assert(r == (int64_t)(plus(s) >> 11) * 0x1.0p-53 && same(a, s), "number from 0 to 1");
  } else {
    double r = sph_random_f64(&a);
    vf_assert(r >= 0 && r < 1, "unbounded float between 0 and 1");
    vf_assert(r == (int64_t)(starstar(s) >> 11) * 0x1.0p-53 && same(a, s), "unbounded float");
  }
  vf_witness("end");
}
/*@ {"property":"C19","entry":"h_bounded","unwind":8,"replace":{"sph_random_u64":"vf_draw"},"stubs":"sph_random_u64 returns any number (it is decided by h_step)","quick":["-DCASES=0","-DCASES=1"],"thorough":["-DCASES=2","-DCASES=3","-DCASES=0 -DDRAWS=3","-DCASES=1 -DDRAWS=3"],
 "about":"bounded integers for the ranges in the harness (0: small, 1: around powers of two, 2 and 3: large others) and any 64 bit numbers, where at most DRAWS - 1 numbers are rejected as biased"} @*/
#ifndef DRAWS
#define DRAWS 2
#endif
#ifndef CASES
#define CASES 0
#endif
static void bounded(int wide, uint64_t range) {
  sp_random_state_t a;
  uint64_t r;
  uint64_t threshold = range ? -range % range : 0;
  uint64_t low = (draws[0] * range);
  int used = low >= threshold ? 1 : 2;
#if DRAWS > 2
  if (used > 1) used = draws[1] * range >= threshold ? 2 : 3;
#endif
  vf_assume(draws[DRAWS - 1] * range >= threshold);
  r = wide ? sph_random_u64_bounded(&a, range) : sp_time_random_bounded_primitive(&a, range);
  vf_assert(draw_count == used, "only biased numbers are rejected");
  vf_assert(r < range || !range, "bounded number is less than the range");
  __uint128_t m = (__uint128_t)draws[used - 1] * range;
  vf_assert(r == (uint64_t)(m >> 64), "the bounded number is proportional");
  vf_witness("end");
}
void h_bounded(void) {
#if CASES == 0
  uint64_t ranges[8] = {0, 1, 2, 3, 5, 6, 7, 12};
#elif CASES == 1
  uint64_t ranges[8] = {0xc0000000, 0x80000000, 0x80000001, 0x10000, 0x10001, 0x8001, 0x40000001, 9};
#elif CASES == 2
  uint64_t ranges[8] = {0x8000000000000000, 0x8000000000000001, 0x100000001, 0xc000000000000000, 10, 1000, 96000, 0x100000000};
#else
  uint64_t ranges[8] = {0xffffffffffffffff, 0xfffffffffffffffe, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 1234567, 987654321, 0x123456789abcdef, 100};
#endif
  int wide = vf_bool() || CASES > 1;
  int c = vf_int(0, 7);
  for (int i = 0; i < DRAWS; i++) draws[i] = vf_u64();
  for (int i = 0; i < 8; i++)
    if (c == i) {
      bounded(wide, ranges[i]);
      return;
    }
}
/*@ {"property":"C19","entry":"h_arrays","unwind":8,"replace":{"sph_random_u64":"vf_draw"},"stubs":"sph_random_u64 returns any number (it is decided by h_step)","quick":["-DN=3"],"thorough":["-DN=5"],
 "about":"arrays of N numbers against N single numbers, bounded ones with ranges 1, 2, 4 and 3, for any 64 bit numbers without rejections"} @*/
static void arrays(int kind, uint64_t range) {
  sp_random_state_t a;
  uint32_t u[N + 1];
  uint64_t w[N + 1];
  double f[N + 1];
  u[N] = w[N] = f[N] = 99;
  if (kind == 0) sp_times_random_primitive(&a, N, u);
  else if (kind == 1) sph_random_u64_array(&a, N, w);
  else if (kind == 2) sph_random_f64_array(&a, N, f);
  else if (kind == 3) sp_times_random_bounded_primitive(&a, range, N, u);
  else sph_random_u64_bounded_array(&a, range, N, w);
  vf_assert(draw_count == N, "one number is drawn for each element");
  for (int i = 0; i < N; i++) {
    if (kind == 0) vf_assert(u[i] == draws[i] >> 32, "times");
    else if (kind == 1) vf_assert(w[i] == draws[i], "64 bit numbers");
    else if (kind == 2) vf_assert(f[i] == (int64_t)(draws[i] >> 11) * 0x1.0p-53, "floats");
    else vf_assert((kind == 3 ? u[i] : w[i]) == (uint64_t)((__uint128_t)draws[i] * range >> 64), "bounded numbers");
  }
  vf_assert(u[N] == 99 && w[N] == 99 && f[N] == 99, "nothing is written behind the result");
  vf_witness("end");
}
void h_arrays(void) {
  uint64_t ranges[4] = {1, 2, 4, 3};
  int kind = vf_int(0, 4);
  int r = vf_int(0, 3);
  for (int i = 0; i < N; i++) {
    draws[i] = vf_u64();
    vf_assume(draws[i]);
  }
  for (int i = 0; i < 5; i++)
    for (int j = 0; j < 4; j++)
      if (kind == i && r == j) {
        arrays(i, ranges[j]);
        return;
      }
}
/*@ {"property":"C19","entry":"h_float_arrays","unwind":8,"quick":["-DN=3"],"thorough":["-DN=6"],
 "about":"arrays of N floating point numbers in -1..1, 0..1 and 0..4 against N single numbers and the range, from states in which eight bits of each word are any"} @*/
static void float_arrays(int kind) {
  sp_random_state_t a, b;
  uint64_t s[4];
  double f[N + 1];
  for (int i = 0; i < 4; i++) a.data[i] = b.data[i] = draws[i];
  f[N] = 99;
  if (kind == 0) sp_samples_random_primitive(&a, N, f);
  else if (kind == 1) sp_units_random_primitive(&a, N, f);
  else sp_samples_random_bounded_primitive(&a, 4.0, N, f);
  for (int i = 0; i < N; i++) {
    double e = kind ? kind == 1 ? sp_unit_random_primitive(&b) : sph_random_f64_bounded(&b, 4.0) : sp_sample_random_primitive(&b);
    vf_assert(f[i] == e, "elements are what repeated calls give");
    vf_assert(e >= (kind ? 0 : -1) && e < (kind == 2 ? 4 : 1), "elements are in the range");
  }
  keep(b, s);
  vf_assert(same(a, s) && f[N] == 99, "state after an array");
  vf_witness("end");
}
void h_float_arrays(void) {
  int kind = vf_int(0, 2);
  uint64_t fixed[4] = {0x0123456789abcdef, 0xfedcba9876543210, 0xaaaa5555aaaa5555, 0xf0f0f0f00f0f0f0f};
  for (int i = 0; i < 4; i++) draws[i] = fixed[i] ^ ((uint64_t)vf_u8() << (40 + 4 * i));
  for (int i = 0; i < 3; i++)
    if (kind == i) {
      float_arrays(i);
      return;
    }
}
/*@ {"property":"C19","entry":"h_seed","unwind":70,"quick":[""],"thorough":["-DSEEDS=64"],
 "about":"states for the seeds 0 to SEEDS - 1, 2^31, 2^32 - 1 and 2^32 and 2^64 - 1 (64 bit), and the default seed"} @*/
#ifndef SEEDS
#define SEEDS 16
#endif
static void seeded(uint64_t seed) {
  uint64_t s[4];
  uint64_t x = seed;
  sp_random_state_t a = sph_random_state_new(seed);
  for (int i = 0; i < 4; i++) s[i] = splitmix(&x);
  vf_assert(same(a, s), "state of a seed");
  a = sp_random_state_new(seed);
  if (seed >> 32) {
    x = (uint32_t)seed;
    for (int i = 0; i < 4; i++) s[i] = splitmix(&x);
  }
  starstar(s);
  starstar(s);
  vf_assert(same(a, s), "state of the seed of a sequence");
  vf_witness("end");
}
void h_seed(void) {
  uint64_t other[5] = {0x80000000, 0xffffffff, 0x100000000, 0xffffffffffffffff, sp_random_seed};
  int c = vf_int(0, SEEDS + 4);
  for (int i = 0; i < SEEDS + 5; i++)
    if (c == i) {
      seeded(i < SEEDS ? i : other[i - SEEDS]);
      return;
    }
}
#ifdef DISTRIBUTION
static sp_time_t shares[N + 1];
#ifndef WIDTH
#define WIDTH 32
#endif
#define wide(x) ((x) & (0xffffffffu >> (32 - WIDTH)))
static void distribution(void) {
  for (int i = 0; i < N; i++) shares[i] = wide(vf_u32());
  for (int i = 1; i < N; i++) vf_assume(shares[i - 1] <= shares[i]);
  vf_assume(shares[N - 1] > 0);
  shares[N] = 0xffffffff;
  for (int i = 0; i < 2 * N + 2; i++) picks[i] = wide(vf_u32());
}
static void expect(sp_time_t index, sp_time_t pick) {
  vf_assert(index < N, "index of the distribution");
  vf_assert(pick < shares[index] && (!index || pick >= shares[index - 1]), "the share of the index contains the deviate");
}
/*@ {"property":"C19","entry":"h_discrete","unwind":12,"quick":["-DDISTRIBUTION -DN=3","-DDISTRIBUTION -DN=1","-DDISTRIBUTION -DN=5 -DWIDTH=8"],"thorough":["-DDISTRIBUTION -DN=5","-DDISTRIBUTION -DN=7 -DWIDTH=12 unwind=24","-DDISTRIBUTION -DN=10 -DWIDTH=12 unwind=28"],
 "about":"discrete numbers for any N cumulative shares of 32 (WIDTH) bits of which the last is not zero, and any deviates"} @*/
void h_discrete(void) {
  sp_time_t out[3];
  distribution();
  expect(sp_time_random_discrete(shares, N), picks[0]);
  out[0] = out[1] = out[2] = 99;
  pick_count = 0;
  sp_times_random_discrete(shares, N, 2, out);
  expect(out[0], picks[0]);
  expect(out[1], picks[1]);
  vf_assert(out[2] == 99 && pick_count == 2, "nothing is written behind the result");
  vf_witness("end");
}
/*@ {"property":"C19","entry":"h_discrete_unique","unwind":12,"quick":["-DDISTRIBUTION -DN=3 -DWIDTH=6","-DDISTRIBUTION -DN=2 -DWIDTH=6"],"thorough":["-DDISTRIBUTION -DN=3 -DWIDTH=16","-DDISTRIBUTION -DN=4 -DWIDTH=8 unwind=16"],
 "about":"up to N + 1 requested unique numbers for any N cumulative shares of WIDTH bits of which all are greater than zero, where at most N + 2 repeated numbers have to be discarded"} @*/
void h_discrete_unique(void) {
  sp_time_t out[N + 2];
  int size = vf_int(0, N + 1);
  int expected = size < N ? size : N;
  int seen = 0;
  int drawn = 0;
  distribution();
  for (int i = 1; i < N; i++) vf_assume(shares[i - 1] < shares[i]);
  vf_assume(shares[0] > 0);
  for (int i = 0; i < N + 2; i++) out[i] = 99;
  /* the expected result: the first occurrences in order */
  sp_time_t e[N];
  for (int i = 0; i < 2 * N + 2; i++) {
    vf_assume(picks[i] < shares[N - 1]);
    if (seen < expected) {
      int k = 0;
      int old = 0;
      for (int j = 0; j < N - 1; j++) k += picks[i] >= shares[j];
      for (int j = 0; j < N; j++) old = old || (j < seen && e[j] == k);
      if (!old) e[seen++] = k;
      drawn += 1;
    }
  }
  vf_assume(seen == expected);
  sp_times_random_discrete_unique(shares, N, size, out);
  for (int i = 0; i < N; i++)
    if (i < expected) {
      vf_assert(out[i] == e[i], "unique numbers");
      for (int j = 0; j < i; j++) vf_assert(out[j] != out[i], "no number is repeated");
    }
  for (int i = 0; i < N + 2; i++)
    if (i >= expected) vf_assert(out[i] == 99, "nothing is written behind the result");
  vf_assert(pick_count == drawn, "as many numbers are drawn as needed");
  vf_witness("end");
}
/*@ {"property":"C19","entry":"h_discrete_bounded","unwind":12,"quick":["-DDISTRIBUTION -DN=3","-DDISTRIBUTION -DN=2"],"thorough":["-DDISTRIBUTION -DN=5"],
 "about":"bounded discrete numbers in ranges 0..6 for any N cumulative shares"} @*/
static void discrete_bounded(int range, int index) {
  /* the nearest number to the proportional part of the range */
  sp_time_t r = sp_time_random_discrete_bounded(shares, N, range);
  int d = 2 * ((int)r * (N - 1) - range * index);
  vf_assert(r <= range && d <= N - 1 && d >= 1 - N, "bounded discrete number");
  pick_count = 0;
  double s = sp_sample_random_discrete_bounded(shares, N, range);
  s = s * N - range * index;
  vf_assert(s < 1e-6 && s > -1e-6, "bounded discrete sample");
  vf_witness("end");
}
void h_discrete_bounded(void) {
  int range = vf_int(0, 6);
  int index = vf_int(0, N - 1);
  for (int i = 0; i <= 6; i++)
    for (int j = 0; j < N; j++)
      if (range == i && index == j) {
        for (int k = 0; k < N; k++) shares[k] = 10 * k + 5;
        picks[0] = j ? 10 * j - 5 : 0;
        picks[0] += i;
        if (!j && i > 4) picks[0] = 4;
        discrete_bounded(i, j);
        return;
      }
}
#endif
