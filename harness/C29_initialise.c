/* initialisation and deinitialisation of the library */
#include "vf.h"
#define VF_PI 3.14159265358979323846
/* the encoding has no sine. the series is accurate to about 1e-14, natively it is compared with the sine of libm */
static double vf_sin(double a) {
  double sign = 1;
  double sum, term;
  if (a < 0) {
    a = -a;
    sign = -1;
  }
  a -= 2 * VF_PI * (int)(a / (2 * VF_PI));
  if (a >= VF_PI) {
    a -= VF_PI;
    sign = -sign;
  }
  if (a > VF_PI / 2) a = VF_PI - a;
  sum = term = a;
  for (int i = 2; i < 22; i += 2) {
    term *= -a * a / (i * (i + 1));
    sum += term;
  }
  return (sign * sum);
}
#ifdef VF_CBMC
#define sin vf_sin
#endif
#ifndef W
#define W 1
#endif
#define TH_MAX (W * 2 + 1)
#define ROUNDS 3
static int th_limited = 0;
#include "vf_threads.h"
static void th_client(void) {}
#include "vf_repo.h"
static int near(double p, double q) { return (p - q < 1e-9 && q - p < 1e-9); }
#ifndef FAILS
#define FAILS 0
#endif
#ifndef RATE
#define RATE 2
#endif
/*@ {"property":"C29","entry":"h_period","unwind":26,"quick":["-DSIZE=12"],"thorough":["-DSIZE=24 unwind=30"],
 "flags":["--max-field-sensitivity-array-size","128"],
 "stubs":"the sine is computed by its series",
 "about":"sine periods of every length up to SIZE"} @*/
#ifndef SIZE
#define SIZE 12
#endif
static void period(int n) {
  double out[SIZE + 1];
  for (int i = 0; i <= SIZE; i++) out[i] = 77;
  sp_sine_period(n, out);
  for (int i = 0; i <= SIZE; i++) vf_assert(i < n ? near(out[i], vf_sin(2 * VF_PI * i / n)) : out[i] == 77, "one period of a sine");
  if (n == SIZE) vf_witness("end");
}
void h_period(void) {
  int n = vf_int(0, SIZE);
  for (int i = 0; i <= SIZE; i++)
    if (i == n) {
      period(i);
      return;
    }
}
static void check_state(sp_random_state_t expected, int channels, int cpus) {
  vf_assert(sp_rate == RATE && sp_channel_count == channels && sp_cpu_count == cpus, "rate, channel count and number of threads are set");
  for (int i = 0; i < 4; i++) vf_assert(sp_random_state.data[i] == expected.data[i], "the random state is the documented one");
  int threads = 0;
  for (int i = 1; i <= TH_MAX; i++) threads += th_state[i] == th_ready || th_state[i] == th_waiting;
  vf_assert(threads == cpus, "the requested number of threads runs");
  vf_assert(sp_sine_lfo_factor == 100, "factor of the low frequency table");
#if !FAILS
  for (int i = 0; i < RATE; i++) vf_assert(near(sp_sine_table[i], vf_sin(2 * VF_PI * i / RATE)), "sine table");
  for (int i = 0; i < RATE * 100; i++) vf_assert(near(sp_sine_table_lfo[i], vf_sin(2 * VF_PI * i / (RATE * 100))), "low frequency sine table");
#endif
}
/*@ {"property":["C29","C22"],"entry":"h_initialise","unwind":5,"partial":{"sph_thread_pool_worker":3},
 "unwindset":["sp_sine_period.0:401","check_state.2:401","check_state.3:401","vf_sin.0:12"],
 "flags":["--max-field-sensitivity-array-size","512"],
 "quick":["-DRATE=1 -DW=1 -DFAILS=1","-DRATE=1 -DW=1","-DRATE=3 -DW=1"],"thorough":["-DRATE=4 -DW=1","-DRATE=1 -DW=2 -DFAILS=1"],
 "stubs":"the sine is computed by its series; threads are modelled as described in vf_threads.h",
 "about":"initialising with zero to W threads and any channel count, where any allocation or creating any thread might fail, deinitialising, and initialising again, at sample rate RATE. with FAILS: failures, without: the contents of the tables"} @*/
static sp_random_state_t expected;
static void initialise(int c, int channels, int fail_at, int create_fails_at) {
  vf_fail_at = fail_at;
  th_create_fails_at = create_fails_at;
  int fails = create_fails_at >= 0 && create_fails_at < c;
  status_t s = sp_initialize(c, channels, RATE);
  vf_assert(!!s.id == (fails || vf_failed), "success is reported exactly if nothing failed");
  if (s.id) vf_assert(th_released() && !vf_live, "everything is released if initialising fails");
  else check_state(expected, channels, c);
  sp_random_state.data[0] += 3;
  vf_fail_at = -1;
  sp_deinitialize();
  vf_assert(th_released() && !vf_live, "everything is released");
  th_create_fails_at = -1;
  s = sp_initialize(c, channels, RATE);
  vf_assert(!s.id, "initialising again succeeds");
  check_state(expected, channels, c);
  sp_deinitialize();
  vf_assert(th_released() && !vf_live, "everything is released after deinitialising again");
  vf_witness("end");
}
void h_initialise(void) {
  int channels = vf_int(1, sp_channel_count_limit);
  int cpus = vf_int(0, W);
  int fail = vf_int(-1, FAILS ? 2 : -1);
  int create = vf_int(-1, FAILS ? W - 1 : -1);
  expected = sp_random_state_new(sp_random_seed);
  /* state that was left by earlier use */
  for (int i = 0; i < 4; i++) sp_random_state.data[i] = vf_u64();
  for (int c = 0; c <= W; c++)
    for (int i = -1; i <= (FAILS ? 2 : -1); i++)
      for (int j = -1; j <= (FAILS ? W - 1 : -1); j++)
        if (c == cpus && i == fail && j == create) {
          initialise(c, channels, i, j);
          return;
        }
}
/*@ {"property":"C29","entry":"h_limit","unwind":5,"partial":{"sph_thread_pool_worker":3},
 "quick":["-DW=1"],
 "stubs":"threads are modelled as described in vf_threads.h",
 "about":"initialising with any number of threads beyond the limit, also such that are zero modulo 256"} @*/
void h_limit(void) {
  int cpus = vf_int(sph_thread_pool_thread_limit + 1, 65535);
  th_create_fails_at = 0;
  status_t s = sp_initialize(cpus, 1, RATE);
  vf_assert(s.id, "too many threads are rejected");
  vf_assert(th_released() && !vf_live && !th_creates, "nothing is created");
  vf_witness("end");
}
