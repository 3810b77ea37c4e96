/* elementary wave shapes, phases and panning */
#include "vf.h"
#include "vf_repo.h"
static int near(double p, double q) { return (p - q < 1e-9 && q - p < 1e-9); }
/*@ {"property":"C25","entry":"h_phase","unwind":6,"quick":["-DBITS=10","-DBITS=32 -DCYCLE=96000","-DBITS=32 -DCYCLE=1","-DBITS=32 -DCYCLE=0xffffffff"],"thorough":["-DBITS=16","-DBITS=32 -DCYCLE=48000","-DBITS=32 -DCYCLE=44100","-DBITS=32 -DCYCLE=9600000"],
 "about":"integer phases of any current value and change with BITS bits whose sum fits in 32 bit, with any cycle of BITS bits or the cycle CYCLE"} @*/
#ifndef BITS
#define BITS 8
#endif
void h_phase(void) {
  sp_time_t a = vf_u32() >> (32 - BITS);
  sp_time_t b = vf_u32() >> (32 - BITS);
#ifdef CYCLE
  sp_time_t c = CYCLE;
#else
  sp_time_t c = vf_u32() >> (32 - BITS);
#endif
  sp_time_t r, q;
  vf_assume(c && a + b >= a);
  r = sp_phase(a, b, c);
  vf_assert(r < c, "phase is less than the cycle");
  /* the difference is a multiple of the cycle */
  vf_assert((a + b - r) % c == 0 && r <= a + b, "sum modulo the cycle");
  vf_witness("end");
}
/*@ {"property":"C25","entry":"h_phase_float","unwind":12,"quick":[""],"thorough":["-DK=30"],
 "about":"phases 0..11 with cycles 1..12 and changes that are multiples of 1/8 up to K/8"} @*/
#ifndef K
#define K 17
#endif
static void phase_float(int k) {
  sp_time_t a = vf_uint(0, 11);
  sp_time_t c = vf_uint(1, 12);
  sp_time_t e = (a + (k + 7) / 8) % c;
  vf_assert(sp_phase_float(a, k / 8.0, c) == e, "sum with the change rounded up modulo the cycle");
  vf_witness("end");
}
void h_phase_float(void) {
  int c = vf_int(0, K);
  for (int k = 0; k <= K; k++)
    if (c == k) {
      phase_float(k);
      return;
    }
}
/*@ {"property":"C25","entry":"h_triangle","unwind":20,"quick":["-DN=5"],"thorough":["-DN=9 unwind=40"],
 "about":"parts of 0..N samples, at any time in the first two periods and in the last whole periods before 2^31"} @*/
#ifndef N
#define N 5
#endif
static void triangle(int a, int b, int x) {
  double e = x < a ? x / (double)a : 1 - (x - a) / (double)b;
  uint32_t late = 0x7fffffff / (a + b) * (a + b) - (a + b);
  vf_assert(near(sp_triangle(x, a, b), e), "rises and falls");
  vf_assert(near(sp_triangle(x + a + b, a, b), e), "is periodic");
  vf_assert(near(sp_triangle(x + late, a, b), e), "is periodic at late times");
  vf_witness("end");
}
void h_triangle(void) {
  int a = vf_int(0, N);
  int b = vf_int(0, N);
  int x = vf_int(0, 2 * N - 1);
  for (int i = 0; i <= N; i++)
    for (int j = 0; j <= N; j++)
      for (int k = 0; k < i + j; k++)
        if (a == i && b == j && x == k) {
          triangle(i, j, k);
          return;
        }
}
/*@ {"property":"C25","entry":"h_square","unwind":20,"quick":["-DN=9"],"thorough":["-DN=16 unwind=50"],
 "about":"times in the first two periods and in two periods close to 2^32 with sizes 1..N"} @*/
static void square(int x, int size) {
  uint32_t late = 0xffffffff / size * size - 2 * size;
  double e = 2 * (x % size) < size ? -1 : 1;
  vf_assert(sp_square(x, size) == e, "first half, rounded up, is -1");
  vf_assert(sp_square(x + late, size) == e, "is periodic at late times");
  vf_witness("end");
}
void h_square(void) {
  int x = vf_int(0, 2 * N - 1);
  int size = vf_int(1, N);
  for (int i = 1; i <= N; i++)
    for (int j = 0; j < 2 * i; j++)
      if (size == i && x == j) {
        square(j, i);
        return;
      }
}
/*@ {"property":"C25","entry":"h_pan","unwind":60,"quick":["-DSTEPS=8 -DPAIRS=2"],"thorough":["-DSTEPS=16 -DPAIRS=4 unwind=120"],
 "about":"pan values from -1 to the channel count plus one in steps of 1/STEPS for the channels of PAIRS pairs"} @*/
#ifndef STEPS
#define STEPS 8
#define PAIRS 2
#endif
static void pan(int k, int channel) {
  double value = k / (double)STEPS;
  double v = value - channel / 2 * 2;
  double e;
  if (v < 0) v = 0;
  if (v > 1) v = 1;
  if (channel & 1) e = v < 0.5 ? v * 2 : 1;
  else e = v > 0.5 ? 2 - v * 2 : 1;
  vf_assert(near(sp_pan_to_amp(value, channel), e), "factor of the channel");
  vf_witness("end");
}
void h_pan(void) {
  int k = vf_int(-STEPS, STEPS * (PAIRS * 2 + 1));
  int channel = vf_int(0, PAIRS * 2 - 1);
  for (int j = 0; j < PAIRS * 2; j++)
    if (channel == j) {
      for (int i = -STEPS; i <= STEPS * (PAIRS * 2 + 1); i++)
        if (k == i) {
          pan(i, j);
          return;
        }
    }
}
/*@ {"property":"C25","entry":"h_pan_range","unwind":6,"quick":[""],
 "about":"every number as a pan value, for the channels 0 to 3: the factor is between 0 and 1"} @*/
void h_pan_range(void) {
  double v = vf_f64();
  int channel = vf_int(0, 3);
  vf_assume(v == v);
  for (int i = 0; i < 4; i++)
    if (channel == i) {
      double r = sp_pan_to_amp(v, i);
      vf_assert(r >= 0 && r <= 1, "factor between 0 and 1");
      vf_witness("end");
    }
}
/*@ {"property":"C25","entry":"h_wave","unwind":12,"quick":["-DN=4"],"thorough":["-DN=6"],
 "about":"N samples of sp_wave, sp_sine and sp_sine_lfo with tables of three samples, in two parts, from any phase in the table, with constant or varying frequency 0..4 and amplitude 0..2: sums to the output and continues the phase"} @*/
static double table[3], lfo_table[3], amps[N];
static sp_time_t frqs[N];
static void wave(int function, int phase, int frq, int amp, int has_fmod, int has_amod, int cut) {
  double out[N + 1];
  sp_time_t state = phase;
  int p = phase;
  for (int i = 0; i < N + 1; i++) out[i] = 1;
  sp_rate = 3;
  sp_sine_lfo_factor = 1;
  sp_sine_table = table;
  sp_sine_table_lfo = lfo_table;
  for (int k = 0; k < 2; k++) {
    int from = k ? cut : 0;
    int size = k ? N - cut : cut;
    sp_time_t* f = has_fmod ? frqs + from : 0;
    sp_sample_t* a = has_amod ? amps + from : 0;
    if (function == 0) sp_wave(size, table, 3, amp, a, frq, f, &state, out + from);
    else if (function == 1) sp_sine(size, amp, a, frq, f, &state, out + from);
    else sp_sine_lfo(size, amp, a, frq, f, &state, out + from);
  }
  for (int i = 0; i < N; i++) {
    double e = (function == 2 ? lfo_table : table)[p] * amp * (has_amod ? amps[i] : 1);
    vf_assert(out[i] == 1 + e, "samples of the wave are added");
    p = (p + (has_fmod ? (int)frqs[i] : frq)) % 3;
  }
  vf_assert(state == p, "phase is continued");
  vf_assert(out[N] == 1, "nothing is written behind the output");
  vf_witness("end");
}
void h_wave(void) {
  int function = vf_int(0, 2);
  int phase = vf_int(0, 2);
  int frq = vf_int(0, 4);
  int kind = vf_int(0, 3);
  double values[3] = {1, 3, 10};
  for (int i = 0; i < 3; i++) {
    table[i] = values[i];
    lfo_table[i] = 20 * values[i];
  }
  for (int i = 0; i < N; i++) {
    amps[i] = vf_small(0, 2);
  }
  for (int a = 0; a < 3; a++)
    for (int b = 0; b < 3; b++)
      for (int c = 0; c < 5; c++)
        for (int d = 0; d < 4; d++)
          if (function == a && phase == b && frq == c && kind == d && (a == 0 || c == 2)) {
            for (int i = 0; i < N; i++) frqs[i] = ((i + 3) * (c + 1) + i) % 5;
            wave(a, b, c, 2, d & 1, d & 2, N / 2);
            return;
          }
}
