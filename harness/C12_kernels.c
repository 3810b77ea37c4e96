/* windowed sinc filter kernels */
#include "vf.h"
/* exact for the small values used here, and computed while executing for constants */
static double vf_ceil(double a) {
  double b = (double)((int64_t)(a));
  return (b < a ? b + 1 : b);
}
#define ceil vf_ceil
/* trigonometric functions are abstract: the harness chooses their values */
static double vf_sin(double a);
static double vf_cos(double a);
#define sin vf_sin
#include "vf_repo.h"
#undef sin
static int near(double a, double b) { return (a - b < 1e-9 && b - a < 1e-9); }
static int sin_calls;
static double sin_arg;
static double sin_value;
static double vf_sin(double a) {
  sin_calls += 1;
  sin_arg = a;
  return (sin_value);
}
static double cos_value[2];
static int window_mode; /* 0: constant one, 1: cos_value in order of the arguments */
static double cos_base;
static int cos_other;
static double vf_cos(double a) {
  /* with 0 and 7.25 in turns the window is 0.42 + 0.58 = 1 */
  if (!window_mode) {
    cos_other = !cos_other;
    return (cos_other ? 0 : 7.25);
  }
  if (window_mode == 2) {
    for (int i = 0; i < 16; i++)
      if (near(a, i * 3.14159265358979323846 / 2)) return ((i & 1) ? 0 : ((i & 2) ? -1 : 1));
    vf_assert(0, "argument of the cosine");
  }
  if (near(a, cos_base)) return (cos_value[0]);
  if (near(a, 2 * cos_base)) return (cos_value[1]);
  cos_other = 1;
  return (0);
}
#ifndef W
#define W 5
#endif
/*@ {"property":"C12","entry":"h_window","unwind":10,"shadow":"shadow_kernel","quick":["-DW=5","-DW=7","-DW=2"],
 "about":"window of W samples, every index, symbolic values of both cosines (multiples of a quarter)"} @*/
void h_window(void) {
  int at = vf_int(0, W - 1);
  window_mode = 1;
  cos_value[0] = vf_small(-4, 4) / 4;
  cos_value[1] = vf_small(-4, 4) / 4;
  for (int i = 0; i < W; i++)
    if (at == i) {
      /* the cosine of zero is one at the first index, where both arguments are the same */
      if (!i) vf_assume(cos_value[0] == 1 && cos_value[1] == 1);
      cos_base = (2 * 3.14159265358979323846 * i) / (W - 1);
      double a = sp_window_blackman(i, W);
      vf_assert(near(a, 0.42 - 0.5 * cos_value[0] + 0.08 * cos_value[1]) && !cos_other, "Blackman window");
      vf_witness("end");
      return;
    }
}
/*@ {"property":"C12","entry":"h_sinc","unwind":14,"shadow":"shadow_kernel","quick":[""],
 "about":"arguments -3..3 in steps of a half, symbolic value of the sine (multiples of a quarter)"} @*/
#undef sp_sinc
void h_sinc(void) {
  int at = vf_int(-6, 6);
  sin_value = vf_small(-4, 4) / 4;
  for (int i = -6; i <= 6; i++)
    if (at == i) {
      double x = i / 2.0;
      double a = sp_sinc(x);
      double pi = 3.14159265358979323846;
      if (i) {
        vf_assert(near(a * pi * x, sin_value), "sinc is sin(pi * x) / (pi * x)");
        vf_assert(near(sin_arg, pi * x) || near(sin_arg, -pi * x), "argument of the sine");
      } else vf_assert(a == 1, "sinc of zero is one");
      vf_witness("end");
      return;
    }
}
/*@ {"property":"C12","entry":"h_length","unwind":6,"shadow":"shadow_kernel","quick":[""],
 "about":"transitions k / 256 with symbolic k in 1..1024"} @*/
void h_length(void) {
  int k = vf_int(1, 1024);
  sp_time_t a = sp_windowed_sinc_lp_hp_ir_length(k / 256.0);
  vf_assert(a & 1, "length is odd");
  /* a >= 4 / (k / 256) */
  vf_assert((uint64_t)(a)*k >= 1024, "length is at least four divided by the transition");
  vf_assert(a < 3 || (uint64_t)(a - 2) * k < 1024, "length is the smallest such odd number");
  vf_witness("end");
}

/* ---- kernels with abstract sinc values ----
   the window is constant, the sinc of each cutoff and index is symbolic with a sum of SUM */
#ifndef LL
#define LL 3
#endif
#ifndef LH
#define LH 5
#endif
#define CUT_L 0.125
#define CUT_H 0.3125
static const int lens[2] = {LL, LH};
#define TRANSITION(len) ((len) == 3 ? 2 : (len) == 5 ? 1 : 0.625)
#define SUM 8
static double sinc_values[2][8];
static sp_sample_t vf_sinc(sp_sample_t a) {
  for (int k = 0; k < 2; k++)
    for (int i = 0; i < lens[k]; i++)
      if (near(a, 2 * (k ? CUT_H : CUT_L) * (i - (lens[k] - 1) / 2.0))) return (sinc_values[k][i]);
  vf_assert(0, "argument of sinc is twice the cutoff times the distance to the center");
  return (0);
}
#ifndef CONCRETE
#define CONCRETE 0
#endif
static void sinc_concrete(void) {
  /* distinct values with a sum of SUM and the same center */
  static const double v3[3] = {1, 2, 5};
  static const double v3b[3] = {2.5, 2, 3.5};
  static const double v5[5] = {1, 0.5, 2, 1.5, 3};
  static const double v7[7] = {1, 0.5, 0.25, 2, 1.5, 0.75, 2};
  for (int k = 0; k < 2; k++)
    for (int i = 0; i < lens[k]; i++) sinc_values[k][i] = lens[k] == 3 ? (k ? v3b[i] : v3[i]) : (lens[k] == 5 ? v5[i] : v7[i]);
}
static void sinc_data(void) {
  if (CONCRETE) {
    sinc_concrete();
    return;
  }
  for (int k = 0; k < 2; k++) {
    double sum = 0;
    for (int i = 0; i < lens[k]; i++) {
      sinc_values[k][i] = vf_small(1, 4);
      sum += sinc_values[k][i];
    }
    vf_assume(sum == SUM);
  }
  /* both have the value at zero in common */
  vf_assume(sinc_values[0][LL / 2] == sinc_values[1][LH / 2]);
}
/*@ {"property":"C12","entry":"h_lp_hp","unwind":10,"shadow":"shadow_kernel","quick":["-DLL=5 -DHP=0","-DLL=5 -DHP=0 -DWIN=1 -DCONCRETE=1","-DLL=5 -DHP=1","-DLL=3 -DHP=1"],"thorough":["-DLL=7 -DHP=0","-DLL=7 -DHP=1"],
 "about":"kernels of LL samples with symbolic sinc values (HP: high-pass). the window is constant, or (WIN) the values of the cosine are the real ones"} @*/
#ifndef WIN
#define WIN 0
#endif
#ifndef HP
#define HP 0
#endif
void h_lp_hp(void) {
  sp_sample_t* ir = 0;
  sp_time_t len = 0;
  static const double window[5] = {0, 0.34, 1, 0.34, 0};
  sinc_data();
  if (WIN) window_mode = 2;
  status_t s = sp_windowed_sinc_lp_hp_ir(CUT_L, TRANSITION(LL), HP, &ir, &len);
  vf_assert(!s.id && ir, "succeeds");
  vf_assert(len == LL, "length");
  double sum = 0;
  if (WIN)
    for (int i = 0; i < LL; i++) sum += window[i] * sinc_values[0][i];
  for (int i = 0; i < LL; i++) {
    if (WIN) {
      vf_assert(near(ir[i] * sum, window[i] * sinc_values[0][i]), "window times sinc, normalised to unity gain");
      continue;
    }
    double e = sinc_values[0][i] / SUM;
    if (HP) e = (i == LL / 2 ? 1 : 0) - e;
    vf_assert(near(ir[i], e), "window times sinc, normalised to unity gain, spectrally inverted for high-pass");
  }
  vf_assert(vf_live == 1, "only the kernel is kept");
  vf_witness("end");
}

/*@ {"property":"C12","entry":"h_bp_br","unwind":18,"shadow":"shadow_kernel",
 "quick":["-DREJECT=1 -DLL=3 -DLH=3","-DREJECT=0 -DLL=3 -DLH=3","-DREJECT=1 -DLL=3 -DLH=5 -DCONCRETE=1","-DREJECT=1 -DLL=5 -DLH=3 -DCONCRETE=1","-DREJECT=0 -DLL=3 -DLH=5 -DCONCRETE=1","-DREJECT=0 -DLL=5 -DLH=3 -DCONCRETE=1"],
 "thorough":["-DREJECT=1 -DLL=3 -DLH=5","-DREJECT=1 -DLL=5 -DLH=3","-DREJECT=0 -DLL=3 -DLH=5","-DREJECT=1 -DLL=5 -DLH=7","-DREJECT=1 -DLL=7 -DLH=3","-DREJECT=0 -DLL=5 -DLH=5"],
 "about":"band-pass and band-reject kernels of low-pass and high-pass kernels of LL and LH samples with symbolic sinc values (CONCRETE: one set of values)"} @*/
#ifndef REJECT
#define REJECT 0
#endif
static double kernel(int k, int i, int high_pass) {
  double e = sinc_values[k][i] / SUM;
  return (high_pass ? (i == lens[k] / 2 ? 1 : 0) - e : e);
}
void h_bp_br(void) {
  sp_sample_t* ir = 0;
  sp_time_t len = 0;
  sinc_data();
  status_t s = sp_windowed_sinc_bp_br_ir(CUT_L, CUT_H, TRANSITION(LL), TRANSITION(LH), REJECT, &ir, &len);
  vf_assert(!s.id && ir, "succeeds");
  vf_assert(vf_live == 1, "only the kernel is kept");
  if (REJECT) {
    int max = LL > LH ? LL : LH;
    vf_assert(len == max, "length of the longer kernel");
    for (int i = 0; i < max; i++) {
      int d = i - max / 2;
      double e = 0;
      if (d + LL / 2 >= 0 && d + LL / 2 < LL) e += kernel(0, d + LL / 2, 0);
      if (d + LH / 2 >= 0 && d + LH / 2 < LH) e += kernel(1, d + LH / 2, 1);
      vf_assert(near(ir[i], e), "center-aligned sum of the low-pass below and the high-pass above the band");
    }
  } else {
    vf_assert(len == LL + LH - 1, "length of the convolution");
    for (int i = 0; i < LL + LH - 1; i++) {
      double e = 0;
      for (int j = 0; j < LL; j++)
        if (i - j >= 0 && i - j < LH) e += kernel(0, j, 1) * kernel(1, i - j, 0);
      vf_assert(near(ir[i], e), "convolution of the high-pass at the lower and the low-pass at the upper cutoff");
    }
  }
  vf_witness("end");
}
/*@ {"property":"C12","entry":"h_degenerate","unwind":18,"shadow":"shadow_kernel","quick":["-DLL=3 -DLH=5 -DCONCRETE=1"],"thorough":["-DLL=3 -DLH=5"],
 "about":"cutoffs at or beyond the limits (-0.5, 0, and 0.5, 1): every combination with a cutoff inside of the limits, for band-pass and band-reject, directly and by filter arguments"} @*/
static void degenerate(int l, int h, int reject, int by_arguments) {
  sp_sample_t* ir = 0;
  sp_time_t len = 0;
  double cl = l == 2 ? CUT_L : (l ? 0 : -0.5);
  double ch = h == 2 ? CUT_H : (h ? 0.5 : 1);
  status_t s;
  if (by_arguments) {
    /* the arguments that the filter function would pass */
    double a[5] = {cl, ch, TRANSITION(LL), TRANSITION(LH), 0};
    *(sp_bool_t*)(a + 4) = reject;
    s = sp_windowed_sinc_bp_br_ir_f(a, &ir, &len);
  } else s = sp_windowed_sinc_bp_br_ir(cl, ch, TRANSITION(LL), TRANSITION(LH), reject, &ir, &len);
  vf_assert(!s.id && ir, "succeeds");
  vf_assert(vf_live == 1, "only the kernel is kept");
  if (l != 2 && h != 2) {
    vf_assert(len == 1 && ir[0] == (reject ? 0 : 1), "passthrough or silence if both cutoffs are beyond the limits");
  } else {
    int k = l != 2;
    vf_assert(len == lens[k], "length of the single kernel");
    for (int i = 0; i < lens[k]; i++) vf_assert(near(ir[i], kernel(k, i, reject ? k : !k)), "single kernel of the cutoff inside of the limits");
  }
  vf_free(ir);
  vf_assert(!vf_live, "nothing else is allocated");
  vf_witness("end");
}
void h_degenerate(void) {
  int l = vf_int(0, 2);
  int h = vf_int(0, 2);
  int r = vf_bool();
  int a = vf_bool();
  sinc_data();
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      for (int k = 0; k < 2; k++)
        for (int b = 0; b < 2; b++)
          if (i == l && j == h && k == r && a == b && (i != 2 || j != 2)) {
            degenerate(i, j, k, b);
            return;
          }
}
/*@ {"property":"C12","entry":"h_kernel_memory","unwind":18,"shadow":"shadow_kernel","quick":["-DLL=3 -DLH=5 -DREJECT=0","-DLL=5 -DLH=3 -DREJECT=1"],
 "about":"the second of the kernels or their combination can not be allocated"} @*/
static void memory(int at) {
  sp_sample_t* ir = 0;
  sp_time_t len = 0;
  vf_fail_at = at;
  status_t s = sp_windowed_sinc_bp_br_ir(CUT_L, CUT_H, TRANSITION(LL), TRANSITION(LH), REJECT, &ir, &len);
  vf_assert((s.id != 0) == vf_failed, "allocation failure is returned");
  if (vf_failed) {
    vf_assert(vf_live == 0, "all temporary memory is released");
    vf_witness("failed");
  }
}
void h_kernel_memory(void) {
  int at = vf_int(0, 3);
  for (int k = 0; k < 2; k++)
    for (int i = 0; i < lens[k]; i++) sinc_values[k][i] = 1 + i;
  for (int i = 0; i < 4; i++)
    if (i == at) {
      memory(i);
      return;
    }
}
/*@ {"property":"C12","entry":"h_inversion","unwind":10,"shadow":"shadow_kernel","quick":["-DW=5","-DW=7","-DW=1"],
 "about":"spectral inversion and reversal of kernels of W samples"} @*/
void h_inversion(void) {
  sp_sample_t a[W + 2];
  sp_sample_t b[W + 2];
  int reversal = vf_bool();
  for (int i = 0; i < W + 2; i++) a[i] = b[i] = vf_small(-3, 3);
  if (reversal) sp_spectral_reversal_ir(b + 1, W);
  else sp_spectral_inversion_ir(b + 1, W);
  for (int i = 0; i < W; i++) {
    double e = reversal ? ((i & 1) ? -a[i + 1] : a[i + 1]) : (i == W / 2 ? 1 : 0) - a[i + 1];
    vf_assert(b[i + 1] == e, "inversion subtracts from a unit impulse, reversal negates odd indexes");
  }
  vf_assert(a[0] == b[0] && a[W + 1] == b[W + 1], "only the kernel is written");
  vf_witness("end");
}
