/* interpolated paths and envelopes */
#include "vf.h"
/* exact for the values used here, and computed while executing for constants */
static double vf_ceil(double a) {
  double b = (double)((int64_t)(a));
  return (b < a ? b + 1 : b);
}
static double vf_round(double a) { return ((double)((int64_t)(a < 0 ? a - 0.5 : a + 0.5))); }
static double vf_sqrt(double a) {
  /* newton iterations */
  double b = a > 1 ? a : 1;
  if (a == 0) return (0);
  for (int i = 0; i < 16; i++) b = 0.5 * (b + a / b);
  return (b);
}
#define ceil vf_ceil
#define round vf_round
#define sqrt vf_sqrt
#include "vf_repo.h"
static int near(double a, double b) { return (a - b < 1e-6 && b - a < 1e-6); }
static int within(double a, double b, double c) { return (b < c ? (b - 1e-9 <= a && a <= c + 1e-9) : (c - 1e-9 <= a && a <= b + 1e-9)); }
#define UNSET -77
#ifndef L
#define L 4
#endif

/* ---- paths of straight segments ---- */
/*@ {"property":"C13","entry":"h_line_data","unwind":10,"quick":["-DL=4 -DX=1 -DTIMES=0","-DL=4 -DX=2 -DTIMES=0","-DL=4 -DX=3 -DTIMES=1","-DL=2 -DX=1 -DTIMES=1"],"thorough":["-DL=8 -DX=4 -DTIMES=0","-DL=8 -DX=4 -DTIMES=1","-DL=8 -DX=6 -DTIMES=0"],
 "about":"path of length L with three points, the second at X, symbolic values of the points (0..7), as samples or times. curvature absent or zero"} @*/
#ifndef X
#define X 1
#endif
#ifndef TIMES
#define TIMES 0
#endif
void h_line_data(void) {
  double x[1] = {X};
  double y[3];
  double c[2] = {0, 0};
  double* curve = &c[0];
#if X == 2
  curve = 0;
#endif
  for (int i = 0; i < 3; i++) y[i] = vf_small(0, 7);
#if TIMES
  sp_time_t* out = 0;
  status_t s = sp_path_times(&out, L, 3, x, y, curve);
#else
  sp_sample_t* out = 0;
  status_t s = sp_path_samples(&out, L, 3, x, y, curve);
#endif
  vf_assert(!s.id && out, "succeeds");
  for (int i = 0; i < L; i++) {
    double e = i < X ? y[0] + i * (y[1] - y[0]) / X : y[1] + (i - X) * (y[2] - y[1]) / (L - X);
#if TIMES
    vf_assert(out[i] <= e + 0.5001 && out[i] >= e - 0.5001, "linear interpolation, rounded");
    if (i == 0) vf_assert(out[i] == y[0], "value at the first point");
    if (i == X) vf_assert(out[i] == y[1], "value at the point");
#else
    vf_assert(near(out[i], e), "linear interpolation");
    if (i == 0) vf_assert(out[i] == y[0], "value at the first point");
    if (i == X) vf_assert(out[i] == y[1], "value at the point");
#endif
  }
  vf_assert(vf_live == 1, "only the result is kept");
  vf_witness("end");
}

/* ---- every structure and division ----
   the kinds of up to three segments and their ends are symbolic */
static const double ys[4] = {3, 9, -4, 6.5};
static double reference(int kinds, const int* k, const int* x, int at) {
  /* path value from the definition for move, line and constant */
  double x0 = 0;
  double y0 = 0;
  for (int i = 0; i < kinds; i++) {
    if (k[i] == 2) return (y0);
    if (at < x[i]) return (k[i] == 0 ? 0 : y0 + (at - x0) / (x[i] - x0) * (ys[i] - y0));
    x0 = x[i];
    y0 = ys[i];
  }
  return (UNSET);
}
/*@ {"property":"C13","entry":"h_divisions","unwind":20,"quick":["-DX0=0 -DLAST=1","-DX0=1 -DLAST=2","-DX0=2 -DLAST=1"],"thorough":["-DX0=0 -DLAST=1 -DREWIND=1","-DX0=1 -DLAST=1 -DREWIND=1","-DX0=0 -DLAST=2","-DX0=3 -DLAST=1","-DX0=4 -DLAST=1","-DX0=1 -DLAST=1 -DL=5"],
 "about":"paths of a move, a line and a line or constant segment (with every end position in 0..L), read in three pieces divided at every two positions (REWIND: the pieces are then read again in the opposite order)"} @*/
#ifndef X0
#define X0 0
#endif
#ifndef LAST
#define LAST 1
#endif
#ifndef REWIND
#define REWIND 0
#endif
static void divided(int x0, int x1, int last, int a, int b) {
  spline_path_t path;
  spline_path_segment_t segments[3];
  int k[3] = {0, 1, last};
  int x[3] = {x0, x1, L};
  sp_sample_t out[L + 2];
  segments[0] = spline_path_move(x0, ys[0]);
  segments[1] = spline_path_line(x1, ys[1]);
  segments[2] = last == 1 ? spline_path_line(L, ys[2]) : spline_path_constant();
  vf_assert(!spline_path_set(&path, segments, 3), "succeeds");
  vf_assert(last == 2 || spline_path_size(path) == L, "size");
  vf_assert(spline_path_end(path).y == (last == 1 ? ys[2] : ys[1]), "end point");
  for (int i = 0; i < L + 2; i++) out[i] = UNSET;
  for (int r = 0; r < 1 + REWIND; r++) {
    if (r) {
      for (int i = 0; i < L + 2; i++) out[i] = UNSET;
      spline_path_get(&path, b, L, out + 1 + b);
      spline_path_get(&path, a, b, out + 1 + a);
      spline_path_get(&path, 0, a, out + 1);
    } else {
      spline_path_get(&path, 0, a, out + 1);
      spline_path_get(&path, a, b, out + 1 + a);
      spline_path_get(&path, b, L, out + 1 + b);
    }
    for (int i = 0; i < L; i++) vf_assert(near(out[1 + i], reference(3, k, x, i)), "value of the segment for every division");
    vf_assert(out[0] == UNSET && out[L + 1] == UNSET, "nothing is written outside of the range");
  }
  vf_witness("end");
}
void h_divisions(void) {
  int x1 = vf_int(0, L);
  int a = vf_int(0, L);
  int b = vf_int(0, L);
  for (int j = X0; j <= L; j++)
    for (int m = 0; m <= L; m++)
      for (int n = m; n <= L; n++)
        if (x1 == j && a == m && b == n) {
          divided(X0, j, LAST, m, n);
          return;
        }
}

/* ---- curves ---- */
/*@ {"property":"C13","entry":"h_bezier","unwind":12,"quick":["-DCX=1 -DY2=3","-DCX=3 -DY2=-3"],"thorough":["-DCX=0 -DY2=3","-DCX=2 -DY2=-3","-DCX=4 -DY2=2","-DCX=1 -DY2=-2 -DL=6 unwind=16"],
 "about":"quadratic curve over L samples with control point at CX, start value 1, end value 1 + Y2, symbolic value of the control point between start and end, read in two pieces divided at every position"} @*/
#ifndef Y2
#define Y2 3
#endif
#ifndef CX
#define CX 1
#endif
static void bezier(int at) {
  spline_path_t path;
  spline_path_segment_t segments[2];
  sp_sample_t out[L + 2];
  double y[3];
  y[0] = 1;
  y[1] = vf_small(Y2 < 0 ? 1 + Y2 : 1, Y2 < 0 ? 1 : 1 + Y2);
  y[2] = 1 + Y2;
  segments[0] = spline_path_move(0, y[0]);
  segments[1] = spline_path_bezier1(CX, y[1], L, y[2]);
  for (int i = 0; i < L + 2; i++) out[i] = UNSET;
  vf_assert(!spline_path_set(&path, segments, 2), "succeeds");
  spline_path_get(&path, 0, at, out + 1);
  spline_path_get(&path, at, L, out + 1 + at);
  vf_assert(out[1] == y[0], "value at the start point");
  for (int i = 0; i < L; i++) {
    vf_assert(within(out[1 + i], y[0], y[2]), "curve stays between its end points");
    if (i) vf_assert(within(out[1 + i], out[i], y[2]), "curve is monotonic");
  }
  vf_assert(out[0] == UNSET && out[L + 1] == UNSET, "nothing is written outside of the range");
  vf_witness("end");
}
void h_bezier(void) {
  int at = vf_int(0, L);
  for (int i = 0; i <= L; i++)
    if (i == at) {
      bezier(i);
      return;
    }
}
/*@ {"property":"C13","entry":"h_arc","unwind":36,"quick":["-DUP=0 -DX=1","-DUP=1 -DX=2","-DUP=1 -DX=3"],"thorough":["-DUP=1 -DX=1","-DUP=0 -DX=2","-DUP=0 -DX=3 -DL=7","-DUP=1 -DX=1 -DL=6"],
 "about":"line and arc segment, curvature -1, -0.5, 0.5 or 1, arc over the last L - X samples, (UP) rising or falling, read in pieces divided at every position, compared with the whole"} @*/
#ifndef UP
#define UP 0
#endif
static void arc(int x, int cn, int at) {
  static const double curvatures[4] = {-1, -0.5, 0.5, 1};
  double px[1] = {x};
  double y[3] = {2, UP ? -1 : 3, UP ? 4 : 1};
  double c[2] = {0, curvatures[cn]};
  sp_sample_t* whole = 0;
  sp_sample_t out[L + 2];
  spline_path_t path;
  spline_path_segment_t segments[3];
  status_t s = sp_path_samples(&whole, L, 3, px, y, c);
  vf_assert(!s.id && whole, "succeeds");
  segments[0] = spline_path_move(0, y[0]);
  segments[1] = spline_path_line(x, y[1]);
  segments[2] = spline_path_bezier_arc(L, y[2], c[1]);
  spline_path_set(&path, segments, 3);
  for (int i = 0; i < L + 2; i++) out[i] = UNSET;
  spline_path_get(&path, 0, at, out + 1);
  spline_path_get(&path, at, L, out + 1 + at);
  for (int i = 0; i < L; i++) {
    vf_assert(near(out[1 + i], whole[i]), "the same values for every division");
    if (i < x) vf_assert(near(whole[i], y[0] + i * (y[1] - y[0]) / x), "linear interpolation before the arc");
    else {
      double line = y[1] + (i - x) * (y[2] - y[1]) / (L - x);
      vf_assert(within(whole[i], y[1], y[2]), "arc stays between its end points");
      /* the sign of the curvature is the side of the line */
      if (i > x && cn < 2) vf_assert(UP ? whole[i] >= line - 1e-9 : whole[i] <= line + 1e-9, "side of the curve");
      if (i > x && cn >= 2) vf_assert(UP ? whole[i] <= line + 1e-9 : whole[i] >= line - 1e-9, "side of the curve");
    }
  }
  vf_assert(whole[x] == y[1], "value at the start point of the arc");
  vf_assert(out[0] == UNSET && out[L + 1] == UNSET, "nothing is written outside of the range");
  vf_witness("end");
}
void h_arc(void) {
  int cn = vf_int(0, 3);
  int at = vf_int(0, L);
  for (int j = 0; j < 4; j++)
    for (int k = 0; k <= L; k++)
      if (cn == j && at == k) {
        arc(X, j, k);
        return;
      }
}

/* ---- every variant of paths and envelopes ---- */
/*@ {"property":"C13","entry":"h_variants","unwind":36,"quick":["-DL=8 -DKIND=0","-DL=8 -DKIND=1","-DL=8 -DKIND=2","-DL=8 -DKIND=3"],
 "about":"all variants of (KIND) sample paths, time paths, envelopes from zero to zero and scaled envelopes with two to five points, compared with the general path of the expected points, positions and curvatures, and for straight paths with linear interpolation"} @*/
#ifndef KIND
#define KIND 0
#endif
#if KIND == 1 || KIND == 3
#define value_t sp_time_t
#define sp_path_general sp_path_times
#else
#define value_t sp_sample_t
#define sp_path_general sp_path_samples
#endif
static const double vx[3][3] = {{2, 0, 0}, {2, 5, 0}, {1, 3, 6}};
static const double vxr[3][3] = {{0.25, 0, 0}, {0.25, 0.375, 0}, {0.125, 0.25, 0.375}};
static const double vc[4] = {0.5, -0.25, 0, 0.75};
static void variant(int n, int curved, int general) {
  value_t* a = 0;
  value_t* b = 0;
  double y[5] = {2, 6, 1, 5, 9};
  double x[3] = {0, 0, 0};
  double xr[3] = {0, 0, 0};
  double c[4];
  status_t s;
  s.id = 0;
  for (int i = 0; i < 3; i++) {
    if (n > 2) {
      x[i] = vx[n - 3][i];
      xr[i] = vxr[n - 3][i];
    }
  }
  for (int i = 0; i < 4; i++) c[i] = curved ? vc[i] : 0;
#if KIND == 0 || KIND == 1
#if KIND == 0
#define V(n) sp_path_samples##n
#define VC(n) sp_path_samples_c##n
#else
#define V(n) sp_path_times##n
#define VC(n) sp_path_times_c##n
#endif
  if (curved) {
    if (n == 2) s = VC(2)(&a, L, y[0], y[1], c[0]);
    if (n == 3) s = VC(3)(&a, L, x[0], y[0], y[1], y[2], c[0], c[1]);
    if (n == 4) s = VC(4)(&a, L, x[0], x[1], y[0], y[1], y[2], y[3], c[0], c[1], c[2]);
    if (n == 5) s = VC(5)(&a, L, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4], c[0], c[1], c[2], c[3]);
  } else {
    if (n == 2) s = V(2)(&a, L, y[0], y[1]);
    if (n == 3) s = V(3)(&a, L, x[0], y[0], y[1], y[2]);
    if (n == 4) s = V(4)(&a, L, x[0], x[1], y[0], y[1], y[2], y[3]);
    if (n == 5) s = V(5)(&a, L, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4]);
  }
#elif KIND == 2
  if (general) s = sp_envelope_zero(&a, L, n, xr, y + 1, curved ? &c[0] : 0);
  else if (curved) {
    if (n == 3) s = sp_envelope_zero_c3(&a, L, xr[0], y[1], c[0], c[1]);
    if (n == 4) s = sp_envelope_zero_c4(&a, L, xr[0], xr[1], y[1], y[2], c[0], c[1], c[2]);
    if (n == 5) s = sp_envelope_zero_c5(&a, L, xr[0], xr[1], xr[2], y[1], y[2], y[3], c[0], c[1], c[2], c[3]);
  } else {
    if (n == 3) s = sp_envelope_zero3(&a, L, xr[0], y[1]);
    if (n == 4) s = sp_envelope_zero4(&a, L, xr[0], xr[1], y[1], y[2]);
    if (n == 5) s = sp_envelope_zero5(&a, L, xr[0], xr[1], xr[2], y[1], y[2], y[3]);
  }
  y[0] = 0;
  y[n - 1] = 0;
#else
  if (general) s = sp_envelope_scaled(&a, L, n, 3, xr, y, curved ? &c[0] : 0);
  else {
    if (n == 3) s = sp_envelope_scaled3(&a, L, 3, xr[0], y[0], y[1], y[2]);
    if (n == 4) s = sp_envelope_scaled4(&a, L, 3, xr[0], xr[1], y[0], y[1], y[2], y[3]);
    if (n == 5) s = sp_envelope_scaled5(&a, L, 3, xr[0], xr[1], xr[2], y[0], y[1], y[2], y[3], y[4]);
  }
  for (int i = 0; i < 5; i++) y[i] *= 3;
#endif
  vf_assert(!s.id && a, "succeeds");
  if (curved) {
    s = sp_path_general(&b, L, n, x, y, c);
    vf_assert(!s.id && b, "succeeds");
    for (int i = 0; i < L; i++) vf_assert(near(a[i], b[i]), "every variant gives the general path through the same points");
  } else {
    double x0 = 0;
    for (int k = 1; k < n; k++) {
      double x1 = k == n - 1 ? L : x[k - 1];
      for (int i = x0; i < x1; i++) {
        double e = y[k - 1] + (i - x0) / (x1 - x0) * (y[k] - y[k - 1]);
#if KIND == 1 || KIND == 3
        vf_assert(a[i] <= e + 0.5001 && a[i] >= e - 0.5001, "every variant interpolates between its points");
#else
        vf_assert(near(a[i], e), "every variant interpolates between its points");
#endif
      }
      x0 = x1;
    }
  }
  vf_assert(vf_live == 1 + (b != 0), "only the result is kept");
  vf_witness("end");
}
void h_variants(void) {
  int n = vf_int(2, 5);
  int curved = vf_bool();
  int general = vf_bool();
  for (int i = (KIND < 2 ? 2 : 3); i < 6; i++)
    for (int j = 0; j < 2; j++)
      for (int k = 0; k < (KIND < 2 ? 1 : 2); k++) {
        /* scaled envelopes with curvature have no variants */
        if (KIND == 3 && j && !k) continue;
        if (n == i && curved == j && general == k) {
          variant(i, j, k);
          return;
        }
      }
}
/*@ {"property":["C13","C22"],"entry":"h_path_memory","unwind":36,"quick":["-DKIND=0","-DKIND=1","-DKIND=2","-DKIND=3"],
 "about":"paths and envelopes with three points and length 4 where any one allocation fails"} @*/
static void path_memory(int at) {
  value_t* a = 0;
  double x[1] = {KIND < 2 ? 2 : 0.5};
  double y[3] = {1, 2, 3};
  status_t s;
  vf_fail_at = at;
#if KIND < 2
  s = sp_path_general(&a, L, 3, x, y, 0);
#elif KIND == 2
  s = sp_envelope_zero(&a, L, 3, x, y, 0);
#else
  s = sp_envelope_scaled(&a, L, 3, 2, x, y, 0);
#endif
  vf_assert((s.id != 0) == vf_failed, "allocation failure is returned");
  if (vf_failed) {
    vf_assert(!vf_live, "nothing is left allocated");
    vf_witness("failed");
  }
}
void h_path_memory(void) {
  int at = vf_int(0, 3);
  for (int i = 0; i < 4; i++)
    if (i == at) {
      path_memory(i);
      return;
    }
}

/* ---- nested and combined paths ---- */
/*@ {"property":"C13","entry":"h_nested","unwind":20,"quick":["-DAT=0","-DAT=3","-DAT=6"],
 "about":"a path inside of a path after a line (ends at every position), copied segments, a direct read, the memory of the nested path can not be allocated in one case, read in pieces divided at AT"} @*/
#ifndef AT
#define AT 0
#endif
#define NL 6
static void nested(int x, int fail, int direct) {
  spline_path_t inner;
  spline_path_t path;
  spline_path_segment_t is[2];
  spline_path_segment_t segments[2];
  sp_sample_t out[NL + 2];
  is[0] = spline_path_line(2, 8);
  is[1] = spline_path_line(4, -3);
  spline_path_set(&inner, is, 2);
  segments[0] = spline_path_line(x, 5);
  if (fail) vf_fail_at = vf_alloc_count;
  segments[1] = spline_path_path(inner);
  vf_fail_at = -1;
  for (int i = 0; i < NL + 2; i++) out[i] = UNSET;
  int end = x + 4 < NL ? x + 4 : NL;
  if (direct) {
    vf_assert(!spline_path_segments_get(segments, 2, 0, end, out + 1), "succeeds");
  } else {
    vf_assert(!spline_path_set_copy(&path, segments, 2), "succeeds");
    int at = AT < end ? AT : end;
    spline_path_get(&path, 0, at, out + 1);
    spline_path_get(&path, at, end, out + 1 + at);
    spline_path_free(path);
    vf_free(path.segments);
  }
  for (int i = 0; i < end; i++) {
    double e;
    if (i < x) e = i * 5.0 / x;
    else if (fail) e = 5;
    else if (i - x < 2) e = (i - x) * 4;
    else e = 8 - (i - x - 2) * 5.5;
    vf_assert(near(out[1 + i], e), "nested path follows its own points");
  }
  vf_assert(out[0] == UNSET && out[1 + end] == UNSET, "nothing is written outside of the range");
  vf_assert(vf_live == 0, "memory of the nested path is released");
  vf_witness("end");
}
void h_nested(void) {
  int x = vf_int(1, 4);
  int fail = vf_bool();
  int direct = vf_bool();
  for (int i = 1; i < 5; i++)
    for (int j = 0; j < 2; j++)
      for (int k = 0; k < 2; k++)
        if (x == i && fail == j && direct == k) {
          nested(i, j, k);
          return;
        }
}
