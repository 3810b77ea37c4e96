/* fourier transform */
#define VF_PICK
#include "vf.h"
VF_PICK_FUNCTION(VF_CASES(0, 32, double))
VF_RESIZE_FUNCTION(32, double)
/* sine and cosine by their series, exact at multiples of a quarter period, computed while executing for constants */
#define VF_PI 3.14159265358979323846
static double vf_sin(double a) {
  double sign = 1;
  double sum, term;
  int quarter;
  if (a < 0) {
    a = -a;
    sign = -1;
  }
  a -= 2 * VF_PI * (int)(a / (2 * VF_PI));
  if (a >= VF_PI) {
    a -= VF_PI;
    sign = -sign;
  }
  if (a > VF_PI / 2) a = VF_PI - a;
  if (a < 1e-12) return (0);
  if (a > VF_PI / 2 - 1e-12) return (sign);
  sum = term = a;
  for (int i = 2; i < 20; i += 2) {
    term *= -a * a / (i * (i + 1));
    sum += term;
  }
  return (sign * sum);
}
static double vf_cos(double a) { return (vf_sin(a + VF_PI / 2)); }
#define sin vf_sin
#define cos vf_cos
#include "vf_repo.h"
static int near(double p, double q) { return (p - q < 1e-9 && q - p < 1e-9); }
#ifndef N
#define N 4
#endif
static double wr[N], wi[N];
static void roots(void) {
  for (int i = 0; i < N; i++) {
    wr[i] = vf_cos(2 * VF_PI * i / N);
    wi[i] = -vf_sin(2 * VF_PI * i / N);
  }
}
/*@ {"property":"C26","entry":"h_exact","unwind":40,"stubs":"sine and cosine are computed by their series","quick":["-DN=1","-DN=2","-DN=4 -DLOW=0 -DHIGH=1"],"thorough":["-DN=4","-DN=4 -DHIGH=7"],
 "about":"transform and inverse transform of N complex numbers whose parts are any integers from LOW to HIGH, N one, two or four"} @*/
#ifndef HIGH
#define HIGH 2
#endif
#ifndef LOW
#define LOW -2
#endif
void h_exact(void) {
  double a[N], b[N], x[N + 1], y[N + 1];
  for (int i = 0; i < N; i++) {
    a[i] = x[i] = vf_small(LOW, HIGH);
    b[i] = y[i] = vf_small(LOW, HIGH);
  }
  x[N] = y[N] = 99;
  vf_assert(!sp_fft(N, x, y), "succeeds");
  for (int k = 0; k < N; k++) {
    double re = 0;
    double im = 0;
    for (int j = 0; j < N; j++) {
      /* powers of the root of unity: 1, -i, -1, i */
      int q = j * k * (4 / N) % 4;
      re += q == 0 ? a[j] : q == 1 ? b[j] : q == 2 ? -a[j] : -b[j];
      im += q == 0 ? b[j] : q == 1 ? -a[j] : q == 2 ? -b[j] : a[j];
    }
    vf_assert(x[k] == re && y[k] == im, "discrete fourier transform");
  }
  vf_assert(!sp_ffti(N, x, y), "inverse succeeds");
  for (int j = 0; j < N; j++) vf_assert(x[j] == N * a[j] && y[j] == N * b[j], "the inverse gives the input times the length");
  vf_assert(x[N] == 99 && y[N] == 99, "nothing is written behind the arrays");
  vf_assert(!vf_live, "temporary memory is released");
  vf_witness("end");
}
/* the sum of an impulse and one other at the begin */
static void impulse(int at, int imaginary, int other, int inverse) {
  double x[N + 1], y[N + 1], a[N], b[N];
  for (int i = 0; i < N + 1; i++) x[i] = y[i] = 0;
  x[N] = y[N] = 99;
  if (imaginary) y[at] = 1;
  else x[at] = 1;
  if (other) x[0] += 2;
  for (int i = 0; i < N; i++) {
    a[i] = x[i];
    b[i] = y[i];
  }
  vf_assert(!(inverse ? sp_ffti(N, x, y) : sp_fft(N, x, y)), "succeeds");
  for (int k = 0; k < N; k++) {
    double c = wr[at * k % N];
    double s = inverse ? -wi[at * k % N] : wi[at * k % N];
    double re = (other ? 2 : 0) + (imaginary ? -s : c);
    double im = imaginary ? c : s;
    vf_assert(near(x[k], re) && near(y[k], im), "discrete fourier transform of an impulse");
  }
  vf_assert(x[N] == 99 && y[N] == 99, "nothing is written behind the arrays");
  if (!inverse) {
    vf_assert(!sp_ffti(N, x, y), "inverse succeeds");
    for (int j = 0; j < N; j++) vf_assert(near(x[j], N * a[j]) && near(y[j], N * b[j]), "the inverse gives the input times the length");
  }
  vf_assert(!vf_live, "temporary memory is released");
  vf_witness("end");
}
/*@ {"property":"C26","entry":"h_impulse","unwind":40,"stubs":"sine and cosine are computed by their series","quick":["-DN=8"],"thorough":["-DN=16","-DN=32 unwind=80"],
 "about":"transform and inverse transform of every real or imaginary impulse with and without another one, of length N"} @*/
/*@ {"property":"C30","entry":"h_impulse","unwind":40,"stubs":"sine and cosine are computed by their series","quick":["-DN=3 -DKIND=0","-DN=3 -DKIND=7","-DN=5 -DKIND=2","-DN=5 -DKIND=5","-DN=6 -DKIND=3"],"thorough":["-DN=3 -DKIND=2","-DN=3 -DKIND=5","-DN=6 -DKIND=4","-DN=7 -DKIND=0","-DN=7 -DKIND=7","-DN=9 -DKIND=2 unwind=80","-DN=10 -DKIND=5 unwind=80","-DN=12 -DKIND=3 unwind=80","-DN=12 -DKIND=4 unwind=80"],
 "about":"transform and inverse transform of every impulse of length N. KIND: 1 imaginary, 2 with another one at the begin, 4 inverse only"} @*/
void h_impulse(void) {
  int at = vf_int(0, N - 1);
  int imaginary = vf_bool();
  int other = vf_bool();
  int inverse = vf_bool();
  roots();
  for (int i = 0; i < N; i++)
    for (int j = 0; j < 2; j++)
      for (int k = 0; k < 2; k++)
        for (int l = 0; l < 2; l++)
          if (at == i && imaginary == j && other == k && inverse == l) {
#ifdef KIND
            if (j != (KIND & 1) || k != (KIND >> 1 & 1) || l != (KIND >> 2 & 1)) return;
#endif
            impulse(i, j, k, l);
            return;
          }
}
/*@ {"property":"C30","entry":"h_binary","unwind":70,"stubs":"sine and cosine are computed by their series","quick":["-DN=3 -DFROM=1 -DTO=16"],"thorough":["-DN=3 -DFROM=16 -DTO=32","-DN=3 -DFROM=32 -DTO=48","-DN=3 -DFROM=48 -DTO=64"],
 "about":"transform of N complex numbers whose parts are any of zero and one, the combinations from FROM to TO"} @*/
#ifndef FROM
#define FROM 0
#define TO 1
#endif
static void binary(int c) {
  double x[N], y[N], a[N], b[N];
  for (int i = 0; i < N; i++) {
    a[i] = x[i] = (c >> i) & 1;
    b[i] = y[i] = (c >> (N + i)) & 1;
  }
  vf_assert(!sp_fft(N, x, y), "succeeds");
  for (int k = 0; k < N; k++) {
    double re = 0;
    double im = 0;
    for (int j = 0; j < N; j++) {
      re += a[j] * wr[j * k % N] - b[j] * wi[j * k % N];
      im += a[j] * wi[j * k % N] + b[j] * wr[j * k % N];
    }
    vf_assert(near(x[k], re) && near(y[k], im), "discrete fourier transform");
  }
  vf_assert(!vf_live, "temporary memory is released");
  vf_witness("end");
}
void h_binary(void) {
  int c = vf_int(FROM, TO - 1);
  roots();
  for (int i = FROM; i < TO; i++)
    if (c == i) {
      binary(i);
      return;
    }
}
/*@ {"property":["C26","C22"],"entry":"h_memory","unwind":40,"stubs":"sine and cosine are computed by their series","quick":["-DN=4"],"thorough":[],
 "about":"each allocation fails in the transform of length N, and the transform of length zero"} @*/
/*@ {"property":["C30","C22"],"entry":"h_memory","unwind":40,"stubs":"sine and cosine are computed by their series","quick":["-DN=3"],"thorough":[],
 "about":"each allocation fails in the transform of length N, and the transform of length zero"} @*/
#define ALLOCATIONS 20
static void memory(int at, int inverse) {
  double x[N], y[N];
  int r;
  for (int i = 0; i < N; i++) x[i] = y[i] = i;
  vf_fail_at = at;
  r = inverse ? sp_ffti(N, x, y) : sp_fft(N, x, y);
  vf_assert(!r == !vf_failed, "failing allocation is returned");
  vf_assert(!vf_live, "temporary memory is released");
  vf_assert(at < ALLOCATIONS - 1 || !vf_failed, "all allocations are covered");
  vf_fail_at = -1;
  vf_assert(!sp_fft(0, x, y) && !sp_ffti(0, x, y), "empty input");
  vf_witness("end");
}
void h_memory(void) {
  int at = vf_int(0, ALLOCATIONS - 1);
  int inverse = vf_bool();
  for (int i = 0; i < ALLOCATIONS; i++)
    for (int j = 0; j < 2; j++)
      if (at == i && inverse == j) {
        memory(i, j);
        return;
      }
}
