/* element-wise operations on arrays */
#include "vf.h"
#include "vf_repo.h"
#ifndef N
#define N 3
#endif
#ifndef SAMPLES
#define SAMPLES 0
#endif
#ifndef BYTE
#define BYTE 0
#endif
#ifndef FULL
#define FULL 0
#endif
#if SAMPLES
#define value_t sp_sample_t
#define F(name) sp_samples_##name
#define F2(name) sp_samples_##name##_samples
#define MINUS(a, b) ((a) - (b))
#else
#define value_t sp_time_t
#define F(name) sp_times_##name
#define F2(name) sp_times_##name##_times
#define MINUS(a, b) ((a) > (b) ? (a) - (b) : 0)
#endif
/* any time. for samples any small number by default, since the encoding of numbers of full range is large */
static value_t any(void) {
#if SAMPLES && FULL
  double a = vf_f64();
  vf_assume(a - a == 0);
  return (a);
#elif SAMPLES
  return (vf_small(-2, 2) + 0.25);
#elif BYTE
  return (vf_u8());
#else
  return (vf_u32());
#endif
}
/* numbers for which products and quotients are exact and cheap */
static value_t any_small(void) {
#if SAMPLES
  return (vf_small(-3, 3));
#else
  return (vf_u8() & 15);
#endif
}
static value_t a[N + 2], b[N + 2], c[N + 2], v;
/* in and out of the operations, with one element before and after */
static value_t x[N + 2], y[N + 2];
/* BIG: only the largest count, with constant values */
#ifndef BIG
#define BIG 0
#endif
#define FIRST(n) (BIG ? N - 1 : (n))
static void data(int small) {
#if BIG
  for (int i = 0; i < N + 2; i++) {
    a[i] = x[i] = (i * 7) % 11 + 1;
    b[i] = y[i] = (i * 5) % 13 + 1;
  }
  v = 6;
  return;
#endif
  for (int i = 0; i < N + 2; i++) {
    a[i] = x[i] = small ? any_small() : any();
    b[i] = y[i] = small ? any_small() : any();
  }
  v = small ? any_small() : any();
}
/* values for which sums are exact */
static void small(void) {
#if SAMPLES && FULL
  for (int i = 0; i < N + 2; i++) a[i] = x[i] = any_small();
#endif
}
/* the first count elements of x are e, everything else is unchanged */
#define CHECK(e, msg)                                                                  \
  do {                                                                                 \
    for (int i = 1; i < N + 2; i++)                                                    \
      if (i <= count) vf_assert(x[i] == (value_t)(e), msg);                            \
      else vf_assert(x[i] == a[i], "elements after the range are unchanged");          \
    vf_assert(x[0] == a[0], "elements before the range are unchanged");                \
    for (int i = 0; i < N + 2; i++) vf_assert(y[i] == b[i], "second array is unchanged"); \
  } while (0)

/*@ {"property":"C14","entry":"h_elements","unwind":10,"quick":["-DSAMPLES=0","-DSAMPLES=1","-DSAMPLES=0 -DN=35 -DBIG=1 unwind=40","-DSAMPLES=1 -DN=35 -DBIG=1 unwind=40"],"thorough":["-DSAMPLES=0 -DN=6","-DSAMPLES=1 -DN=5","-DSAMPLES=1 -DFULL=1 -DN=2"],
 "about":"set, add and subtract of a value or an array, swap: every count up to N of every time or of samples -1.75..2.25 in steps of one (FULL: every finite number). BIG: counts N - 1 and N with constant values"} @*/
static void run_elements(int op, int count) {
  switch (op) {
    case 0:
      F(set)(x + 1, count, v);
      CHECK(v, "set");
      break;
    case 1:
      F(add)(x + 1, count, v);
      CHECK(a[i] + v, "add value");
      break;
    case 2:
      F(subtract)(x + 1, count, v);
      CHECK(MINUS(a[i], v), "subtract value");
      break;
    case 3:
      F2(add)(x + 1, count, y + 1);
      CHECK(a[i] + b[i], "add array");
      break;
    case 4:
      F2(subtract)(x + 1, count, y + 1);
      CHECK(MINUS(a[i], b[i]), "subtract array");
      break;
    case 5:
      /* the count is the first index, the second is the last */
      if (!count) return;
      F(swap)(x + 1, count - 1, N - 1);
      vf_assert(x[count] == a[N] && x[N] == a[count], "swap");
      for (int i = 0; i < N + 2; i++)
        if (i != count && i != N) vf_assert(x[i] == a[i], "elements that are not swapped are unchanged");
      break;
    case 6:
      /* with itself */
      F2(add)(x + 1, count, x + 1);
      CHECK(a[i] + a[i], "add the array to itself");
      break;
    case 7:
      F2(subtract)(x + 1, count, x + 1);
      CHECK(0, "subtract the array from itself");
      break;
  }
  vf_witness("end");
}
void h_elements(void) {
  data(0);
  int op = vf_int(0, 7);
  int count = vf_int(0, N);
  for (int i = 0; i < 8; i++)
    for (int j = FIRST(0); j <= N; j++)
      if (op == i && count == j) {
        run_elements(i, j);
        return;
      }
}
/*@ {"property":"C14","entry":"h_products","unwind":10,"quick":["-DSAMPLES=0","-DSAMPLES=1 -DN=2","-DSAMPLES=0 -DN=35 -DBIG=1 unwind=40","-DSAMPLES=1 -DN=35 -DBIG=1 unwind=40"],"thorough":["-DSAMPLES=0 -DN=5","-DSAMPLES=1 -DN=3"],
 "about":"multiplication and division with a value or an array, square: every count up to N of small numbers (times 0..15, samples -3..3). BIG: counts N - 1 and N with constant values"} @*/
static void products(int op, int count) {
  switch (op) {
    case 0:
      F(multiply)(x + 1, count, v);
      CHECK(a[i] * v, "multiply with value");
      break;
    case 1:
      vf_assume(v != 0);
      F(divide)(x + 1, count, v);
#if SAMPLES
      for (int i = 1; i <= count; i++) vf_assert(x[i] * v - a[i] < 1e-9 && a[i] - x[i] * v < 1e-9, "divide by value");
      count = 0;
      for (int i = 1; i < N + 2; i++) x[i] = a[i];
      CHECK(0, "");
#else
      CHECK(a[i] / v, "divide by value");
#endif
      break;
    case 2:
      F(square)(x + 1, count);
      CHECK(a[i] * a[i], "square");
      break;
    case 3:
      F2(multiply)(x + 1, count, y + 1);
      CHECK(a[i] * b[i], "multiply with array");
      break;
    case 4:
      for (int i = 1; i < N + 2; i++) vf_assume(b[i] != 0);
      F2(divide)(x + 1, count, y + 1);
#if SAMPLES
      for (int i = 1; i <= count; i++) vf_assert(x[i] * b[i] - a[i] < 1e-9 && a[i] - x[i] * b[i] < 1e-9, "divide by array");
#else
      CHECK(a[i] / b[i], "divide by array");
#endif
      break;
  }
  vf_assert(x[0] == a[0] && x[N + 1] == a[N + 1], "elements outside of the range are unchanged");
  vf_witness("end");
}
void h_products(void) {
  data(1);
  int op = vf_int(0, 4);
  int count = vf_int(0, N);
  for (int i = 0; i < 5; i++)
    for (int j = FIRST(0); j <= N; j++)
      if (op == i && count == j) {
        products(i, j);
        return;
      }
}
/*@ {"property":"C14","entry":"h_combinations","unwind":10,"quick":["-DSAMPLES=0 -DBYTE=1","-DSAMPLES=1","-DSAMPLES=0 -DN=35 -DBIG=1 unwind=40","-DSAMPLES=1 -DN=35 -DBIG=1 unwind=40"],"thorough":["-DSAMPLES=0 -DN=2","-DSAMPLES=0 -DBYTE=1 -DN=4","-DSAMPLES=1 -DN=5","-DSAMPLES=1 -DFULL=1 -DN=2"],
 "about":"and, or, xor of arrays relative to a limit, with the result in an own or the first array: every count up to N of every time or of samples -1.75..2.25 in steps of one (FULL: every finite number, BYTE: times below 256). BIG: counts N - 1 and N with constant values"} @*/
static void combinations(int op, int count, int in_place) {
  value_t z[N + 2];
  value_t limit = v;
  value_t* in = in_place ? &x[0] : &z[0];
  for (int i = 0; i < N + 2; i++) z[i] = a[i];
  switch (op) {
    case 0:
      F2(and)(in + 1, y + 1, count, limit, x + 1);
      CHECK(a[i] >= limit && b[i] >= limit ? b[i] : 0, "and: second if both reach the limit, else zero");
      break;
    case 1:
      F2(or)(in + 1, y + 1, count, limit, x + 1);
      CHECK(a[i] < limit && b[i] >= limit ? b[i] : a[i], "or: second if only it reaches the limit, else first");
      break;
    case 2:
      F2(xor)(in + 1, y + 1, count, limit, x + 1);
      CHECK(a[i] >= limit ? (b[i] >= limit ? 0 : a[i]) : (b[i] >= limit ? b[i] : a[i]), "xor: zero if both reach the limit, else the one that does");
      break;
  }
  if (!in_place)
    for (int i = 0; i < N + 2; i++) vf_assert(z[i] == a[i], "first array is unchanged");
  vf_witness("end");
}
void h_combinations(void) {
  data(0);
  int op = vf_int(0, 2);
  int count = vf_int(0, N);
  int in_place = vf_bool();
  for (int i = 0; i < 3; i++)
    for (int j = FIRST(0); j <= N; j++)
      for (int k = 0; k < 2; k++)
        if (op == i && count == j && in_place == k) {
          combinations(i, j, k);
          return;
        }
}
/*@ {"property":"C14","entry":"h_copies","unwind":10,"quick":["-DSAMPLES=0","-DSAMPLES=1","-DSAMPLES=0 -DN=35 -DBIG=1 unwind=40","-DSAMPLES=1 -DN=35 -DBIG=1 unwind=40"],"thorough":["-DSAMPLES=0 -DN=6","-DSAMPLES=1 -DN=5","-DSAMPLES=1 -DFULL=1 -DN=2"],
 "about":"copy, duplicate, reverse, every range, constant, new: every count up to N of every time or of samples -1.75..2.25 in steps of one (FULL: every finite number). BIG: counts N - 1 and N with constant values"} @*/
static void copies(int op, int count, int start) {
  value_t* p = 0;
  status_t s;
  switch (op) {
    case 0:
      F(copy)(y + 1, count, x + 1);
      CHECK(b[i], "copy");
      break;
    case 1:
      F(reverse)(y + 1, count, x + 1);
      CHECK(b[count + 1 - i], "reverse");
      break;
    case 2:
      if (start > count) return;
      F(range)(y + 1, start, count, x + 1);
      count -= start;
      CHECK(b[start + i], "range");
      break;
    case 3:
      s = F(duplicate)(y + 1, count, &p);
      vf_assert(!s.id && p, "succeeds");
      for (int i = 0; i < count; i++) vf_assert(p[i] == b[i + 1], "duplicate");
      vf_assert(vf_live == 1, "only the result is allocated");
      count = 0;
      CHECK(0, "");
      break;
    case 4:
      s = F(new)(count, &p);
      vf_assert(!s.id && p, "succeeds");
      for (int i = 0; i < count; i++) vf_assert(p[i] == 0, "new arrays are zero");
      vf_assert(vf_live == 1, "only the result is allocated");
      break;
#if !SAMPLES
    case 5:
      s = sp_times_constant(count, v, &p);
      vf_assert(!s.id && p, "succeeds");
      for (int i = 0; i < count; i++) vf_assert(p[i] == v, "constant");
      vf_assert(vf_live == 1, "only the result is allocated");
      break;
#endif
  }
  vf_witness("end");
}
void h_copies(void) {
  data(0);
  int op = vf_int(0, SAMPLES ? 4 : 5);
  int count = vf_int(0, N);
  int start = vf_int(0, N);
  for (int i = 0; i < 6; i++)
    for (int j = FIRST(0); j <= N; j++)
      for (int k = 0; k <= (i == 2 ? N : 0); k++)
        if (op == i && count == j && start == k && (i < 3 || j) && (!BIG || k < 2)) {
          copies(i, j, k);
          return;
        }
}
/*@ {"property":"C14","entry":"h_extremes","unwind":10,"quick":["-DSAMPLES=0","-DSAMPLES=1","-DSAMPLES=0 -DN=35 -DBIG=1 unwind=40","-DSAMPLES=1 -DN=35 -DBIG=1 unwind=40"],"thorough":["-DSAMPLES=0 -DN=6","-DSAMPLES=1 -DN=5","-DSAMPLES=1 -DFULL=1 -DN=2"],
 "about":"minimum, maximum, absolute maximum, equality, sum, containment: every count up to N of every time or of samples -1.75..2.25 in steps of one (FULL: every finite number) (sum of samples: small numbers). BIG: counts N - 1 and N with constant values"} @*/
static void extremes(int op, int count) {
  value_t r;
  int found = 0;
  if (op == 4) small();
  switch (op) {
    case 0:
      r = F(min)(x + 1, count);
      for (int i = 1; i <= count; i++) {
        vf_assert(r <= a[i], "minimum is not greater than any");
        found |= r == a[i];
      }
      vf_assert(found, "minimum is one of the values");
      break;
    case 1:
      r = F(max)(x + 1, count);
      for (int i = 1; i <= count; i++) {
        vf_assert(r >= a[i], "maximum is not less than any");
        found |= r == a[i];
      }
      vf_assert(found, "maximum is one of the values");
      break;
    case 2:
      r = F(absolute_max)(x + 1, count);
      for (int i = 1; i <= count; i++) {
        value_t m = SAMPLES && a[i] < 0 ? -a[i] : a[i];
        vf_assert(r >= m, "absolute maximum is not less than any magnitude");
        found |= r == m;
      }
      vf_assert(found, "absolute maximum is one of the magnitudes");
      break;
    case 3:
      r = F(equal)(x + 1, count, v);
      found = 1;
      for (int i = 1; i <= count; i++) found &= a[i] == v;
      vf_assert(!r == !found, "all elements equal the value");
      break;
    case 4: {
      value_t sum = 0;
      for (int i = 1; i <= count; i++) sum += a[i];
      vf_assert(sum == F(sum)(x + 1, count), "sum");
#if !SAMPLES
      vf_assert(sum == sp_time_sum(x + 1, count), "sum");
#endif
      break;
    }
#if !SAMPLES
    case 5:
      for (int i = 1; i <= count; i++) found |= a[i] == v;
      vf_assert(!sp_times_contains(x + 1, count, v) == !found, "one element is the value");
      break;
#endif
  }
  for (int i = 0; i < N + 2; i++) vf_assert(x[i] == a[i], "input is unchanged");
  vf_witness("end");
}
void h_extremes(void) {
  data(0);
  int op = vf_int(0, SAMPLES ? 4 : 5);
  int count = vf_int(0, N);
  for (int i = 0; i < 6; i++)
    for (int j = FIRST(i < 3); j <= N; j++)
      if (op == i && count == j) {
        extremes(i, j);
        return;
      }
}
/*@ {"property":"C14","entry":"h_array_free","unwind":10,"quick":["-DSAMPLES=0","-DSAMPLES=1"],
 "about":"arrays of up to N arrays are freed completely"} @*/
static void array_free(int count) {
  value_t** p = vf_malloc(count * sizeof(value_t*));
  for (int i = 0; i < count; i++) p[i] = vf_malloc(sizeof(value_t));
  F(array_free)(p, count);
  vf_assert(vf_live == 0, "all elements and the container are freed");
  vf_witness("end");
}
void h_array_free(void) {
  int count = vf_int(1, N);
  for (int j = 1; j <= N; j++)
    if (count == j) {
      array_free(j);
      return;
    }
}
