/* permutations, compositions and number sequences */
#include "vf.h"
#include "vf_repo.h"
#ifndef N
#define N 3
#endif
#ifndef FAIL
#define FAIL 0
#endif
static const int factorials[7] = {1, 1, 2, 6, 24, 120, 720};
/*@ {"property":"C17","entry":"h_permutations","unwind":30,"quick":["-DN=1","-DN=2","-DN=3","-DN=4","-DN=5 -DCONSTANT=1 unwind=340"],
 "about":"sets of N distinct elements of any value (CONSTANT: of given values)"} @*/
void h_permutations(void) {
  sp_time_t set[N], copy[N];
  sp_time_t** out = 0;
  sp_time_t size = 0;
  int ranks[factorials[N]];
  for (int i = 0; i < N; i++) {
#ifdef CONSTANT
    set[i] = copy[i] = (1 + i) * 429496729u;
#else
    set[i] = copy[i] = vf_u32();
#endif
    for (int j = 0; j < i; j++) vf_assume(set[i] != set[j]);
  }
  status_t s = sp_times_permutations(N, set, N, &out, &size);
  vf_assert(!s.id && out, "succeeds");
  vf_assert(size == factorials[N] && size == sp_permutations_max(N, N), "number of permutations");
  for (int i = 0; i < factorials[N]; i++) {
    /* the order as a number with the digits of the positions in the set */
    int rank = 0;
    int seen = 0;
    for (int j = 0; j < N; j++) {
      int d = N;
      for (int k = 0; k < N; k++)
        if (out[i][j] == copy[k]) d = k;
      vf_assert(d < N && !(seen & (1 << d)), "each element of the set once");
      seen |= 1 << d;
      rank = rank * N + d;
    }
    ranks[i] = rank;
    for (int j = 0; j < i; j++) vf_assert(ranks[j] != rank, "no order is repeated");
  }
  for (int i = 0; i < N; i++) vf_assert(set[i] == copy[i], "set is unchanged");
  vf_assert(vf_live == 1 + factorials[N], "only the result is kept");
  sp_times_array_free(out, size);
  vf_assert(vf_live == 0, "the result is owned by the caller");
  vf_witness("end");
}
/*@ {"property":["C17","C22"],"entry":"h_permutations_memory","unwind":30,"quick":["-DN=3"],
 "about":"permutations of N elements and compositions of N where any one allocation fails"} @*/
static void permutations_memory(int compositions, int at) {
  sp_time_t set[N];
  sp_time_t** out = 0;
  sp_time_t* sizes = 0;
  sp_time_t size = 0;
  for (int i = 0; i < N; i++) set[i] = i;
  vf_fail_at = at;
  status_t s = compositions ? sp_times_compositions(N, &out, &size, &sizes) : sp_times_permutations(N, set, N, &out, &size);
  vf_assert((s.id != 0) == vf_failed, "allocation failure is returned");
  if (vf_failed) {
    vf_assert(!vf_live, "everything is released on failure");
    vf_witness("failed");
  }
}
void h_permutations_memory(void) {
  int c = vf_bool();
  int at = vf_int(0, factorials[N] + 4);
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < factorials[N] + 5; j++)
      if (c == i && at == j) {
        permutations_memory(i, j);
        return;
      }
}
/*@ {"property":"C17","entry":"h_compositions","unwind":34,"quick":["-DN=4","-DN=5"],"thorough":["-DN=6 unwind=70"],
 "about":"compositions of every sum from one to N"} @*/
static void compositions(int sum) {
  sp_time_t** out = 0;
  sp_time_t* sizes = 0;
  sp_time_t size = 0;
  int count = 1 << (sum - 1);
  int codes[1 << (N - 1)];
  status_t s = sp_times_compositions(sum, &out, &size, &sizes);
  vf_assert(!s.id && out && sizes, "succeeds");
  vf_assert(size == count && size == sp_compositions_max(sum), "number of compositions");
  for (int i = 0; i < count; i++) {
    /* the composition as the set of its partial sums */
    int total = 0;
    int code = 0;
    vf_assert(sizes[i] >= 1 && sizes[i] <= sum, "size of the composition");
    for (int j = 0; j < N; j++)
      if (j < sizes[i]) {
        vf_assert(out[i][j] >= 1, "positive numbers");
        total += out[i][j];
        vf_assert(total <= sum, "sum is not exceeded");
        code |= 1 << total;
      }
    vf_assert(total == sum, "sum of the composition");
    codes[i] = code;
    for (int j = 0; j < i; j++) vf_assert(codes[j] != code, "no composition is repeated");
  }
  vf_assert(vf_live == 2 + count, "only the result is kept");
  sp_times_array_free(out, size);
  vf_free(sizes);
  vf_assert(vf_live == 0, "the result is owned by the caller");
  vf_witness("end");
}
void h_compositions(void) {
  int sum = vf_int(1, N);
  for (int i = 1; i <= N; i++)
    if (sum == i) {
      compositions(i);
      return;
    }
}
/*@ {"property":["C17","C15"],"entry":"h_increment","unwind":12,"quick":["-DN=3","-DN=1"],"thorough":["-DN=6"],
 "about":"increment of any number of N digits in bases 1 to 255"} @*/
void h_increment(void) {
  sp_time_t x[N + 2], a[N + 2];
  sp_time_t base = vf_u8();
  int carry = 1;
  vf_assume(base > 0);
  for (int i = 0; i < N + 2; i++) {
    x[i] = a[i] = vf_u8();
    if (i > 0 && i <= N) vf_assume(a[i] < base);
  }
  sp_times_sequence_increment(x + 1, N, base);
  for (int i = 1; i <= N; i++) {
    sp_time_t e = a[i] + carry;
    carry = e == base;
    vf_assert(x[i] == (carry ? 0 : e), "the number plus one, lowest digit first");
  }
  vf_assert(x[0] == a[0] && x[N + 1] == a[N + 1], "only the digits are written");
  vf_witness("end");
}
/*@ {"property":"C17","entry":"h_sequences","unwind":34,"quick":[""],
 "about":"all numbers of one to three digits in bases one to three, starting with any of them"} @*/
static void sequences(int base, int digits, int start) {
  sp_time_t out[29 * 3];
  int count = 1;
  for (int i = 0; i < digits; i++) count *= base;
  for (int i = 0; i < 29 * 3; i++) out[i] = 99;
  for (int i = 0, k = start; i < digits; i++, k /= base) out[i] = k % base;
  sp_times_sequences(base, digits, count, out);
  for (int i = 0; i < count; i++) {
    int k = (start + i) % count;
    for (int j = 0; j < digits; j++, k /= base) vf_assert(out[i * digits + j] == k % base, "digits of the next number, lowest first");
  }
  for (int i = count * digits; i < 29 * 3; i++) vf_assert(out[i] == 99, "nothing is written behind the last sequence");
  vf_assert(sp_set_sequence_max(base, digits) == count, "announced number of sequences");
  vf_witness("end");
}
void h_sequences(void) {
  int base = vf_int(1, 3);
  int digits = vf_int(1, 3);
  int start = vf_int(0, 2);
  for (int i = 1; i < 4; i++)
    for (int j = 1; j < 4; j++)
      for (int k = 0; k < i; k++)
        if (base == i && digits == j && start == k) {
          sequences(i, j, k);
          return;
        }
}
/*@ {"property":"C17","entry":"h_counts","unwind":36,"quick":[""],
 "about":"powers: every base below 16 with every exponent up to 3, base 2 with every exponent up to 31; factorials and permutations of up to 12 elements; overlapping sequences of up to 12 elements"} @*/
static void counts(int op, int n, uint32_t b) {
  uint64_t r = 1;
  if (op == 0) {
    uint32_t p = 1;
    for (int i = 0; i < n; i++) p *= b;
    vf_assert(sp_time_expt(b, n) == p, "power");
    if (b) vf_assert(sp_set_sequence_max(b, n) == p, "sequences of a set");
    else vf_assert(sp_set_sequence_max(b, n) == 0, "no sequences of the empty set");
  } else if (op == 1) {
    vf_assert(sp_time_expt(2, n) == 1u << n, "power of two");
    vf_assert(sp_compositions_max(n + 1) == 1u << n, "compositions");
  } else if (op == 2) {
    for (int i = 2; i <= n; i++) r *= i;
    vf_assert(sp_time_factorial(n) == r, "factorial");
    for (int k = 0; k <= n; k++) {
      r = 1;
      for (int i = 0; i < k; i++) r *= n - i;
      vf_assert(sp_permutations_max(n, k) == r, "selections without repetition");
    }
  } else {
    r = 0;
    for (int w = 1; w <= n; w++) {
      int c = 0;
      for (int i = 0; i + w <= n; i++) c += 1;
      vf_assert(sp_stat_unique_max(n, w) == c, "sequences of one width");
      vf_assert(sp_stat_repetition_max(n, w) == c - 1, "repetitions of one width");
      r += c;
    }
    vf_assert(sp_stat_unique_all_max(n) == r, "sequences of all widths");
    vf_assert(sp_stat_repetition_all_max(n) == r - n, "repetitions of all widths");
  }
  vf_witness("end");
}
void h_counts(void) {
  int op = vf_int(0, 3);
  int n = vf_int(0, 31);
  uint32_t b = vf_u8() & 15;
  for (int i = 0; i < 4; i++)
    for (int j = i == 3; j < (i == 0 ? 4 : (i == 1 ? 32 : 13)); j++)
      if (op == i && n == j) {
        counts(i, j, b);
        return;
      }
}
