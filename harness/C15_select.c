/* selecting, removing, inserting and rearranging elements of arrays */
#include "vf.h"
/* random numbers are chosen by the solver */
static uint32_t vf_random_bounded(void* state, uint32_t range);
static void vf_random_array(void* state, size_t size, uint32_t* out);
#define sp_time_random_bounded_primitive vf_random_bounded
#define sp_times_random_primitive vf_random_array
#include "vf_repo.h"
#ifndef N
#define N 4
#endif
#define UNSET 0xEEEEEEEE
static uint32_t picks[N + 1];
static int pick_count;
static uint32_t vf_random_bounded(void* state, uint32_t range) {
  vf_assert(range > 0 && pick_count <= N, "range of the random number");
  return (picks[pick_count++] % range);
}
static uint32_t random_bits;
static int random_count;
static void vf_random_array(void* state, size_t size, uint32_t* out) {
  for (size_t i = 0; i < size; i++) out[i] = random_bits;
  random_count += size;
}
static sp_time_t a[N + 2], x[N + 2], out[2 * N + 6];
static void data(void) {
  for (int i = 0; i < N + 2; i++) a[i] = x[i] = vf_u32();
  for (int i = 0; i < 2 * N + 6; i++) out[i] = UNSET;
}
static void unchanged(int from, int to) {
  for (int i = 0; i < 2 * N + 6; i++)
    if (i < from || i >= to) vf_assert(out[i] == UNSET, "nothing is written outside of the result");
  for (int i = 0; i < N + 2; i++) vf_assert(x[i] == a[i], "input is unchanged");
}
/*@ {"property":"C15","entry":"h_remove_insert","unwind":20,"quick":["","-DN=3"],"thorough":["-DN=7 unwind=24"],
 "about":"removal of every range and insertion of every amount up to three at every index, of arrays of one to N elements of any value"} @*/
static void remove_insert(int op, int size, int index, int count) {
  if (!op) {
    sp_times_remove(x + 1, size, index, count, out + 1);
    for (int i = 0; i < size - count; i++) vf_assert(out[1 + i] == a[1 + (i < index ? i : i + count)], "all elements except for the removed in order");
    unchanged(1, 1 + size - count);
  } else {
    sp_times_insert_space(x + 1, size, index, count, out + 1);
    for (int i = 0; i < size; i++) vf_assert(out[1 + (i < index ? i : i + count)] == a[1 + i], "all elements around the inserted space");
    for (int i = 0; i < index; i++) vf_assert(out[1 + i] == a[1 + i], "elements before the space");
    for (int i = 0; i < 2 * N + 6; i++)
      if (i < 1 || i >= 1 + size + count) vf_assert(out[i] == UNSET, "nothing is written outside of the result");
  }
  vf_witness("end");
}
void h_remove_insert(void) {
  int op = vf_bool();
  int size = vf_int(1, N);
  int index = vf_int(0, N);
  int count = vf_int(0, N);
  data();
  for (int o = 0; o < 2; o++)
    for (int i = 1; i <= N; i++)
      for (int j = 0; j < i + o; j++)
        for (int k = (o ? 0 : 1); k <= (o ? 3 : i - j); k++)
          if (op == o && size == i && index == j && count == k) {
            remove_insert(o, i, j, k);
            return;
          }
}
/*@ {"property":"C15","entry":"h_select","unwind":20,"quick":["-DN=3 -DBITS=4","-DN=4 -DBITS=2"],"thorough":["-DN=5 -DBITS=3","-DN=3 -DBITS=32"],
 "about":"selection by any indices, indices above a limit, values in a range, each with up to N elements of BITS bits, in place and to another array"} @*/
static void selection(int op, int size, int in_place, sp_time_t min, sp_time_t max) {
  sp_time_t out_size = UNSET;
  sp_time_t* o = in_place ? &x[1] : &out[1];
  int n = 0;
  if (op == 0) {
    /* the indices are in place of the output */
    sp_time_t indices[N];
    for (int i = 0; i < size; i++) {
      indices[i] = picks[i] % N;
      out[1 + i] = indices[i];
    }
    sp_times_select(x + 1, in_place ? &out[1] : &indices[0], size, out + 1);
    for (int i = 0; i < size; i++)
      for (int j = 0; j < N; j++)
        if (indices[i] == j) vf_assert(out[1 + i] == a[1 + j], "selected element");
    unchanged(1, 1 + size);
  } else if (op == 1) {
    sp_times_gt_indices(x + 1, size, max, o, &out_size);
    for (int i = 0; i < size; i++)
      if (a[1 + i] > max) {
        for (int j = 0; j < N; j++)
          if (j == n) vf_assert(o[j] == i, "index of the next element above the limit");
        n += 1;
      }
    vf_assert(out_size == n, "number of elements above the limit");
  } else {
    sp_times_extract_in_range(x + 1, size, min, max, o, &out_size);
    for (int i = 0; i < size; i++)
      if (a[1 + i] >= min && a[1 + i] <= max) {
        for (int j = 0; j < N; j++)
          if (j == n) vf_assert(o[j] == a[1 + i], "next element in the range");
        n += 1;
      }
    vf_assert(out_size == n, "number of elements in the range");
  }
  vf_assert(in_place || out[0] == UNSET && out[1 + N] == UNSET, "nothing is written outside of the result");
  vf_assert(x[0] == a[0] && x[N + 1] == a[N + 1], "nothing is written outside of the array");
  vf_witness("end");
}
void h_select(void) {
  int op = vf_int(0, 2);
  int size = vf_int(0, N);
  int in_place = vf_bool();
  sp_time_t min = vf_u32();
  sp_time_t max = vf_u32();
  data();
#ifdef BITS
  for (int i = 0; i < N + 2; i++) a[i] = x[i] = a[i] & (uint32_t)((1ull << BITS) - 1);
  min &= (uint32_t)((1ull << BITS) - 1);
  max &= (uint32_t)((1ull << BITS) - 1);
#endif
  for (int i = 0; i < N; i++) picks[i] = vf_u8();
  for (int o = 0; o < 3; o++)
    for (int i = 0; i <= N; i++)
      for (int j = 0; j < 2; j++)
        if (op == o && size == i && in_place == j) {
          selection(o, i, j, min, max);
          return;
        }
}
/*@ {"property":"C15","entry":"h_subdivide","unwind":20,"quick":["-DN=3"],
 "about":"every index of arrays of two to N ascending elements below 64, one to three inserted values"} @*/
static void subdivide(int size, int index, int count) {
  sp_times_subdivide_difference(x + 1, size, index, count, out + 1);
  for (int i = 0; i < size; i++) vf_assert(out[1 + (i <= index ? i : i + count)] == a[1 + i], "elements of the input");
  sp_time_t interval = a[index + 2] - a[index + 1];
  for (int i = 1; i <= count; i++) vf_assert(out[1 + index + i] == a[index + 1] + i * (interval / (count + 1)), "equally spaced values");
  unchanged(1, 1 + size + count);
  vf_witness("end");
}
void h_subdivide(void) {
  int size = vf_int(2, N);
  int index = vf_int(0, N);
  int count = vf_int(1, 3);
  for (int i = 0; i < N + 2; i++) {
    a[i] = x[i] = vf_u8() & 63;
    if (i) vf_assume(a[i - 1] < a[i]);
  }
  for (int i = 0; i < 2 * N + 6; i++) out[i] = UNSET;
  for (int i = 2; i <= N; i++)
    for (int j = 0; j < i - 1; j++)
      for (int k = 1; k < 4; k++)
        if (size == i && index == j && count == k) {
          subdivide(i, j, k);
          return;
        }
}
/*@ {"property":"C15","entry":"h_conversions","unwind":20,"quick":["-DN=3"],"thorough":["-DN=6"],
 "about":"up to N times (below 2^31, any) and samples (0..3 in steps of a quarter)"} @*/
static void conversions(int op, int size, int fail) {
  double s[N + 2];
  double q[N + 2];
  status_t st;
  for (int i = 0; i < N + 2; i++) {
    q[i] = UNSET;
    s[i] = (picks[i > N ? 0 : i] & 15) / 4.0;
  }
  if (op == 0) {
    sp_times_to_samples(x + 1, size, q + 1);
    for (int i = 0; i < N + 2; i++) vf_assert(q[i] == (i > 0 && i <= size ? (double)(a[i]) : UNSET), "times are converted to samples");
    for (int i = 0; i < N + 2; i++) vf_assert(x[i] == a[i], "input is unchanged");
  } else if (op == 1) {
    sp_samples_to_times(s + 1, size, out + 1);
    for (int i = 1; i <= size; i++) vf_assert(out[i] <= s[i] + 0.5 && out[i] >= s[i] - 0.5, "samples are rounded to times");
    unchanged(1, 1 + size);
  } else if (op == 2) {
    for (int i = 0; i < N + 2; i++) q[i] = s[i];
    sp_samples_to_units(q + 1, size);
    for (int i = 0; i < N + 2; i++) vf_assert(q[i] == (i > 0 && i <= size ? (s[i] + 1) / 2 : s[i]), "range -1..1 is mapped to 0..1");
  } else if (op == 3) {
    sp_sample_t* o = 0;
    sp_time_t* in = vf_malloc((size ? size : 1) * sizeof(sp_time_t));
    for (int i = 0; i < size; i++) in[i] = a[1 + i];
    if (fail) vf_fail_at = vf_alloc_count;
    st = sp_times_to_samples_replace(in, size, &o);
    vf_assert((st.id != 0) == fail, "allocation failure is returned");
    vf_assert(vf_live == 1, "the result replaces the input, which is kept on failure");
    if (fail) {
      for (int i = 0; i < size; i++) vf_assert(in[i] == a[1 + i], "input is kept on failure");
    } else for (int i = 0; i < size; i++) vf_assert(o[i] == a[1 + i], "times are converted to samples");
  } else {
    sp_time_t* o = 0;
    sp_sample_t* in = vf_malloc((size ? size : 1) * sizeof(sp_sample_t));
    for (int i = 0; i < size; i++) in[i] = s[i];
    if (fail) vf_fail_at = vf_alloc_count;
    st = sp_samples_to_times_replace(in, size, &o);
    vf_assert((st.id != 0) == fail, "allocation failure is returned");
    vf_assert(vf_live == 1, "the result replaces the input, which is kept on failure");
    if (fail) {
      for (int i = 0; i < size; i++) vf_assert(in[i] == s[i], "input is kept on failure");
    } else for (int i = 0; i < size; i++) vf_assert(o[i] <= s[i] + 0.5 && o[i] >= s[i] - 0.5, "samples are rounded to times");
  }
  vf_witness("end");
}
void h_conversions(void) {
  int op = vf_int(0, 4);
  int size = vf_int(0, N);
  int fail = vf_bool();
  data();
  for (int i = 0; i <= N; i++) picks[i] = vf_u8();
  for (int o = 0; o < 5; o++)
    for (int i = (o > 2); i <= N; i++)
      for (int j = 0; j < (o > 2 ? 2 : 1); j++)
        if (op == o && size == i && fail == j) {
          conversions(o, i, j);
          return;
        }
}
/*@ {"property":"C15","entry":"h_shuffle","unwind":20,"quick":["-DKIND=0 -DN=3","-DKIND=1 -DN=3","-DKIND=2 -DN=3"],"thorough":["-DKIND=0 -DN=4","-DKIND=1 -DN=4","-DKIND=2 -DN=4"],
 "about":"shuffle of (KIND) times, samples or arrays of pointers of up to N distinct elements, for every sequence of random numbers"} @*/
#ifndef KIND
#define KIND 0
#endif
static void shuffle(int size) {
  int seen = 0;
#if KIND == 0
  sp_time_t s[N + 2];
#elif KIND == 1
  sp_sample_t s[N + 2];
#else
  sp_time_t* s[N + 2];
#endif
  for (int i = 0; i < N + 2; i++) {
#if KIND == 2
    s[i] = &out[i];
#else
    s[i] = 10 + i;
#endif
  }
#if KIND == 0
  sp_times_shuffle(s + 1, size);
#elif KIND == 1
  sp_samples_shuffle(s + 1, size);
#else
  sp_shuffle(sp_times_shuffle_swap, s + 1, size);
#endif
  for (int i = 1; i <= size; i++)
    for (int j = 1; j <= size; j++)
#if KIND == 2
      if (s[i] == &out[j]) seen |= 1 << j;
#else
      if (s[i] == 10 + j) seen |= 1 << j;
#endif
  vf_assert(seen == (2 << size) - 2, "rearrangement of the input");
#if KIND == 2
  vf_assert(s[0] == &out[0] && s[N + 1] == &out[N + 1], "elements outside of the range are unchanged");
#else
  vf_assert(s[0] == 10 && s[N + 1] == 10 + N + 1, "elements outside of the range are unchanged");
#endif
  vf_witness("end");
}
void h_shuffle(void) {
  int size = vf_int(0, N);
  for (int i = 0; i <= N; i++) picks[i] = vf_u8() & 15;
  for (int i = 0; i <= N; i++)
    if (size == i) {
      shuffle(i);
      return;
    }
}
/*@ {"property":"C15","entry":"h_select_random","unwind":20,"quick":[""],"thorough":["-DN=7"],
 "about":"random selection from up to N elements of any value, for every random number"} @*/
static void select_random(int size) {
  sp_time_t out_size = UNSET;
  int n = 0;
  sp_times_select_random(x + 1, size, out + 1, &out_size);
  for (int i = 0; i < size; i++)
    if (random_bits & (1 << i)) {
      for (int j = 0; j < N; j++)
        if (j == n) vf_assert(out[1 + j] == a[1 + i], "next selected element");
      n += 1;
    }
  vf_assert(out_size == n, "number of selected elements");
  unchanged(1, 1 + size);
  vf_assert(vf_live == 0, "temporary memory is released");
  vf_witness("end");
}
void h_select_random(void) {
  int size = vf_int(1, N);
  random_bits = vf_u32();
  data();
  for (int i = 1; i <= N; i++)
    if (size == i) {
      select_random(i);
      return;
    }
}
