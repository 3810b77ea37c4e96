/* integers from bytes and bits */
#include "vf.h"
static void vf_random_array(void* state, size_t size, uint32_t* out);
#define sp_times_random_primitive vf_random_array
#include "vf_repo.h"
#ifndef WORDS
#define WORDS 2
#endif
static uint32_t words[WORDS + 1];
static int drawn;
static void vf_random_array(void* state, size_t size, uint32_t* out) {
  for (size_t i = 0; i < size; i++) {
    vf_assert(drawn < WORDS + 1, "amount of random numbers");
    out[i] = words[drawn++];
  }
}
/*@ {"property":"C28","entry":"h_bytes","unwind":10,"quick":[""],
 "about":"one to eight bytes of any value at the end of memory"} @*/
static void bytes(int n, uint8_t* values) {
  uint8_t* a = malloc(n);
  uint64_t e = 0;
  for (int i = 0; i < n; i++) {
    a[i] = values[i];
    e |= (uint64_t)values[i] << (8 * i);
  }
  vf_assert(sp_u64_from_array(a, n) == e, "little-endian integer");
  for (int i = 0; i < n; i++) vf_assert(a[i] == values[i], "bytes are unchanged");
  free(a);
  vf_witness("end");
}
void h_bytes(void) {
  uint8_t values[8];
  int n = vf_int(1, 8);
  for (int i = 0; i < 8; i++) values[i] = vf_u8();
  for (int i = 1; i <= 8; i++)
    if (n == i) {
      bytes(i, values);
      return;
    }
}
/*@ {"property":"C28","entry":"h_bits","unwind":80,"flags":["--max-field-sensitivity-array-size","128"],"quick":["-DFROM=0 -DTO=10","-DFROM=30 -DTO=36","-DFROM=62 -DTO=64"],"thorough":["-DFROM=11 -DTO=29","-DFROM=37 -DTO=61","-DFROM=95 -DTO=98 -DWORDS=4 unwind=140"],
 "about":"expansion of FROM to TO bits of integers of any value to the same and to another array"} @*/
#ifndef FROM
#define FROM 0
#define TO 0
#endif
static void bits(int n, int in_place) {
  static uint32_t a[TO + 1 + WORDS];
  static uint32_t out[TO + 1 + WORDS];
  uint32_t* b = in_place ? a : out;
  for (int i = 0; i < TO + 1 + WORDS; i++) {
    a[i] = i < WORDS ? words[i] : 9;
    out[i] = 9;
  }
  sp_times_bits_to_times(a, n, b);
  for (int i = 0; i < n; i++) vf_assert(b[i] == (words[i / 32] >> (i % 32) & 1), "bit i, lowest first");
  for (int i = n; i < TO + 1 + WORDS; i++) vf_assert(b[i] == (in_place && i < WORDS ? words[i] : 9), "nothing else is written");
  if (!in_place)
    for (int i = 0; i < WORDS; i++) vf_assert(a[i] == words[i], "input is unchanged");
  vf_witness("end");
}
void h_bits(void) {
  int n = vf_int(FROM, TO);
  int in_place = vf_bool();
  for (int i = 0; i < WORDS; i++) words[i] = vf_u32();
  for (int i = FROM; i <= TO; i++)
    for (int k = 0; k < 2; k++)
      if (n == i && in_place == k) {
        bits(i, k);
        return;
      }
}
/*@ {"property":["C28","C22"],"entry":"h_random_bits","unwind":80,"flags":["--max-field-sensitivity-array-size","128"],"quick":["-DFROM=0 -DTO=6","-DFROM=31 -DTO=34","-DFROM=63 -DTO=65"],"thorough":["-DFROM=7 -DTO=30","-DFROM=35 -DTO=62","-DFROM=95 -DTO=98 -DWORDS=4 unwind=140"],
 "stubs":"random numbers are any numbers",
 "about":"FROM to TO random bits for any random numbers, with the allocation failing or not"} @*/
static void random_bits(int n, int fail) {
  static uint32_t out[TO + 1];
  status_t s;
  for (int i = 0; i < TO + 1; i++) out[i] = 9;
  vf_fail_at = fail;
  s = sp_times_random_binary(n, out);
  vf_assert(!s.id == !vf_failed, "failing allocation is returned");
  if (!s.id) {
    for (int i = 0; i < n; i++) vf_assert(out[i] == (words[i / 32] >> (i % 32) & 1), "the random bits, only zeros and ones");
    vf_witness("bits");
  } else vf_witness("failed");
  for (int i = n; i < TO + 1; i++) vf_assert(out[i] == 9, "nothing is written behind the result");
  vf_assert(!vf_live, "temporary memory is released");
}
void h_random_bits(void) {
  int n = vf_int(FROM, TO);
  int fail = vf_int(-1, 0);
  for (int i = 0; i < WORDS + 1; i++) words[i] = vf_u32();
  for (int i = FROM; i <= TO; i++)
    for (int k = -1; k < 1; k++)
      if (n == i && fail == k) {
        random_bits(i, k);
        return;
      }
}
