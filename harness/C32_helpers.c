/* rounding to a grid, index matching, random numbers around a center, scheduling */
#include "vf.h"
#include "vf_repo.h"
/* any random number that is not rejected as biased for the range (C19 decides the rejection) */
static uint64_t range;
static uint64_t drawn;
static int draw_count;
uint64_t vf_draw(sph_random_state_t* state) {
  uint64_t r = vf_u64();
  vf_assume(r * range >= range);
  draw_count += 1;
  drawn = r;
  return (r);
}
static sp_time_t distance(sp_time_t a, sp_time_t b) { return (a < b ? b - a : a - b); }
/* the nearest multiple. at half of the distance both are */
static int is_nearest(sp_time_t a, sp_time_t base, sp_time_t n) { return (n % base == 0 && 2 * distance(a, n) <= base); }
#ifndef OFFSET
#define OFFSET 0
#endif
static void harmonize(sp_time_t a, sp_time_t base, int quarters) {
  sp_time_t r = sp_time_harmonize(a, base, quarters / 4.0);
  sp_time_t below = a - a % base;
  sp_time_t above = below == a ? a : below + base;
  int ok = 0;
  /* four times the exact result, and times are truncated or rounded */
  if (is_nearest(a, base, below)) {
    int64_t e = 4 * (int64_t)a - quarters * (int64_t)(a - below);
    ok = ok || (4 * (int64_t)r > e - 4 && 4 * (int64_t)r < e + 4 && r >= below && r <= a);
  }
  if (is_nearest(a, base, above)) {
    int64_t e = 4 * (int64_t)a + quarters * (int64_t)(above - a);
    ok = ok || (4 * (int64_t)r > e - 4 && 4 * (int64_t)r < e + 4 && r >= a && r <= above);
  }
  vf_assert(ok, "harmonizing moves by the fraction of the distance to the nearest multiple");
  if (quarters == 4) vf_assert(is_nearest(a, base, r), "fraction one gives the nearest multiple");
  if (quarters == 0) vf_assert(r == a, "fraction zero gives the same time");
  vf_witness("end");
}
/*@ {"property":"C32","entry":"h_harmonize","unwind":10,"quick":["-DBASE=1 -DSPAN=15","-DBASE=2 -DSPAN=15","-DBASE=3 -DSPAN=15","-DBASE=8 -DSPAN=31","-DBASE=10 -DSPAN=31","-DBASE=480 -DSPAN=2047"],"thorough":["-DBASE=7 -DSPAN=127","-DBASE=8 -DSPAN=255","-DBASE=480 -DSPAN=2047","-DBASE=16 -DSPAN=63 -DOFFSET=2147000000"],
 "about":"times OFFSET..OFFSET+SPAN, fractions in quarters"} @*/
#ifndef BASE
#define BASE 8
#endif
#ifndef SPAN
#define SPAN 31
#endif
void h_harmonize(void) {
  sp_time_t a = OFFSET + vf_uint(0, SPAN);
  int q = vf_int(0, 4);
  for (int k = 0; k < 5; k++)
    if (q == k) {
      harmonize(a, BASE, k);
      return;
    }
}
static void deharmonize(sp_time_t a, sp_time_t base, int quarters) {
  range = base / 2;
  sp_time_t r = sp_time_deharmonize(a, base, quarters / 4.0);
  sp_time_t below = a - a % base;
  sp_time_t above = below == a ? a : below + base;
  sp_time_t near = distance(a, below) <= distance(a, above) ? distance(a, below) : distance(a, above);
  sp_time_t limit = range ? range : 1;
  vf_assert(draw_count > 0, "the distance is random");
  /* moved by at most amount * (base - near) / base * limit */
  sp_time_t moved = distance(a, r);
  int wraps = r > a && r - a > 2 * base;
  vf_assert(!wraps, "times do not become negative");
  vf_assert((uint64_t)moved * 4 * base < (uint64_t)quarters * (base - near) * limit + 4 * base, "times are moved by at most half of the base, less the farther away from multiples they are");
  if (quarters == 0) vf_assert(r == a, "fraction zero gives the same time");
  /* away from the nearest multiple, unless the time would become negative */
  if (a >= base) {
    if (2 * distance(a, below) < base && a != below) vf_assert(r >= a, "times after a multiple are moved up");
    if (2 * distance(a, above) < base && a != above) vf_assert(r <= a, "times before a multiple are moved down");
  }
  /* at least the share of one step */
  if (quarters == 4 && !near) vf_assert(moved >= 1, "times on multiples are moved");
  vf_witness("end");
}
/*@ {"property":"C32","entry":"h_deharmonize","unwind":10,"flags":["--conversion-check"],"replace":{"sph_random_u64":"vf_draw"},"stubs":"sph_random_u64 returns any number","quick":["-DBASE=1 -DSPAN=15","-DBASE=2 -DSPAN=15","-DBASE=4 -DSPAN=15","-DBASE=8 -DSPAN=31"],"thorough":["-DBASE=3 -DSPAN=15","-DBASE=10 -DSPAN=31","-DBASE=16 -DSPAN=63 -DOFFSET=1000000"],
 "about":"times OFFSET..OFFSET+SPAN, fractions in quarters, any random numbers"} @*/
void h_deharmonize(void) {
  sp_time_t a = OFFSET + vf_uint(0, SPAN);
  int q = vf_int(0, 4);
  for (int k = 0; k < 5; k++)
    if (q == k) {
      deharmonize(a, BASE, k);
      return;
    }
}
/*@ {"property":"C32","entry":"h_normal","unwind":34,"replace":{"sph_random_u64":"vf_draw"},"stubs":"sph_random_u64 returns any number","quick":["-DMIN=0 -DMAX=1","-DMIN=7 -DMAX=9","-DMIN=100 -DMAX=104"],"thorough":["-DMIN=1 -DMAX=4","-DMIN=100000000 -DMAX=100000008"],
 "about":"range MIN..MAX, any random numbers"} @*/
static void normal(sp_time_t min, sp_time_t max) {
  range = max - min;
  sp_time_t r = sp_normal_random(min, max);
  vf_assert(r >= min && r < max, "the number is inside of the range");
  vf_assert(draw_count == 32, "the number is the mean of 32 random numbers");
  vf_witness("end");
}
#ifndef MIN
#define MIN 0
#define MAX 2
#endif
void h_normal(void) {
  normal(MIN, MAX);
}
/*@ {"property":"C32","entry":"h_match","unwind":6,"quick":[""],
 "about":"up to 3 divisors 1..7, any index up to 255"} @*/
static void match(size_t count, size_t index, size_t* d) {
  size_t r = sp_modulo_match(index, d, count);
  vf_assert(r < count, "the result is an index of a divisor");
  for (size_t i = 0; i < count; i++) {
    if (i < r) vf_assert(index % d[i] != 0, "the first matching divisor is selected");
    if (i == r && i + 1 < count) vf_assert(index % d[i] == 0, "the selected divisor matches, or it is the last");
  }
  vf_witness("end");
}
void h_match(void) {
  size_t divisors[4];
  size_t index = vf_u8();
  uint32_t n = vf_uint(1, 3);
  for (int i = 0; i < 4; i++) {
    int v = vf_int(1, 7);
    divisors[i] = v;
  }
  for (uint32_t i = 1; i < 4; i++)
    if (n == i) {
      match(i, index, divisors);
      return;
    }
}
/*@ {"property":"C32","entry":"h_schedule","unwind":3,"quick":[""],
 "about":"any start, onset and duration"} @*/
void h_schedule(void) {
  int x, y;
  sp_declare_event(e);
  e.start = vf_uint(0, 1073741823);
  sp_time_t length = vf_uint(0, 1073741823);
  e.end = e.start + length;
  e.config = &x;
  sp_time_t onset = vf_uint(0, 1073741823);
  sp_time_t duration = vf_uint(0, 1073741823);
  int with = vf_bool();
  e.prepare = sp_group_prepare;
  e.generate = sp_group_generate;
  e.free = sp_group_free;
  sp_event_t before = e;
  sp_event_t r = sp_event_schedule(e, onset, duration, with ? &y : 0);
  vf_assert(r.start == before.start + onset, "the event is moved to the onset");
  vf_assert(r.end == before.end + onset + duration, "the event ends after onset and duration");
  vf_assert(r.config == (with ? (void*)(&y) : (void*)(&x)), "the configuration is replaced if one is given");
  vf_assert(r.prepare == before.prepare && r.generate == before.generate && r.free == before.free && r.memory.data == before.memory.data && r.memory.size == before.memory.size && r.memory.used == before.memory.used, "other fields are kept");
  vf_assert(e.start == before.start && e.end == before.end && e.config == &x, "the passed event is unchanged");
  vf_witness("end");
}
