/* streaming convolution filters whose impulse response changes */
#include "vf.h"
#include "vf_repo.h"
#ifndef OPS
/* pairs of digits for each block: length, impulse response */
#define OPS 203120
#endif
#define str(x) #x
#define xstr(x) str(x)
#define BLOCKS ((int)(sizeof(xstr(OPS)) - 1) / 2)
#define MAX 20
#ifndef SYM
#define SYM 0
#endif
#ifndef FAIL
#define FAIL 0
#endif
/* impulse responses. the second has the arguments of the first and another function, the fourth other arguments and the same function.
   the fifth has more arguments */
static const int ir_length[5] = {3, 4, 1, 2, 6};
static const uint8_t ir_args[5][4] = {{7, 1, 0, 0}, {7, 1, 0, 0}, {7, 2, 0, 0}, {3, 1, 0, 0}, {7, 1, 5, 9}};
static const int ir_args_len[5] = {2, 2, 2, 2, 4};
static const int ir_function[5] = {0, 1, 0, 0, 0};
static const double constants[8] = {1, 2, -4, 8, -16, 32, 64, 128};
static int calls;
static int ir_fails;
static sp_sample_t ir_data[5][8];
static sp_sample_t in[MAX];
static sp_sample_t out[MAX];
static sp_sample_t y[MAX + 8];
static status_t response(int function, uint8_t* args, sp_sample_t** out_ir, sp_time_t* out_len) {
  status_declare;
  calls += 1;
  if (ir_fails) {
    status.id = 66;
    return (status);
  }
  for (int k = 0; k < 5; k++) {
    int same = ir_function[k] == function;
    /* all arguments distinguish the responses */
    for (int i = 0; i < 2; i++) same = same && ir_args[k][i] == args[i];
    if (same && k == 0 && args == ir_args[4]) same = 0;
    if (same) {
      sp_sample_t* a = vf_malloc(ir_length[k] * sizeof(sp_sample_t));
      if (!a) {
        status.id = 67;
        return (status);
      }
      for (int i = 0; i < ir_length[k]; i++) a[i] = ir_data[k][i];
      *out_ir = a;
      *out_len = ir_length[k];
      return (status);
    }
  }
  vf_assert(0, "the given arguments are passed to the response function");
  return (status);
}
static status_t f0(void* a, sp_sample_t** out_ir, sp_time_t* out_len) { return (response(0, a, out_ir, out_len)); }
static status_t f1(void* a, sp_sample_t** out_ir, sp_time_t* out_len) { return (response(1, a, out_ir, out_len)); }
static sp_convolution_filter_state_t* state;
static status_t filter(int k, int p, int size) {
  return (sp_convolution_filter(in + p, size, ir_function[k] ? f1 : f0, (void*)(ir_args[k]), ir_args_len[k], &state, out + p));
}
/*@ {"property":"C10","entry":"h_filter","unwind":12,
 "quick":["-DOPS=202020","-DOPS=203210","-DOPS=10122120","-DOPS=21203121","-DOPS=302420","-DOPS=141011","-DOPS=121022","-DOPS=12202410","-DSYM=1 -DOPS=2013","-DSYM=1 -DOPS=1021","-DFAIL=1 -DOPS=102111","-DFAIL=1 -DOPS=222420","-DFAIL=2 -DOPS=222420","-DFAIL=2 -DOPS=102111"],
 "thorough":["-DOPS=1410121110","-DOPS=3421302234","-DSYM=1 -DOPS=102112","-DFAIL=2 -DOPS=1021102424","-DFAIL=2 -DOPS=242120"],
 "about":"a stream in blocks, OPS gives length and impulse response (lengths 3, 4, 1, 2, 6; different functions and arguments) of each block. the input is symbolic (SYM=1: the responses). FAIL: before each block, an update to another response fails, 1 in the response function, 2 in any allocation"} @*/
static void block(int b, int* p, int* previous) {
  int size = xstr(OPS)[2 * b] - '0';
  int k = xstr(OPS)[2 * b + 1] - '0';
  int before = calls;
  status_t s = filter(k, *p, size);
  vf_assert(!s.id, "succeeds");
  vf_assert(calls == before + (k != *previous), "the response is calculated if and only if it changed");
  *previous = k;
  for (int i = 0; i < size; i++)
    for (int j = 0; j < ir_length[k]; j++) y[*p + i + j] += in[*p + i] * ir_data[k][j];
  for (int i = 0; i < size; i++) vf_assert(out[*p + i] == y[*p + i], "output is the input convolved with the current response and everything still due");
  *p += size;
  vf_assert(out[*p] == 55, "only the output block is written");
}
#if FAIL
/* the last of the blocks is preceded by a failing update */
static void failing(int at, int other, int* p, int* previous) {
  int live = vf_live;
  vf_alloc_count = 0;
  if (FAIL == 1) ir_fails = 1;
  else vf_fail_at = at;
  int first = state == 0;
  status_t s = filter(other, *p, 1);
  if (FAIL == 1) vf_assert(s.id == 66, "the error of the response function is returned");
  else if (vf_failed) vf_assert(s.id != 0, "allocation failure is returned");
  if (FAIL == 1 || vf_failed) {
    /* sizes of kept arrays may have grown */
    vf_assert(vf_live == live, "nothing that was allocated for a failed update is kept");
    vf_assert(first == (state == 0), "the state is kept");
    out[*p] = 55;
    vf_witness("failed");
  } else vf_assume(0);
  ir_fails = 0;
  vf_fail_at = -1;
  block(BLOCKS - 1, p, previous);
  sp_convolution_filter_state_free(state);
  vf_assert(!vf_live, "freeing the state releases everything");
}
#endif
void h_filter(void) {
  int p = 0;
  int previous = -1;
  for (int i = 0; i < MAX; i++) {
    in[i] = SYM ? constants[i & 7] : vf_small(-2, 2);
    out[i] = 55;
  }
  for (int k = 0; k < 5; k++)
    for (int i = 0; i < ir_length[k]; i++) ir_data[k][i] = SYM ? vf_small(-2, 2) : constants[(i + k) & 7];
  for (int b = 0; b < BLOCKS - (FAIL ? 1 : 0); b++) block(b, &p, &previous);
#if FAIL
    int at = vf_int(0, 40);
    for (int other = 0; other < 5; other++)
      for (int k = 0; k < (FAIL == 1 ? 1 : 5); k++)
        if (k + 8 * other == at && other != previous) {
          failing(k, other, &p, &previous);
          return;
        }
#else
  sp_convolution_filter_state_free(state);
  vf_assert(!vf_live, "freeing the state releases everything");
  vf_witness("end");
#endif
}
