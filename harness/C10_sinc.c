/* windowed-sinc filters pass all of their settings to the kernel, and update it exactly when one of them changes */
#include "vf.h"
#include "vf_repo.h"
static int calls;
static sp_sample_t seen[4];
static int seen_type;
static int seen_bp;
static status_t kernel(sp_sample_t** out_ir, sp_time_t* out_len) {
  status_declare;
  calls += 1;
  sp_sample_t* a = vf_malloc(2 * sizeof(sp_sample_t));
  a[0] = calls;
  a[1] = 4 * calls;
  *out_ir = a;
  *out_len = 2;
  return (status);
}
status_t vf_lp_hp_ir(sp_sample_t cutoff, sp_sample_t transition, sp_bool_t is_high_pass, sp_sample_t** out_ir, sp_time_t* out_len) {
  seen[0] = cutoff;
  seen[1] = transition;
  seen_type = is_high_pass;
  seen_bp = 0;
  return (kernel(out_ir, out_len));
}
status_t vf_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, sp_sample_t transition_l, sp_sample_t transition_h, sp_bool_t is_reject, sp_sample_t** out_ir, sp_time_t* out_len) {
  seen[0] = cutoff_l;
  seen[1] = cutoff_h;
  seen[2] = transition_l;
  seen[3] = transition_h;
  seen_type = is_reject;
  seen_bp = 1;
  return (kernel(out_ir, out_len));
}
#ifndef BP
#define BP 0
#endif
#define COUNT (BP ? 4 : 2)
static sp_convolution_filter_state_t* state;
static status_t filter(sp_sample_t* in, sp_sample_t* v, sp_bool_t type, sp_sample_t* out) {
#if BP
  return (sp_windowed_sinc_bp_br(in, 3, v[0], v[1], v[2], v[3], type, &state, out));
#else
  return (sp_windowed_sinc_lp_hp(in, 3, v[0], v[1], type, &state, out));
#endif
}
static void check(sp_sample_t* v, int type) {
  vf_assert(seen_bp == BP, "kernel of the filter type");
  for (int i = 0; i < COUNT; i++) vf_assert(seen[i] == v[i], "each setting is passed to the kernel");
  vf_assert(seen_type == type, "the type is passed to the kernel");
}
/* change: which setting differs in the second block. COUNT: the type, more: none */
static void run(sp_sample_t* in, sp_sample_t* v, int type, int change, double other) {
  sp_sample_t out[6];
  status_t s = filter(in, v, type, out);
  vf_assert(!s.id && state && calls == 1, "first block calculates the kernel");
  check(v, type);
  int changed = change <= COUNT;
  if (change < COUNT) {
    changed = other != v[change];
    v[change] = other;
  } else if (change == COUNT)
    type = !type;
  s = filter(in + 3, v, type, out + 3);
  vf_assert(!s.id && calls == 1 + changed, "the kernel is calculated again exactly when a setting changes");
  check(v, type);
  sp_sample_t* ir;
  for (int i = 0; i < 6; i++) {
    int k = i < 3 ? 1 : 1 + changed;
    double e = in[i] * k;
    if (i > 0) e += in[i - 1] * 4 * (i - 1 < 3 ? 1 : k);
    vf_assert(out[i] == e, "the input is convolved with the kernel that is valid for it");
  }
  sp_convolution_filter_state_free(state);
  vf_assert(!vf_live, "all memory is released");
  vf_witness("end");
}
/*@ {"property":"C10","entry":"h_settings","unwind":34,"replace":{"sp_windowed_sinc_lp_hp_ir":"vf_lp_hp_ir","sp_windowed_sinc_bp_br_ir":"vf_bp_br_ir"},
 "stubs":"the kernels are models that record their settings (C12 decides the real ones)","quick":["-DBP=0","-DBP=1"],
 "about":"two blocks of three samples, any settings, where one of the settings changes to any other value, or none"} @*/
void h_settings(void) {
  sp_sample_t in[6];
  sp_sample_t v[4];
  for (int i = 0; i < 6; i++) in[i] = i * i - 7;
  for (int i = 0; i < 4; i++) {
    v[i] = vf_f64();
    vf_assume(v[i] > 0 && v[i] < 0.5);
  }
  double other = vf_f64();
  vf_assume(other > 0 && other < 0.5);
  int type = vf_bool();
  int change = vf_int(0, COUNT + 1);
  for (int c = 0; c < COUNT + 2; c++)
    for (int t = 0; t < 2; t++)
      if (change == c && type == t) {
        run(in, v, t, c, other);
        return;
      }
}
