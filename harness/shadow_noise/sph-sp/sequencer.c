/* the real sequencer with the filter and the random numbers of noise events replaced by models */
static status_t vf_filter(sp_sample_t* in, sp_time_t in_len, sp_sample_t cutoff_l, sp_sample_t cutoff_h, sp_sample_t transition_l, sp_sample_t transition_h, sp_bool_t is_reject, sp_convolution_filter_state_t** out_state, sp_sample_t* out_samples);
static void vf_noise(sp_random_state_t* state, sp_time_t size, sp_sample_t* out);
static void vf_filter_free(sp_convolution_filter_state_t* state);
#define sp_windowed_sinc_bp_br vf_filter
#define sp_convolution_filter_state_free vf_filter_free
#undef sp_samples_random_primitive
#define sp_samples_random_primitive vf_noise
#include_next <sph-sp/sequencer.c>
#undef sp_windowed_sinc_bp_br
#undef sp_convolution_filter_state_free
#undef sp_samples_random_primitive
#define sp_samples_random_primitive sph_random_f64_array_1to1
