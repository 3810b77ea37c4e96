/* the real filters with sinc and cosine replaced by models */
static sp_sample_t vf_sinc(sp_sample_t a);
#define sp_sinc vf_sinc
#define cos vf_cos
#include_next <sph-sp/filter.c>
#undef sp_sinc
#undef cos
