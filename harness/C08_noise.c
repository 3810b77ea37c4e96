/* noise events. the convolution filter and the random numbers are replaced by models (see shadow_noise) */
#include "vf.h"
/* exact for the small values used here, and computed while executing for constants */
static double vf_ceil(double a) {
  double b = (double)((int64_t)(a));
  return (b < a ? b + 1 : b);
}
#define ceil vf_ceil
#include "vf_repo.h"
/* duration, resolution, transition (impulse response length is 4 / TRN made odd), largest block (sp_render_block_seconds * RATE) */
#ifndef D
#define D 4
#endif
#ifndef R
#define R 2
#endif
#ifndef TRN
#define TRN 4
#endif
#ifndef FM
#define FM 0
#endif
#ifndef WM
#define WM 0
#endif
/* second channel: 0 none, 1 unused, 2 used with the filter of the first, 3 own filter, 4 own filter with own modulation */
#ifndef SECOND
#define SECOND 0
#endif
#ifndef DATA
#define DATA 0
#endif
#ifndef FAIL
#define FAIL 0
#endif
static sp_noise_event_config_t config;
static sp_sample_t amod[2][D];
static sp_time_t fmod_[2][D];
static sp_time_t wmod[2][D];
static sp_sample_t out[2][D + 2];
static sp_sample_t before[2][D + 2];
static sp_sample_t fout[2][D];
static sp_sample_t amp[2];
static sp_frq_t frq[2];
static sp_frq_t wdt[2];
static int generating;
static sp_time_t pos[2];
static sp_time_t gen_end;
static int serial;
static int used_serial[2];
static int states;
static int state_frees;
static int filter_calls;
static int fail_call = -1;
static int own; /* second channel has a filter of its own */
static void vf_noise(sp_random_state_t* state, sp_time_t size, sp_sample_t* a) {
  serial += 1;
  vf_assert(state == &config.random_state, "noise of the event's own random state");
  for (sp_time_t i = 0; i < size; i++) a[i] = serial;
}
static void vf_filter_free(sp_convolution_filter_state_t* state) {
  if (!state) return;
  state_frees += 1;
  vf_free(state);
}
static sp_time_t fm_at(int c, sp_time_t i) { return (FM ? fmod_[c && SECOND == 4 ? 1 : 0][i] : frq[c]); }
static sp_time_t wm_at(int c, sp_time_t i) { return (WM ? wmod[c && SECOND == 4 ? 1 : 0][i] : wdt[c]); }
static status_t vf_filter(sp_sample_t* in, sp_time_t in_len, sp_sample_t cutoff_l, sp_sample_t cutoff_h, sp_sample_t transition_l, sp_sample_t transition_h, sp_bool_t is_reject, sp_convolution_filter_state_t** s, sp_sample_t* a) {
  status_declare;
  filter_calls += 1;
  if (filter_calls - 1 == fail_call) {
    status.id = 77;
    status.group = (uint8_t*)("vf");
    return (status);
  }
  int c = s == &config.channel_config[1].filter_state;
  vf_assert(c || s == &config.channel_config[0].filter_state, "each channel has a filter state of its own");
  vf_assert(!c || own, "only channels with filter settings have a filter of their own");
  sp_time_t p = generating ? pos[c] : 0;
  vf_assert(cutoff_l == sp_hz_to_factor(fm_at(c, p)), "lower cutoff is the frequency at the start of the piece");
  vf_assert(cutoff_h == sp_hz_to_factor(fm_at(c, p) + wm_at(c, p)), "upper cutoff is the frequency and width at the start of the piece");
  vf_assert(transition_l == sp_hz_to_factor(TRN) && transition_h == sp_hz_to_factor(TRN), "transitions");
  vf_assert(is_reject == config.is_reject, "filter type");
  for (sp_time_t i = 0; i < in_len; i++) vf_assert(in[i] == serial, "the whole input is new noise");
  if (!*s) {
    sp_convolution_filter_state_t* n = vf_malloc(sizeof(sp_convolution_filter_state_t));
    if (!n) {
      status.id = 78;
      return (status);
    }
    *s = n;
    states += 1;
    vf_assert(!generating, "filter states are created when preparing");
  }
  if (generating) {
    vf_assert(in_len <= (FM || WM ? R : D) && pos[c] + in_len <= gen_end, "pieces are at most the resolution");
    vf_assert(used_serial[c] < serial, "each piece uses noise of its own");
    used_serial[c] = serial;
    for (sp_time_t i = 0; i < in_len; i++) {
      sp_sample_t v = DATA ? vf_small(-2, 2) / 2.0 : (pos[c] + i + 1 + 7 * c) / 32.0;
      a[i] = v;
      fout[c][pos[c] + i] = v;
    }
    pos[c] += in_len;
  } else
    for (sp_time_t i = 0; i < in_len; i++) a[i] = 9;
  return (status);
}
#ifdef MEMORY
/*@ {"property":"C08","entry":"h_noise_defaults","unwind":7,"shadow":"shadow_noise","quick":["-DMEMORY=1"],
 "about":"default configurations and new arrays of 1 to 3 noise and map event configurations, sample rates up to 10200 in steps of 40"} @*/
void h_noise_defaults(void) {
  sp_noise_event_config_t* a = 0;
  sp_map_event_config_t* m = 0;
  sp_rate = 40 * (sp_time_t)vf_u8();
  sp_time_t count = vf_uint(1, 3);
  for (sp_time_t k = 1; k < 4; k++)
    if (k == count) {
      status_t s = sp_noise_event_config_new_n(k, &a);
      vf_assert(!s.id, "succeeds");
      for (sp_time_t i = 0; i < k; i++) {
        vf_assert(a[i].channel_count == sp_channel_count_limit && !a[i].is_reject && a[i].resolution == sp_default_resolution, "default settings");
        vf_assert(!a[i].temp[0] && !a[i].temp[1] && !a[i].temp[2], "no buffers before preparing");
        for (int c = 0; c < sp_channel_count_limit; c++) {
          sp_noise_event_channel_config_t* cc = a[i].channel_config + c;
          vf_assert(cc->amp == 1 && cc->channel == c && !cc->amod && !cc->wmod && !cc->fmod && !cc->frq && cc->use == (c == 0) && !cc->filter_state, "default channel settings");
          vf_assert(cc->wdt == sp_max_frq, "the default band is everything");
          vf_assert(cc->trnl == cc->trnh && cc->trnl <= 0.08 * sp_rate && cc->trnl > 0.08 * sp_rate - 1, "default transitions");
        }
      }
      vf_free(a);
      s = sp_map_event_config_new_n(k, &m);
      vf_assert(!s.id, "succeeds");
      for (sp_time_t i = 0; i < k; i++) vf_assert(!m[i].isolate && !m[i].config && !m[i].map_generate && !m[i].event.prepare && !m[i].event.generate && !m[i].event.free && !m[i].event.config && !m[i].event.memory.data && !m[i].event.start && !m[i].event.end, "map configurations are empty");
      vf_free(m);
    }
  vf_assert(!vf_live, "one allocation each");
  vf_witness("end");
}
static uint8_t cell[3];
static uint8_t cell_released[3];
static void cell_release(void* a) {
  for (int i = 0; i < 3; i++)
    if (a == cell + i) cell_released[i] += 1;
}
/*@ {"property":"C04","entry":"h_noise_memory","unwind":8,"shadow":"shadow_noise",
 "quick":["-DMEMORY=1 -DFM=0 -DWM=0 -DD=4","-DMEMORY=1 -DFM=1 -DWM=0 -DD=4 -DSECOND=3"],
 "stubs":"the windowed sinc filter and the random samples of noise events are models",
 "about":"addresses registered with a noise event before it is set up, after it, and after preparing"} @*/
void h_noise_memory(void) {
  sp_declare_event(event);
  sp_event_t* ep = &event;
  sp_noise_event_config_t* cp = &config;
  status_t s;
  sp_rate = 1;
  config.channel_count = SECOND ? 2 : 1;
  config.resolution = R;
  own = SECOND > 2;
  for (int c = 0; c < config.channel_count; c++) {
    sp_noise_event_channel_config_t* cc = config.channel_config + c;
    cc->channel = c;
    cc->amp = 1;
    frq[c] = cc->frq = 17 + c;
    wdt[c] = cc->wdt = 23 + 2 * c;
    cc->trnl = cc->trnh = TRN;
    cc->use = 1;
    cc->amod = amod[c];
    if (FM) cc->fmod = fmod_[c];
    for (int i = 0; i < D; i++) fmod_[c][i] = 20;
  }
  event.end = D;
  s = sp_event_memory_add_with_handler(ep, cell, cell_release);
  vf_assert(!s.id, "succeeds");
  sp_noise_event(ep, cp);
  s = sp_event_memory_add_with_handler(ep, cell + 1, cell_release);
  vf_assert(!s.id, "succeeds");
  s = (event.prepare)(&event);
  vf_assert(!s.id, "prepare succeeds");
  s = sp_event_memory_add_with_handler(ep, cell + 2, cell_release);
  vf_assert(!s.id, "succeeds");
  for (int i = 0; i < 3; i++) vf_assert(!cell_released[i], "nothing is released before the event is freed");
  sp_event_free(event);
  for (int i = 0; i < 3; i++) vf_assert(cell_released[i] == 1, "everything that is registered with a noise event is released with it");
  vf_assert(!vf_live && states == state_frees, "all memory is released");
  vf_witness("end");
}
#else
/* generates the event in three blocks and frees it */
#define BLOCK sp_render_block_seconds
static void generate(sp_event_t* event, sp_time_t b1, sp_time_t b2) {
  sp_time_t b[4] = {0, b1, b2, D};
  status_t s;
  for (int k = 0; k < 3; k++) {
    sp_block_t block = {.channel_count = 2, .size = b[k + 1] - b[k]};
    block.samples[0] = out[0] + 1 + b[k];
    block.samples[1] = out[1] + 1 + b[k];
    gen_end = b[k + 1];
    s = (event->generate)(b[k], b[k + 1], block, event);
    vf_assert(!s.id, "generate succeeds");
    vf_assert(pos[0] == gen_end && pos[1] == (own ? gen_end : 0), "the whole range is filtered once");
  }
  for (int c = 0; c < config.channel_count; c++) {
    int o = config.channel_count == 2 ? 1 - c : 0;
    for (int i = 0; i < D; i++) {
      sp_sample_t v = amp[c] * amod[SECOND == 4 ? c : 0][i] * fout[own ? c : 0][i];
      if (v > 1) v = 1;
      if (v < -1) v = -1;
      vf_assert(out[o][i + 1] == before[o][i + 1] + v, "one amplitude scaled and limited filter output sample is added");
    }
  }
  for (int c = 0; c < 2; c++) {
    vf_assert(out[c][0] == before[c][0] && out[c][D + 1] == before[c][D + 1], "nothing outside of the range is written");
    if (!SECOND && c) for (int i = 0; i < D + 2; i++) vf_assert(out[c][i] == before[c][i], "other channels are not written");
  }
  (event->free)(event);
  vf_assert(!vf_live && states == state_frees, "all memory and filter states are released");
  vf_assert(!event->free, "event is marked as freed");
  vf_witness("end");
}
/* preparing fails at one point */
static void fail(sp_event_t* event, int at) {
  if (FAIL == 1) vf_fail_at = at;
  if (FAIL == 2) fail_call = at;
  status_t s = (event->prepare)(event);
  int fails = (FAIL == 1 && vf_failed) || (FAIL == 2 && at < filter_calls);
  vf_assert(fails ? s.id != 0 : !s.id, "failure is returned");
  if (FAIL == 2 && fails) vf_assert(s.id == 77, "the error of the filter is returned");
  if (fails) {
    vf_assert(event->free == 0, "events that could not be prepared need not be freed");
    vf_witness("failure");
  } else {
    (event->free)(event);
    vf_witness("no failure");
  }
  vf_assert(!vf_live, "all memory is released");
  vf_assert(states == state_frees, "filter states are released once");
}
/*@ {"property":"C08","entry":"h_noise","unwind":8,"shadow":"shadow_noise",
 "quick":["-DFM=0 -DWM=0 -DD=4","-DFM=1 -DWM=1 -DD=4 -DR=2","-DFM=1 -DWM=0 -DD=4 -DR=3 -DSECOND=1","-DFM=0 -DWM=1 -DD=4 -DR=1 -DSECOND=2","-DFM=1 -DWM=1 -DD=4 -DR=2 -DSECOND=3","-DFM=1 -DWM=1 -DD=4 -DR=3 -DSECOND=4","-DFM=0 -DWM=0 -DD=4 -DSECOND=3 -DTRN=1","-DFM=0 -DWM=0 -DD=5 -DSECOND=2","-DDATA=1 -DD=2 -DR=1 -DSECOND=2 -DFM=1","-DFAIL=1 -DSECOND=3 -DFM=1","-DFAIL=2 -DSECOND=3 -DFM=1","-DFAIL=2 -DSECOND=0 -DFM=0"],
 "thorough":["unwind=10 -DFM=1 -DWM=1 -DD=7 -DR=3 -DSECOND=4","unwind=10 -DFM=0 -DWM=0 -DD=7 -DSECOND=3","unwind=10 -DFM=1 -DWM=1 -DD=6 -DR=4 -DSECOND=3 -DTRN=1","-DDATA=1 -DD=3 -DR=2 -DSECOND=3 -DFM=1"],
 "stubs":"the windowed sinc filter and the random samples of noise events are models that check their arguments and give arbitrary output (C09, C10, C12, C19 decide the real ones)",
 "about":"event of D samples, resolution R, sample rate 1 (largest supported block 4), generated in consecutive blocks of at most 4 samples with symbolic boundaries. frequency and width with distinct values, with FM/WM from arrays. SECOND: configuration of the second channel. FAIL: 1 an allocation, 2 the filter fails when preparing. DATA: symbolic samples and amplitudes"} @*/
void h_noise(void) {
  sp_declare_event(event);
  sp_event_t* ep = &event;
  sp_noise_event_config_t* cp = &config;
  status_t s;
  sp_rate = 1;
  config.channel_count = SECOND ? 2 : 1;
  config.resolution = R;
  config.is_reject = vf_bool();
  own = SECOND > 2;
  for (int c = 0; c < 2; c++) {
    for (int i = 0; i < D; i++) {
      amod[c][i] = DATA ? vf_small(0, 2) : i + 1 + c;
      fmod_[c][i] = 20 + 3 * i + 50 * c;
      wmod[c][i] = 5 + 7 * i + 60 * c;
    }
    for (int i = 0; i < D + 2; i++) before[c][i] = out[c][i] = DATA ? vf_small(-2, 2) : i + 10 * c;
  }
  for (int c = 0; c < config.channel_count; c++) {
    sp_noise_event_channel_config_t* cc = config.channel_config + c;
    cc->channel = config.channel_count == 2 ? 1 - c : 0;
    amp[c] = cc->amp = DATA ? vf_small(-1, 2) : 2 + c;
    if (!c || SECOND > 2) {
      frq[c] = cc->frq = 17 + c;
      wdt[c] = cc->wdt = 23 + 2 * c;
      if (!c || vf_bool()) cc->trnl = TRN;
      if (!c || vf_bool()) cc->trnh = TRN;
    } else {
      frq[c] = frq[0];
      wdt[c] = wdt[0];
    }
    cc->use = !c || SECOND > 1;
    if (!c || SECOND == 4) {
      cc->amod = amod[c];
      if (FM) cc->fmod = fmod_[c];
      if (WM) cc->wmod = wmod[c];
    }
  }
  if (SECOND == 1) amp[1] = amp[0];
  event.start = 0;
  event.end = D;
  sp_noise_event(ep, cp);
#if FAIL
  int at = vf_int(0, 6);
  for (int k = 0; k < 7; k++)
    if (k == at) {
      fail(&event, k);
      return;
    }
#else
  s = (event.prepare)(&event);
  vf_assert(!s.id, "prepare succeeds");
  vf_assert(states == (own ? 2 : 1), "filter states");
  generating = 1;
  /* every division is executed on its own, so that positions are constant while executing */
  sp_time_t s1 = vf_u8() & 7;
  sp_time_t s2 = vf_u8() & 7;
  for (sp_time_t b1 = 0; b1 <= D; b1++)
    for (sp_time_t b2 = b1; b2 <= D; b2++)
      if ((!DATA || (b1 == D / 2 && b2 == D)) && b1 <= BLOCK && b2 - b1 <= BLOCK && D - b2 <= BLOCK && s1 == b1 && s2 == b2) {
        generate(&event, b1, b2);
        return;
      }
#endif
}
#endif
