/* lookup table oscillators */
#include "vf.h"
#include "vf_repo.h"
#ifndef T
#define T 4
#endif
#ifndef W
#define W 3
#endif
#ifndef DATA
#define DATA 0
#endif
#ifndef BASE
#define BASE 0
#endif
/* DATA=0: symbolic steps, phases and block boundaries, concrete distinct samples. DATA=1: symbolic samples and amplitudes, concrete steps */
#define VALUE(lo, hi, constant) (DATA ? vf_small(lo, hi) : (double)(constant))
#define STEP(constant) (DATA ? (constant) : BASE + (vf_u8() & 7))
static sp_time_t below_w(sp_time_t constant) {
  if (DATA) return (constant);
  sp_time_t a = vf_u8() & 7;
  vf_assume(a < W);
  return (a);
}
static sp_time_t boundary(sp_time_t constant) {
  if (DATA) return (constant);
  sp_time_t a = vf_u8() & 7;
  vf_assume(a <= T);
  return (a);
}
static sp_sample_t wvf[W];
static sp_sample_t amod[2][T];
static sp_time_t fmod_[2][T];
static sp_time_t pmod[2][T];
static sp_sample_t out[2][T + 2];
static sp_sample_t before[2][T + 2];
static void data(void) {
  for (int i = 0; i < W; i++) wvf[i] = VALUE(-2, 2, 3 + 5 * i);
  for (int c = 0; c < 2; c++) {
    for (int i = 0; i < T; i++) {
      amod[c][i] = VALUE(0, 2, 1 + i + 7 * c);
      fmod_[c][i] = STEP(2 + 3 * i + c);
      pmod[c][i] = STEP(1 + 2 * i + c);
    }
    for (int i = 0; i < T + 2; i++) before[c][i] = out[c][i] = VALUE(-2, 2, i + 11 * c);
  }
}
/*@ {"property":"C07","entry":"h_wave_event","unwind":7,
 "quick":["-DCH=1 -DFM=0 -DPM=0","-DCH=1 -DFM=0 -DPM=0 -DDATA=1","-DCH=2 -DFM=1 -DPM=1 -DDATA=1 -DUSE=1 -DT=2","-DCH=2 -DFM=1 -DPM=1 -DDATA=1 -DUSE=0 -DT=2","-DCH=1 -DFM=1 -DPM=1 -DW=4 -DT=3 -DBASE=20000","-DCH=1 -DFM=1 -DPM=0","-DCH=1 -DFM=0 -DPM=1 -DW=4","-DCH=1 -DFM=1 -DPM=1 -DT=3","-DCH=2 -DFM=1 -DPM=0 -DUSE=1 -DT=2","-DCH=2 -DFM=0 -DPM=1 -DUSE=1 -DT=2","-DCH=2 -DFM=1 -DPM=1 -DUSE=0 -DT=2","-DCH=2 -DFM=1 -DPM=1 -DUSE=1 -DOWN=1 -DT=2"],
 "thorough":["-DCH=1 -DFM=1 -DPM=1 -DW=5 -DT=4","-DCH=1 -DFM=1 -DPM=1 -DW=3 -DT=4","-DCH=2 -DFM=0 -DPM=0 -DUSE=1 -DT=3"],
 "about":"T samples at any event position divided into three consecutive blocks at any places, waveform of W samples, CH channels with swapped output channels, symbolic frequency, start phase, amplitude, amplitude array and with FM/PM frequency and phase arrays. USE: the second channel is used with its own settings and defaults, OWN: it has arrays of its own"} @*/
#ifndef CH
#define CH 1
#define FM 0
#define PM 0
#endif
#ifndef USE
#define USE 0
#endif
#ifndef OWN
#define OWN 0
#endif
void h_wave_event(void) {
  sp_wave_event_config_t config = {0};
  sp_wave_event_config_t* cp = &config;
  sp_declare_event(event);
  sp_event_t* ep = &event;
  sp_time_t phs[2];
  sp_sample_t amp[2];
  sp_frq_t frq[2];
  status_t s;
  data();
  config.wvf = wvf;
  config.wvf_size = W;
  config.channel_count = CH;
  for (int c = 0; c < CH; c++) {
    sp_wave_event_channel_config_t* cc = config.channel_config + c;
    phs[c] = cc->phs = below_w(1);
    amp[c] = cc->amp = VALUE(-1, 2, 2 + c);
    frq[c] = cc->frq = STEP(c ? 0 : 2);
    cc->channel = CH == 2 ? 1 - c : 0;
    cc->use = 1;
    if (c == 0 || OWN) {
      cc->amod = amod[c];
      if (FM) cc->fmod = fmod_[c];
      if (PM) cc->pmod = pmod[c];
    }
  }
  if (CH == 2 && !USE) {
    config.channel_config[1].use = 0;
    phs[1] = phs[0];
    amp[1] = amp[0];
    frq[1] = frq[0];
  }
  if (CH == 2 && !frq[1]) frq[1] = frq[0];
  sp_wave_event(ep, cp);
  s = (event.prepare)(&event);
  vf_assert(!s.id, "prepare succeeds");
  sp_time_t b[4] = {0, boundary(1), boundary(T - 1), T};
  vf_assume(b[1] <= b[2]);
  for (int k = 0; k < 3; k++) {
    sp_block_t block = {.channel_count = 2, .size = b[k + 1] - b[k]};
    block.samples[0] = out[0] + 1 + b[k];
    block.samples[1] = out[1] + 1 + b[k];
    s = (event.generate)(b[k], b[k + 1], block, &event);
    vf_assert(!s.id, "generate succeeds");
  }
  for (int c = 0; c < CH; c++) {
    sp_time_t phase = phs[c];
    int o = CH == 2 ? 1 - c : 0;
    int m = OWN ? c : 0;
    for (int i = 0; i < T; i++) {
      sp_time_t p = (phase + (PM ? pmod[m][i] % W : 0)) % W;
      vf_assert(out[o][i + 1] == before[o][i + 1] + amp[c] * amod[m][i] * wvf[p], "sum of the scaled waveform value at the current phase");
      phase = (phase + (frq[c] % W) + (FM ? fmod_[m][i] % W : 0)) % W;
    }
    vf_assert(out[o][0] == before[o][0] && out[o][T + 1] == before[o][T + 1], "nothing outside of the range is written");
  }
  if (CH == 1)
    for (int i = 0; i < T + 2; i++) vf_assert(out[1][i] == before[1][i], "other channels are not written");
  vf_witness("end");
}
/*@ {"property":"C07","entry":"h_wave","unwind":7,"quick":["-DAM=0 -DFM=1","-DAM=1 -DFM=0","-DAM=1 -DFM=1 -DT=3","-DAM=1 -DFM=1 -DT=3 -DDATA=1","-DAM=0 -DFM=0 -DT=3 -DDATA=1","-DAM=1 -DFM=1 -DW=4 -DBASE=4000000000u"],"thorough":["-DAM=1 -DFM=1 -DT=5 -DW=5 unwind=9"],
 "about":"sp_wave with T samples divided into two calls at any place, waveform of W samples, with and without amplitude and frequency arrays and phase state"} @*/
#ifndef AM
#define AM 0
#endif
void h_wave(void) {
  data();
  sp_sample_t amp = VALUE(-1, 2, 2);
  sp_time_t frq = STEP(2);
  sp_time_t start = below_w(1);
  sp_time_t split = boundary(1);
  sp_time_t state = start;
  sp_time_t whole = vf_bool();
  sp_time_t phase = start;
  sp_sample_t* am = AM ? &amod[0][0] : 0;
  sp_time_t* fm = FM ? &fmod_[0][0] : 0;
  if (whole) {
    split = T;
    if (vf_bool()) {
      start = 0;
      phase = 0;
      sp_wave(T, wvf, W, amp, am, frq, fm, 0, out[0] + 1);
    } else sp_wave(T, wvf, W, amp, am, frq, fm, &state, out[0] + 1);
  } else {
    sp_wave(split, wvf, W, amp, am, frq, fm, &state, out[0] + 1);
    sp_wave(T - split, wvf, W, amp, am ? am + split : 0, frq, fm ? fm + split : 0, &state, out[0] + 1 + split);
  }
  for (int i = 0; i < T; i++) {
    vf_assert(out[0][i + 1] == before[0][i + 1] + amp * (AM ? amod[0][i] : 1) * wvf[phase], "sum of the scaled waveform value at the current phase");
    phase = (phase + (FM ? fmod_[0][i] % W : frq % W)) % W;
  }
  vf_assert(out[0][0] == before[0][0] && out[0][T + 1] == before[0][T + 1], "nothing outside of the range is written");
  vf_witness("end");
}
/*@ {"property":"C07","entry":"h_sine","unwind":7,"quick":["-DAM=1 -DFM=1 -DT=3 -DW=4","-DAM=0 -DFM=0 -DT=3 -DW=4"],
 "about":"sp_sine and sp_sine_lfo with tables of 4 samples, symbolic frequencies and phases"} @*/
void h_sine(void) {
  data();
  sp_sample_t* am = AM ? &amod[0][0] : 0;
  sp_time_t* fm = FM ? &fmod_[0][0] : 0;
  sp_time_t frq = STEP(2);
  sp_time_t phase = below_w(1);
  sp_time_t state = phase;
  if (vf_bool()) {
    sp_sine_table = wvf;
    sp_rate = W;
    sp_sine(T, 2, am, frq, fm, &state, out[0] + 1);
  } else {
    sp_sine_table_lfo = wvf;
    sp_rate = W / 2;
    sp_sine_lfo_factor = 2;
    sp_sine_lfo(T, 2, am, frq, fm, &state, out[0] + 1);
  }
  for (int i = 0; i < T; i++) {
    vf_assert(out[0][i + 1] == before[0][i + 1] + 2 * (AM ? amod[0][i] : 1) * wvf[phase], "sum of the scaled table value at the current phase");
    phase = (phase + (FM ? fmod_[0][i] % W : frq % W)) % W;
  }
  vf_assert(state == phase, "phase is kept");
  vf_assert(out[0][0] == before[0][0] && out[0][T + 1] == before[0][T + 1], "nothing outside of the range is written");
  vf_witness("end");
}
/*@ {"property":"C07","entry":"h_wave_defaults","unwind":7,"quick":[""],
 "about":"default configurations and new arrays of 1 to 3 configurations, any sample rate"} @*/
void h_wave_defaults(void) {
  sp_wave_event_config_t* a = 0;
  sp_rate = vf_u32();
  sp_sine_table = wvf;
  sp_time_t count = vf_uint(1, 3);
  for (sp_time_t k = 1; k < 4; k++)
    if (k == count) {
      status_t s = sp_wave_event_config_new_n(k, &a);
      vf_assert(!s.id, "succeeds");
      for (sp_time_t i = 0; i < k; i++) {
        vf_assert(a[i].wvf == wvf && a[i].wvf_size == sp_rate && a[i].channel_count == sp_channel_count_limit, "default waveform is the sine table");
        for (int c = 0; c < sp_channel_count_limit; c++) {
          sp_wave_event_channel_config_t* cc = a[i].channel_config + c;
          vf_assert(cc->amp == 1 && cc->channel == c && !cc->amod && !cc->pmod && !cc->fmod && !cc->frq && !cc->phs && cc->use == (c == 0), "default channel settings");
        }
      }
      vf_free(a);
    }
  vf_assert(!vf_live, "one allocation");
  vf_witness("end");
}
