/* map events */
#include "vf.h"
#define VF_PICK
#include "vf_repo.h"
#ifndef T
#define T 3
#endif
#ifndef FAIL
#define FAIL 0
#endif
VF_PICK_FUNCTION(VF_CASES(0, T, sp_sample_t))
VF_RESIZE_FUNCTION(1, sp_sample_t)
static sp_event_t parent;
static sp_map_event_config_t config;
static int state;
static sp_block_t main_out;
static sp_time_t r_start;
static sp_time_t r_end;
static int prepares;
static int generates;
static int maps;
static int frees;
static int fail_prepare;
static int fail_generate;
static int fail_map;
static int free_set_by_prepare;
static sp_sample_t wrapped[2][T];
static sp_sample_t written[2][T];
static sp_sample_t* inner[2];
static status_t failure(int id) {
  status_declare;
  status.id = id;
  status.group = (uint8_t*)("vf");
  return (status);
}
static void ev_free(sp_event_t* e) {
  vf_assert(e == &config.event, "the wrapped event is freed");
  frees += 1;
  e->free = 0;
}
static status_t ev_prepare(sp_event_t* e) {
  status_declare;
  vf_assert(e == &config.event, "the wrapped event is prepared");
  prepares += 1;
  if (free_set_by_prepare) e->free = ev_free;
  if (fail_prepare) return (failure(91));
  return (status);
}
static status_t ev_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  generates += 1;
  vf_assert(prepares == 1, "prepared before generate");
  vf_assert(e == &config.event, "the wrapped event is generated");
  vf_assert(start == r_start && end == r_end, "range of the wrapped event");
  vf_assert(out.channel_count == main_out.channel_count && out.size == main_out.size, "size of the output of the wrapped event");
  for (int c = 0; c < 2; c++)
    if (c < out.channel_count) {
      inner[c] = out.samples[c];
      if (config.isolate) {
        vf_assert(out.samples[c] != main_out.samples[c], "isolated output is a buffer of its own");
        for (sp_time_t i = 0; i < out.size; i++) {
          vf_assert(out.samples[c][i] == 0, "isolated output begins with silence");
          out.samples[c][i] += wrapped[c][i];
        }
      } else {
        vf_assert(out.samples[c] == main_out.samples[c], "output is shared without isolation");
        for (sp_time_t i = 0; i < out.size; i++) out.samples[c][i] += wrapped[c][i];
      }
    }
  if (config.isolate && out.channel_count > 1) vf_assert(inner[0] != inner[1], "channels have separate buffers");
  if (fail_generate) return (failure(92));
  return (status);
}
static status_t map_generate(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* s) {
  status_declare;
  maps += 1;
  vf_assert(generates == maps && !fail_generate, "map function is called after the wrapped event");
  vf_assert(s == (void*)(&state), "map function gets its state");
  vf_assert(start == r_start && end == r_end, "range of the map function");
  vf_assert(out.channel_count == main_out.channel_count && out.size == main_out.size, "size of the output");
  vf_assert(in.channel_count == out.channel_count && in.size == out.size, "size of the input");
  for (int c = 0; c < 2; c++)
    if (c < out.channel_count) {
      vf_assert(in.samples[c] == inner[c], "map function gets the output of the wrapped event");
      vf_assert(out.samples[c] == main_out.samples[c], "map function writes to the shared output");
      for (sp_time_t i = 0; i < in.size; i++) {
        vf_assert(in.samples[c][i] == (config.isolate ? wrapped[c][i] : wrapped[c][i] + written[c][i]), "map input is exactly the wrapped output");
        if (config.isolate) out.samples[c][i] -= in.samples[c][i];
        else out.samples[c][i] = -in.samples[c][i];
      }
    }
  if (fail_map) return (failure(93));
  return (status);
}
/*@ {"property":"C06","entry":"h_map","unwind":6,
 "quick":["-DISOLATE=0 -DFAIL=0","-DISOLATE=1 -DFAIL=0","-DISOLATE=1 -DFAIL=1","-DISOLATE=1 -DFAIL=2","-DISOLATE=1 -DFAIL=3","-DISOLATE=0 -DFAIL=1","-DISOLATE=0 -DFAIL=2","-DISOLATE=0 -DFAIL=3","-DISOLATE=1 -DFAIL=4 -DCH=1","-DISOLATE=1 -DFAIL=4 -DCH=2","-DISOLATE=1 -DFAIL=5"],
 "thorough":["unwind=9 -DT=6 -DISOLATE=0 -DFAIL=0","unwind=9 -DT=6 -DISOLATE=1 -DFAIL=0"],
 "about":"a map event around an event with symbolic samples, two consecutive blocks of 1..T samples, 1 or 2 channels. FAIL: 1 prepare, 2 generate, 3 the map function (in the second block), 4 an allocation, 5 freed without having been prepared"} @*/
#ifndef ISOLATE
#define ISOLATE 0
#endif
static void generate(int fails) {
  status_t s;
  sp_sample_t before[2][T];
  for (int c = 0; c < 2; c++)
    for (int i = 0; i < T; i++) {
      wrapped[c][i] = vf_small(-2, 2);
      before[c][i] = written[c][i] = main_out.samples[c][i];
    }
  r_start = vf_uint(0, 4294967280u);
  main_out.size = vf_uint(1, T);
  r_end = r_start + main_out.size;
  int live = vf_live;
  int g = generates;
  int m = maps;
  if (fails == 2) fail_generate = 1;
  if (fails == 3) fail_map = 1;
  if (fails == 4) {
    vf_fail_at = vf_int(0, 1);
    vf_alloc_count = 0;
  }
  s = (parent.generate)(r_start, r_end, main_out, &parent);
  vf_assert(vf_live == live, "temporary buffers are released");
  if (fails == 2) vf_assert(s.id == 92, "error of the wrapped event is returned");
  else if (fails == 3) vf_assert(s.id == 93, "error of the map function is returned");
  else if (fails == 4 && vf_failed) vf_assert(s.id != 0, "allocation failure is returned");
  else vf_assert(!s.id, "succeeds");
  if (fails == 4) vf_fail_at = -1;
  if (fails == 4 && vf_failed) {
    vf_assert(generates == g && maps == m, "nothing is generated if an allocation failed");
    for (int c = 0; c < 2; c++)
      for (int i = 0; i < T; i++) vf_assert(main_out.samples[c][i] == before[c][i], "output is unchanged if an allocation failed");
    return;
  }
  vf_assert(generates == g + 1 && maps == m + (fails != 2), "wrapped event and map function are called once");
  if (fails == 2 && !config.isolate) return;
  for (int c = 0; c < 2; c++)
    for (int i = 0; i < T; i++) {
      sp_sample_t expected = before[c][i];
      if (c < main_out.channel_count && i < main_out.size && fails != 2) {
        if (config.isolate) expected -= wrapped[c][i];
        else expected = -(before[c][i] + wrapped[c][i]);
      }
      vf_assert(main_out.samples[c][i] == expected, "the shared output contains exactly the output of the map function");
    }
}
void h_map(void) {
  sp_sample_t data[2][T];
  sp_map_event_config_t* c = &config;
  sp_event_t* e = &parent;
  status_t s;
  for (int i = 0; i < T; i++) {
    data[0][i] = vf_small(-2, 2);
    data[1][i] = vf_small(-2, 2);
  }
#ifdef CH
  main_out.channel_count = CH;
#else
  main_out.channel_count = vf_uint(1, 2);
#endif
  main_out.samples[0] = data[0];
  main_out.samples[1] = data[1];
  config.isolate = ISOLATE;
  config.config = &state;
  config.map_generate = map_generate;
  config.event.prepare = ev_prepare;
  config.event.generate = ev_generate;
  config.event.config = &state;
  free_set_by_prepare = vf_bool();
  if (!free_set_by_prepare) config.event.free = ev_free;
  sp_map_event(e, c);
  int prepared = FAIL != 5;
  if (prepared) {
    fail_prepare = FAIL == 1;
    s = (parent.prepare)(&parent);
    vf_assert(prepares == 1, "wrapped event is prepared");
    vf_assert(s.id == (FAIL == 1 ? 91 : 0), "error of prepare is returned");
    parent.prepare = 0;
#if FAIL != 1
    vf_assert(config.event.prepare == 0, "wrapped event will not be prepared again");
    generate(0);
    generate(FAIL);
#endif
  }
  if (parent.free) (parent.free)(&parent);
  int expect_free = prepared || !free_set_by_prepare;
  vf_assert(frees == expect_free, "wrapped event is freed once with the map event");
  vf_assert(prepares == prepared, "wrapped event is prepared once");
  vf_assert(parent.free == 0, "map event is marked as freed");
  vf_assert(!vf_live, "all memory is released");
  vf_witness("end");
}
