/* rendering to files and blocks */
#include "vf.h"
#ifndef DISK
#define DISK 120
#endif
#include "vf_disk.h"
#include "vf_repo.h"
#undef feof
#undef ferror
#undef ftell
#ifndef BLOCK
#define BLOCK 2
#endif
#ifndef CHANNELS
#define CHANNELS 1
#endif
#ifndef EVENT_START
#define EVENT_START 0
#endif
#ifndef DURATION
#define DURATION 5
#endif
#ifndef L
#define L 5
#endif
static double tone[2][DURATION + 1];
static int prepares, frees, generates, fails_prepare, failed;
static int fails_generate = -1;
static int registers = 1;
static sp_sample_t* own;
static void ev_free(sp_event_t* e) {
  frees += 1;
  if (own) free(own);
}
static status_t ev_prepare(sp_event_t* e) {
  status_declare;
  prepares += 1;
  vf_assert(prepares == 1 && !frees, "the event is prepared once");
  if (fails_prepare) {
    failed = 1;
    status_set_goto("vf", 3);
  }
  status_require(sp_samples_new(1, &own));
  e->free = ev_free;
#ifdef LATE_END
  e->end = DURATION;
#endif
exit:
  status_return;
}
static status_t ev_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  vf_assert(prepares == 1 && !frees, "the event is prepared and not freed");
  vf_assert(start <= end && end <= DURATION && end - start <= out.size, "range of the event");
  if (generates == fails_generate) {
    failed = 1;
    status_set_goto("vf", 4);
  }
  generates += 1;
  for (int j = 0; j < CHANNELS; j++)
    for (sp_time_t i = start; i < end; i++) out.samples[j][i - start] += tone[j][i];
exit:
  status_return;
}
static float float_at(int i) {
  uint32_t b = disk[i] | disk[i + 1] << 8 | disk[i + 2] << 16 | (uint32_t)disk[i + 3] << 24;
  float f;
  memcpy(&f, &b, 4);
  return (f);
}
static sp_event_t new_event(void) {
  sp_event_t e;
  memset(&e, 0, sizeof(e));
  e.start = EVENT_START;
  e.end = EVENT_START + DURATION;
  e.prepare = ev_prepare;
  e.generate = ev_generate;
  return (e);
}
static void tones(void) {
  for (int i = 0; i < DURATION; i++)
    for (int j = 0; j < CHANNELS; j++) tone[j][i] = vf_small(1, 3);
}
static double expected(int t, int j) { return (t >= EVENT_START && t < EVENT_START + DURATION ? tone[j][t - EVENT_START] : 0); }
/*@ {"property":"C21","entry":"h_range","unwind":130,"flags":["--max-field-sensitivity-array-size","128"],
 "quick":["-DBLOCK=1 -DL=4 -DEVENT_START=2","-DBLOCK=2 -DEVENT_START=1 -DDURATION=3 -DCHANNELS=2","-DBLOCK=3","-DBLOCK=4 -DEVENT_START=3 -DDURATION=2"],
 "thorough":["-DBLOCK=2 -DL=8 -DDURATION=8 -DEVENT_START=1","-DBLOCK=3 -DL=8 -DCHANNELS=2 -DDISK=128 -DEVENT_START=4","-DBLOCK=5 -DL=7 -DDURATION=9","-DBLOCK=9 -DL=7 -DDURATION=9"],
 "stubs":"the file functions of libc operate on one file in memory",
 "about":"ranges of 0..L samples that start at 0..3 rendered to a file with blocks of BLOCK samples, and to a block, of an event that starts at EVENT_START and has DURATION samples of small values on CHANNELS channels"} @*/
static void range(int to_file, int start, int n) {
  status_t s;
  sp_block_t block;
  sp_render_config_t c = sp_render_config(CHANNELS, 96000, BLOCK, 0);
  if (to_file) {
    s = sp_render_range_file(new_event(), start, start + n, c, "f");
    vf_assert(!s.id, "rendering to a file succeeds");
    vf_assert(!open_files, "the file is closed");
    vf_assert(disk_size == 44 + n * CHANNELS * 4, "the file has the samples of the range");
    vf_assert(disk[22] == CHANNELS && disk[24] == (96000 & 255) && disk[40] == n * CHANNELS * 4 && disk[41] == 0, "channels, rate and size in the header");
    for (int i = 0; i < n; i++)
      for (int j = 0; j < CHANNELS; j++) vf_assert(float_at(44 + 4 * (i * CHANNELS + j)) == expected(start + i, j), "samples of the range in the file");
  } else {
    s = sp_render_range_block(new_event(), start, start + n, c, &block);
    vf_assert(!s.id && block.size == n && block.channel_count == CHANNELS, "rendering to a block succeeds");
    for (int i = 0; i < n; i++)
      for (int j = 0; j < CHANNELS; j++) vf_assert(block.samples[j][i] == expected(start + i, j), "samples of the range in the block");
    sp_block_free(&block);
  }
  vf_assert(frees == prepares, "the event is freed once");
  vf_assert(!vf_live, "memory is released");
  vf_witness("end");
}
void h_range(void) {
  int to_file = vf_bool();
  int start = vf_int(0, 3);
  int n = vf_int(0, L);
  tones();
  for (int k = 0; k < 2; k++)
    for (int i = 0; i < 4; i++)
      for (int j = 0; j <= L; j++)
        if (to_file == k && start == i && n == j) {
          range(k, i, j);
          return;
        }
}
/*@ {"property":["C21","C22"],"entry":"h_failing","unwind":130,"flags":["--max-field-sensitivity-array-size","128"],
 "quick":["-DBLOCK=2 -DDURATION=5 -DCHANNELS=2","-DBLOCK=2 -DDURATION=5 -DTO_BLOCK=1 -DCHANNELS=2"],
 "thorough":["-DBLOCK=1 -DDURATION=5"],
 "stubs":"the file functions of libc operate on one file in memory, any operation can fail",
 "about":"any one of the allocations, operations on the file, or prepare or generate calls fails while rendering an event of DURATION samples"} @*/
#ifndef TO_BLOCK
#define TO_BLOCK 0
#endif
static void failing(int kind, int at) {
  status_t s;
  sp_block_t block;
  sp_event_t e = new_event();
  sp_render_config_t c = sp_render_config(CHANNELS, 96000, BLOCK, 0);
  if (kind == 1) vf_fail_at = at;
  if (kind == 2) vf_io_fail_at = at;
  if (kind == 3) fails_generate = at;
  if (kind == 4) fails_prepare = 1;
#if TO_BLOCK
  s = sp_render_range_block(e, 0, DURATION, c, &block);
  if (!s.id) {
    vf_assert(block.samples[CHANNELS - 1][DURATION - 1] == tone[CHANNELS - 1][DURATION - 1], "samples");
    sp_block_free(&block);
  }
#else
  s = sp_render_range_file(e, 0, DURATION, c, "f");
  /* writing sizes into the header when closing is not checked, it writes two times */
  if (io_failed && io_count > vf_io_fail_at + 2 && vf_io_fail_at >= 2) vf_assert(s.id || frees, "the event is freed");
#endif
  if (kind == 2) {
    /* operations: open, header, data of each block, sizes */
    int blocks = (DURATION + BLOCK - 1) / BLOCK;
    if (!TO_BLOCK && at < 2 + blocks) vf_assert(io_failed && s.id, "failing operations on the file are returned");
  } else {
    vf_assert(!s.id == !(failed || vf_failed), "failures are returned");
    if (failed) vf_assert(!strcmp(s.group, "vf"), "status of the event");
  }
  vf_assert(!open_files, "the file is closed");
  vf_assert(prepares == 0 || frees == (own != 0), "the event is freed once");
  vf_assert(!vf_live, "memory is released");
  vf_witness("end");
}
void h_failing(void) {
  int kind = vf_int(0, 4);
  int at = vf_int(0, 9);
  tones();
  for (int k = 0; k < 5; k++)
    for (int i = 0; i < 10; i++)
      if (kind == k && at == i && (i == 0 || (k > 0 && k < 4))) {
        failing(k, i);
        return;
      }
}
/*@ {"property":"C21","entry":"h_file","unwind":130,"flags":["--max-field-sensitivity-array-size","128"],
 "quick":["-DRATE=1","-DRATE=1 -DLATE_END=1","-DRATE=2 -DDURATION=3"],"thorough":["-DRATE=1 -DDURATION=9","-DRATE=2 -DDURATION=9 -DCHANNELS=2 -DDISK=128"],
 "stubs":"the file functions of libc operate on one file in memory",
 "about":"the full duration of an event of DURATION samples, whose end may be set by its preparation only (LATE_END), rendered to a file with the rate RATE and blocks of four seconds"} @*/
#ifndef RATE
#define RATE 1
#endif
void h_file(void) {
  sp_event_t e = new_event();
  status_t s;
  sp_rate = RATE;
  sp_channel_count = CHANNELS;
#ifdef LATE_END
  e.end = 0;
#endif
  tones();
  s = sp_render_file(e, "f");
  vf_assert(!s.id && !open_files, "rendering succeeds");
  vf_assert(disk_size == 44 + DURATION * CHANNELS * 4, "the file has the samples of the event");
  for (int i = 0; i < DURATION; i++)
    for (int j = 0; j < CHANNELS; j++) vf_assert(float_at(44 + 4 * (i * CHANNELS + j)) == tone[j][i], "samples in the file");
  vf_assert(disk[22] == CHANNELS && disk[24] == RATE, "channels and rate in the header");
  vf_assert(prepares == 1 && frees == 1 && !vf_live, "the event is prepared and freed once");
  vf_witness("end");
}
