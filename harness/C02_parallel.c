/* parallel sequencing. the thread pool is replaced by a model that executes tasks at solver chosen points */
#define VF_ON_FREE
#define VF_PICK
#include "vf.h"
#ifndef NE
#define NE 2
#endif
#define VF_TASKS NE
#ifndef T
#define T 3
#endif
/* TIMES: digits for start and duration of each event, start of the first block, sizes of the blocks */
#ifdef TIMES
#define str(x) #x
#define xstr(x) str(x)
#define TIME(i, lo, hi) (sp_time_t)(xstr(TIMES)[i] - '0')
#else
#define TIME(i, lo, hi) vf_uint(lo, hi)
#endif
#ifndef FLAGS
#define FLAGS 0
#endif
#ifndef NB
#define NB 1
#endif
#include "vf_repo.h"
#ifdef VF_CBMC
#define VF_SAME(p, q) __CPROVER_same_object(p, q)
#else
#define VF_SAME(p, q) ((size_t)((uint8_t*)(q) - (uint8_t*)(p)) < sizeof(sp_seq_future_t) * NE)
#endif
/* memory that tasks use is not freed while they are pending */
#ifdef VF_CBMC
static sp_seq_future_t* futures;
/* objects have the largest size that is possible in the bounds, the requested sizes are checked here and by the generate stub */
static void* vf_pick(size_t n, int zero) {
  if (zero) {
    __CPROVER_assert(n <= T * sizeof(sp_sample_t), "MODEL allocation size");
    return (vf_raw_calloc(T * sizeof(sp_sample_t)));
  }
  __CPROVER_assert(n <= NE * sizeof(sp_seq_future_t), "MODEL allocation size");
  futures = vf_raw_malloc(NE * sizeof(sp_seq_future_t));
  return (futures);
}
static void* vf_call_task(sph_future_f_t f, void* data) {
  for (int k = 0; k < NE; k++)
    if (data == futures + k) return (f(futures + k));
  vf_assert(0, "futures receive their element of the temporary array");
  return (0);
}
#else
static void* vf_call_task(sph_future_f_t f, void* data) { return (f(data)); }
#endif
static void vf_on_free(void* p) {
  for (int i = 0; i < NE; i++)
    if (i < vf_task_count && !vf_task_done[i]) {
      vf_assert(!VF_SAME(p, vf_task_data[i]), "memory of pending tasks is not freed");
#ifdef VF_CBMC
      for (int k = 0; k < NE; k++)
        if (vf_task_data[i] == futures + k) vf_assert(p != futures[k].out.samples[0] && p != futures[k].out.samples[1], "output of pending tasks is not freed");
#endif
    }
}
typedef struct {
  sp_time_t start;
  sp_time_t duration;
  uint8_t has_prepare;
  uint8_t has_free;
  uint8_t prepares;
  uint8_t frees;
  uint8_t fails_prepare;
  uint8_t fails_generate;
  sp_time_t pos;
} ev_t;
static ev_t ev[NE];
static sp_time_t block_start;
static sp_time_t block_end;
static int failed;
static int returned;
static sp_sample_t* buf[2];
static double level(int e, int c, sp_time_t t) { return ((double)((1 << (4 * e)) * (1 + c + 2 * (t & 3)))); }
static void ev_free(sp_event_t* e) {
  ev_t* x = e->config;
  x->frees += 1;
  vf_assert(x->frees == 1, "event is freed at most once");
  e->free = 0;
}
static status_t ev_prepare(sp_event_t* e) {
  status_declare;
  ev_t* x = e->config;
  vf_assert(!returned, "no event is used after the call returned");
  vf_assert(!x->frees, "freed event is not prepared");
  x->prepares += 1;
  vf_assert(x->prepares == 1, "event is prepared at most once");
  if (x->has_free) e->free = ev_free;
  if (x->fails_prepare) {
    failed = 1;
    status.id = 7;
    status.group = "vf";
  }
  return (status);
}
static status_t ev_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  ev_t* x = e->config;
  vf_assert(!returned, "no event is used after the call returned");
  vf_assert(!x->frees, "freed event is not generated");
  vf_assert(!x->has_prepare || (x->prepares == 1 && !x->fails_prepare), "event is prepared before it is generated");
  vf_assert(start <= end, "range is not reversed");
  vf_assert(end <= x->duration, "event is not generated beyond its end");
  vf_assert(start == x->pos, "event times are generated consecutively, without gap or repetition");
  sp_time_t absolute = x->start + start;
  vf_assert(absolute >= block_start && x->start + end <= block_end, "generated range lies in the current block");
  vf_assert(out.channel_count == 2 && out.size >= end - start, "output block has space for the requested range");
  for (sp_time_t i = 0; i < T; i++)
    if (i < end - start) {
      out.samples[0][i] += level(x - ev, 0, start + i);
      out.samples[1][i] += level(x - ev, 1, start + i);
    }
  x->pos = end;
  if (x->fails_generate) {
    failed = 1;
    status.id = 8;
    status.group = "vf";
  }
  return (status);
}
static void build(sp_event_list_t** list, int may_fail) {
  sp_event_list_t* previous = 0;
  for (int i = 0; i < NE; i++) {
    sp_event_t e = {0};
    ev[i].start = TIME(2 * i, 0, T);
    ev[i].duration = TIME(2 * i + 1, 0, T);
    ev[i].has_prepare = FLAGS ? vf_bool() : 1;
    ev[i].has_free = FLAGS ? vf_bool() : 1;
    e.start = ev[i].start;
    e.end = ev[i].start + ev[i].duration;
    if (ev[i].has_prepare) e.prepare = ev_prepare;
    else if (ev[i].has_free) e.free = ev_free;
    if (may_fail) {
      ev[i].fails_prepare = ev[i].has_prepare && vf_bool();
      ev[i].fails_generate = vf_bool();
    }
    e.generate = ev_generate;
    e.config = ev + i;
    sp_event_list_t* n = vf_raw_malloc(sizeof(sp_event_list_t));
    vf_assume(n != 0);
    vf_live += 1;
    n->event = e;
    n->previous = previous;
    n->next = 0;
    if (previous) {
      vf_assume(previous->event.start <= e.start);
      previous->next = n;
    } else {
      *list = n;
    }
    previous = n;
  }
}
static int list_has(sp_event_list_t* a, ev_t* x) {
  for (; a; a = a->next)
    if (a->event.config == x) return (1);
  return (0);
}
static void begin(sp_block_t* out, sp_event_list_t** list, int may_fail) {
  buf[0] = vf_calloc(T, sizeof(sp_sample_t));
  buf[1] = vf_calloc(T, sizeof(sp_sample_t));
  build(list, may_fail);
  out->channel_count = 2;
  out->samples[0] = buf[0];
  out->samples[1] = buf[1];
}
/*@ {"property": "C02",
  "entry": "h_par",
  "unwind": 5, "shadow": "shadow_futures",
  "timeout": 300, "quick": ["unwind=4 -DNE=1 -DT=2",
  "unwind=3 -DNE=1 -DT=2 -DNB=2",
  "unwind=5 -DNE=2 -DT=3 -DFLAGS=1 -DTIMES=021203",
  "unwind=5 -DNE=2 -DT=3 -DFLAGS=1 -DTIMES=011213",
  "unwind=5 -DNE=2 -DT=3 -DFLAGS=1 -DTIMES=021212",
  "unwind=5 -DNE=2 -DT=3 -DFLAGS=1 -DTIMES=023101",
  "unwind=5 -DNE=2 -DT=3 -DFLAGS=1 -DTIMES=021003",
  "unwind=5 -DNE=2 -DT=3 -DNB=2 -DFLAGS=1 -DTIMES=0312012",
  "unwind=5 -DNE=3 -DT=3 -DTIMES=02021203"], "thorough": ["unwind=4 -DNE=1 -DT=3 -DNB=2",
  "unwind=5 -DNE=1 -DT=4 -DNB=3 -DFLAGS=1",
  "unwind=5 -DNE=3 -DT=3 -DFLAGS=1 -DTIMES=01121203",
  "unwind=5 -DNE=3 -DT=3 -DNB=2 -DFLAGS=1 -DTIMES=031301012",
  "unwind=6 -DNE=4 -DT=3 -DTIMES=0202121203"], "stubs": "futures are replaced by a model: the function of a future runs once at a solver chosen point between its creation and the end of the wait (C24 decides the real futures)",
  "about": "NE events with start and duration 0..T, rendered by sp_seq_parallel in NB blocks of 1..T samples. with NE=1 all times are symbolic, with TIMES they are given by digits (start and duration of each event, begin of the first block, block sizes), so that the schedule (and with FLAGS which events have prepare and free) is symbolic"} @*/
void h_par(void) {
  sp_event_list_t* list = 0;
  sp_block_t out;
  begin(&out, &list, 0);
  block_end = TIME(2 * NE, 0, T);
  for (int b = 0; b < NB; b++) {
    block_start = block_end;
    out.size = TIME(2 * NE + 1 + b, 1, T);
    block_end = block_start + out.size;
    for (int i = 0; i < NE; i++)
      if (!b && ev[i].start < block_start) ev[i].pos = block_start - ev[i].start;
    for (int i = 0; i < T; i++) buf[0][i] = buf[1][i] = 0;
    vf_task_count = 0;
    status_t s = sp_seq_parallel(block_start, block_end, out, &list);
    vf_assert(!s.id, "succeeds");
    vf_assert(!vf_pending(), "no task is pending or running when the call returns");
    int in_list = 0;
    for (sp_event_list_t* a = list; a; a = a->next) in_list += 1;
    vf_assert(vf_live == 2 + in_list, "temporary memory and past elements are freed");
    for (int i = 0; i < NE; i++) {
      ev_t* x = ev + i;
      sp_time_t e = x->start + x->duration;
      int past = e <= block_start;
      if (!past) {
        sp_time_t expected = block_end <= x->start ? 0 : (block_end < e ? block_end : e) - x->start;
        vf_assert(x->pos == expected, "event is generated up to the end of the block");
      }
      if (x->start >= block_end && x->start < e) vf_assert(!x->prepares && !x->frees, "future event is untouched");
      if (x->start < block_end) vf_assert(list_has(list, x) == !past, "past events leave the list");
      if (!past) vf_assert(!x->frees, "only past events are freed");
      if (past && x->start < block_end) vf_assert(x->frees == (x->has_free && (x->prepares || !x->has_prepare)), "past events are freed");
    }
    for (int c = 0; c < 2; c++)
      for (sp_time_t i = 0; i < T; i++)
        if (i < out.size) {
          double expected = 0;
          for (int k = 0; k < NE; k++) {
            sp_time_t t = block_start + i;
            if (t >= ev[k].start && t < ev[k].start + ev[k].duration) expected += level(k, c, t - ev[k].start);
          }
          vf_assert(buf[c][i] == expected, "output is the sum of the events at their times");
        }
  }
  sp_event_list_free(&list);
  vf_assert(vf_live == 2, "all memory is freed");
  vf_witness("end");
}
/*@ {"property": "C02",
  "entry": "h_par_fail",
  "unwind": 5, "shadow": "shadow_futures",
  "timeout": 300, "quick": ["unwind=4 -DNE=1 -DT=2 -DFLAGS=1",
  "unwind=5 -DNE=2 -DT=3 -DFLAGS=1 -DTIMES=021203",
  "unwind=5 -DNE=2 -DT=3 -DFLAGS=1 -DTIMES=011213",
  "unwind=5 -DNE=2 -DT=3 -DFLAGS=1 -DTIMES=021212",
  "unwind=5 -DNE=2 -DT=3 -DFLAGS=1 -DTIMES=023101",
  "unwind=5 -DNE=2 -DT=3 -DFLAGS=1 -DTIMES=021003"], "thorough": ["unwind=5 -DNE=3 -DT=3 -DFLAGS=1 -DTIMES=02021203"], "stubs": "futures are replaced by a model: the function of a future runs once at a solver chosen point between its creation and the end of the wait (C24 decides the real futures)",
  "about": "the same for one block, where any prepare or generate call may fail"} @*/
void h_par_fail(void) {
  sp_event_list_t* list = 0;
  sp_block_t out;
  begin(&out, &list, 1);
  block_start = TIME(2 * NE, 0, T);
  out.size = TIME(2 * NE + 1, 1, T);
  block_end = block_start + out.size;
  for (int i = 0; i < NE; i++)
    if (ev[i].start < block_start) ev[i].pos = block_start - ev[i].start;
  status_t s = sp_seq_parallel(block_start, block_end, out, &list);
  returned = 1;
  vf_assert(!vf_pending(), "no task is pending or running when the call returns");
  vf_assert(!s.id == !failed, "failure is reported if and only if an event failed");
  if (failed) {
    vf_assert((s.id == 7 || s.id == 8) && s.group[0] == 'v', "the status of a failed event is returned");
    vf_assert(!list, "the list is emptied on failure");
  } else {
    sp_event_list_free(&list);
  }
  vf_assert(vf_live == 2, "all memory is freed");
  for (int i = 0; i < NE; i++)
    vf_assert(ev[i].frees == (ev[i].has_free && (!ev[i].has_prepare || ev[i].prepares)), "each event is freed exactly once");
  if (failed) vf_witness("failed");
  vf_witness("end");
}
