/* sequencing of event lists in blocks by sp_seq.
   stub events record how they are prepared, generated and freed; all numbers are chosen by the solver */
#include "vf.h"
#include "vf_repo.h"
#ifndef NE
#define NE 3
#endif
#ifndef NB
#define NB 3
#endif
#ifndef T
#define T 5
#endif
#ifndef PAR
#define PAR 0
#endif
typedef struct {
  sp_time_t start;
  sp_time_t duration;
  sp_time_t prepared_end; /* value that prepare sets the end to, if extend */
  uint8_t extend;
  uint8_t has_prepare;
  uint8_t has_free;
  uint8_t prepares;
  uint8_t frees;
  uint8_t fails_prepare;
  uint8_t fails_generate;
  sp_time_t pos; /* next expected event relative time */
} ev_t;
static ev_t ev[NE];
static sp_sample_t* buf[2];
static sp_time_t block_start;
static sp_time_t block_end;
static int failed;
static sp_time_t first_block_start;
static void ev_free(sp_event_t* e) {
  ev_t* x = e->config;
  x->frees += 1;
  vf_assert(x->frees == 1, "event is freed at most once");
  e->free = 0;
}
static status_t ev_prepare(sp_event_t* e) {
  status_declare;
  ev_t* x = e->config;
  vf_assert(!x->frees, "freed event is not prepared");
  vf_assert(!failed, "nothing is prepared after a failure");
  x->prepares += 1;
  vf_assert(x->prepares == 1, "event is prepared at most once");
  if (x->has_free) e->free = ev_free;
  if (x->extend) e->end = x->prepared_end;
  if (x->fails_prepare) {
    failed = 1;
    status.id = 7;
    status.group = "vf";
  }
  return (status);
}
static status_t ev_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  ev_t* x = e->config;
  vf_assert(!failed, "nothing is generated after a failure");
  vf_assert(!x->frees, "freed event is not generated");
  vf_assert(!x->has_prepare || x->prepares == 1, "event is prepared before it is generated");
  vf_assert(start <= end, "range is not reversed");
  vf_assert(end <= x->duration, "event is not generated beyond its end");
  if (start < end) {
    vf_assert(start == x->pos, "event times are generated consecutively, without gap or repetition");
    sp_time_t absolute = x->start + start;
    vf_assert(absolute >= block_start && x->start + end <= block_end, "generated range lies in the current block");
    vf_assert(out.channel_count == 2, "channel count");
    vf_assert(out.samples[0] == buf[0] + (absolute - block_start), "output begins at the time of the event in the block");
    vf_assert(out.samples[1] == buf[1] + (absolute - block_start), "output begins at the time of the event in the block");
    vf_assert(out.size <= block_end - absolute, "output block handed to events ends with the block");
    vf_assert(out.size >= end - start, "output block handed to events has space for the requested range");
    x->pos = end;
  }
  if (x->fails_generate) {
    failed = 1;
    status.id = 8;
    status.group = "vf";
  }
  return (status);
}
static void build(sp_event_list_t** list, sp_time_t base, int may_fail) {
  sp_event_list_t* previous = 0;
  for (int i = 0; i < NE; i++) {
    sp_event_t e = {0};
    ev[i].start = base + vf_uint(0, T);
    ev[i].duration = vf_uint(0, T);
    ev[i].has_prepare = vf_bool();
    ev[i].has_free = vf_bool();
    ev[i].extend = 0;
    e.start = ev[i].start;
    e.end = ev[i].start + ev[i].duration;
    if (ev[i].has_prepare) {
      e.prepare = ev_prepare;
      ev[i].extend = vf_bool();
      ev[i].prepared_end = e.end;
      /* prepare may extend the event, but only once it is reached at its preliminary end */
      if (ev[i].extend) {
        sp_time_t extra = vf_uint(0, T);
        vf_assume(extra < ev[i].duration);
        e.end = e.end - extra;
      }
    } else if (ev[i].has_free) {
      e.free = ev_free;
    }
    if (may_fail) {
      ev[i].fails_prepare = ev[i].has_prepare && vf_bool();
      ev[i].fails_generate = vf_bool();
    }
    e.generate = ev_generate;
    e.config = ev + i;
    /* a list as sp_event_list_add and sp_seq_events_prepare create it (C03 decides that they do) */
    sp_event_list_t* n = vf_malloc(sizeof(sp_event_list_t));
    n->event = e;
    n->previous = previous;
    n->next = 0;
    if (previous) {
      vf_assume(previous->event.start <= e.start);
      previous->next = n;
    } else {
      *list = n;
    }
    previous = n;
  }
}
static int list_has(sp_event_list_t* a, ev_t* x) {
  for (; a; a = a->next)
    if (a->event.config == x) return (1);
  return (0);
}
/*@ {"property":"C01","entry":"h_seq","unwind":8,"quick":["-DNE=2 -DNB=3 -DT=4 -DBASE=0","-DNE=3 -DNB=2 -DT=3 -DBASE=4294967000u"],
 "thorough":["-DNE=3 -DNB=3 -DT=4 -DBASE=0","-DNE=3 -DNB=3 -DT=4 -DBASE=2147483640u","-DNE=4 -DNB=3 -DT=4 -DBASE=0"],
 "about":"NE events with start and duration 0..T at any 32 bit base time, rendered in NB consecutive blocks with chosen borders"} @*/
void h_seq(void) {
  sp_event_list_t* list = 0;
  sp_time_t base = BASE;
  vf_assume(base < UINT32_MAX - 8 * T);
  buf[0] = vf_malloc(sizeof(sp_sample_t) * NB * T);
  buf[1] = vf_malloc(sizeof(sp_sample_t) * NB * T);
  build(&list, base, 0);
  block_end = base;
  for (int b = 0; b < NB; b++) {
    sp_block_t out = {.channel_count = 2};
    block_start = block_end;
    out.size = vf_uint(1, T);
    block_end = block_start + out.size;
    out.samples[0] = buf[0];
    out.samples[1] = buf[1];
    status_t s = sp_seq(block_start, block_end, out, &list);
    vf_assert(!s.id, "succeeds");
    for (int i = 0; i < NE; i++) {
      ev_t* x = ev + i;
      sp_time_t e = x->start + x->duration;
      sp_time_t expected = block_end <= x->start ? 0 : (block_end < e ? block_end : e) - x->start;
      vf_assert(x->pos == expected, "event is generated up to the end of the block");
      if (!expected && x->start >= block_end) vf_assert(!x->prepares && !x->frees, "future event is untouched");
      int past = e <= block_start;
      vf_assert(list_has(list, x) == !past, "past events leave the list when a following block is processed");
      vf_assert(x->frees == (past && x->has_free && (x->pos || x->prepares || !x->has_prepare)), "past events are freed, others not");
    }
  }
  int in_list = 0;
  for (sp_event_list_t* a = list; a; a = a->next) in_list += 1;
  vf_assert(vf_live == 2 + in_list, "list elements of past events are freed");
  sp_event_list_free(&list);
  vf_assert(list == 0 && vf_live == 2, "all memory is freed");
  for (int i = 0; i < NE; i++)
    if (ev[i].has_free && (!ev[i].has_prepare || ev[i].prepares)) vf_assert(ev[i].frees == 1, "each event is freed");
  vf_witness("end");
}
/*@ {"property":"C01","entry":"h_seq_fail","unwind":8,"quick":["-DNE=2 -DNB=2 -DT=3 -DBASE=0"],"thorough":["-DNE=3 -DNB=2 -DT=3 -DBASE=0","-DNE=2 -DNB=3 -DT=4 -DBASE=4294967000u"],
 "about":"the same, where any prepare or generate call may fail"} @*/
void h_seq_fail(void) {
  sp_event_list_t* list = 0;
  buf[0] = vf_malloc(sizeof(sp_sample_t) * NB * T);
  buf[1] = vf_malloc(sizeof(sp_sample_t) * NB * T);
  build(&list, BASE, 1);
  block_end = BASE;
  for (int b = 0; b < NB; b++) {
    sp_block_t out = {.channel_count = 2};
    block_start = block_end;
    out.size = vf_uint(1, T);
    block_end = block_start + out.size;
    out.samples[0] = buf[0];
    out.samples[1] = buf[1];
    status_t s = sp_seq(block_start, block_end, out, &list);
    vf_assert(!s.id == !failed, "failure is reported if and only if an event failed");
    if (failed) {
      vf_assert((s.id == 7 || s.id == 8) && s.group[0] == 'v', "the status of the failed event is returned");
      vf_assert(!list, "the list is emptied on failure");
      break;
    }
  }
  if (!failed) sp_event_list_free(&list);
  vf_assert(vf_live == 2, "all memory is freed");
  for (int i = 0; i < NE; i++)
    vf_assert(ev[i].frees == (ev[i].has_free && (!ev[i].has_prepare || ev[i].prepares)), "each event is freed exactly once");
  if (failed) vf_witness("failed");
  vf_witness("end");
}
