/* groups of events */
#include "vf.h"
#include "vf_repo.h"
#ifndef NE
#define NE 3
#endif
#ifndef T
#define T 5
#endif
#ifndef NB
#define NB 2
#endif
#ifndef DEPTH
#define DEPTH 1
#endif
typedef struct {
  sp_time_t start; /* in the group */
  sp_time_t end;
  sp_time_t prepared_end;
  uint8_t late; /* end unknown before prepare */
  uint8_t has_free;
  uint8_t has_prepare;
  uint8_t prepares;
  uint8_t frees;
  sp_time_t pos;
} ev_t;
static ev_t ev[NE];
static void ev_free(sp_event_t* e) {
  ev_t* x = e->config;
  x->frees += 1;
  vf_assert(x->frees == 1, "member is freed at most once");
  e->free = 0;
}
static status_t ev_prepare(sp_event_t* e) {
  status_declare;
  ev_t* x = e->config;
  x->prepares += 1;
  vf_assert(x->prepares == 1, "member is prepared at most once");
  if (x->late) e->end = x->prepared_end;
  if (x->has_free) e->free = ev_free;
  return (status);
}
static sp_event_list_t* list_find(sp_event_list_t* a, ev_t* x) {
  for (; a; a = a->next)
    if (a->event.config == x) return (a);
  return (0);
}
#ifdef OPS
#define str(x) #x
#define xstr(x) str(x)
/*@ {"property":"C05","entry":"h_group_add","unwind":5,
 "quick":["-DNE=3 -DOPS=010","-DNE=3 -DOPS=101","-DNE=3 -DOPS=111","-DNE=2 -DOPS=00 -DBASE=4294960000u"],
 "thorough":["-DNE=3 -DOPS=000","-DNE=3 -DOPS=001","-DNE=3 -DOPS=011","-DNE=3 -DOPS=100","-DNE=3 -DOPS=110","unwind=6 -DNE=4 -DOPS=1010","unwind=6 -DNE=4 -DOPS=0101"],
 "about":"NE events that are added (OPS digit 0) or appended (1) to a new group. start 0..T, duration 0..T (plus BASE for the start of the first), prepare with or without setting the end"} @*/
#ifndef BASE
#define BASE 0
#endif
void h_group_add(void) {
  sp_declare_event(group_event);
  sp_event_t* group = &group_event;
  sp_group_event(group);
  sp_time_t expected_end = 0;
  for (int i = 0; i < NE; i++) {
    int append = xstr(OPS)[i] - '0';
    sp_declare_event(e);
    ev_t* x = ev + i;
    x->late = vf_bool();
    x->has_prepare = x->late ? 1 : vf_bool();
    x->has_free = vf_bool();
    e.start = vf_uint(0, T) + (i == 0 ? BASE : 0);
    sp_time_t duration = vf_uint(x->late ? 0 : 1, T);
    x->prepared_end = e.start + duration;
    e.end = x->late ? 0 : x->prepared_end;
    e.config = x;
    if (x->has_prepare) e.prepare = ev_prepare;
    else if (x->has_free) e.free = ev_free;
    sp_time_t shift = append ? expected_end : 0;
    status_t s = append ? sp_group_append(group, e) : sp_group_add(group, e);
    vf_assert(!s.id, "succeeds");
    x->start = e.start + shift;
    x->end = x->prepared_end + shift;
    if (append) {
      expected_end = x->end;
    } else if (x->end > expected_end)
      expected_end = x->end;
    vf_assert(group->end == expected_end, "the group ends with its latest member, appending extends the group by the event");
    vf_assert(group->start == 0, "group start is kept");
    vf_assert(x->prepares == x->late, "members with unknown end are prepared immediately, others not");
  }
  sp_event_list_t* list = group->config;
  int count = 0;
  for (sp_event_list_t* a = list; a; a = a->next) count += 1;
  vf_assert(count == NE, "all events are members");
  for (int i = 0; i < NE; i++) {
    sp_event_list_t* a = list_find(list, ev + i);
    vf_assert(a != 0, "each event is a member");
    vf_assert(a->event.start == ev[i].start && a->event.end == ev[i].end, "members have their start and end in the group");
    vf_assert((a->event.prepare == 0) == (!ev[i].has_prepare || ev[i].late), "members are not prepared again");
    if (a->next) vf_assert(a->event.start >= a->next->event.start, "members are sorted");
  }
  if (vf_bool()) {
    /* preparing brings the members in playing order */
    status_t s = (group->prepare)(group);
    vf_assert(!s.id, "preparing succeeds");
    for (sp_event_list_t* a = group->config; a; a = a->next) {
      if (a->next) vf_assert(a->event.start <= a->next->event.start && a->next->previous == a, "prepared members are in playing order");
      else count = count + NE;
    }
    vf_assert(count == 2 * NE, "prepared group is complete");
  }
  vf_assert(group->free != 0, "group can be freed");
  (group->free)(group);
  vf_assert(!vf_live, "all memory is freed");
  for (int i = 0; i < NE; i++)
    vf_assert(ev[i].frees == (ev[i].has_free && (!ev[i].has_prepare || ev[i].prepares)), "each member is freed once");
  vf_assert(!group->free && !group->config, "freed group is empty");
  vf_witness("end");
}
#else
static sp_sample_t* buf[2];
static sp_time_t block_start;
static sp_time_t block_end;
static sp_time_t shift; /* sum of the starts of the enclosing groups */
static status_t ev_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  ev_t* x = e->config;
  vf_assert(!x->frees, "freed member is not generated");
  vf_assert(!x->has_prepare || x->prepares == 1, "member is prepared before it is generated");
  vf_assert(start <= end && end <= x->end - x->start, "range lies in the member");
  if (start < end) {
    vf_assert(start == x->pos, "member times are generated consecutively, without gap or repetition");
    sp_time_t absolute = shift + x->start + start;
    vf_assert(absolute >= block_start && absolute + (end - start) <= block_end, "generated range lies in the block");
    vf_assert(out.channel_count == 2, "channel count");
    vf_assert(out.samples[0] == buf[0] + (absolute - block_start) && out.samples[1] == buf[1] + (absolute - block_start), "output begins at the absolute time of the member in the block");
    vf_assert(out.size >= end - start && out.size <= block_end - absolute, "output block ends with the block");
    x->pos = end;
  }
  return (status);
}
/*@ {"property":"C05","entry":"h_group_seq","unwind":5,"quick":["-DNE=2 -DT=2 -DNB=2 -DDEPTH=1","-DNE=2 -DT=2 -DNB=1 -DDEPTH=2"],
 "thorough":["-DNE=2 -DT=3 -DNB=2 -DDEPTH=2","-DNE=3 -DT=2 -DNB=2 -DDEPTH=1","-DNE=2 -DT=3 -DNB=3 -DDEPTH=1"],
 "about":"a group with NE members with start and duration 0..T inside of DEPTH-1 other groups, sequenced in NB blocks of 1..T+1 samples from 0. all group starts and times are symbolic"} @*/
void h_group_seq(void) {
  sp_declare_event(e0);
  sp_event_t groups[DEPTH];
  sp_event_list_t* list = 0;
  buf[0] = vf_malloc(sizeof(sp_sample_t) * 16);
  buf[1] = vf_malloc(sizeof(sp_sample_t) * 16);
  /* member list in descending order, as sp_group_add creates it (h_group_add decides that it does) */
  sp_event_list_t* first = 0;
  sp_time_t end = 0;
  for (int i = 0; i < NE; i++) {
    ev_t* x = ev + i;
    sp_event_list_t* n = vf_malloc(sizeof(sp_event_list_t));
    n->event = e0;
    x->start = vf_uint(0, T);
    x->end = x->start + vf_uint(0, T);
    x->has_prepare = vf_bool();
    x->has_free = 1;
    if (x->end > end) end = x->end;
    n->event.start = x->start;
    n->event.end = x->end;
    n->event.config = x;
    n->event.generate = ev_generate;
    if (x->has_prepare) n->event.prepare = ev_prepare;
    else n->event.free = ev_free;
    n->previous = 0;
    n->next = first;
    if (first) {
      vf_assume(first->event.start <= n->event.start);
      first->previous = n;
    }
    first = n;
  }
  for (int d = 0; d < DEPTH; d++) {
    sp_event_t* g = groups + d;
    *g = e0;
    sp_group_event(g);
    g->start = vf_uint(0, T);
    g->end = g->start + end;
    g->config = first;
    shift += g->start;
    end = g->end;
    sp_event_list_t* n = vf_malloc(sizeof(sp_event_list_t));
    n->event = *g;
    n->previous = n->next = 0;
    first = n;
  }
  list = first;
  block_end = 0;
  for (int b = 0; b < NB; b++) {
    sp_block_t out = {.channel_count = 2};
    out.size = vf_uint(1, T + 1);
    block_start = block_end;
    block_end = block_start + out.size;
    out.samples[0] = buf[0];
    out.samples[1] = buf[1];
    status_t s = sp_seq(block_start, block_end, out, &list);
    vf_assert(!s.id, "succeeds");
    for (int i = 0; i < NE; i++) {
      ev_t* x = ev + i;
      sp_time_t a = shift + x->start;
      sp_time_t z = shift + x->end;
      sp_time_t expected = block_end <= a ? 0 : (block_end < z ? block_end : z) - a;
      vf_assert(x->pos == expected, "members sound at the sum of all enclosing starts");
    }
  }
  sp_event_list_free(&list);
  vf_assert(!list, "list is empty");
  vf_assert(vf_live == 2, "all memory is freed");
  for (int i = 0; i < NE; i++)
    vf_assert(ev[i].frees == (!ev[i].has_prepare || ev[i].prepares), "each member is freed once");
  vf_witness("end");
}
#endif
