/* event lists: every sequence of additions and removals, then reversal, removals and freeing */
#include "vf.h"
#include "vf_repo.h"
#ifndef N
#define N 3
#endif
#ifndef BASE
#define BASE 0
#endif
#ifndef S
#define S 2
#endif
static uint8_t freed[N];
static uint8_t ids[N];
static void ev_free(sp_event_t* e) {
  uint8_t i = *((uint8_t*)(e->config));
  vf_assert(!freed[i], "event is freed at most once");
  freed[i] += 1;
  e->free = 0;
}
/* the expected content, in list order */
static uint8_t model[N];
static int model_size;
static uint32_t starts[N];
static uint32_t ends[N];
static uint8_t has_free[N];
static void check(sp_event_list_t* a) {
  sp_event_list_t* previous = 0;
  for (int i = 0; i < N; i++) {
    if (i >= model_size) break;
    vf_assert(a != 0, "no event is missing");
    uint8_t id = model[i];
    vf_assert(a->event.config == ids + id, "events are in order");
    vf_assert(a->event.start == starts[id] && a->event.end == ends[id] && (a->event.free == ev_free) == has_free[id], "event is kept as added");
    vf_assert(a->previous == previous, "linked to the previous element");
    previous = a;
    a = a->next;
  }
  vf_assert(!a, "nothing else is in the list");
  vf_assert(vf_live == model_size, "memory of removed elements is freed");
}
static void model_remove(int k) {
  model_size -= 1;
  for (int i = 0; i < N - 1; i++)
    if (i >= k && i < model_size) model[i] = model[i + 1];
}
static sp_event_list_t* nth(sp_event_list_t* a, int k) {
  for (int i = 0; i < N; i++)
    if (i < k) a = a->next;
  return (a);
}
static void add(sp_event_list_t** list, int id) {
  sp_event_t e = {0};
  ids[id] = id;
  starts[id] = e.start = BASE + vf_uint(0, S);
  ends[id] = e.end = e.start + vf_uint(0, S);
  has_free[id] = vf_bool();
  e.config = ids + id;
  if (has_free[id]) e.free = ev_free;
  status_t s = sp_event_list_add(list, e);
  vf_assert(!s.id, "succeeds");
  /* descending by start, later additions before earlier ones of equal start */
  int k = model_size;
  for (int i = N - 1; i >= 0; i--)
    if (i < model_size && starts[model[i]] <= e.start) k = i;
  for (int i = N - 1; i > 0; i--)
    if (i > k && i <= model_size) model[i] = model[i - 1];
  model[k] = id;
  model_size += 1;
}
static void remove_one(sp_event_list_t** list) {
  if (!model_size || !vf_bool()) return;
  int k = vf_uint(0, N - 1);
  vf_assume(k < model_size);
  uint8_t id = model[k];
  sp_event_list_remove(list, nth(*list, k));
  vf_assert(freed[id] == has_free[id], "the removed event is freed");
  model_remove(k);
  int sum = 0;
  check(*list);
}
static int present(uint8_t id) {
  for (int i = 0; i < N; i++)
    if (i < model_size && model[i] == id) return (1);
  return (0);
}
/*@ {"property":"C03","entry":"h_list","unwind":8,"quick":["-DN=3 -DBASE=0","-DN=2 -DS=1 -DBASE=4294967290u"],"thorough":["-DN=4 -DS=2 -DBASE=0"],
 "about":"N additions with start 0..S, each followed by an optional removal of any element, a reversal, up to two removals of any element, freeing"} @*/
void h_list(void) {
  sp_event_list_t* list = 0;
  for (int i = 0; i < N; i++) {
    add(&list, i);
    check(list);
    if (i != N - 1) remove_one(&list);
  }
  sp_event_list_reverse(&list);
  for (int i = 0; i < N / 2; i++) {
    int j = model_size - 1 - i;
    if (i < j) {
      uint8_t t = model[i];
      model[i] = model[j];
      model[j] = t;
    }
  }
  check(list);
  for (int i = 0; i < 2; i++) remove_one(&list);
  for (int i = 0; i < N; i++) vf_assert(freed[i] == (has_free[i] && !present(i)), "only removed events are freed");
  sp_event_list_free(&list);
  vf_assert(!list && !vf_live, "freeing releases everything and leaves the empty list");
  for (int i = 0; i < N; i++) vf_assert(freed[i] == has_free[i], "every event is freed exactly once");
  vf_witness("end");
}
/*@ {"property":"C03","entry":"h_empty","unwind":4,"quick":[""],"about":"the empty list"} @*/
void h_empty(void) {
  sp_event_list_t* list = 0;
  sp_event_list_reverse(&list);
  vf_assert(!list, "reversed empty list is empty");
  sp_event_list_free(&list);
  vf_assert(!list && !vf_live, "freeing the empty list");
  vf_witness("end");
}
