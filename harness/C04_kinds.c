/* memory registered with events of the kinds that the library provides */
#define VF_PICK
#include "vf.h"
#include "vf_repo.h"
VF_PICK_FUNCTION(VF_CASES(0, 8, memreg2_t) VF_CASES(1, 1, sp_event_list_t))
VF_RESIZE_FUNCTION(8, memreg2_t)
#ifndef KIND
#define KIND 0
#endif
#define N 3
#define EVENTS 3
/* cells[e][i]: i-th address of event e (0: outermost) */
static uint8_t cells[EVENTS][N];
static uint8_t released[EVENTS][N];
static uint8_t registered[EVENTS];
static void release(int h, void* a) {
  for (int e = 0; e < EVENTS; e++)
    for (int i = 0; i < N; i++)
      if (a == cells[e] + i) {
        vf_assert(i < registered[e], "only registered addresses are released");
        vf_assert(h == ((e + i) & 1), "address is released with its own handler");
        vf_assert(!released[e][i], "address is released at most once");
        released[e][i] = 1;
        return;
      }
  vf_assert(0, "only registered addresses are released");
}
static void h0(void* a) { release(0, a); }
static void h1(void* a) { release(1, a); }
static void add(sp_event_t* e, int id, int n) {
  status_t s;
  for (int i = 0; i < n; i++) {
    s = sp_event_memory_add_with_handler(e, cells[id] + registered[id], ((id + registered[id]) & 1) ? h1 : h0);
    vf_assert(!s.id, "succeeds");
    registered[id] += 1;
  }
}
static status_t generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  return (status);
}
static status_t map_generate(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* s) {
  status_declare;
  return (status);
}
static sp_map_event_config_t config;
/* before: addresses registered with the outer event before it is made an event of its kind,
   after: registered after that, late: registered after preparing, prepare: whether the event is prepared,
   inner: addresses of the inner events */
static void run(int before, int after, int late, int prepare, int inner) {
  sp_declare_event(outer);
  sp_event_t* op = &outer;
  sp_map_event_config_t* cp = &config;
  status_t s;
  add(&outer, 0, before);
#if KIND == 0 || KIND == 1
  config.event.generate = generate;
  config.event.end = 2;
  add(&config.event, 1, inner);
  config.isolate = KIND;
  config.map_generate = map_generate;
  sp_map_event(op, cp);
#else
  sp_declare_event(a);
  sp_declare_event(b);
  sp_event_t* gp;
  a.generate = b.generate = generate;
  a.end = 2;
  b.start = 1;
  b.end = 2;
  add(&a, 1, inner);
  add(&b, 2, inner > 1);
#if KIND == 2
  gp = op;
#elif KIND == 3
  gp = &config.event;
  config.map_generate = map_generate;
  sp_map_event(op, cp);
#endif
  sp_group_event(gp);
  s = sp_group_add(gp, a);
  vf_assert(!s.id, "succeeds");
  s = sp_group_append(gp, b);
  vf_assert(!s.id, "succeeds");
#endif
  add(&outer, 0, after);
  if (prepare) {
    s = (outer.prepare)(&outer);
    vf_assert(!s.id, "succeeds");
    add(&outer, 0, late);
  }
  for (int e = 0; e < EVENTS; e++)
    for (int i = 0; i < N; i++) vf_assert(!released[e][i], "nothing is released before the event is freed");
  vf_assert(outer.free != 0, "event has a free routine");
  sp_event_free(outer);
  for (int e = 0; e < EVENTS; e++)
    for (int i = 0; i < N; i++) vf_assert(released[e][i] == (i < registered[e]), "everything that is registered with an event of any kind is released with it");
  vf_assert(!vf_live, "the registers are released");
  vf_assert(!outer.free, "the event is marked as freed");
  vf_witness("end");
}
/*@ {"property":"C04","entry":"h_kinds","unwind":10,
 "quick":["-DKIND=0","-DKIND=1","-DKIND=2","-DKIND=3"],
 "about":"map events (KIND 0, isolated 1), groups (2) and map events with groups (3), up to one address registered with them before they are set up, after it, and after preparing, prepared or not, and up to 2 addresses registered with the inner events"} @*/
void h_kinds(void) {
  uint8_t c = vf_u8();
  for (int before = 0; before < 2; before++)
    for (int after = 0; after < 2; after++)
      for (int late = 0; late < 2; late++)
        for (int inner = 0; inner < 3; inner++)
          if (c == (((before * 2 + after) * 2 + late) * 3 + inner)) {
            run(before, after, late, 1, inner);
            return;
          }
  for (int before = 0; before < 2; before++)
    for (int after = 0; after < 2; after++)
      if (c == 24 + before * 2 + after) {
        run(before, after, 0, 0, 1);
        return;
      }
}
