/* memory registered with events */
#ifndef OPS
#define VF_PICK
#endif
#include "vf.h"
/* calls and the definition of the real function are renamed, the address that the library stores refers to
   a guard that calls it. the guard keeps cbmc from considering it recursively as a release handler */
#define sp_event_memory_free(a) vf_memory_free(a)
struct sp_event_t;
static void (sp_event_memory_free)(struct sp_event_t* a);
#include "vf_repo.h"
VF_PICK_FUNCTION(VF_CASES(0, VF_UNIT_MAX, memreg2_t))
VF_RESIZE_FUNCTION(VF_UNIT_MAX, memreg2_t)
#ifndef N
#define N 6
#endif
#ifndef NOPS
#define NOPS 6
#endif
static uint8_t cells[N];
static uint8_t released[N];
static uint8_t handler_of[N];
static int count;
static void release(int h, void* a) {
  int found = 0;
  for (int i = 0; i < N; i++)
    if (a == cells + i) {
      found = 1;
      vf_assert(i < count, "only registered addresses are released");
      vf_assert(handler_of[i] == h, "address is released with its own handler");
      vf_assert(!released[i], "address is released at most once");
      released[i] = 1;
    }
  vf_assert(found, "only registered addresses are released");
}
static void h0(void* a) { release(0, a); }
static void h1(void* a) { release(1, a); }
static sp_event_t* event;
static int freeing;
static void guarded_free(sp_event_t* a) {
  vf_assert(a == event && !freeing, "the free routine is called with the event");
  if (freeing) return;
  freeing = 1;
  vf_memory_free(event);
  freeing = 0;
}
static void(sp_event_memory_free)(sp_event_t* a) { guarded_free(a); }
static void own_free(sp_event_t* a) { guarded_free(a); }
/*@ {"property":"C04","entry":"h_memory","unwind":12,"quick":["-DN=9 -DNOPS=9 -DOPS=444444444","-DN=7 -DNOPS=4 -DOPS=3434","-DN=8 -DNOPS=5 -DOPS=40314","-DN=8 -DNOPS=4 -DOPS=0324","-DN=8 -DNOPS=5 -DOPS=44442"],
 "thorough":["-DN=3 -DNOPS=1 -DVF_UNIT_MAX=8","-DN=4 -DNOPS=2 -DVF_UNIT_MAX=8","unwind=20 -DN=18 -DNOPS=18 -DOPS=444444444444444444","unwind=20 -DN=18 -DNOPS=6 -DOPS=333333","unwind=20 -DN=17 -DNOPS=9 -DOPS=434443303"],
 "about":"NOPS operations that each reserve space for 0..3 and register that many addresses in it, or register one address with automatic growth (at most N addresses). with OPS the operations are fixed by digits (0..3 reserve, 4 register), otherwise they are symbolic, as are the handlers and whether the event has a free routine of its own"} @*/
#ifdef OPS
#define str(x) #x
#define xstr(x) str(x)
#define OP(o) (xstr(OPS)[o] - '0')
#endif
void h_memory(void) {
  sp_declare_event(e);
  int preset = vf_bool();
  event = &e;
  int any = 0;
  if (preset) e.free = own_free;
  for (int o = 0; o < NOPS; o++) {
#ifdef OPS
    uint32_t n = OP(o);
#else
    uint32_t n = vf_uint(0, 4);
#endif
    if (n < 4) {
      status_t s = sp_event_memory_ensure(&e, n);
      vf_assert(!s.id, "succeeds");
      any = 1;
      for (uint32_t i = 0; i < 3; i++)
        if (i < n && count < N) {
          int h = vf_bool();
          handler_of[count] = h;
          vf_assert(e.memory.used < e.memory.size, "reserved space is available");
          sp_event_memory_fixed_add_with_handler(&e, cells + count, h ? h1 : h0);
          count += 1;
        }
    } else if (count < N) {
      int h = vf_bool();
      any = 1;
      handler_of[count] = h;
      status_t s = sp_event_memory_add_with_handler(&e, cells + count, h ? h1 : h0);
      vf_assert(!s.id, "succeeds");
      count += 1;
    }
  }
  vf_assert(vf_live == any, "one register per event");
  if (any) vf_assert(e.free == (preset ? own_free : sp_event_memory_free), "event gets a free routine, or keeps its own");
  for (int i = 0; i < N; i++) vf_assert(!released[i], "nothing is released before the event is freed");
  if (e.free) (e.free)(&e);
  for (int i = 0; i < N; i++) vf_assert(released[i] == (i < count), "every registered address is released");
  vf_assert(!vf_live, "the register itself is released");
  sp_event_memory_free(&e);
  vf_assert(!vf_live && !e.memory.data, "freeing again does nothing");
  /* the event can be used again */
  count = 0;
  for (int i = 0; i < N; i++) released[i] = 0;
  handler_of[0] = 1;
  status_t s = sp_event_memory_add_with_handler(&e, cells, h1);
  vf_assert(!s.id, "succeeds");
  count = 1;
  sp_event_memory_free(&e);
  vf_assert(released[0] && !vf_live, "memory can be registered again");
  vf_witness("end");
}
