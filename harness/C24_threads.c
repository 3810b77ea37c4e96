/* the queue, thread pool and futures */
#include "vf.h"
#ifndef W
#define W 1
#endif
#ifndef T
#define T 2
#endif
#ifndef AGAIN
#define AGAIN 0
#endif
#define TH_MAX (W * (1 + AGAIN))
#define ROUNDS (W + T + 1)
#define SLEEPS (T + 2)
#include "vf_threads.h"
/* accesses of the queue by the following code go through these */
static sph_queue_t* shared = 0;
static int locked(sph_queue_t* a) { return (a != shared || th_owner == th_current || !th_running()); }
static void q_enq(sph_queue_t* a, sph_queue_node_t* b) {
  if (th_ghost) return;
  vf_assert(locked(a), "the queue is changed by the owner of the mutex");
  sph_queue_enq(a, b);
}
static sph_queue_node_t* q_deq(sph_queue_t* a) {
  if (th_ghost) return (&th_ghost_task.q);
  vf_assert(locked(a), "the queue is changed by the owner of the mutex");
  vf_assert(a->size > 0, "no element is taken from the empty queue");
  vf_assume(a->size > 0);
  return (sph_queue_deq(a));
}
static void q_init(sph_queue_t* a) {
  if (th_ghost) return;
  vf_assert(locked(a), "the queue is changed by the owner of the mutex");
  sph_queue_init(a);
}
#define sph_queue_enq q_enq
#define sph_queue_deq q_deq
#define sph_queue_init q_init
#include "vf_repo.h"
#undef sph_queue_enq
#undef sph_queue_deq
#undef sph_queue_init
#ifndef OPS
#define OPS 5
#endif
/*@ {"property":"C24","entry":"h_queue","unwind":12,"quick":["-DOPS=6"],"thorough":["-DOPS=9"],
 "about":"every sequence of OPS additions and removals of the queue"} @*/
void h_queue(void) {
  sph_queue_t q;
  sph_queue_node_t nodes[OPS];
  int first = 0;
  int next = 0;
  sph_queue_init(&q);
  for (int i = 0; i < OPS; i++) {
    vf_assert(q.size == next - first, "size of the queue");
    if (vf_bool()) {
      for (int j = 0; j < OPS; j++)
        if (j == next) {
          sph_queue_enq(&q, nodes + j);
          break;
        }
      next += 1;
    }
    else if (q.size) {
      sph_queue_node_t* n = sph_queue_deq(&q);
      for (int j = 0; j < OPS; j++)
        if (j == first) vf_assert(n == nodes + j, "elements are returned in the order they were added");
      first += 1;
    }
  }
  vf_assert(q.size == next - first, "size of the queue");
  if (next > first + 1 && first) vf_witness("end");
  sph_queue_init(&q);
  vf_assert(!q.size, "the queue is emptied");
}
static sph_thread_pool_t pool;
static sph_thread_pool_task_t tasks[T + 1];
static int submitted = 0;
static int discarded = 0;
static int ran[T + 1];
static int order = 0;
static void task_f(sph_thread_pool_task_t* a) {
  if (th_ghost) return;
  vf_assert(th_owner != th_current, "tasks run while the mutex is free");
  for (int i = 0; i < T; i++)
    if (a == tasks + i) {
      vf_assert(a->data == ran + i, "the task is as it was submitted");
      vf_assert(!ran[i], "each task is executed once");
      if (1 == W) vf_assert(discarded || order == i, "one worker executes tasks in the order of their submission");
      ran[i] = 1;
      order += 1;
    }
}
static int futures = 0;
static sph_future_t future[T + 1];
static void* future_f(void* data) {
  if (th_ghost) return (0);
  for (int i = 0; i < T; i++)
    if (data == ran + i) {
      vf_assert(!ran[i], "each future is evaluated once");
      vf_assert(!future[i].finished, "a future is not finished before it was evaluated");
      ran[i] = 1;
    }
  return ((uint8_t*)data + 1);
}
static void th_client(void) {
  for (int i = 0; i < T; i++)
    if (i == submitted) {
      submitted += 1;
      if (futures) {
        future[i].finished = 1;
        sph_future_new(future_f, ran + i, future + i);
      }
      else {
        tasks[i].f = task_f;
        tasks[i].data = ran + i;
        sph_thread_pool_enqueue(&pool, tasks + i);
      }
      return;
    }
}
#ifndef FINISH
#define FINISH 0
#endif
/*@ {"property":"C24","entry":"h_pool","unwind":6,"partial":{"sph_thread_pool_worker":3},
 "quick":["-DW=1 -DT=2 -DPRE=1 -DSPURIOUS=1","-DW=2 -DT=1 -DSPURIOUS=1","-DW=2 -DT=0","-DW=3 -DT=0","-DW=2 -DT=2","-DW=1 -DT=1 -DFINISH=1","-DW=1 -DT=2 -DFINISH=2","-DW=1 -DT=1 -DAGAIN=1"],"thorough":["-DW=2 -DT=2 -DSPURIOUS=2 -DPRE=1","-DW=1 -DT=3 -DPRE=2 -DSPURIOUS=1","-DW=3 -DT=2","-DW=2 -DT=3"],
 "stubs":"threads are modelled as described in vf_threads.h",
 "about":"pools of W workers, T tasks, for every schedule with PRE preemptions and SPURIOUS spurious wake-ups. FINISH: 1 shutting down first without waiting, 2 discarding the queue. AGAIN: then started again"} @*/
static void pool_cycle(int again) {
  vf_assert(!sph_thread_pool_new(W, &pool), "starting succeeds");
  vf_assert(pool.size == W, "number of workers");
  for (int i = 0; i < W; i++) th_yield(0);
  for (int i = 0; i < T && !again; i++) {
    if (submitted < T) th_client();
    else th_yield(0);
  }
  if (T) th_yield(0);
  if (1 == FINISH) vf_assert(!sph_thread_pool_finish(&pool, 1, 0), "shutting down without waiting succeeds");
  if (2 == FINISH) discarded = 1;
  vf_assert(!sph_thread_pool_finish(&pool, 0, 2 == FINISH), "shutting down succeeds");
  for (int i = 0; i < T; i++) vf_assert(ran[i] || discarded, "each task is executed");
  vf_assert(th_released(), "threads and locks are released");
  vf_assert(!vf_live, "memory is released");
}
void h_pool(void) {
  shared = &pool.queue;
  pool_cycle(0);
  if (AGAIN) pool_cycle(1);
  vf_witness("end");
}
/*@ {"property":["C24","C22"],"entry":"h_fails","unwind":6,"partial":{"sph_thread_pool_worker":3},
 "quick":["-DW=1 -DT=1","-DW=2 -DT=0"],"thorough":["-DW=2 -DT=1","-DW=3 -DT=0"],
 "stubs":"threads are modelled as described in vf_threads.h",
 "about":"pools of W workers where creating any of the threads or any allocation while shutting down fails. shutting down is then tried again"} @*/
void h_fails(void) {
  shared = &pool.queue;
  th_create_fails_at = vf_int(-1, W);
  int fails = th_create_fails_at >= 0 && th_create_fails_at < W;
  int r = sph_thread_pool_new(W, &pool);
  vf_assert(!!r == fails, "failing to create a thread is reported");
  if (!r) {
    th_client();
    vf_fail_at = vf_int(-1, W - 1);
    int r = sph_thread_pool_finish(&pool, 0, 0);
    vf_assert(!!r == vf_failed, "failing to shut down is reported");
    if (r) {
      vf_assert(!th_released(), "the threads stay if shutting down fails");
      vf_assert(!sph_thread_pool_finish(&pool, 0, 0), "shutting down can be tried again");
    }
    for (int i = 0; i < T; i++) vf_assert(ran[i], "each task is executed");
    if (r) vf_witness("end");
  }
  vf_assert(th_released(), "threads and locks are released");
  vf_assert(!vf_live, "memory is released");
  if (r) vf_witness("not created");
}
/*@ {"property":"C24","entry":"h_future","unwind":6,"partial":{"sph_thread_pool_worker":3},
 "quick":["-DW=1 -DT=2 -DSPURIOUS=1","-DW=2 -DT=1"],"thorough":["-DW=2 -DT=2","-DW=1 -DT=2 -DPRE=1","-DW=1 -DT=3"],
 "stubs":"threads are modelled as described in vf_threads.h",
 "about":"T futures evaluated by W workers, for every schedule with PRE preemptions and SPURIOUS spurious wake-ups, touched in any order"} @*/
void h_future(void) {
  futures = 1;
  shared = &sph_futures_pool.queue;
  vf_assert(!sph_future_init(W), "initialising succeeds");
  vf_assert(!sph_future_init(W), "initialising again does nothing");
  th_yield(0);
  for (int i = 0; i < T; i++) {
    if (submitted < T) th_client();
    else th_yield(0);
  }
  int reverse = vf_bool();
  for (int i = 0; i < T; i++)
    for (int j = 0; j < T; j++)
      if (j == (reverse ? T - 1 - i : i)) {
        void* r = sph_future_touch(future + j);
        vf_assert(ran[j], "waiting returns after the evaluation");
        vf_assert(r == (uint8_t*)(ran + j) + 1, "result of the future");
      }
  sph_future_deinit();
  vf_assert(th_released() && !vf_live, "everything is released");
  sph_future_deinit();
  vf_witness("end");
}
