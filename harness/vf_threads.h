/* a model of threads for a pool of workers that wait on one mutex and one condition.

   a worker runs until it waits or until it comes again to the first lock of its routine, where it can be suspended.
   other workers and the client run in between (at each unlock of a worker at most PRE times, one level deep) and at the
   points where the client unlocks, joins, or sleeps. which worker runs, which one a signal wakes up and whether
   a wake-up is spurious (at most SPURIOUS times) is chosen by the solver.
   to continue a suspended worker its routine is executed from the begin, as both points where it can
   be suspended are followed by nothing but the same lock (and the waiting is on a condition that is checked again).

   in the encoding, a suspended worker continues as a ghost: the synchronisation calls return from the calling function,
   queue operations give a task that does nothing, and the loop of the routine ends at its bound.
   natively, longjmp is used */
#include <sph/queue.h>
#include <sph/thread-pool.h>
#ifndef PRE
#define PRE 0
#endif
#ifndef SPURIOUS
#define SPURIOUS 0
#endif
#ifndef TH_MAX
#define TH_MAX 2
#endif
/* how often the client lets a worker run while it waits for one to exit, and how often while it sleeps */
#ifndef ROUNDS
#define ROUNDS 4
#endif
#ifndef SLEEPS
#define SLEEPS 3
#endif
enum { th_none, th_ready, th_waiting, th_exited };
static int th_state[TH_MAX + 1];
static int th_joined[TH_MAX + 1];
static void* (*th_f[TH_MAX + 1])(void*);
static void* th_data[TH_MAX + 1];
static int th_count = 0;
static int th_current = 0;
static int th_ghost = 0;
static int th_depth = 0;
static int th_top = 0;
static int th_pre = PRE;
static int th_spurious = SPURIOUS;
static int th_owner = -1;
static int th_mutexes = 0;
static int th_conds = 0;
static int th_attrs = 0;
static int th_create_fails_at = -1;
static int th_creates = 0;
static void th_client(void);
static void th_ghost_f(sph_thread_pool_task_t* a) {}
static sph_thread_pool_task_t th_ghost_task = {{0}, th_ghost_f, 0};
#ifdef VF_CBMC
#define TH_SUSPEND(call) ({ if (call) return ((void*)&th_ghost_task); 0; })
static int th_away(void) {
  th_ghost = 1;
  return (1);
}
static void th_run(int w) {
  int current = th_current;
  int ghost = th_ghost;
  int top = th_top;
  th_current = w;
  th_ghost = 0;
  th_ghost_task.f = th_ghost_f;
  th_top = 0;
  (th_f[w])(th_data[w]);
  if (!th_ghost) th_state[w] = th_exited;
  th_current = current;
  th_ghost = ghost;
  th_top = top;
}
#else
#include <setjmp.h>
static jmp_buf* th_jump;
#define TH_SUSPEND(call) call
static int th_away(void) { longjmp(*th_jump, 1); }
static void th_run(int w) {
  int current = th_current;
  int top = th_top;
  jmp_buf* jump = th_jump;
  jmp_buf here;
  th_current = w;
  th_top = 0;
  th_jump = &here;
  if (!setjmp(here)) {
    (th_f[w])(th_data[w]);
    th_state[w] = th_exited;
  }
  th_current = current;
  th_top = top;
  th_jump = jump;
}
#endif
/* run one of the workers other than the current one, or none */
static void th_yield(int other) {
  int c = vf_int(0, TH_MAX);
  for (int w = 1; w <= TH_MAX; w++)
    if (c == w && w != other && th_state[w] == th_ready) {
      th_run(w);
      return;
    }
}
/* the client can not continue without the workers */
static void th_block(void) {
  int ready = 0;
  for (int w = 1; w <= TH_MAX; w++) ready = ready || th_state[w] == th_ready;
  vf_assert(ready, "waiting does not hang");
  vf_assume(ready);
  int c = vf_int(1, TH_MAX);
  for (int w = 1; w <= TH_MAX; w++) {
    if (c == w) vf_assume(th_state[w] == th_ready);
    if (c == w) {
      th_run(w);
      return;
    }
  }
}
/* others run while a worker does not hold the mutex */
static void th_preempt(void) {
  if (!PRE || th_depth) return;
  if (!th_current || th_pre <= 0 || !vf_bool()) return;
  int current = th_current;
  th_pre -= 1;
  th_depth = 1;
  if (vf_bool()) {
    int top = th_top;
    th_current = 0;
    th_client();
    th_current = current;
    th_top = top;
  }
  else
    th_yield(current);
  th_depth = 0;
}
static int th_lock(int line) {
  if (th_ghost) return (1);
  vf_assert(th_mutexes == 1, "the mutex is initialised");
  if (th_current) {
    if (!th_top) th_top = line;
    else if (th_top == line) {
      th_state[th_current] = th_ready;
      return (th_away());
    }
    th_preempt();
  }
  vf_assert(th_owner == -1, "no deadlock");
  th_owner = th_current;
  return (0);
}
static int th_unlock(void) {
  if (th_ghost) return (0);
  vf_assert(th_owner == th_current, "unlocked by the owner");
  th_owner = -1;
  if (th_current) th_preempt();
  else if (!th_depth) th_yield(0);
  return (0);
}
static int th_wait(void) {
  if (th_ghost) return (1);
  vf_assert(th_conds == 1 && th_owner == th_current, "waits with the mutex locked");
  vf_assume(th_current);
  th_owner = -1;
  if (SPURIOUS && th_spurious > 0 && vf_bool()) {
    th_spurious -= 1;
    th_preempt();
    th_owner = th_current;
    return (0);
  }
  th_state[th_current] = th_waiting;
  return (th_away());
}
static int th_signal(int all) {
  int woken = 0;
  if (th_ghost) return (0);
  vf_assert(th_conds == 1, "the condition is initialised");
  for (int w = 1; w <= TH_MAX; w++)
    if (th_state[w] == th_waiting && (all || (!woken && vf_bool()))) {
      th_state[w] = th_ready;
      woken = 1;
    }
  for (int w = 1; w <= TH_MAX; w++)
    if (!woken && th_state[w] == th_waiting) {
      th_state[w] = th_ready;
      woken = 1;
    }
  return (0);
}
static int th_create(pthread_t* t, void* (*f)(void*), void* data) {
  if (th_creates == th_create_fails_at) {
    th_creates += 1;
    return (EAGAIN);
  }
  th_creates += 1;
  vf_assert(th_count < TH_MAX, "number of threads");
  vf_assume(th_count < TH_MAX);
  th_count += 1;
  th_f[th_count] = f;
  th_data[th_count] = data;
  th_state[th_count] = th_ready;
  *t = th_count;
  return (0);
}
static int th_join(pthread_t t) {
  int w = t;
  vf_assert(w > 0 && w <= th_count && !th_joined[w], "joins a thread once");
  vf_assume(w > 0 && w <= TH_MAX);
  vf_assert(th_owner == -1, "the mutex is free while joining");
  for (int i = 0; i < ROUNDS && th_state[w] != th_exited; i++) th_block();
  /* bound */
  vf_assume(th_state[w] == th_exited);
  th_joined[w] = 1;
  return (0);
}
static int th_exit(void) {
  if (th_ghost) return (0);
  vf_assert(th_owner != th_current, "does not hold the mutex when it exits");
  th_state[th_current] = th_exited;
  return (th_away());
}
/* nothing of the threads remains */
static int th_released(void) {
  int r = th_mutexes == 0 && th_conds == 0 && th_attrs == 0;
  for (int w = 1; w <= TH_MAX; w++) r = r && (th_state[w] == th_none || (th_state[w] == th_exited && th_joined[w]));
  return (r);
}
static int th_running(void) {
  int r = 0;
  for (int w = 1; w <= TH_MAX; w++) r = r || th_state[w] == th_ready || th_state[w] == th_waiting;
  return (r);
}
static int th_count_change(int* a, int n) {
  if (th_ghost) return (0);
  vf_assert(n > 0 ? *a == 0 : *a == 1 && !th_running(), "initialised and destroyed in turn and not while in use");
  *a += n;
  return (0);
}
static int th_sleeps = 0;
static int th_sleep(void) {
  /* bound */
  vf_assume(!th_current && th_sleeps < SLEEPS);
  th_sleeps += 1;
  th_block();
  return (0);
}
static int th_detach(int s) {
  vf_assert(s == PTHREAD_CREATE_JOINABLE, "threads are joinable");
  return (0);
}
#define pthread_mutex_lock(m) TH_SUSPEND(th_lock(__LINE__))
#define pthread_mutex_unlock(m) th_unlock()
#define pthread_mutex_init(m, a) th_count_change(&th_mutexes, 1)
#define pthread_mutex_destroy(m) th_count_change(&th_mutexes, -1)
#define pthread_cond_wait(c, m) TH_SUSPEND(th_wait())
#define pthread_cond_signal(c) th_signal(0)
#define pthread_cond_broadcast(c) th_signal(1)
#define pthread_cond_init(c, a) th_count_change(&th_conds, 1)
#define pthread_cond_destroy(c) th_count_change(&th_conds, -1)
#define pthread_attr_init(a) (th_attrs += 1, 0)
#define pthread_attr_destroy(a) (th_attrs -= 1, 0)
#define pthread_attr_setdetachstate(a, s) th_detach(s)
#define pthread_create(t, a, f, d) th_create(t, (void* (*)(void*))f, d)
#define pthread_join(t, r) th_join(t)
#define pthread_exit(r) th_exit()
#define nanosleep(a, b) th_sleep()
