/* model of futures (C24 decides the real ones): the function of a future is executed once, at some point between its
   creation and the return of touch. the solver chooses when and in which order */
#ifdef VF_SCHED
#define VF_NOW VF_SCHED
#else
#define VF_NOW vf_bool()
#endif
#ifndef VF_TASKS
#define VF_TASKS 4
#endif
static sph_future_t* vf_tasks[VF_TASKS];
static uint8_t vf_task_done[VF_TASKS];
static uint8_t vf_task_count;
static sph_future_f_t vf_task_f[VF_TASKS];
static void* vf_task_data[VF_TASKS];
/* calls f with data. a harness can split cases, so that data is a constant in each */
static void* vf_call_task(sph_future_f_t f, void* data);
static void vf_run_task(int i) {
  vf_task_done[i] = 1;
  vf_task_data[i] = vf_call_task(vf_task_f[i], vf_task_data[i]);
}
static int vf_pending(void) {
  int n = 0;
  for (int i = 0; i < VF_TASKS; i++)
    if (i < vf_task_count && !vf_task_done[i]) n += 1;
  return (n);
}
int sph_future_init(sph_thread_pool_size_t thread_count) { return (0); }
void sph_future_deinit() {}
void sph_future_new(sph_future_f_t f, void* data, sph_future_t* out) {
  vf_assert(vf_task_count < VF_TASKS, "not more tasks than events");
  vf_task_f[vf_task_count] = f;
  vf_task_data[vf_task_count] = data;
  vf_tasks[vf_task_count] = out;
  vf_task_done[vf_task_count] = 0;
  vf_task_count += 1;
  /* any of the pending tasks may be executed directly after enqueuing */
  for (int i = 0; i < VF_TASKS; i++)
    if (i < vf_task_count && !vf_task_done[i] && VF_NOW) vf_run_task(i);
}
void* sph_future_touch(sph_future_t* a) {
  void* r = 0;
  int found = 0;
  int reverse = VF_NOW;
  for (int i = 0; i < VF_TASKS; i++)
    if (i < vf_task_count && vf_tasks[i] == a) found = 1;
  vf_assert(found, "only existing futures are waited for");
  if (!reverse) {
    for (int i = 0; i < VF_TASKS; i++)
      if (i < vf_task_count && !vf_task_done[i] && (vf_tasks[i] == a || VF_NOW)) vf_run_task(i);
  } else {
    for (int i = VF_TASKS - 1; i >= 0; i--)
      if (i < vf_task_count && !vf_task_done[i] && (vf_tasks[i] == a || VF_NOW)) vf_run_task(i);
  }
  for (int i = 0; i < VF_TASKS; i++)
    if (i < vf_task_count && vf_tasks[i] == a) r = vf_task_data[i];
  return (r);
}
