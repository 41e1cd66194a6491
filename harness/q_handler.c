#include "vf.h"
#include "env.h"
#ifdef FIXED
#include "ring/fixed_msg_queue_handler.h"
typedef fixed_msg_queue_handler H;
typedef fixed_msg_t M;
typedef fixed_msg_queue_handler_init_param_t PARAM;
#define CREATE fixed_msg_queue_handler_create
#define PUSH fixed_msg_queue_handler_push
#define DESTROY fixed_msg_queue_handler_destroy
#define PAYLOAD(m) ((m)->obj.data)
#define PLEN(m) ((m)->obj.data_len)
#else
#include "ring/msg_queue_handler.h"
typedef msg_queue_handler H;
typedef queue_msg_t M;
typedef msg_queue_handler_init_param_t PARAM;
#define CREATE msg_queue_handler_create
#define PUSH msg_queue_handler_push
#define DESTROY msg_queue_handler_destroy
#define PAYLOAD(m) ((m)->obj)
#define PLEN(m) ((m)->obj_len)
#endif
#include "thread/portable_thread.h"
/* The worker thread is run as a function.  Wherever it sleeps (semaphore count
 * zero) and wherever the schedule bit says so, the user's next operation runs.
 * A worker that would sleep with nothing left to do is asleep for good: then
 * every accepted message must have been handled. */
#define MAXP 3
#define NM 8
static unsigned char body[NM][MAXP];
static int what[NM], a1[NM], a2[NM], plen[NM], cleared[NM], expect_to;
static unsigned pushed, handled, order[NM];
static void *(*worker)(void *);
static void *worker_arg;
static int sem_count, sem_live, thread_live, joined, started, stopped, in_worker, fail_create;
static H h;
static const char *script;
static unsigned mask;
static int bad_at;       /* the bad_at-th handled message makes the callback fail */
static int finished, asleep;
static int user;

int VF_STUB(portable_sem_init)(portable_sem_t *s, int sh, unsigned v) { VF_ASSERT(!sem_live, "one semaphore"); sem_live = 1; sem_count = (int)v; *s = &sem_count; return 0; }
int VF_STUB(portable_sem_destroy)(portable_sem_t *s) { VF_ASSERT(sem_live && *s == &sem_count, "a live semaphore is destroyed"); VF_ASSERT(!thread_live, "the semaphore outlives the worker"); sem_live = 0; *s = NULL; return 0; }
int VF_STUB(portable_sem_post)(portable_sem_t *s) { VF_ASSERT(sem_live && *s == &sem_count, "a live semaphore is posted"); sem_count++; return 0; }
static void user_step(void);
static void maybe_user(void) { int b = mask & 1; mask >>= 1; if (b) user_step(); }
static void end_path(void);
int VF_STUB(portable_sem_wait)(portable_sem_t *s) {
    VF_ASSERT(sem_live && *s == &sem_count, "a live semaphore is waited for");
    VF_ASSERT(in_worker, "only the worker sleeps");
    while (sem_count == 0 && !finished) {
        if (*script) user_step();
        else { asleep = 1; finished = 1; }
    }
    if (finished) {        /* asleep for good: what remains to be checked is checked, then the worker is told to stop */
        end_path();
        return 0;
    }
    sem_count--;
    return 0;
}
int VF_STUB(portable_thread_create)(portable_thread_t *t, const portable_thread_attr_t *a, void *(*f)(void *), void *arg) {
    if (fail_create) { *t = NULL; return -1; }
    worker = f; worker_arg = arg; thread_live = 1; *t = &worker; return 0;
}
int VF_STUB(portable_thread_join)(portable_thread_t t, void **r) {
    VF_ASSERT(t == (portable_thread_t)&worker && !joined, "the worker is joined once");
    joined = 1;
    if (!started) {
        /* the worker only gets to run now: it must see the request to stop and end without sleeping */
        VF_ASSERT(sem_count > 0, "destroy wakes the worker before waiting for it");
        in_worker = 1; started = 1;
        worker(worker_arg);
        in_worker = 0;
    } else if (asleep) VF_ASSERT(sem_count > 0, "destroy wakes a sleeping worker before waiting for it");
    thread_live = 0;
    return 0;
}
unsigned long VF_STUB(portable_thread_gettid)(void) { return 1; }
int VF_STUB(usleep)(unsigned us) { return 0; }

static int on_msg(M *m, void *u) {
    VF_ASSERT(in_worker && u == &user, "messages are handled by the worker, with the user's data");
    VF_ASSERT(started && !stopped, "messages are handled between the start and stop notices");
    while (handled < pushed && cleared[handled]) handled++;
    VF_ASSERT(handled < pushed, "only accepted messages are handled, each once, and none that was cleared");
    unsigned k = handled++;
    VF_ASSERT(m->what == what[k] && m->arg1 == a1[k] && m->arg2 == a2[k] && PLEN(m) == plen[k], "messages are handled in the order they were pushed, unchanged");
    for (int i = 0; i < plen[k]; i++) VF_ASSERT(PAYLOAD(m)[i] == (char)body[k][i], "payloads arrive unchanged");
    maybe_user();
    return bad_at && --bad_at == 0 ? 7 : 0;
}
static void on_status(msg_q_handler_status_e s, void *u) {
    VF_ASSERT(u == &user, "status notices carry the user's data");
    if (s == MSG_Q_HANDLER_STATUS_READY_TO_GO) { VF_ASSERT(!stopped && handled == 0, "ready comes first"); maybe_user(); }
    else { VF_ASSERT(!stopped, "stop is told once"); stopped = 1; }
}
static void do_push(int n) {
#ifdef FIXED
    static M mm;
    M *m = &mm;
#else
    static struct { M m; char room[MAXP]; } u;
    M *m = &u.m;
#endif
    m->what = nd_i32(); m->arg1 = nd_i32(); m->arg2 = nd_i32(); PLEN(m) = n;
    for (int i = 0; i < n; i++) PAYLOAD(m)[i] = nd_char();
    int p0 = sem_count, was_stopped = stopped;
    msg_q_code_e c = PUSH(h, m);
    if (c == MSG_Q_CODE_SUCCESS) {
        VF_ASSERT(!was_stopped, "nothing is accepted after the worker stopped");
        VF_ASSERT(sem_count == p0 + 1, "an accepted message wakes the worker");
        what[pushed] = m->what; a1[pushed] = m->arg1; a2[pushed] = m->arg2; plen[pushed] = n;
        for (int i = 0; i < n; i++) body[pushed][i] = (unsigned char)PAYLOAD(m)[i];
        pushed++;
    } else {
        VF_ASSERT(sem_count == p0, "a refused message wakes nobody");
        if (was_stopped) VF_ASSERT(c == MSG_Q_CODE_NULL_HANDLE, "pushing to a stopped worker is refused");
        else VF_ASSERT(c == MSG_Q_CODE_FULL, "a message is refused only when the queue is full");
    }
}
static void user_step(void) {
    char c = *script;
    if (!c) return;
    script++;
    int w = in_worker;
    in_worker = 0;
    if (c >= '0' && c <= '3') do_push(c - '0');
#ifdef FIXED
    else if (c == 'c') {
        fixed_msg_queue_handler_clear(h);
        for (unsigned i = handled; i < pushed; i++) cleared[i] = 1;
    }
#endif
    in_worker = w;
}
static int live0;
static void all_handled(void) {
    while (handled < pushed && cleared[handled]) handled++;
    VF_ASSERT(handled == pushed, "a worker goes to sleep only after handling every accepted message");
}
/* the worker sleeps: check, then let destruction be requested from the user's side; the
 * stop flag is what the woken worker sees next */
static void end_path(void) {
    all_handled();
    /* the worker's frame is below this one, so destroy() itself cannot be run to its end here;
     * make the worker leave through a failing callback instead */
    bad_at = 1; finished = 0; asleep = 0;
    in_worker = 0;
    do_push(0);
    in_worker = 1;
    VF_ASSERT(sem_count > 0, "the extra message is accepted after all others were handled");
    if (sem_count) sem_count--;
}
static void reset(void) {
    for (int i = 0; i < NM; i++) cleared[i] = 0;
    pushed = handled = 0; worker = NULL; sem_count = sem_live = thread_live = joined = started = stopped = in_worker = finished = asleep = 0;
}
static void run(unsigned m, int bad) {
    reset();
    script = SCRIPT; mask = m; bad_at = bad;
    PARAM p = {&user, on_msg, on_status};
    h = CREATE(QSIZE, &p);
    VF_ASSERT(h != NULL && thread_live && sem_live, "creation succeeds");
    for (int i = 0; i < EARLY; i++) user_step();      /* before the worker first runs */
    started = 1; in_worker = 1;
    worker(worker_arg);
    in_worker = 0;
    VF_ASSERT(stopped, "the stop notice is given");
    { int n0 = (int)pushed; do_push(0); VF_ASSERT((int)pushed == n0, "nothing is accepted after the worker stopped"); }
    DESTROY(&h);
    VF_ASSERT(h == NULL && joined && !sem_live && vf_live == 0, "destroy joins the worker and releases everything");
}
void h_worker(void) {
    for (unsigned m = 0; m < (1u << BITS); m++) run(m, BAD);
    VF_REACH("end");
}
/* destroy while the worker has not run yet, with messages waiting */
void h_destroy(void) {
    reset();
    script = SCRIPT; mask = 0; bad_at = 0;
    PARAM p = {&user, on_msg, on_status};
    h = CREATE(QSIZE, &p);
    VF_ASSERT(h != NULL, "creation succeeds");
    while (*script) user_step();
    DESTROY(&h);
    VF_ASSERT(h == NULL && joined && started && stopped && !sem_live && vf_live == 0, "destroy stops and joins the worker and releases everything");
    DESTROY(&h);
    DESTROY(NULL);
    VF_REACH("end");
}
void h_create(void) {
    reset();
    script = ""; mask = 0; bad_at = 0;
    PARAM p = {&user, on_msg, on_status}, none = {&user, NULL, on_status};
    M m;
    VF_ASSERT(PUSH(NULL, &m) != MSG_Q_CODE_SUCCESS, "NULL handler");
    VF_ASSERT(!CREATE(QSIZE, NULL) && !CREATE(QSIZE, &none) && !CREATE(1, &p) && vf_live == 0 && !sem_live, "useless parameters are refused without a leak");
    for (unsigned f = 0; f < 8; f++) {      /* f-th allocation refused; f = 1..: 6 and 7: the thread cannot be created */
        reset();
        fail_create = f >= 6;
        vf_fail_at = f >= 6 ? 0 : f;
        unsigned failed0 = vf_failed;
        h = CREATE(QSIZE, &p);
        int none_left = vf_fail_at != 0 || f == 0;
        int refused = vf_failed != failed0;
        VF_ASSERT((h != NULL) == (!fail_create && !refused), "creation fails exactly without memory or thread");
        if (!h) { vf_fail_at = 0; VF_ASSERT(vf_live == 0 && !sem_live && !thread_live, "failed creation releases everything"); continue; }
        /* what is left of vf_fail_at hits the worker's own allocations */
        if (none_left || vf_fail_at) do_push(0);
        DESTROY(&h);
        vf_fail_at = 0;
        VF_ASSERT(h == NULL && vf_live == 0 && !sem_live && !thread_live && stopped, "destroy releases everything");
    }
    fail_create = 0;
    /* the worker finds no memory when it starts: it stops, later messages are refused */
    reset();
    h = CREATE(QSIZE, &p);
    VF_ASSERT(h != NULL, "creation succeeds");
    vf_fail_at = 1;
    do_push(0);
#ifdef FIXED
    if (vf_fail_at == 1) vf_fail_at = 0;
#else
    started = 1; in_worker = 1; finished = 0;
    worker(worker_arg);
    in_worker = 0;
    vf_fail_at = 0;
    VF_ASSERT(stopped, "a worker without memory stops");
    { unsigned n0 = pushed; do_push(0); VF_ASSERT(pushed == n0, "a stopped worker accepts nothing"); }
#endif
    DESTROY(&h);
    VF_ASSERT(h == NULL && vf_live == 0 && !sem_live && !thread_live && stopped, "destroy releases everything");
    VF_REACH("end");
}
