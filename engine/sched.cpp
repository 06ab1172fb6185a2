// Controlled execution of real threads: one runs at a time, and every choice of the next one is
// asked from the runtime (an arbitrary value when exploring, the recorded one when replaying).
// Compiled without any instrumentation, linked with --wrap for the functions below.
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <linux/futex.h>
#include <malloc.h>
#include <sched.h>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <signal.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
extern "C" {
uint32_t vp_sched_choose(uint32_t n);
void vp_sched_event(uint32_t kind, uint32_t tid, uint64_t obj); // see rt_sched.inc
void vp_sched_deadlock(void);
}
enum { EV_SWITCH, EV_LOCK, EV_UNLOCK, EV_FORK, EV_START, EV_END, EV_JOIN };
enum { MAXT = 64, MAXM = 256 };
struct State { // as std::thread::_State
    virtual ~State();
    virtual void run() = 0;
};
struct Th {
    volatile int go; // futex
    volatile int done;
    int waitMutex, waitJoin, waitCond;
    State* state;
    pthread_t id;
};
static Th T[MAXT];
static int nT = 1;
static bool on = false;
static int preemptions = 0, maxPreempt = 0;
static __thread int me __attribute__((tls_model("local-exec"))) = 0;
struct Mx {
    const void* m;
    int owner; // -1: free
};
static Mx M[MAXM];
static int nM = 0;
static int mx(const void* m)
{
    for (int i = 0; i < nM; i++)
        if (M[i].m == m) return i;
    if (nM == MAXM) abort();
    M[nM] = {m, -1};
    return nM++;
}
static bool enabled(int t)
{
    if (T[t].done) return false;
    if (T[t].waitCond) return false;
    if (T[t].waitMutex >= 0) return M[T[t].waitMutex].owner < 0;
    if (T[t].waitJoin >= 0) return T[T[t].waitJoin].done;
    return true;
}
static void wake(int t)
{
    __atomic_store_n(&T[t].go, 1, __ATOMIC_SEQ_CST);
    syscall(SYS_futex, &T[t].go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static int exiting;
static void waitGo(int t)
{
    while (!__atomic_load_n(&T[t].go, __ATOMIC_SEQ_CST)) syscall(SYS_futex, &T[t].go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&T[t].go, 0, __ATOMIC_SEQ_CST);
}
static void park(int t)
{
    sigset_t s, o;
    sigemptyset(&s);
    sigaddset(&s, SIGALRM);
    pthread_sigmask(SIG_BLOCK, &s, &o);
    waitGo(t);
    // a thread that ended is gone before the next one goes on: allocations happen in one order
    if (int x = __atomic_exchange_n(&exiting, 0, __ATOMIC_SEQ_CST))
        while (!syscall(SYS_tgkill, getpid(), x, 0)) sched_yield();
    pthread_sigmask(SIG_SETMASK, &o, 0);
}
// Hand over to any thread that can run; the current one goes on without cost.
static void point(bool parkMe = true)
{
    int e[MAXT], n = 0;
    bool self = enabled(me);
    if (self) e[n++] = me;
    if (!self || preemptions < maxPreempt)
        for (int t = 0; t < nT; t++)
            if (t != me && enabled(t)) e[n++] = t;
    if (!n) {
        vp_sched_deadlock();
        _exit(1);
    }
    int c = n > 1 ? e[vp_sched_choose(n)] : e[0];
    if (c == me) return;
    if (self) preemptions++;
    vp_sched_event(EV_SWITCH, c, 0);
    int m = me;
    wake(c);
    if (parkMe) park(m);
}
extern "C" {
void vp_sched_enable(int p)
{
    if (!on) mallopt(M_ARENA_MAX, 1);
    on = true;
    maxPreempt = p;
    preemptions = 0;
    for (auto& t : T) t.waitMutex = t.waitJoin = -1;
}
void vp_sched_disable(void) { on = false; }
int vp_sched_tid(void) { return me; }
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
static void acquire(pthread_mutex_t* m)
{
    int i = mx(m);
    T[me].waitMutex = i;
    point();
    T[me].waitMutex = -1;
    M[i].owner = me;
    __real_pthread_mutex_lock(m);
    vp_sched_event(EV_LOCK, me, (uint64_t)m);
}
static void release(pthread_mutex_t* m)
{
    vp_sched_event(EV_UNLOCK, me, (uint64_t)m);
    M[mx(m)].owner = -1;
    __real_pthread_mutex_unlock(m);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!on) return __real_pthread_mutex_lock(m);
    if (M[mx(m)].owner == me) return __real_pthread_mutex_lock(m); // recursive
    acquire(m);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!on) return __real_pthread_mutex_unlock(m);
    release(m);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!on) return __real_pthread_mutex_trylock(m);
    point();
    int i = mx(m);
    if (M[i].owner >= 0) return 16 /* EBUSY */;
    M[i].owner = me;
    __real_pthread_mutex_trylock(m);
    vp_sched_event(EV_LOCK, me, (uint64_t)m);
    return 0;
}
// Runs as the destructor of a thread specific value: after those of thread_local objects.
static void ended(void*)
{
    vp_sched_event(EV_END, me, 0);
    T[me].done = 1;
    __atomic_store_n(&exiting, (int)syscall(SYS_gettid), __ATOMIC_SEQ_CST);
    point(false);
}
static pthread_key_t endKey;
static void* entry(void* p)
{
    me = (int)(intptr_t)p;
    pthread_setspecific(endKey, p);
    park(me);
    vp_sched_event(EV_START, me, 0);
    T[me].state->run();
    delete T[me].state;
    return nullptr;
}
#define START _ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(__real_, START)(pthread_t*, State**, void (*)());
void CAT(__wrap_, START)(pthread_t* th, State** st, void (*d)())
{
    if (!on) return CAT(__real_, START)(th, st, d);
    if (nT == MAXT) abort();
    if (nT == 1) pthread_key_create(&endKey, ended);
    int t = nT;
    T[t].waitMutex = T[t].waitJoin = -1;
    T[t].state = *st;
    *st = nullptr;
    nT++;
    vp_sched_event(EV_FORK, me, t);
    if (pthread_create(th, nullptr, entry, (void*)(intptr_t)t)) abort();
    T[t].id = *th;
    point();
}
void __real__ZNSt6thread4joinEv(pthread_t*);
void __wrap__ZNSt6thread4joinEv(pthread_t* th)
{
    if (on)
        for (int t = nT - 1; t > 0; t--) // identifiers are reused: the latest
            if (T[t].id == *th) {
                T[me].waitJoin = t;
                point();
                T[me].waitJoin = -1;
                vp_sched_event(EV_JOIN, me, t);
                break;
            }
    __real__ZNSt6thread4joinEv(th);
}
// condition variables: waits end only when notified
#define CVWAIT _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE
void CAT(__real_, CVWAIT)(void*, std::unique_lock<std::mutex>*);
void CAT(__wrap_, CVWAIT)(void* c, std::unique_lock<std::mutex>* l)
{
    if (!on) return CAT(__real_, CVWAIT)(c, l);
    auto* m = l->mutex()->native_handle();
    release(m);
    T[me].waitCond = (int)((uint64_t)c >> 3 & 0x3fffffff) | 1;
    point();
    acquire(m);
}
static void notify(void* c, bool all)
{
    int k = (int)((uint64_t)c >> 3 & 0x3fffffff) | 1;
    for (int t = 0; t < nT; t++)
        if (T[t].waitCond == k) {
            T[t].waitCond = 0;
            if (!all) break;
        }
}
void __real__ZNSt18condition_variable10notify_oneEv(void*);
void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) { on ? notify(c, false) : __real__ZNSt18condition_variable10notify_oneEv(c); }
void __real__ZNSt18condition_variable10notify_allEv(void*);
void __wrap__ZNSt18condition_variable10notify_allEv(void* c) { on ? notify(c, true) : __real__ZNSt18condition_variable10notify_allEv(c); }
// Insertions and removals in trees happen in the C++ library, where no access is observed.
void vp_sched_touch(void* p, uint32_t n, uint32_t write);
#define RBI _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_
#define RBE _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_
void CAT(__real_, RBI)(bool, void*, void*, void*);
void CAT(__wrap_, RBI)(bool l, void* x, void* p, void* h)
{
    if (on) {
        vp_sched_touch(p, 32, 1);
        vp_sched_touch(h, 32, 1);
        vp_sched_touch(x, 32, 1);
    }
    CAT(__real_, RBI)(l, x, p, h);
}
void* CAT(__real_, RBE)(void*, void*);
void* CAT(__wrap_, RBE)(void* z, void* h)
{
    if (on) {
        vp_sched_touch(h, 32, 1);
        vp_sched_touch(z, 32, 1);
    }
    return CAT(__real_, RBE)(z, h);
}
}
