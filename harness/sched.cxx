#include "sched.hxx"
#include <pthread.h>
#include <semaphore.h>
#include <csetjmp>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <random>
#include <algorithm>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace {
  const int64_t NEVER = INT64_C(900) * 24 * 3600 * 1000000000;     // waits that end this far away never end
  const int64_t MONO0 = INT64_C(100000) * 1000000000;
  const int64_t REAL0 = INT64_C(1700000000) * 1000000000;
  const int MAXT = 320;

  enum St { IDLE, RUN, MUTEX, COND, SLEEP, YIELD, FINISHED };

  struct Thread {
    pthread_t pt;
    sem_t sem;
    jmp_buf top;
    St st = IDLE;
    void * obj = nullptr;       // mutex waited for, or condition variable
    void * relock = nullptr;    // COND: mutex to take again
    int depth = 0;              // its recursion depth
    int64_t deadline = -1;      // COND, SLEEP: -1 none
    int rc = 0;                 // what the wait returns
    bool shared = false;        // waiting for a read lock
    long prio = 0;
    std::function<void()> body;
  };

  struct Mtx { int owner = -1; int count = 0; int readers = 0; bool recursive = false; };

  Thread th[MAXT];
  int nth = 0, made = 0;
  sem_t ctl;
  bool active = false, aborting = false;
  std::map<void *, Mtx> mtxs;
  std::map<void *, std::vector<int>> conds;
  // 1 running, 2 done; wanted before this file's own objects are made
  std::map<void *, int> * oncesP = nullptr;
  std::map<void *, int> & onces() { if(!oncesP) oncesP = new std::map<void *, int>; return *oncesP; }
  int64_t vnow = 0;
  long nsteps = 0, ndec = 0;
  int spuriousLeft = 0;
  sched::Options opt;
  sched::Result result;
  std::mt19937_64 rng, env;                 // choices of the strategy; everything else
  int64_t stolenNs = 0;
  int stealsLeft = 0;
  std::vector<long> changeAt;               // pct
  long lowest = 0;
  size_t replayAt = 0;

  // depth first search
  struct Dec { int n; int pick; int cost; };
  std::vector<Dec> dfs;
  size_t dfsPos = 0;
  int dfsBound = 0, dfsUsed = 0;
  bool dfsFirst = true;

  __thread int me = -1;
  __thread bool hush = false;
  __thread bool busy = false;               // in the scheduler itself
  struct Busy { bool old; Busy() : old(busy) { busy = true; } ~Busy() { busy = old; } };
  __thread char * stackLo = nullptr, * stackHi = nullptr;

  struct Move { char kind; int t; };        // 'r' run, 't' time out, 's' spurious wakeup, 'a' time passes

  bool lockable(const Thread & t, void * m) {
    auto it = mtxs.find(m);
    if(it == mtxs.end()) return true;
    if(t.shared) return it->second.owner < 0;
    return it->second.owner < 0 && it->second.readers == 0;
  }

  void finish(sched::Status s) {
    result.status = s;
    for(int i = 0; i < nth; i++) if(th[i].st != FINISHED) result.stuck.push_back(i);
    active = false;
    sem_post(&ctl);
  }

  void park() {
    while(sem_wait(&th[me].sem) != 0) { }
    if(aborting) longjmp(th[me].top, 1);
  }

  int pick(const std::vector<Move> & mv, bool curRunnable) {
    // mv[0] is the default: go on with the running thread if it can
    int n = (int) mv.size();
    int p = 0;
    long d = ndec++;
    if(opt.strategy == "replay") {
      if(replayAt < opt.picks.size() && opt.picks[replayAt].first == d) {
        p = opt.picks[replayAt++].second;
        if(p >= n) p = 0;
      }
    }
    else if(n > 1) {
      if(opt.strategy == "random") {
        double stay = curRunnable ? 0.75 : 0.0;
        if((rng() % 1000) / 1000.0 >= stay) {
          std::vector<int> runs, wakes;
          for(int i = 0; i < n; i++) {
            if(mv[i].kind == 's' || mv[i].kind == 'a') { if(rng() % 8 == 0) wakes.push_back(i); }
            else runs.push_back(i);
          }
          runs.insert(runs.end(), wakes.begin(), wakes.end());
          p = runs[rng() % runs.size()];
        }
      }
      else if(opt.strategy == "pct" || opt.strategy == "starve") {
        long best = -1;
        p = -1;
        for(int i = 0; i < n; i++) {
          if(mv[i].kind == 's' || mv[i].kind == 'a') { if(rng() % 60 == 0) { p = i; break; } continue; }
          if(mv[i].kind == 't' && rng() % 3 == 0) { p = i; break; }
          if(th[mv[i].t].prio > best) { best = th[mv[i].t].prio; p = i; }
        }
        if(p < 0) p = 0;
      }
      else if(opt.strategy == "dfs") {
        if(dfsPos < dfs.size()) p = dfs[dfsPos].pick;
        else dfs.push_back(Dec{n, 0, 0});
        if(p >= n) p = 0;
        dfs[dfsPos].n = n;
        dfsPos++;
      }
    }
    if(p != 0) result.picks += (result.picks.empty() ? "" : ",") + std::to_string(d) + ":" + std::to_string(p);
    return p;
  }

  void grant(int t) {        // t takes the lock it waits for
    Thread & x = th[t];
    if(x.st == MUTEX) {
      Mtx & m = mtxs[x.obj];
      if(x.shared) m.readers++;
      else { m.owner = t; m.count = x.depth; }
      x.shared = false;
    }
    x.st = RUN;
  }

  void wake(int t, int rc) { // a condition variable's waiter goes for its mutex
    Thread & x = th[t];
    auto & w = conds[x.obj];
    w.erase(std::remove(w.begin(), w.end(), t), w.end());
    x.st = MUTEX;
    x.obj = x.relock;
    x.rc = rc;
    x.deadline = -1;
  }

  // choose who runs next and hand over the baton; returns when this thread is chosen again
  void schedule() {
    Busy here;
    if(++nsteps > opt.steps) { finish(sched::HANG); park(); return; }
    if(opt.strategy == "pct" && me >= 0)
      for(long c : changeAt) if(c == nsteps) th[me].prio = --lowest;
    for(;;) {
      std::vector<Move> mv;
      int64_t stealTo = 0;
      mv.clear();
      bool cur = false;
      auto runnable = [&](int i) {
        Thread & x = th[i];
        return x.st == RUN || (x.st == MUTEX && lockable(x, x.obj)) || (x.st == SLEEP && x.deadline <= vnow);
      };
      if(me >= 0 && runnable(me)) { mv.push_back(Move{'r', me}); cur = true; }
      for(int k = 1; k <= nth; k++) {
        int i = (me + k + nth) % nth;
        if(i == me && cur) continue;
        if(runnable(i)) mv.push_back(Move{'r', i});
      }
      for(int i = 0; i < nth; i++)
        if(th[i].st == COND && th[i].deadline >= 0 && th[i].deadline <= vnow) mv.push_back(Move{'t', i});
      if(mv.empty()) {
        // the threads that yielded may go on, a little later
        bool y = false;
        for(int i = 0; i < nth; i++) if(th[i].st == YIELD) { th[i].st = RUN; y = true; }
        if(y) { vnow += 1000000; continue; }
        int64_t next = -1;
        for(int i = 0; i < nth; i++)
          if((th[i].st == COND || th[i].st == SLEEP) && th[i].deadline >= 0 &&
             (next < 0 || th[i].deadline < next)) next = th[i].deadline;
        if(next >= 0) { vnow = std::max(vnow, next); continue; }
        bool all = true;
        for(int i = 0; i < nth; i++) if(th[i].st != FINISHED) all = false;
        bool done = (me >= 0) && th[me].st == FINISHED;
        finish(all ? sched::DONE : sched::STUCK);
        if(!done) park();
        return;
      }
      if(spuriousLeft > 0)
        for(int i = 0; i < nth; i++) if(th[i].st == COND) mv.push_back(Move{'s', i});
      if(stealsLeft > 0) {
        // a thread that could go on does not for so long that the next deadline passes
        int64_t next = -1;
        for(int i = 0; i < nth; i++)
          if((th[i].st == COND || th[i].st == SLEEP) && th[i].deadline > vnow &&
             (next < 0 || th[i].deadline < next)) next = th[i].deadline;
        if(next > 0) mv.push_back(Move{'a', (int) 0}), stealTo = next;
      }
      Move m = mv[pick(mv, cur)];
      if(m.kind == 'a') { stealsLeft--; stolenNs += stealTo - vnow; vnow = stealTo; continue; }
      if(m.kind == 't') { wake(m.t, ETIMEDOUT); continue; }
      if(m.kind == 's') { spuriousLeft--; wake(m.t, 0); continue; }
      grant(m.t);
      if(m.t == me) return;
      bool done = (me >= 0) && th[me].st == FINISHED;
      sem_post(&th[m.t].sem);
      if(me >= 0 && !done) park();
      return;
    }
  }

  inline bool managed() { return me >= 0 && active; }

  void * threadMain(void * a) {
    me = (int) (intptr_t) a;
    pthread_attr_t at;
    void * lo; size_t sz;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    stackLo = (char *) lo; stackHi = stackLo + sz;
    for(;;) {
      if(setjmp(th[me].top) == 0) {
        hush = false;
        busy = false;
        while(sem_wait(&th[me].sem) != 0) { }
        if(aborting) longjmp(th[me].top, 1);
        th[me].body();
        busy = true;
        th[me].st = FINISHED;
        schedule();
      }
      else {
        th[me].st = FINISHED;
        sem_post(&ctl);
      }
    }
    return nullptr;
  }

  int doLock(void * m, bool shared, bool rec) {
    Busy here;
    schedule();
    Mtx & x = mtxs[m];
    if(rec) x.recursive = true;
    if(!shared && x.owner == me) {
      if(x.recursive) { x.count++; return 0; }
      // locking again what we hold: blocked for ever
      th[me].st = COND; th[me].obj = m; th[me].relock = m; th[me].deadline = -1; th[me].depth = 1;
      schedule();
      return 0;
    }
    Thread & t = th[me];
    t.st = MUTEX; t.obj = m; t.depth = 1; t.shared = shared;
    if(lockable(t, m)) { grant(me); return 0; }
    schedule();
    return 0;
  }
  int doTry(void * m, bool shared, bool rec) {
    Busy here;
    schedule();
    Mtx & x = mtxs[m];
    if(rec) x.recursive = true;
    if(!shared && x.owner == me && x.recursive) { x.count++; return 0; }
    Thread & t = th[me];
    t.shared = shared;
    if(!lockable(t, m)) { t.shared = false; return EBUSY; }
    t.st = MUTEX; t.obj = m; t.depth = 1;
    grant(me);
    return 0;
  }
  int doUnlock(void * m) {
    Busy here;
    Mtx & x = mtxs[m];
    if(x.owner == me) { if(--x.count == 0) x.owner = -1; }
    else if(x.readers > 0) x.readers--;
    else return EPERM;
    schedule();
    return 0;
  }
  int doCond(void * c, void * m, int64_t deadline) {
    Busy here;
    schedule();
    Thread & t = th[me];
    Mtx & x = mtxs[m];
    t.depth = x.count ? x.count : 1;
    if(x.owner == me) { x.owner = -1; x.count = 0; }
    if(deadline >= 0 && deadline - vnow >= NEVER) deadline = -1;
    t.st = COND; t.obj = c; t.relock = m; t.deadline = deadline; t.rc = 0;
    conds[c].push_back(me);
    schedule();
    return t.rc;
  }
  int64_t ts(const struct timespec * a) { return (int64_t) a->tv_sec * 1000000000 + a->tv_nsec; }
  int64_t virt(clockid_t clk, const struct timespec * a) {
    // saturate: a thousand days fit, absurd values do not overflow
    if(a->tv_sec > INT64_C(9000000000)) return INT64_MAX / 2;
    int64_t v = ts(a) - (clk == CLOCK_REALTIME ? REAL0 : MONO0);
    return v < 0 ? 0 : v;
  }
  bool isRecursive(pthread_mutex_t * m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

  void memPoint(const void * p) {
    if(!managed() || hush || busy) return;
    if((const char *) p >= stackLo && (const char *) p < stackHi) return;
    if(opt.memPercent < 100 && (long) (env() % 100) >= opt.memPercent) return;
    schedule();
  }
  // a call, a return or a branch of the code under test
  void codePoint() {
    if(!opt.deep || !managed() || hush || busy) return;
    if(opt.memPercent < 100 && (long) (env() % 100) >= opt.memPercent) return;
    schedule();
  }
}

namespace sched {
  int self() { return me; }
  int64_t now() { return vnow; }
  int64_t stolen() { return stolenNs; }
  const std::string & picksSoFar() { return result.picks; }
  void quiet(bool q) { hush = q; }
  void sleepFor(int64_t ns) {
    if(!managed()) return;
    Busy here;
    th[me].st = SLEEP;
    th[me].deadline = vnow + ns;
    schedule();
  }

  Result run(const std::vector<std::function<void()>> & bodies, const Options & o) {
    opt = o;
    result = Result();
    nth = (int) bodies.size();
    if(made == 0) sem_init(&ctl, 0, 0);
    while(made < nth) {
      sem_init(&th[made].sem, 0, 0);
      typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);
      pthread_attr_t a;
      pthread_attr_init(&a);
      pthread_attr_setstacksize(&a, made < 32 ? 512 * 1024 : 128 * 1024);
      if(pthread_create(&th[made].pt, &a, threadMain, (void *) (intptr_t) made)) { perror("pthread_create"); exit(3); }
      made++;
    }
    mtxs.clear(); conds.clear(); onces().clear();
    vnow = 0; nsteps = 0; ndec = 0; spuriousLeft = opt.spurious;
    rng.seed(opt.seed); env.seed(opt.seed ^ 0x9e3779b97f4a7c15ull);
    stolenNs = 0; stealsLeft = opt.steals;
    replayAt = 0; dfsPos = 0;
    changeAt.clear(); lowest = 1000;
    for(int i = 0; i < 4; i++) changeAt.push_back(1 + (long) (rng() % 400));
    std::vector<long> pr;
    for(int i = 0; i < nth; i++) pr.push_back(2000 + i);
    std::shuffle(pr.begin(), pr.end(), rng);
    // starve: the first thread runs only when no other can
    if(opt.strategy == "starve") { changeAt.clear(); pr[0] = 1; }
    for(int i = 0; i < nth; i++) {
      th[i].st = RUN; th[i].body = bodies[i]; th[i].prio = pr[i]; th[i].deadline = -1; th[i].shared = false;
    }
    aborting = false;
    active = true;
    schedule();           // me = -1: the first thread gets the baton
    while(sem_wait(&ctl) != 0) { }
    if(!result.stuck.empty()) {
      aborting = true;
      for(int i = 0; i < nth; i++)
        if(th[i].st != FINISHED) {
          sem_post(&th[i].sem);
          while(sem_wait(&ctl) != 0) { }
        }
      aborting = false;
    }
    return result;
  }

  void dfsStart(int bound) { dfs.clear(); dfsPos = 0; dfsBound = bound; dfsFirst = true; }
  bool dfsNext() {
    if(dfsFirst) { dfsFirst = false; return true; }
    dfs.resize(dfsPos);
    while(!dfs.empty()) {
      int used = 0;
      for(size_t i = 0; i + 1 < dfs.size(); i++) used += dfs[i].pick != 0;
      Dec & d = dfs.back();
      if(d.pick + 1 < d.n && (d.pick != 0 ? used + 1 : used + 1) <= dfsBound) { d.pick++; return true; }
      dfs.pop_back();
    }
    return false;
  }
}

// ------------------------------------------------------------------ interposed functions
extern "C" {
  int pthread_mutex_lock(pthread_mutex_t * m) { return managed() ? doLock(m, false, isRecursive(m)) : 0; }
  int pthread_mutex_trylock(pthread_mutex_t * m) { return managed() ? doTry(m, false, isRecursive(m)) : 0; }
  int pthread_mutex_unlock(pthread_mutex_t * m) { return managed() ? doUnlock(m) : 0; }
  int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec *) { return managed() ? doLock(m, false, isRecursive(m)) : 0; }
  int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t, const struct timespec *) { return managed() ? doLock(m, false, isRecursive(m)) : 0; }
  int pthread_mutex_destroy(pthread_mutex_t * m) { if(managed()) mtxs.erase(m); return 0; }

  int pthread_rwlock_rdlock(pthread_rwlock_t * m) { return managed() ? doLock(m, true, false) : 0; }
  int pthread_rwlock_wrlock(pthread_rwlock_t * m) { return managed() ? doLock(m, false, false) : 0; }
  int pthread_rwlock_tryrdlock(pthread_rwlock_t * m) { return managed() ? doTry(m, true, false) : 0; }
  int pthread_rwlock_trywrlock(pthread_rwlock_t * m) { return managed() ? doTry(m, false, false) : 0; }
  int pthread_rwlock_unlock(pthread_rwlock_t * m) { return managed() ? doUnlock(m) : 0; }

  int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { return managed() ? doCond(c, m, -1) : 0; }
  int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * a) {
    return managed() ? doCond(c, m, virt(CLOCK_REALTIME, a)) : ETIMEDOUT;
  }
  int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t clk, const struct timespec * a) {
    return managed() ? doCond(c, m, virt(clk, a)) : ETIMEDOUT;
  }
  int pthread_cond_signal(pthread_cond_t * c) {
    if(!managed()) return 0;
    Busy here;
    schedule();
    auto & w = conds[c];
    if(!w.empty()) wake(w[env() % w.size()], 0);
    return 0;
  }
  int pthread_cond_broadcast(pthread_cond_t * c) {
    if(!managed()) return 0;
    Busy here;
    schedule();
    auto w = conds[c];
    for(int t : w) wake(t, 0);
    return 0;
  }
  int pthread_cond_destroy(pthread_cond_t * c) { if(managed()) conds.erase(c); return 0; }

  int pthread_once(pthread_once_t * o, void (*f)(void)) {
    if(!managed()) {
      if(*(volatile int *) o == 0) { *(volatile int *) o = 2; f(); }
      return 0;
    }
    while(onces()[o] == 1) { th[me].st = YIELD; schedule(); }
    if(*(volatile int *) o == 2) return 0;
    onces()[o] = 1;
    f();
    *(volatile int *) o = 2;
    onces()[o] = 2;
    return 0;
  }

  // initialisation of a static of a function
  int __cxa_guard_acquire(long long int * g) {
    if(*(volatile char *) g) return 0;
    if(managed())
      while(onces()[g] == 1) { th[me].st = YIELD; schedule(); }
    if(*(volatile char *) g) return 0;
    onces()[g] = 1;
    return 1;
  }
  void __cxa_guard_release(long long int * g) { *(volatile char *) g = 1; onces()[g] = 2; }
  void __cxa_guard_abort(long long int * g) { onces()[g] = 0; }

  int sched_yield(void) {
    if(managed()) { th[me].st = YIELD; schedule(); }
    return 0;
  }
  int nanosleep(const struct timespec * a, struct timespec *) {
    if(managed()) { sched::sleepFor(ts(a)); return 0; }
    return (int) syscall(SYS_nanosleep, a, nullptr);
  }
  int clock_nanosleep(clockid_t clk, int flags, const struct timespec * a, struct timespec *) {
    if(managed()) {
      if(flags & TIMER_ABSTIME) sched::sleepFor(std::max<int64_t>(0, virt(clk, a) - vnow));
      else sched::sleepFor(ts(a));
      return 0;
    }
    return (int) syscall(SYS_clock_nanosleep, clk, flags, a, nullptr);
  }
  int usleep(useconds_t us) {
    if(managed()) { sched::sleepFor((int64_t) us * 1000); return 0; }
    struct timespec t = { (time_t) (us / 1000000), (long) (us % 1000000) * 1000 };
    return (int) syscall(SYS_nanosleep, &t, nullptr);
  }
  int clock_gettime(clockid_t clk, struct timespec * a) {
    if(managed()) {
      int64_t v = vnow + ((clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE) ? REAL0 : MONO0);
      a->tv_sec = v / 1000000000;
      a->tv_nsec = v % 1000000000;
      return 0;
    }
    return (int) syscall(SYS_clock_gettime, clk, a);
  }
  int gettimeofday(struct timeval * tv, void *) {
    struct timespec a;
    clock_gettime(CLOCK_REALTIME, &a);
    tv->tv_sec = a.tv_sec; tv->tv_usec = a.tv_nsec / 1000;
    return 0;
  }
  time_t time(time_t * t) {
    struct timespec a;
    clock_gettime(CLOCK_REALTIME, &a);
    if(t) *t = a.tv_sec;
    return a.tv_sec;
  }

  // ---------------------------------------------------------------- entry points of -fsanitize=thread
  void __tsan_init() { }
  void __tsan_func_entry(void *) { codePoint(); }
  void __tsan_func_exit() { codePoint(); }
  void __sanitizer_cov_trace_pc() { codePoint(); }
#define ACC(n) \
  void __tsan_read##n(void * p) { memPoint(p); } \
  void __tsan_write##n(void * p) { memPoint(p); } \
  void __tsan_unaligned_read##n(void * p) { memPoint(p); } \
  void __tsan_unaligned_write##n(void * p) { memPoint(p); } \
  void __tsan_volatile_read##n(void * p) { memPoint(p); } \
  void __tsan_volatile_write##n(void * p) { memPoint(p); } \
  void __tsan_read##n##_pc(void * p, void *) { memPoint(p); } \
  void __tsan_write##n##_pc(void * p, void *) { memPoint(p); }
  ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
  void __tsan_read_range(void * p, unsigned long) { memPoint(p); }
  void __tsan_write_range(void * p, unsigned long) { memPoint(p); }
  void __tsan_vptr_update(void ** p, void *) { memPoint(p); }
  void __tsan_vptr_read(void ** p) { memPoint(p); }
#define ATOM(n, T) \
  T __tsan_atomic##n##_load(const volatile T * a, int) { memPoint((const void *) a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile T * a, T v, int) { memPoint((const void *) a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(volatile T * a, T v, int) { memPoint((const void *) a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(volatile T * a, T v, int) { memPoint((const void *) a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(volatile T * a, T v, int) { memPoint((const void *) a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_and(volatile T * a, T v, int) { memPoint((const void *) a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_or(volatile T * a, T v, int) { memPoint((const void *) a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_xor(volatile T * a, T v, int) { memPoint((const void *) a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_nand(volatile T * a, T v, int) { memPoint((const void *) a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T * a, T * c, T v, int, int) { memPoint((const void *) a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T * a, T * c, T v, int, int) { memPoint((const void *) a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T * a, T c, T v, int, int) { memPoint((const void *) a); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
  ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
  void __tsan_atomic_thread_fence(int) { }
  void __tsan_atomic_signal_fence(int) { }
}

// Freed memory is made useless at once, so that whoever still uses it is found out; new memory is not zero.
#include <malloc.h>
#include <new>
static void ruin(void * p) {
  if(p == nullptr) return;
  size_t n = malloc_usable_size(p) / 8;
  volatile uint64_t * w = (volatile uint64_t *) p;
  for(size_t i = 0; i < n; i++) w[i] = 0xd7d7d7d7d7d70000ull + (i % 512) * 64;
  free(p);
}
void * operator new(size_t n) {
  void * p = malloc(n ? n : 1);
  if(p == nullptr) throw std::bad_alloc();
  memset(p, 0xbe, n < 4096 ? n : 4096);
  return p;
}
void * operator new[](size_t n) { return operator new(n); }
void operator delete(void * p) noexcept { ruin(p); }
void operator delete[](void * p) noexcept { ruin(p); }
void operator delete(void * p, size_t) noexcept { ruin(p); }
void operator delete[](void * p, size_t) noexcept { ruin(p); }
