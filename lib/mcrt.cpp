// A controlled scheduler for real threads, a happens-before race detector, and a search over
// schedules.
//
// The code under test is compiled with -fsanitize=thread but linked against the callbacks below
// instead of the TSan run time. Every thread it creates is a real thread of which exactly one
// runs at a time; the running thread hands over only in front of a visible operation (mutex,
// condition variable, atomic, once, futex, thread join, file-system call). Each execution runs
// in its own forked process; the parent searches the tree of scheduling decisions exhaustively
// up to a number of preemptions, in order of increasing number of preemptions, and cuts off a
// decision point whose happens-before history (Mazurkiewicz trace prefix) was already expanded.
// Data races are detected in every execution with vector clocks, so that switching in front of
// visible operations only is enough.
#include "mcrt.hpp"
#include <pthread.h>
#include <dlfcn.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <dirent.h>
#include <semaphore.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <malloc.h>
#include <bits/atomic_futex.h>
#include <chrono>
#include <deque>
#include <map>
#include <unordered_map>
#include <vector>
#include <algorithm>

extern "C" { void * __libc_malloc(size_t); void __libc_free(void *); void * __libc_calloc(size_t, size_t);
             void * __libc_realloc(void *, size_t); void * __libc_memalign(size_t, size_t); extern char __libc_single_threaded; }

namespace {

typedef uint64_t u64; typedef uint32_t u32; typedef uintptr_t up;
const int MAXT = 14;

extern __thread int inRt;
template<class F> F real(const char * name) { ++inRt; F f = (F) dlsym(RTLD_NEXT, name); --inRt; return f; }
#define REAL(ret, name, ...) static auto r_##name = real<ret (*)(__VA_ARGS__)>(#name)

inline u64 mix(u64 a, u64 b) { a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; a ^= a >> 32; a *= 0xc4ceb9fe1a85ec53ull; return a ^ (a >> 29); }

struct VC { u32 c[MAXT] = {}; void join(const VC & o) { for(int i = 0; i < MAXT; ++i) if(o.c[i] > c[i]) c[i] = o.c[i]; } };

enum Kind { K_NONE, K_START, K_LOCK, K_CWAKE, K_JOIN, K_FUTEX, K_ONCE, K_RD, K_WR, K_FREE };

struct Th {
    int id = 0; VC vc; u64 hash = 0; u32 created = 0;
    Kind pend = K_NONE; up obj = 0; up mutex = 0; bool timed = false, timedOut = false, woken = false;
    bool finished = false, yielded = false;
    pthread_t real = 0; void * (*fn)(void *) = nullptr; void * arg = nullptr; void * ret = nullptr;
    VC acqFence, relFence; bool hasRelFence = false;
    int go = 0;
};

struct Obj {
    VC vc; u64 w = 0, r = 0;
    int owner = -1; int depth = 0;      // mutex / exclusive rwlock
    int readers = 0;
    int once = 0;                       // 0 new, 1 running, 2 done
    std::deque<Th *> waiters;
};

struct Cell { u32 w = 0, r = 0, a = 0; u32 wpc = 0, rpc = 0, apc = 0; };
struct Block { Cell c[64]; bool used = false; };
const u32 SHARED = 0xff000000u, FREED = 0xfe000000u;

struct Decision { u64 key; unsigned char nopts, nreg, chosen, base; };
const int MAXD = 20000;
const u32 VIS = 1u << 22;

struct Shared {
    volatile int status;        // 0 running, 1 finished, 3 violation, 4 the prefix did not fit
    volatile int expand;        // decisions from here on were cut (-1: none)
    volatile int cold;          // the very first execution of this process
    int req, resp;
    char sig[300], msg[6000], outcome[2000];
    int ndec; u64 ops; int nthreads;
    Decision dec[MAXD];
    u64 visited; 
    u64 table[VIS];
    volatile int nprefix; unsigned char prefix[MAXD];
    volatile int replay;
};
Shared * sh;

std::vector<Th *> * ths;
std::map<up, Obj> * objs;
std::unordered_map<up, Block *> * shadow;
std::vector<Block *> * touched;
std::vector<void *> stacks; std::size_t nextStack = 0;
std::vector<VC> * sharedReads;
int limitSpurious = 0;
std::map<int, std::string> * fdpath;
std::map<std::string, up> * pathObj;
VC * excVC;
bool started = false;
char * exeBase = nullptr;

__thread Th * self __attribute__((tls_model("initial-exec"))) = nullptr;
__thread int inRt __attribute__((tls_model("initial-exec"))) = 0;

struct Rt { Rt() { ++inRt; } ~Rt() { --inRt; } };
inline bool active() { return self && !inRt; }

long futex(int * a, int op, int v) { return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0); }

u32 pcOf(void * pc) { return (u32) ((char *) pc - exeBase); }

void answer() { __atomic_store_n(&sh->resp, 1, __ATOMIC_SEQ_CST); futex(&sh->resp, FUTEX_WAKE, 1); }
[[noreturn]] void stopRun(int status) { sh->status = status; answer(); _exit(0); }

[[noreturn]] void fail(const std::string & sig, const std::string & msg) {
    ++inRt;
    snprintf(sh->sig, sizeof sh->sig, "%s", sig.c_str());
    snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
    stopRun(3);
}

u32 epoch(Th * t) { return (u32) (t->id + 1) << 24 | t->vc.c[t->id]; }
bool before(u32 e, Th * t) { const int i = (e >> 24) - 1; return i < MAXT && (e & 0xffffff) <= t->vc.c[i]; }

Obj & obj(up a) { return (*objs)[a]; }

void race(const char * what, const char * prev, u32 ppc, u32 pe, void * pc, up addr) {
    char b[400];
    const int other = pe == 0 ? -1 : (int) (pe >> 24) - 1;
    snprintf(b, sizeof b, "@RACE %s@%x %s@%x|thread %d %s, unordered with an earlier %s by thread %d (address %p)", what, pcOf(pc), prev, ppc, self->id, what, prev, other, (void *) addr);
    fail("race", b);
}

void touch(up a, size_t n, int kind, void * pc) {       // 0 read, 1 write, 2 atomic read, 3 atomic write
    Th * t = self;
    const u32 me = epoch(t);
    Block * b = nullptr; up bk = 0;
    for(size_t i = 0; i < n; ++i) {
        const up x = a + i, k = x >> 6;
        if(!b || k != bk) { Block *& p = (*shadow)[k]; if(!p) p = new Block(); if(!p->used) { p->used = true; touched->push_back(p); } b = p; bk = k; }
        Cell & c = b->c[x & 63];
        if(c.w == FREED) race(kind & 1 ? "write" : "read", "free", c.wpc, 0, pc, x);
        if(kind == 0) {
            if(c.r == me) continue;
            if(c.w && !before(c.w, t)) race("read", "write", c.wpc, c.w, pc, x);
            if(c.a && !before(c.a, t)) race("read", "atomic write", c.apc, c.a, pc, x);
            if(c.r >= SHARED) (*sharedReads)[c.r & 0xffffff].c[t->id] = me & 0xffffff;
            else if(c.r == 0 || before(c.r, t)) { c.r = me; c.rpc = pcOf(pc); }
            else {
                if(sharedReads->size() >= 0xfffff0) sharedReads->clear();
                VC v; v.c[(c.r >> 24) - 1] = c.r & 0xffffff; v.c[t->id] = me & 0xffffff;
                c.r = SHARED | (u32) sharedReads->size(); sharedReads->push_back(v);
            }
        } else if(kind == 1) {
            if(c.w != me && c.w && !before(c.w, t)) race("write", "write", c.wpc, c.w, pc, x);
            if(c.a && !before(c.a, t)) race("write", "atomic write", c.apc, c.a, pc, x);
            if(c.r >= SHARED) { VC & v = (*sharedReads)[c.r & 0xffffff]; for(int j = 0; j < MAXT; ++j) if(v.c[j] > t->vc.c[j]) race("write", "read", c.rpc, (u32) (j + 1) << 24, pc, x); }
            else if(c.r && !before(c.r, t)) race("write", "read", c.rpc, c.r, pc, x);
            c.w = me; c.wpc = pcOf(pc); c.r = 0;
        } else {
            if(c.w && !before(c.w, t)) race("atomic access", "write", c.wpc, c.w, pc, x);
            if(kind == 3) {
                if(c.r >= SHARED) { VC & v = (*sharedReads)[c.r & 0xffffff]; for(int j = 0; j < MAXT; ++j) if(v.c[j] > t->vc.c[j]) race("atomic write", "read", c.rpc, (u32) (j + 1) << 24, pc, x); }
                else if(c.r && !before(c.r, t)) race("atomic write", "read", c.rpc, c.r, pc, x);
                c.a = me; c.apc = pcOf(pc);
            }
        }
    }
}

void clearRange(up a, size_t n) {
    for(up k = a >> 6; k <= (a + n - 1) >> 6; ++k) {
        auto it = shadow->find(k);
        if(it == shadow->end()) continue;
        for(int i = 0; i < 64; ++i) { const up x = (k << 6) + i; if(x >= a && x < a + n) it->second->c[i] = Cell(); }
    }
    auto it = objs->lower_bound(a);
    while(it != objs->end() && it->first < a + n) it = objs->erase(it);
}

void freeRange(up a, size_t n, void * pc) {
    const u32 me = epoch(self);
    for(up k = a >> 6; k <= (a + n - 1) >> 6; ++k) {
        auto it = shadow->find(k);
        if(it == shadow->end()) continue;
        for(int i = 0; i < 64; ++i) {
            const up x = (k << 6) + i; if(x < a || x >= a + n) continue;
            Cell & c = it->second->c[i];
            if(!c.w && !c.r && !c.a) continue;
            if(c.w == FREED) { c = Cell(); c.w = FREED; c.wpc = pcOf(pc); continue; }
            if(c.w && !before(c.w, self)) race("free", "write", c.wpc, c.w, pc, x);
            if(c.a && !before(c.a, self)) race("free", "atomic write", c.apc, c.a, pc, x);
            if(c.r >= SHARED) { VC & v = (*sharedReads)[c.r & 0xffffff]; for(int j = 0; j < MAXT; ++j) if(v.c[j] > self->vc.c[j]) race("free", "read", c.rpc, (u32) (j + 1) << 24, pc, x); }
            else if(c.r && !before(c.r, self)) race("free", "read", c.rpc, c.r, pc, x);
            c = Cell(); c.w = FREED; c.wpc = pcOf(pc);
        }
    }
    (void) me;
}

void hb(Obj & o, bool write, int kind) {
    ++sh->ops;
    if(sh->ops > 3000000) fail("livelock", "no progress after three million operations");
    if(write) { self->hash = mix(mix(mix(self->hash, o.w), o.r), kind); o.w = self->hash; o.r = 0; }
    else { self->hash = mix(mix(self->hash, o.w), kind); o.r += mix(self->hash, 77); }
}
void acquire(const VC & v) { self->vc.join(v); }
void release(VC & v, bool join = true) { if(join) v.join(self->vc); else v = self->vc; ++self->vc.c[self->id]; if(self->vc.c[self->id] > 0xfffff0) fail("livelock", "clock overflow"); }

bool enabled(Th * t) {
    if(t->finished) return false;
    switch(t->pend) {
        case K_LOCK: { Obj & o = obj(t->obj); return o.owner == -1 && o.readers == 0; }
        case K_RD: return obj(t->obj).owner == -1;
        case K_WR: { Obj & o = obj(t->obj); return o.owner == -1 && o.readers == 0; }
        case K_CWAKE: case K_FUTEX: return false;
        case K_JOIN: return ((Th *) t->obj)->finished;
        case K_ONCE: return obj(t->obj).once != 1;
        default: return true;
    }
}

int decide(int nopts, int nreg, int base, u64 key) {
    const int d = sh->ndec;
    if(d >= MAXD) fail("livelock", "too many scheduling decisions in one execution");
    int chosen = 0;
    if(d < sh->nprefix) {
        chosen = sh->prefix[d];
        if(chosen >= nopts) { ++inRt; if(sh->replay) fail("replay", "a recorded schedule does not fit this execution"); stopRun(4); }
    } else if(!sh->replay && sh->expand < 0) {
        // already expanded?
        if(key == 0) key = 1;
        u32 i = (u32) (key >> 20) & (VIS - 1);
        while(sh->table[i] && sh->table[i] != key) i = (i + 1) & (VIS - 1);
        if(sh->table[i] == key) sh->expand = d;      // let it run to its end by the default schedule
        else if(sh->visited < VIS - VIS / 8) { sh->table[i] = key; ++sh->visited; }
    }
    sh->dec[d] = {key, (unsigned char) nopts, (unsigned char) nreg, (unsigned char) chosen, (unsigned char) base};
    sh->ndec = d + 1;
    return chosen;
}

u64 stateKey(u64 extra) {
    u64 s = 0;
    for(Th * t : *ths) s += mix(mix(t->hash, t->id), t->yielded ? 5 : 3);
    return mix(s, extra);
}

std::string pending() {
    std::string s;
    static const char * n[] = {"running", "start", "mutex", "condition variable", "join", "futex", "once", "read lock", "write lock", "ready"};
    for(Th * t : *ths) if(!t->finished) s += " thread " + std::to_string(t->id) + " waits for " + n[t->pend] + ";";
    return s;
}

void waitGo(Th * t) { while(__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) futex(&t->go, FUTEX_WAIT_PRIVATE, 0); __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE); }

void wake(Th * t) { __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); futex(&t->go, FUTEX_WAKE_PRIVATE, 1); }

// choose the next thread to run; returns when self runs again (never for a finished thread)
void schedule() {
    Th * opt[2 * MAXT]; int n = 0, nreg;
    const bool cur = enabled(self) && !self->yielded;
    if(cur) opt[n++] = self;
    for(Th * t : *ths) if(t != self && enabled(t) && !t->yielded) opt[n++] = t;
    if(n == 0) for(Th * t : *ths) if(enabled(t)) opt[n++] = t;
    for(Th * t : *ths) t->yielded = t->yielded && n > 0 && opt[0] != t;
    nreg = n;
    if(n == 0) {        // a timed wait may expire
        for(Th * t : *ths) if(!t->finished && t->timed && (t->pend == K_CWAKE || t->pend == K_FUTEX)) opt[n++] = t;
        nreg = n;
        if(n == 0) {
            bool all = true;
            for(Th * t : *ths) if(!t->finished) all = false;
            if(all) return;
            fail("deadlock", "no thread can continue:" + pending());
        }
    }
    else if(limitSpurious) for(Th * t : *ths) if(!t->finished && t->pend == K_CWAKE) opt[n++] = t;
    const int c = n == 1 ? 0 : decide(n, nreg, cur ? 1 : 0, stateKey(mix(self->id, cur)));
    Th * t = opt[c];
    if(!enabled(t)) {       // spurious or timed wake-up
        if(t->pend == K_CWAKE) {
            Obj & o = obj(t->obj);
            o.waiters.erase(std::find(o.waiters.begin(), o.waiters.end(), t));
            t->hash = mix(t->hash, 991);
            t->timedOut = t->timed; t->pend = K_LOCK; t->obj = t->mutex;
            if(!enabled(t)) { schedule(); return; }
        } else { t->hash = mix(t->hash, 992); t->timedOut = true; t->pend = K_FREE; }
    }
    if(t == self) return;
    wake(t);
    if(!self->finished) waitGo(self);
}

void point(Kind k, up o) {
    self->pend = k; self->obj = o;
    schedule();
    self->pend = K_NONE;
}

// ---------------------------------------------------------------- synchronisation operations
void lockMutex(up m) {
    point(K_LOCK, m);
    Obj & o = obj(m); o.owner = self->id; hb(o, true, K_LOCK); acquire(o.vc);
}
void unlockMutex(up m) {
    Obj & o = obj(m);
    if(o.owner != self->id) fail("unlock", "a mutex is unlocked by a thread that does not hold it");
    hb(o, true, 21); release(o.vc); o.owner = -1;
}
void condWait(up c, up m, bool timed) {
    point(K_NONE, 0);
    if(obj(m).owner != self->id) fail("condwait", "condition wait without holding the mutex");
    hb(obj(c), true, 22); hb(obj(m), true, 23); release(obj(m).vc); obj(m).owner = -1;
    obj(c).waiters.push_back(self);
    self->pend = K_CWAKE; self->obj = c; self->mutex = m; self->timed = timed; self->timedOut = false;
    schedule();
    self->pend = K_NONE; self->timed = false;
    Obj & o = obj(m); o.owner = self->id; hb(o, true, K_LOCK); acquire(o.vc);
}
void condSignal(up c, bool all) {
    point(K_NONE, 0);
    Obj & o = obj(c); hb(o, true, all ? 24 : 25);
    if(o.waiters.empty()) return;
    auto wakeOne = [&](size_t i) { Th * t = o.waiters[i]; o.waiters.erase(o.waiters.begin() + i); t->pend = K_LOCK; t->obj = t->mutex; t->hash = mix(t->hash, self->hash); };
    if(all) while(!o.waiters.empty()) wakeOne(0);
    else {
        const int n = o.waiters.size();
        const int i = n == 1 ? 0 : decide(n, n, 0, stateKey(881));
        self->hash = mix(self->hash, i);
        wakeOne(i);
    }
}
bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void atomicOp(up a, size_t n, bool rd, bool wr, int mo, void * pc) {
    point(K_NONE, 0);
    touch(a, n, wr ? 3 : 2, pc);
    Obj & o = obj(a);
    hb(o, wr, wr ? 31 : 30);
    if(rd) { if(isAcq(mo)) acquire(o.vc); else self->acqFence.join(o.vc); }
    if(wr) {
        if(isRel(mo)) release(o.vc, rd);
        else if(self->hasRelFence) { if(rd) o.vc.join(self->relFence); else o.vc = self->relFence; }
        else if(!rd) o.vc = VC();
    }
}

bool futexWait(unsigned * a, unsigned val, bool timed) {     // false: timed out
    point(K_NONE, 0);
    hb(obj((up) a), false, 32);
    if(__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) return true;
    obj((up) a).waiters.push_back(self);
    self->pend = K_FUTEX; self->obj = (up) a; self->timed = timed; self->timedOut = false;
    schedule();
    self->pend = K_NONE; self->timed = false;
    auto & w = obj((up) a).waiters; auto it = std::find(w.begin(), w.end(), self); if(it != w.end()) w.erase(it);
    return !self->timedOut;
}
int futexWake(unsigned * a, int n) {
    point(K_NONE, 0);
    Obj & o = obj((up) a); hb(o, true, 33);
    int k = 0;
    while(k < n && !o.waiters.empty()) {
        int i = 0;
        if(n == 1 && o.waiters.size() > 1) { i = decide(o.waiters.size(), o.waiters.size(), 0, stateKey(882)); self->hash = mix(self->hash, i); }
        Th * t = o.waiters[i]; o.waiters.erase(o.waiters.begin() + i);
        t->pend = K_FREE; t->hash = mix(t->hash, self->hash); ++k;
    }
    return k;
}

// file-system calls: visible operations on the path (and its parent directory)
up pathId(const std::string & p) { auto it = pathObj->find(p); if(it != pathObj->end()) return it->second; const up id = 16 + 16 * pathObj->size(); (*pathObj)[p] = id; return id; }
std::string norm(const char * p) { std::string s = p ? p : ""; while(s.size() > 1 && s.back() == '/') s.pop_back(); return s; }
void fileOp(const std::string & path, bool write, bool dirEntry) {
    point(K_NONE, 0);
    Obj & o = obj(pathId(path)); hb(o, write, 40 + write);
    const auto s = path.rfind('/');
    if(s != std::string::npos && s > 0) { Obj & d = obj(pathId(path.substr(0, s))); hb(d, dirEntry && write && false, 42); }
}
void fdOp(int fd, bool write) {
    auto it = fdpath->find(fd);
    if(it == fdpath->end()) return;
    const std::string p = it->second;
    point(K_NONE, 0);
    hb(obj(pathId(p)), write, 44 + write);
}

void * trampoline(void * a) {
    Th * t = (Th *) a;
    self = t; inRt = 1;
    waitGo(t);
    t->pend = K_NONE;
    inRt = 0;
    t->ret = t->fn(t->arg);
    inRt = 1;
    t->hash = mix(t->hash, 60);
    t->finished = true;
    schedule();
    self = nullptr;
    return t->ret;
}

}

int mcrt::choose(int n) {
    if(!active() || n < 2) return 0;
    Rt g; const int c = decide(n, n, 0, stateKey(883)); self->hash = mix(self->hash, c + 1000); return c;
}

// ================================================================= interposed functions
extern "C" {

int pthread_create(pthread_t * out, const pthread_attr_t * attr, void * (*fn)(void *), void * arg) {
    REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);
    if(!active()) return r_pthread_create(out, attr, fn, arg);
    Rt g;
    if(ths->size() >= MAXT) fail("threads", "too many threads");
    Th * t = new Th(); t->id = ths->size();
    self->hash = mix(self->hash, 61); ++self->created;
    t->hash = mix(self->hash, 62);
    t->vc = self->vc; t->vc.c[t->id] = 1; ++self->vc.c[self->id];
    t->fn = fn; t->arg = arg; t->pend = K_START;
    ths->push_back(t); ++sh->ops; sh->nthreads = ths->size();
    pthread_attr_t at; pthread_attr_init(&at);
    const size_t sz = 1 << 20;
    if(nextStack >= stacks.size()) stacks.push_back(mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    void * st = stacks[nextStack++];
    pthread_attr_setstack(&at, st, sz);
    if(r_pthread_create(&t->real, &at, trampoline, t) != 0) fail("threads", "pthread_create failed");
    pthread_attr_destroy(&at);
    *out = t->real;
    return 0;
}
int pthread_join(pthread_t p, void ** ret) {
    REAL(int, pthread_join, pthread_t, void **);
    if(!active()) return r_pthread_join(p, ret);
    Rt g;
    Th * t = nullptr;
    for(Th * x : *ths) if(x->real == p) t = x;
    if(!t || t == self) fail("join", "join of an unknown thread");
    point(K_JOIN, (up) t);
    self->hash = mix(mix(self->hash, t->hash), 63); acquire(t->vc);
    r_pthread_join(p, nullptr);
    t->real = 0;
    if(ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t p) { REAL(int, pthread_detach, pthread_t); return r_pthread_detach(p); }

int pthread_mutex_lock(pthread_mutex_t * m) { REAL(int, pthread_mutex_lock, pthread_mutex_t *); if(!active()) return r_pthread_mutex_lock(m); Rt g;
    Obj & o = obj((up) m);
    if(o.owner == self->id) {
        if((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++o.depth; return 0; }
        fail("deadlock", "a thread locks a mutex it already holds");
    }
    lockMutex((up) m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t * m) { REAL(int, pthread_mutex_trylock, pthread_mutex_t *); if(!active()) return r_pthread_mutex_trylock(m); Rt g;
    point(K_NONE, 0); Obj & o = obj((up) m);
    if(o.owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++o.depth; return 0; }
    hb(o, true, 26);
    if(o.owner != -1) return EBUSY;
    o.owner = self->id; acquire(o.vc); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t * m) { REAL(int, pthread_mutex_unlock, pthread_mutex_t *); if(!active()) return r_pthread_mutex_unlock(m); Rt g;
    Obj & o = obj((up) m); if(o.depth > 0 && o.owner == self->id) { --o.depth; return 0; }
    unlockMutex((up) m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t * m) { if(active()) { Rt g; if(obj((up) m).owner != -1) fail("destroy", "a locked mutex is destroyed"); objs->erase((up) m); } return 0; }

int pthread_rwlock_rdlock(pthread_rwlock_t * l) { REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *); if(!active()) return r_pthread_rwlock_rdlock(l); Rt g;
    point(K_RD, (up) l); Obj & o = obj((up) l); ++o.readers; hb(o, true, 27); acquire(o.vc); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t * l) { REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *); if(!active()) return r_pthread_rwlock_wrlock(l); Rt g;
    if(obj((up) l).owner == self->id) fail("deadlock", "a thread locks a lock it already holds");
    point(K_WR, (up) l); Obj & o = obj((up) l); o.owner = self->id; hb(o, true, 28); acquire(o.vc); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t * l) { REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *); if(!active()) return r_pthread_rwlock_tryrdlock(l); Rt g;
    point(K_NONE, 0); Obj & o = obj((up) l); hb(o, true, 27); if(o.owner != -1) return EBUSY; ++o.readers; acquire(o.vc); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t * l) { REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *); if(!active()) return r_pthread_rwlock_trywrlock(l); Rt g;
    point(K_NONE, 0); Obj & o = obj((up) l); hb(o, true, 28); if(o.owner != -1 || o.readers) return EBUSY; o.owner = self->id; acquire(o.vc); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t * l) { REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *); if(!active()) return r_pthread_rwlock_unlock(l); Rt g;
    Obj & o = obj((up) l); hb(o, true, 29); release(o.vc); if(o.owner == self->id) o.owner = -1; else --o.readers; return 0; }

int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *); if(!active()) return r_pthread_cond_wait(c, m); Rt g; condWait((up) c, (up) m, false); return 0; }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts) { REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *); if(!active()) return r_pthread_cond_timedwait(c, m, ts); Rt g; condWait((up) c, (up) m, true); return self->timedOut ? ETIMEDOUT : 0; }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t, const struct timespec * ts) { return pthread_cond_timedwait(c, m, ts); }
int pthread_cond_signal(pthread_cond_t * c) { REAL(int, pthread_cond_signal, pthread_cond_t *); if(!active()) return r_pthread_cond_signal(c); Rt g; condSignal((up) c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t * c) { REAL(int, pthread_cond_broadcast, pthread_cond_t *); if(!active()) return r_pthread_cond_broadcast(c); Rt g; condSignal((up) c, true); return 0; }
int pthread_cond_destroy(pthread_cond_t * c) { if(active()) { Rt g; if(!obj((up) c).waiters.empty()) fail("destroy", "a condition variable is destroyed while a thread waits on it"); objs->erase((up) c); } return 0; }

int pthread_once(pthread_once_t * o, void (*fn)(void)) {
    REAL(int, pthread_once, pthread_once_t *, void (*)(void));
    if(!active()) return r_pthread_once(o, fn);
    { Rt g; point(K_ONCE, (up) o); Obj & x = obj((up) o); hb(x, true, 34); acquire(x.vc); if(x.once == 2 || *o == 2) return 0; x.once = 1; }
    try { fn(); } catch(...) { Rt g; Obj & x = obj((up) o); x.once = 0; hb(x, true, 35); throw; }
    { Rt g; Obj & x = obj((up) o); x.once = 2; *o = 2; hb(x, true, 35); release(x.vc); }
    return 0;
}

int __cxa_guard_acquire(long long * gd) {
    if(*(char *) gd) return 0;
    if(!active()) { return 1; }
    Rt g; point(K_ONCE, (up) gd); Obj & x = obj((up) gd); hb(x, true, 34); acquire(x.vc); if(*(char *) gd) return 0; x.once = 1; return 1;
}
void __cxa_guard_release(long long * gd) { *(char *) gd = 1; if(active()) { Rt g; Obj & x = obj((up) gd); x.once = 2; hb(x, true, 35); release(x.vc); } }
void __cxa_guard_abort(long long * gd) { if(active()) { Rt g; Obj & x = obj((up) gd); x.once = 0; hb(x, true, 35); } }

int sched_yield() { REAL(int, sched_yield); if(!active()) return r_sched_yield(); Rt g; self->yielded = true; self->hash = mix(self->hash, 64); point(K_NONE, 0); self->yielded = false; return 0; }
int nanosleep(const struct timespec * a, struct timespec * b) { REAL(int, nanosleep, const struct timespec *, struct timespec *); if(!active()) return r_nanosleep(a, b); return sched_yield(); }
int clock_nanosleep(clockid_t c, int f, const struct timespec * a, struct timespec * b) { REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *); if(!active()) return r_clock_nanosleep(c, f, a, b); return sched_yield(); }
int usleep(useconds_t u) { REAL(int, usleep, useconds_t); if(!active()) return r_usleep(u); return sched_yield(); }

int sem_wait(sem_t * s) { REAL(int, sem_wait, sem_t *); if(!active()) return r_sem_wait(s); for(;;) { { Rt g; point(K_NONE, 0); Obj & o = obj((up) s); hb(o, true, 36); acquire(o.vc); } REAL(int, sem_trywait, sem_t *); if(r_sem_trywait(s) == 0) return 0; Rt g; futexWait((unsigned *) s, 0, false); } }
int sem_trywait(sem_t * s) { REAL(int, sem_trywait, sem_t *); if(active()) { Rt g; point(K_NONE, 0); Obj & o = obj((up) s); hb(o, true, 36); acquire(o.vc); } return r_sem_trywait(s); }
int sem_post(sem_t * s) { REAL(int, sem_post, sem_t *); if(!active()) return r_sem_post(s); { Rt g; point(K_NONE, 0); Obj & o = obj((up) s); hb(o, true, 36); release(o.vc); } r_sem_post(s); Rt g; futexWake((unsigned *) s, 1); return 0; }

static long r_sys(long n, long a0, long a1, long a2, long a3, long a4, long a5) {
    long ret; register long r10 asm("r10") = a3; register long r8 asm("r8") = a4; register long r9 asm("r9") = a5;
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a0), "S"(a1), "d"(a2), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if(ret < 0 && ret > -4096) { errno = -ret; return -1; }
    return ret;
}
long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a[6]; for(int i = 0; i < 6; ++i) a[i] = va_arg(ap, long); va_end(ap);
    if(n == SYS_futex && active()) {
        Rt g; const int op = a[1] & 0x7f;
        if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) { unsigned v = *(unsigned *) a[0]; if(v != (unsigned) a[2]) { errno = EAGAIN; return -1; } if(!futexWait((unsigned *) a[0], a[2], a[3] != 0)) { errno = ETIMEDOUT; return -1; } return 0; }
        if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) return futexWake((unsigned *) a[0], (int) a[2]);
    }
    return r_sys(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// ---------------------------------------------------------------- memory
void * malloc(size_t n) { void * p = __libc_malloc(n); if(active() && p && n) { Rt g; clearRange((up) p, n); } return p; }
void * calloc(size_t a, size_t b) { void * p = __libc_calloc(a, b); if(active() && p && a * b) { Rt g; clearRange((up) p, a * b); } return p; }
void free(void * p) { if(active() && p) { Rt g; freeRange((up) p, malloc_usable_size(p), __builtin_return_address(0)); } __libc_free(p); }
void * realloc(void * p, size_t n) { if(active() && p) { Rt g; freeRange((up) p, malloc_usable_size(p), __builtin_return_address(0)); } void * q = __libc_realloc(p, n); if(active() && q && n) { Rt g; clearRange((up) q, n); } return q; }
void * memalign(size_t a, size_t n) { void * p = __libc_memalign(a, n); if(active() && p && n) { Rt g; clearRange((up) p, n); } return p; }
void * aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void ** o, size_t a, size_t n) { *o = memalign(a, n); return *o ? 0 : ENOMEM; }

#define PC __builtin_return_address(0)
void * memcpy(void * d, const void * s, size_t n) { if(active() && n) { Rt g; touch((up) s, n, 0, PC); touch((up) d, n, 1, PC); } void * r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); return r; }
void * memmove(void * d, const void * s, size_t n) {
    if(active() && n) { Rt g; touch((up) s, n, 0, PC); touch((up) d, n, 1, PC); }
    void * r = d;
    if((up) d <= (up) s || (up) d >= (up) s + n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory");
    else { d = (char *) d + n - 1; s = (const char *) s + n - 1; asm volatile("std\n rep movsb\n cld" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); }
    return r; }
void * memset(void * d, int c, size_t n) { if(active() && n) { Rt g; touch((up) d, n, 1, PC); } void * r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }

// ---------------------------------------------------------------- exceptions (their reference counts live in libstdc++)
void __cxa_end_catch() { REAL(void, __cxa_end_catch); if(active()) { Rt g; release(*excVC); acquire(*excVC); } r___cxa_end_catch(); }

void mcrt_exc_release(void * p) asm("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
void mcrt_exc_release(void * p) { static auto r = real<void (*)(void *)>("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"); if(active()) { Rt g; release(*excVC); acquire(*excVC); } r(p); }
void mcrt_exc_addref(void * p) asm("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
void mcrt_exc_addref(void * p) { static auto r = real<void (*)(void *)>("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"); r(p); }

// ---------------------------------------------------------------- file system
static std::string modePath(const char * p) { return norm(p); }
FILE * fopen(const char * p, const char * m) { REAL(FILE *, fopen, const char *, const char *); if(!active()) return r_fopen(p, m); Rt g; fileOp(modePath(p), m[0] != 'r' || strchr(m, '+'), m[0] != 'r'); FILE * f = r_fopen(p, m); if(f) (*fdpath)[fileno(f)] = norm(p); return f; }
FILE * fopen64(const char * p, const char * m) { return fopen(p, m); }
int fclose(FILE * f) { REAL(int, fclose, FILE *); if(active()) { Rt g; const int fd = fileno(f); fdpath->erase(fd); return r_fclose(f); } return r_fclose(f); }
int open(const char * p, int fl, ...) { va_list ap; va_start(ap, fl); const int m = va_arg(ap, int); va_end(ap); REAL(int, open, const char *, int, ...); if(!active()) return r_open(p, fl, m); Rt g; const bool w = (fl & O_ACCMODE) != O_RDONLY; fileOp(norm(p), w, fl & O_CREAT); const int fd = r_open(p, fl, m); if(fd >= 0) (*fdpath)[fd] = norm(p); return fd; }
int open64(const char * p, int fl, ...) { va_list ap; va_start(ap, fl); const int m = va_arg(ap, int); va_end(ap); return open(p, fl, m); }
int close(int fd) { REAL(int, close, int); if(active()) { Rt g; fdpath->erase(fd); return r_close(fd); } return r_close(fd); }
ssize_t read(int fd, void * b, size_t n) { REAL(ssize_t, read, int, void *, size_t); if(!active()) return r_read(fd, b, n); Rt g; fdOp(fd, false); const ssize_t r = r_read(fd, b, n); if(r > 0) touch((up) b, r, 1, PC); return r; }
ssize_t write(int fd, const void * b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); if(!active()) return r_write(fd, b, n); Rt g; fdOp(fd, true); if(n) touch((up) b, n, 0, PC); return r_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec * v, int c) { REAL(ssize_t, writev, int, const struct iovec *, int); if(!active()) return r_writev(fd, v, c); Rt g; fdOp(fd, true); for(int i = 0; i < c; ++i) if(v[i].iov_len) touch((up) v[i].iov_base, v[i].iov_len, 0, PC); return r_writev(fd, v, c); }
ssize_t pread(int fd, void * b, size_t n, off_t o) { REAL(ssize_t, pread, int, void *, size_t, off_t); if(!active()) return r_pread(fd, b, n, o); Rt g; fdOp(fd, false); const ssize_t r = r_pread(fd, b, n, o); if(r > 0) touch((up) b, r, 1, PC); return r; }
ssize_t pwrite(int fd, const void * b, size_t n, off_t o) { REAL(ssize_t, pwrite, int, const void *, size_t, off_t); if(!active()) return r_pwrite(fd, b, n, o); Rt g; fdOp(fd, true); if(n) touch((up) b, n, 0, PC); return r_pwrite(fd, b, n, o); }
int fstat(int fd, struct stat * s) { REAL(int, fstat, int, struct stat *); if(!active()) return r_fstat(fd, s); Rt g; fdOp(fd, false); return r_fstat(fd, s); }
off_t lseek(int fd, off_t o, int w) { REAL(off_t, lseek, int, off_t, int); if(!active()) return r_lseek(fd, o, w); Rt g; if(w == SEEK_END) fdOp(fd, false); return r_lseek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int stat(const char * p, struct stat * s) { REAL(int, stat, const char *, struct stat *); if(!active()) return r_stat(p, s); Rt g; fileOp(norm(p), false, false); return r_stat(p, s); }
int lstat(const char * p, struct stat * s) { REAL(int, lstat, const char *, struct stat *); if(!active()) return r_lstat(p, s); Rt g; fileOp(norm(p), false, false); return r_lstat(p, s); }
int access(const char * p, int m) { REAL(int, access, const char *, int); if(!active()) return r_access(p, m); Rt g; fileOp(norm(p), false, false); return r_access(p, m); }
int mkdir(const char * p, mode_t m) { REAL(int, mkdir, const char *, mode_t); if(!active()) return r_mkdir(p, m); Rt g; fileOp(norm(p), true, true); return r_mkdir(p, m); }
int unlink(const char * p) { REAL(int, unlink, const char *); if(!active()) return r_unlink(p); Rt g; fileOp(norm(p), true, true); return r_unlink(p); }
int rmdir(const char * p) { REAL(int, rmdir, const char *); if(!active()) return r_rmdir(p); Rt g; fileOp(norm(p), true, true); return r_rmdir(p); }
int remove(const char * p) { REAL(int, remove, const char *); if(!active()) return r_remove(p); Rt g; fileOp(norm(p), true, true); return r_remove(p); }
int rename(const char * a, const char * b) { REAL(int, rename, const char *, const char *); if(!active()) return r_rename(a, b); Rt g; fileOp(norm(a), true, true); hb(obj(pathId(norm(b))), true, 43); return r_rename(a, b); }
int truncate(const char * p, off_t n) { REAL(int, truncate, const char *, off_t); if(!active()) return r_truncate(p, n); Rt g; fileOp(norm(p), true, true); return r_truncate(p, n); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); if(!active()) return r_ftruncate(fd, n); Rt g; fdOp(fd, true); return r_ftruncate(fd, n); }

// ---------------------------------------------------------------- codec libraries (their accesses to shared objects)
#define MARK(p, n, w) if((p) && (n)) touch((up) (p), (n), (w), PC)
#define WRAP_COMP(name, ret, ctx) \
    ret name(ctx * c, const void * in, size_t n, void * out, size_t m) { REAL(ret, name, ctx *, const void *, size_t, void *, size_t); if(!active()) return r_##name(c, in, n, out, m); Rt g; MARK(c, 1, 1); MARK(in, n, 0); const ret r = r_##name(c, in, n, out, m); MARK(out, r, 1); return r; }
WRAP_COMP(libdeflate_gzip_compress, size_t, void)
WRAP_COMP(libdeflate_zlib_compress, size_t, void)
#define WRAP_DEC(name) \
    int name(void * c, const void * in, size_t n, void * out, size_t m, size_t * a) { REAL(int, name, void *, const void *, size_t, void *, size_t, size_t *); if(!active()) return r_##name(c, in, n, out, m, a); Rt g; MARK(c, 1, 1); MARK(in, n, 0); MARK(out, m, 1); return r_##name(c, in, n, out, m, a); }
WRAP_DEC(libdeflate_gzip_decompress)
WRAP_DEC(libdeflate_zlib_decompress)
size_t ZSTD_compress(void * d, size_t dn, const void * s, size_t sn, int l) { REAL(size_t, ZSTD_compress, void *, size_t, const void *, size_t, int); if(!active()) return r_ZSTD_compress(d, dn, s, sn, l); Rt g; MARK(s, sn, 0); const size_t r = r_ZSTD_compress(d, dn, s, sn, l); if(r <= dn) { MARK(d, r, 1); } return r; }
size_t ZSTD_decompress(void * d, size_t dn, const void * s, size_t sn) { REAL(size_t, ZSTD_decompress, void *, size_t, const void *, size_t); if(!active()) return r_ZSTD_decompress(d, dn, s, sn); Rt g; MARK(s, sn, 0); MARK(d, dn, 1); return r_ZSTD_decompress(d, dn, s, sn); }
size_t ZSTD_compressCCtx(void * c, void * d, size_t dn, const void * s, size_t sn, int l) { REAL(size_t, ZSTD_compressCCtx, void *, void *, size_t, const void *, size_t, int); if(!active()) return r_ZSTD_compressCCtx(c, d, dn, s, sn, l); Rt g; MARK(c, 1, 1); MARK(s, sn, 0); MARK(d, dn, 1); return r_ZSTD_compressCCtx(c, d, dn, s, sn, l); }
size_t ZSTD_decompressDCtx(void * c, void * d, size_t dn, const void * s, size_t sn) { REAL(size_t, ZSTD_decompressDCtx, void *, void *, size_t, const void *, size_t); if(!active()) return r_ZSTD_decompressDCtx(c, d, dn, s, sn); Rt g; MARK(c, 1, 1); MARK(s, sn, 0); MARK(d, dn, 1); return r_ZSTD_decompressDCtx(c, d, dn, s, sn); }
size_t ZSTD_compress2(void * c, void * d, size_t dn, const void * s, size_t sn) { REAL(size_t, ZSTD_compress2, void *, void *, size_t, const void *, size_t); if(!active()) return r_ZSTD_compress2(c, d, dn, s, sn); Rt g; MARK(c, 1, 1); MARK(s, sn, 0); MARK(d, dn, 1); return r_ZSTD_compress2(c, d, dn, s, sn); }
int LZ4_compress_default(const char * s, char * d, int n, int m) { REAL(int, LZ4_compress_default, const char *, char *, int, int); if(!active()) return r_LZ4_compress_default(s, d, n, m); Rt g; MARK(s, n, 0); const int r = r_LZ4_compress_default(s, d, n, m); if(r > 0) { MARK(d, r, 1); } return r; }
int LZ4_compress_fast_extState(void * c, const char * s, char * d, int n, int m, int a) { REAL(int, LZ4_compress_fast_extState, void *, const char *, char *, int, int, int); if(!active()) return r_LZ4_compress_fast_extState(c, s, d, n, m, a); Rt g; MARK(c, 1, 1); MARK(s, n, 0); return r_LZ4_compress_fast_extState(c, s, d, n, m, a); }
int LZ4_decompress_safe(const char * s, char * d, int n, int m) { REAL(int, LZ4_decompress_safe, const char *, char *, int, int); if(!active()) return r_LZ4_decompress_safe(s, d, n, m); Rt g; MARK(s, n, 0); MARK(d, m, 1); return r_LZ4_decompress_safe(s, d, n, m); }
int blosc_compress_ctx(int cl, int sf, size_t ts, size_t n, const void * s, void * d, size_t m, const char * cn, size_t bs, int nt) { REAL(int, blosc_compress_ctx, int, int, size_t, size_t, const void *, void *, size_t, const char *, size_t, int); if(!active()) return r_blosc_compress_ctx(cl, sf, ts, n, s, d, m, cn, bs, nt); Rt g; MARK(s, n, 0); const int r = r_blosc_compress_ctx(cl, sf, ts, n, s, d, m, cn, bs, nt); if(r > 0) { MARK(d, r, 1); } return r; }
int blosc_decompress_ctx(const void * s, void * d, size_t m, int nt) { REAL(int, blosc_decompress_ctx, const void *, void *, size_t, int); if(!active()) return r_blosc_decompress_ctx(s, d, m, nt); Rt g; MARK(s, 16, 0); MARK(d, m, 1); return r_blosc_decompress_ctx(s, d, m, nt); }
// the global-state entry points of blosc are not safe for concurrent use
static char bloscGlobal;
int blosc_compress(int cl, int sf, size_t ts, size_t n, const void * s, void * d, size_t m) { REAL(int, blosc_compress, int, int, size_t, size_t, const void *, void *, size_t); if(!active()) return r_blosc_compress(cl, sf, ts, n, s, d, m); Rt g; { MARK(s, n, 0); MARK(d, m, 1); } return r_blosc_compress(cl, sf, ts, n, s, d, m); }
int blosc_set_compressor(const char * n) { REAL(int, blosc_set_compressor, const char *); if(!active()) return r_blosc_set_compressor(n); Rt g; MARK(&bloscGlobal, 1, 1); return r_blosc_set_compressor(n); }

// streaming codecs: the stream object and its current buffers
struct ZS { const unsigned char * next_in; unsigned avail_in; unsigned long total_in; unsigned char * next_out; unsigned avail_out; unsigned long total_out; };
struct BS { char * next_in; unsigned avail_in; unsigned a, b; char * next_out; unsigned avail_out; };
struct LS { const unsigned char * next_in; size_t avail_in; u64 total_in; unsigned char * next_out; size_t avail_out; };
#define STREAM { MARK(s, sizeof(*s), 1); MARK(s->next_in, s->avail_in, 0); MARK(s->next_out, s->avail_out, 1); }
int deflate(ZS * s, int f) { REAL(int, deflate, ZS *, int); if(active()) { Rt g; STREAM } ++inRt; const int r = r_deflate(s, f); --inRt; return r; }
int inflate(ZS * s, int f) { REAL(int, inflate, ZS *, int); if(active()) { Rt g; STREAM } ++inRt; const int r = r_inflate(s, f); --inRt; return r; }
int BZ2_bzCompress(BS * s, int f) { REAL(int, BZ2_bzCompress, BS *, int); if(active()) { Rt g; STREAM } ++inRt; const int r = r_BZ2_bzCompress(s, f); --inRt; return r; }
int BZ2_bzDecompress(BS * s) { REAL(int, BZ2_bzDecompress, BS *); if(active()) { Rt g; STREAM } ++inRt; const int r = r_BZ2_bzDecompress(s); --inRt; return r; }
int lzma_code(LS * s, int f) { REAL(int, lzma_code, LS *, int); if(active()) { Rt g; STREAM } ++inRt; const int r = r_lzma_code(s, f); --inRt; return r; }

// ================================================================= compiler callbacks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void * p) { if(active()) { Rt g; touch((up) p, n, 0, PC); } } \
    void __tsan_write##n(void * p) { if(active()) { Rt g; touch((up) p, n, 1, PC); } } \
    void __tsan_unaligned_read##n(void * p) { if(active()) { Rt g; touch((up) p, n, 0, PC); } } \
    void __tsan_unaligned_write##n(void * p) { if(active()) { Rt g; touch((up) p, n, 1, PC); } } \
    void __tsan_volatile_read##n(void * p) { if(active()) { Rt g; touch((up) p, n, 0, PC); } } \
    void __tsan_volatile_write##n(void * p) { if(active()) { Rt g; touch((up) p, n, 1, PC); } } \
    void __tsan_read##n##_pc(void * p, void * pc) { if(active()) { Rt g; touch((up) p, n, 0, pc); } } \
    void __tsan_write##n##_pc(void * p, void * pc) { if(active()) { Rt g; touch((up) p, n, 1, pc); } }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, unsigned long n) { if(active() && n) { Rt g; touch((up) p, n, 0, PC); } }
void __tsan_write_range(void * p, unsigned long n) { if(active() && n) { Rt g; touch((up) p, n, 1, PC); } }
void __tsan_vptr_read(void ** p) { if(active()) { Rt g; touch((up) p, 8, 0, PC); } }
void __tsan_vptr_update(void ** p, void * v) { if(active() && *p != v) { Rt g; touch((up) p, 8, 1, PC); } }

#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T * a, int mo) { if(active()) { Rt g; atomicOp((up) a, sizeof(T), true, false, mo, PC); } return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T * a, T v, int mo) { if(active()) { Rt g; atomicOp((up) a, sizeof(T), false, true, mo, PC); } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T * a, T v, int mo) { if(active()) { Rt g; atomicOp((up) a, sizeof(T), true, true, mo, PC); } return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T * a, T v, int mo) { if(active()) { Rt g; atomicOp((up) a, sizeof(T), true, true, mo, PC); } return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T * a, T v, int mo) { if(active()) { Rt g; atomicOp((up) a, sizeof(T), true, true, mo, PC); } return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T * a, T v, int mo) { if(active()) { Rt g; atomicOp((up) a, sizeof(T), true, true, mo, PC); } return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T * a, T v, int mo) { if(active()) { Rt g; atomicOp((up) a, sizeof(T), true, true, mo, PC); } return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T * a, T v, int mo) { if(active()) { Rt g; atomicOp((up) a, sizeof(T), true, true, mo, PC); } return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T * a, T v, int mo) { if(active()) { Rt g; atomicOp((up) a, sizeof(T), true, true, mo, PC); } return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T * a, T * e, T v, int mo, int) { if(active()) { Rt g; atomicOp((up) a, sizeof(T), true, true, mo, PC); } return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T * a, T * e, T v, int mo, int) { if(active()) { Rt g; atomicOp((up) a, sizeof(T), true, true, mo, PC); } return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T * a, T e, T v, int mo, int) { if(active()) { Rt g; atomicOp((up) a, sizeof(T), true, true, mo, PC); } __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { if(active()) { Rt g; point(K_NONE, 0); self->hash = mix(self->hash, 65); if(isAcq(mo)) acquire(self->acqFence); if(isRel(mo)) { self->relFence = self->vc; self->hasRelFence = true; ++self->vc.c[self->id]; } } }
void __tsan_atomic_signal_fence(int) {}
}

namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned * a, unsigned v, bool to, chrono::seconds, chrono::nanoseconds) { if(!active()) { syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr); return true; } Rt g; return futexWait(a, v, to); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned * a, unsigned v, bool to, chrono::seconds, chrono::nanoseconds) { if(!active()) { syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr); return true; } Rt g; return futexWait(a, v, to); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned * a) { if(!active()) { syscall(SYS_futex, a, FUTEX_WAKE, INT_MAX); return; } Rt g; futexWake(a, INT_MAX); }
}

// ================================================================= the search
namespace {


void runOnce(const mcrt::Scenario & s) {
    alarm(60);
    s.setup();
    if(!ths) {
        ths = new std::vector<Th *>(); objs = new std::map<up, Obj>(); shadow = new std::unordered_map<up, Block *>(); touched = new std::vector<Block *>();
        sharedReads = new std::vector<VC>(); fdpath = new std::map<int, std::string>(); pathObj = new std::map<std::string, up>(); excVC = new VC();
    }
    Th * m = new Th(); m->vc.c[0] = 1; ths->push_back(m);
    __libc_single_threaded = 0;
    std::string out;
    self = m; inRt = 0;
    {
        std::string res;
        try { res = s.run(); }
        catch(const std::exception & e) { inRt = 1; fail("exception", std::string("unexpected exception: ") + e.what()); }
        ++inRt;
        for(Th * t : *ths) if(t != m && !t->finished) fail("leak", "threads are still running when the operation has returned:" + pending());
        out = res;
    }
    self = nullptr; inRt = 0;
    snprintf(sh->outcome, sizeof sh->outcome, "%s", out.c_str());
    const std::string bad = s.verify(out);
    if(!bad.empty()) { inRt = 1; fail("result", bad); }
    for(Th * t : *ths) delete t;
    ths->clear(); objs->clear(); sharedReads->clear(); fdpath->clear(); pathObj->clear(); *excVC = VC();
    for(Block * b : *touched) memset((void *) b, 0, sizeof *b);
    touched->clear(); nextStack = 0;
    sh->status = 1;
}

// executes one schedule after the other; the first one (cold) shows lazily initialised state
void serve(const mcrt::Scenario & s, bool cold) {
    if(!cold) { sh->cold = 1; const int np = sh->nprefix; sh->nprefix = 0; sh->expand = 0; runOnce(s); sh->nprefix = np; sh->ndec = 0; sh->ops = 0; sh->expand = -1; sh->status = 0; sh->cold = 0; }
    for(int n = 0;; ++n) {
        runOnce(s);
        if(cold || n > 3000) { answer(); _exit(0); }
        __atomic_store_n(&sh->req, 0, __ATOMIC_SEQ_CST);
        answer();
        while(__atomic_load_n(&sh->req, __ATOMIC_ACQUIRE) == 0) futex(&sh->req, FUTEX_WAIT, 0);
    }
}

std::string symbolize(const std::string & m, std::string & sig) {
    // "@RACE kind@pc prev@pc|text"
    if(m.compare(0, 5, "@RACE") != 0) return m;
    char exe[500]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0;
    auto where = [&](const std::string & pc) -> std::pair<std::string, std::string> {
        if(pc == "0") return {"?", "?"};
        char cmd[800]; snprintf(cmd, sizeof cmd, "addr2line -f -C -i -s -e %s 0x%s 2>/dev/null", exe, pc.c_str());
        FILE * p = popen(cmd, "r"); std::vector<std::string> l; char b[4000];
        if(p) { while(fgets(b, sizeof b, p)) { std::string s = b; while(!s.empty() && s.back() == '\n') s.pop_back(); l.push_back(s); } pclose(p); }
        std::string txt, name;
        for(std::size_t i = 0; i + 1 < l.size() && i < 12; i += 2) {
            std::string f = l[i].substr(0, l[i].find('(')); if(f.size() > 90) f = f.substr(0, 90);
            txt += (i ? " < " : "") + f + " " + l[i + 1];
            const bool z5 = l[i + 1].find(".hxx") != std::string::npos;
            if(name.empty() && z5) name = l[i + 1].substr(0, l[i + 1].find(" ("));
        }
        if(name.empty() && l.size() > 1) name = l[1];
        name = name.substr(0, name.find(':'));
        return {name, txt};
    };
    const auto a = m.find('@', 5), b = m.find(' ', a), c = m.rfind('@', m.find('|')), bar = m.find('|');
    const auto w1 = where(m.substr(a + 1, b - a - 1)), w2 = where(m.substr(c + 1, bar - c - 1));
    sig += " " + m.substr(6, a - 6) + " " + w1.first + " / " + w2.first;
    return m.substr(bar + 1) + "; now at " + w1.second + "; earlier at " + w2.second;
}

}


static void pin(long part) {
    cpu_set_t all; CPU_ZERO(&all);
    if(sched_getaffinity(0, sizeof all, &all) != 0) return;
    const int n = CPU_COUNT(&all); if(n < 2) return;
    int want = part % n;
    for(int i = 0; i < CPU_SETSIZE; ++i) if(CPU_ISSET(i, &all) && want-- == 0) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); return; }
}

void mcrt::explore(mc::Ctx & ctx, const Scenario & s, const Limits & l) {
    const std::string only = ctx.only;
    std::vector<unsigned char> rep; bool replay = false, repCold = false;
    const auto hash = only.rfind('#');
    if(!only.empty()) {
        if(hash == std::string::npos ? only != s.name : only.substr(0, hash) != s.name) { ++ctx.caseIndex; return; }
        if(hash != std::string::npos) {
            replay = true; std::string c = only.substr(hash + 1);
            if(!c.empty() && c[0] == 'c') { repCold = true; c.erase(0, 1); }
            std::stringstream ss(c); std::string x; while(std::getline(ss, x, '.')) if(!x.empty()) rep.push_back(atoi(x.c_str()));
        }
        ++ctx.caseIndex; ctx.setCurrent(only); ++ctx.count["cases"];
    } else if(!ctx.want(s.name)) return;

    if(!sh) {
        sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        Dl_info di; dladdr((void *) &mcrt::explore, &di); exeBase = (char *) di.dli_fbase;
        pin(ctx.part);
    }
    limitSpurious = l.spurious;
    sh->replay = replay;
    std::set<std::string> outcomes;
    long long runs = 0, states = 0;
    bool failed = false; int done[2] = {-1, -1}; bool exhausted[2] = {false, false};
    pid_t pid = 0;

    for(int mode = 0; mode < 2 && !failed; ++mode) {       // 0: every execution in a fresh process, 1: warm processes
        const bool cold = mode == 0;
        const int bound = cold ? l.coldBound : l.bound;
        if(replay ? cold != repCold : cold && l.coldBound < 0) continue;
        if(sh->visited) memset((void *) sh->table, 0, sizeof sh->table);
        sh->visited = 0;
        typedef std::vector<unsigned char> P;
        std::vector<std::vector<P>> bucket(1); bucket[0].push_back(rep);
        const auto t0 = std::chrono::steady_clock::now();
        bool cut = false;
        const double seconds = cold ? l.seconds / 3 : l.seconds;
        for(std::size_t cost = 0; cost < bucket.size() && (bound < 0 || (int) cost <= bound) && !cut; ++cost) {
            while(!bucket[cost].empty()) {
                if(!replay && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > seconds) { cut = true; break; }
                P pre = std::move(bucket[cost].back()); bucket[cost].pop_back();
                sh->status = 0; sh->ndec = 0; sh->ops = 0; sh->sig[0] = sh->msg[0] = sh->outcome[0] = 0; sh->nthreads = 1; sh->expand = -1; sh->cold = 0;
                sh->nprefix = pre.size(); if(!pre.empty()) memcpy(sh->prefix, pre.data(), pre.size());
                __atomic_store_n(&sh->resp, 0, __ATOMIC_SEQ_CST);
                if(pid == 0) {
                    sh->req = 0;
                    pid = fork();
                    if(pid == 0) { serve(s, cold); _exit(0); }
                } else { __atomic_store_n(&sh->req, 1, __ATOMIC_SEQ_CST); futex(&sh->req, FUTEX_WAKE, 1); }
                int st = 0; bool dead = false;
                for(;;) {
                    if(__atomic_load_n(&sh->resp, __ATOMIC_ACQUIRE)) break;
                    struct timespec ts = {0, 500000000};
                    ++inRt; r_sys(SYS_futex, (long) &sh->resp, FUTEX_WAIT, 0, (long) &ts, 0, 0); --inRt;
                    if(__atomic_load_n(&sh->resp, __ATOMIC_ACQUIRE)) break;
                    if(waitpid(pid, &st, WNOHANG) == pid) { dead = true; break; }
                }
                if(!dead && (sh->status != 1 || cold || sh->req != 0)) { waitpid(pid, &st, 0); dead = true; }
                else if(!dead && waitpid(pid, &st, WNOHANG) == pid) dead = true;
                if(dead) pid = 0;
                ++runs; ctx.count["transitions"] += sh->ops; ctx.gauge["threads"] = std::max<long long>(ctx.gauge["threads"], sh->nthreads);
                ctx.gauge["decisions per execution"] = std::max<long long>(ctx.gauge["decisions per execution"], sh->ndec);
                if(sh->status == 0) {
                    const int sg = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
                    snprintf(sh->sig, sizeof sh->sig, "%s", sg == SIGALRM ? "hang" : sg == SIGABRT ? "abort" : "crash");
                    snprintf(sh->msg, sizeof sh->msg, sg ? "the execution ended with signal %d" : "the execution exited (%d)", sg ? sg : st);
                    sh->status = 3;
                }
                if(sh->status == 3) {
                    std::string choices = cold || sh->cold ? "c" : ""; for(int i = 0; i < sh->ndec; ++i) choices += (i ? "." : "") + std::to_string(sh->dec[i].chosen);
                    std::string sig = sh->sig; const std::string msg = symbolize(sh->msg, sig);
                    ctx.setCurrent(s.name + "#" + choices);
                    ctx.violation(sig + " in " + s.name.substr(0, s.name.find("|")), s.name + ": " + msg + " (after " + std::to_string(cost) + " preemptions)");
                    ctx.setCurrent(s.name);
                    cut = failed = true; break;
                }
                if(sh->status == 4) { ++ctx.count["schedules that could not be reproduced"]; continue; }
                ++ctx.count["checks"]; outcomes.insert(sh->outcome); ctx.outcome(s.name + sh->outcome);
                int upto = sh->ndec;
                if(sh->expand >= 0) { ++ctx.count["executions cut at a state already expanded"]; upto = sh->expand; }
                if(replay) break;
                for(int i = (int) pre.size(); i < upto; ++i) {
                    const Decision & d = sh->dec[i];
                    for(int o = 1; o < d.nopts; ++o) {
                        const std::size_t c = cost + (o >= d.nreg ? 1 : d.base);
                        if(bound >= 0 && (int) c > bound) continue;
                        if(bucket.size() <= c) bucket.resize(c + 1);
                        P p(i + 1); for(int k = 0; k < i; ++k) p[k] = sh->dec[k].chosen; p[i] = o;
                        bucket[c].push_back(std::move(p));
                    }
                }
            }
            if(!cut) done[mode] = cost;
        }
        if(!cut) { if(bound >= 0) done[mode] = bound; exhausted[mode] = bound < 0; }
        states += sh->visited;
        if(pid) { kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); pid = 0; }
    }
    ctx.count["executions"] += runs; ctx.count["states"] += states;
    if(!replay && !failed) {
        ctx.count[exhausted[1] ? "scenarios completed without bound" : "scenarios completed up to " + std::to_string(done[1]) + " preemptions"] += 1;
        ctx.sample(s.name + ": " + std::to_string(runs) + " executions, " + std::to_string(states) + " decision states, complete up to " + (exhausted[1] ? "any number of" : std::to_string(done[1])) + " preemptions, " + std::to_string(outcomes.size()) + " outcomes", 40);
    }
}
