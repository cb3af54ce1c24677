// Monitor of coroutines and of the thread helpers: who runs, with which value it resumes, what is left on its stack;
// which tasks of a fork-join ran, where, and what the caller finds afterwards.
#include "common.hpp"
#include "lib.h"
#include <algorithm>
#include <atomic>
#include <deque>
#include <errno.h>
#include <functional>
#include <fcntl.h>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <thread>
#include <time.h>
#include <unistd.h>
using namespace vf;
using std::vector;

// ---- the library's stacks, each between pages that cannot be touched
struct Blk { uint8_t *map, *p, *end; size_t len, n; };
static std::mutex blk_mtx;
static std::map<void *, Blk> blks;
static std::atomic<uint64_t> stacks{0};
static void canaries(const Blk &b) {
    for (uint8_t *q = b.map + 4096; q < b.p; q++) if (*q != 0xa7) bad("memory below a coroutine was written");
    for (uint8_t *q = b.p + b.n; q < b.end; q++) if (*q != 0xa7) bad("memory above a coroutine was written");
}
extern "C" int __real_posix_memalign(void **, size_t, size_t);
extern "C" void __real_free(void *);
extern "C" int __wrap_posix_memalign(void **out, size_t al, size_t n) {
    size_t body = (n + al + 4095) / 4096 * 4096, len = body + 8192;
    uint8_t *m = (uint8_t *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return ENOMEM;
    mprotect(m, 4096, PROT_NONE); mprotect(m + 4096 + body, 4096, PROT_NONE);
    Blk b{m, nullptr, m + 4096 + body, len, n};
    b.p = (uint8_t *)((uintptr_t)(b.end - n) & ~(uintptr_t)(al - 1));
    memset(m + 4096, 0xa7, body);
    std::lock_guard<std::mutex> g(blk_mtx); blks[b.p] = b; stacks++;
    *out = b.p; return 0;
}
extern "C" void __wrap_free(void *p) {
    if (!p) return;
    { std::lock_guard<std::mutex> g(blk_mtx); auto it = blks.find(p); if (it != blks.end()) { canaries(it->second); munmap(it->second.map, it->second.len); blks.erase(it); return; } }
    if (((uintptr_t)p & 63) == 0 && stacks.load() && cur_mode != "fork") bad("a block was released that is no coroutine's");
    __real_free(p);
}
static void no_stacks_left() { std::lock_guard<std::mutex> g(blk_mtx); if (blks.size()) bad("%zu coroutines were destroyed but their memory was not released", blks.size()); }

// ---- coroutines
struct Group;
struct Co { co *c; int id; Group *g; bool live = false, started = false; int runs = 0; uint64_t gen = 0; size_t stk = 0; };
struct Group {
    uint64_t host = 0, host2 = 0;       // the host's place in its stack is kept here
    std::deque<Co> cos;
    int want_who = -1; uint64_t want_val = 0; bool want_first = false;
    long budget = 0; uint64_t switches = 0, entries = 0, backs = 0, exits = 0, forks = 0, reuses = 0, deep = 0, frames = 0;
};
static thread_local Group *G;
static void arrive(Group *g, int who, uint64_t got, bool first) {
    if (g->want_who != who) bad("%d runs, %d should", who, g->want_who);
    if (first != g->want_first) bad("coroutine %d %s", who, first ? "starts again" : "resumes before it started");
    if (!first && got != g->want_val) bad("%d resumes with %lx, %lx was sent", who, got, g->want_val);
    co *self = who < 0 ? nullptr : g->cos[who].c; void *priv = who < 0 ? nullptr : &g->cos[who];
    if (co_self() != self) bad("co_self is wrong in %d", who);
    if (co_priv() != priv) bad("co_priv is wrong in %d", who);
    for (Co &c : g->cos) if (c.c && co_valid(c.c) != c.live) bad("coroutine %d: valid %d, but it %s", c.id, co_valid(c.c), c.live ? "has not exited" : "has exited");
}
static void leave(Group *g, int to, uint64_t v) { g->want_who = to; g->want_val = v; g->want_first = to >= 0 && !g->cos[to].started; }
static int other_live(Group *g, int me) {
    vector<int> l; for (Co &c : g->cos) if (c.live && c.id != me) l.push_back(c.id);
    return l.empty() ? -1 : l[rnd(l.size())];
}
static void body();
static void *body_ptr() { void (*f)() = body; return (void *)f; }
static uint64_t mixv(uint64_t x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; return x ^ (x >> 29); }
// one frame: values in registers and on the stack that every switch must leave alone
__attribute__((noinline)) static void frame(Co *me, int depth) {
    Group *g = me->g; g->frames++;
    uint64_t s = mixv(me->gen * 977 + me->id * 31 + depth);
    uint64_t r1 = mixv(s + 1), r2 = mixv(s + 2), r3 = mixv(s + 3), r4 = mixv(s + 4), r5 = mixv(s + 5), r6 = mixv(s + 6), r7 = mixv(s + 7);
    double f1 = (double)(r1 >> 20), f2 = (double)(r2 >> 20);
    uint64_t a[24]; for (int i = 0; i < 24; i++) a[i] = mixv(s + 100 + i);
    asm volatile("" : "+r"(r1), "+r"(r2), "+r"(r3), "+r"(r4), "+r"(r5), "+r"(r6), "+r"(r7));
    for (int step = rnd(6) + 1; step > 0; step--) {
        int o = g->budget-- > 0 ? rnd(12) : 11; uint64_t v = R(), got = 0; bool moved = true;
        int to = other_live(g, me->id);
        if (o < 5 && to >= 0) { g->switches++; leave(g, to, v); g->cos[to].started = true; got = co_switch_to(g->cos[to].c, v); }
        else if (o < 7) { g->backs++; leave(g, -1, v); got = co_back(v); }
        else if (o == 7 && g->cos.size() < 40) {
            moved = false; g->cos.emplace_back(); Co &n = g->cos.back(); n.id = (int)g->cos.size() - 1; n.g = g; n.gen = R(); n.stk = me->stk;
            n.c = co_fork(body_ptr(), &n); if (!n.c) bad("co_fork gives nothing"); n.live = true; g->forks++;
        } else if (o < 10) {
            moved = false; uint8_t here; size_t room = (size_t)(&here - ((uint8_t *)me->c - me->stk));
            if (room > 12000 && depth < 40) { frame(me, depth + 1); g->deep = std::max<uint64_t>(g->deep, depth + 1); }
        } else if (o == 10) moved = false;
        else { if (!chance(1, 3) && g->budget > 0) break; me->live = false; g->exits++; leave(g, -1, v); co_exit(v); }
        if (moved) arrive(g, me->id, got, false);
        if (r1 != mixv(s + 1) || r2 != mixv(s + 2) || r3 != mixv(s + 3) || r4 != mixv(s + 4) || r5 != mixv(s + 5) || r6 != mixv(s + 6) || r7 != mixv(s + 7)) bad("a value in a register changed across a switch in %d", me->id);
        if (f1 != (double)(r1 >> 20) || f2 != (double)(r2 >> 20)) bad("a floating value changed across a switch in %d", me->id);
        for (int i = 0; i < 24; i++) if (a[i] != mixv(s + 100 + i)) bad("a value on the stack changed across a switch in %d", me->id);
    }
}
static void body() {
    Co *me = (Co *)co_priv(); if (!me) bad("a coroutine starts without its private pointer");
    if (((uintptr_t)__builtin_frame_address(0) & 15) != 0) bad("the stack of a coroutine is not aligned");
    arrive(me->g, me->id, 0, true);
    me->runs++;
    frame(me, 0);
    me->live = false; me->g->exits++; leave(me->g, -1, 0);
}
static void co_one(uint64_t seed, std::map<string, uint64_t> &out) {
    R.seed(seed); Group grp, *g = G = &grp; g->budget = 30 + rnd(800);
    auto size = [] { return 16384 + rnd(chance(1, 8) ? 200000 : 20000); };
    auto make = [&](Co &c) { c.stk = size(); c.gen = R(); c.started = false; c.c = co_create(c.stk, body_ptr(), &c, &g->host); c.stk = (c.stk + 63) / 64 * 64; if (!c.c) bad("co_create gives nothing"); c.live = true; if ((uintptr_t)c.c & 63) bad("the stack of a coroutine does not end at a cache line"); };
    int n = 1 + rnd(8); for (int i = 0; i < n; i++) { g->cos.emplace_back(); Co &c = g->cos.back(); c.id = i; c.g = g; c.c = nullptr; make(c); }
    leave(g, -1, 0); arrive(g, -1, 0, false);
    if (co_fork(body_ptr(), nullptr)) bad("co_fork works outside of coroutines");
    int lives = 0;
    while (true) {
        int to = other_live(g, -1);
        if (to >= 0 && chance(9, 10)) {
            uint64_t v = R(); g->entries++; Co &c = g->cos[to]; leave(g, to, v); c.started = true;
            uint64_t got = co_enter(c.c, v); arrive(g, -1, got, false);
        }
        if (chance(1, 5)) {     // use an exited one, or one that waits or has not started, for something else
            Co &c = g->cos[rnd(g->cos.size())];
            if (!c.live || chance(1, 4)) { if (g->budget <= 0 || lives++ > 20) { if (to < 0) break; continue; }
                if (chance(1, 2)) { c.gen = R(); c.started = false; co_reuse(c.c, body_ptr(), &c, &g->host); c.live = true; g->reuses++; }
                else { co_destroy(c.c); c.c = nullptr; make(c); } }
        } else if (to < 0 && (g->budget <= 0 || chance(1, 3))) break;
    }
    for (Co &c : g->cos) co_destroy(c.c);
    if (co_self()) bad("the host believes it is a coroutine");
    out["switches"] += g->switches; out["entries"] += g->entries; out["backs"] += g->backs; out["exits"] += g->exits; out["forks"] += g->forks; out["reuses"] += g->reuses; out["frames"] += g->frames; out["deepest"] = std::max(out["deepest"], g->deep);
}

// ---- coroutines in a ring
struct Ring;
struct Cr { corr *c; int id; Ring *g; bool in = false, started = false; uint64_t gen = 0; size_t stk = 0; };
struct Ring {
    uint64_t host = 0; std::deque<Cr> all; vector<int> order; int want = -1; long budget = 0;
    uint64_t yields = 0, exits = 0, links = 0, alone = 0, backs = 0;
};
static void r_arrive(Ring *g, int who, bool first) {
    if (g->want != who) bad("%d of the ring runs, %d should", who, g->want);
    if (who >= 0 && first == g->all[who].started) bad("%d of the ring %s", who, first ? "starts again" : "resumes before it started");
    if (who >= 0) g->all[who].started = true;
    if (co_self() != (who < 0 ? nullptr : (co *)g->all[who].c)) bad("co_self is wrong in %d of the ring", who);
    if (co_priv() != (who < 0 ? nullptr : (void *)&g->all[who])) bad("co_priv is wrong in %d of the ring", who);
    for (Cr &c : g->all) if (co_valid((co *)c.c) != c.in) bad("%d of the ring: valid %d, but it %s", c.id, !c.in, c.in ? "has not exited" : "has exited");
}
static void r_body();
static void *r_ptr() { void (*f)() = r_body; return (void *)f; }
static int r_next(Ring *g, int me) { auto it = std::find(g->order.begin(), g->order.end(), me); ++it; return it == g->order.end() ? g->order[0] : *it; }
static void r_link(Ring *g, int after) {
    int id = -1; for (Cr &c : g->all) if (!c.in && chance(1, 2)) { id = c.id; break; }
    if (id < 0) {
        if (g->all.size() > 30) return;
        g->all.emplace_back(); Cr &c = g->all.back(); id = c.id = (int)g->all.size() - 1; c.g = g; c.gen = R(); c.stk = 16384 + rnd(30000);
        c.c = corr_link(c.stk, r_ptr(), &c, g->all[after].c); if (!c.c) bad("corr_link gives nothing");
    } else { Cr &c = g->all[id]; c.gen = R(); c.started = false; corr_relink(c.c, r_ptr(), &c, g->all[after].c); }
    g->all[id].in = true; g->links++;
    g->order.insert(std::find(g->order.begin(), g->order.end(), after) + 1, id);
}
static int r_leave(Ring *g, int me) { int nx = r_next(g, me); g->order.erase(std::find(g->order.begin(), g->order.end(), me)); g->all[me].in = false; g->exits++; return nx == me ? -1 : nx; }
__attribute__((noinline)) static void r_frame(Cr *me, int depth) {
    Ring *g = me->g; uint64_t s = mixv(me->gen + depth * 17), r1 = mixv(s + 1), r2 = mixv(s + 2), r3 = mixv(s + 3), r4 = mixv(s + 4), r5 = mixv(s + 5), r6 = mixv(s + 6);
    uint64_t a[16]; for (int i = 0; i < 16; i++) a[i] = mixv(s + 50 + i);
    asm volatile("" : "+r"(r1), "+r"(r2), "+r"(r3), "+r"(r4), "+r"(r5), "+r"(r6));
    for (int step = rnd(8) + 1; step > 0; step--) {
        int o = g->budget-- > 0 ? rnd(12) : 11;
        if (o < 6) { g->yields++; if (g->order.size() == 1) g->alone++; g->want = r_next(g, me->id); corr_yield(); r_arrive(g, me->id, false); }
        else if (o == 6) { g->backs++; g->want = -1; co_back(0); r_arrive(g, me->id, false); }
        else if (o < 9) r_link(g, g->order[rnd(g->order.size())]);
        else if (o < 11) { if (depth < 12) r_frame(me, depth + 1); }
        else { if (g->budget > 0 && !chance(1, 3)) break; g->want = r_leave(g, me->id); corr_exit(); }
        if (r1 != mixv(s + 1) || r2 != mixv(s + 2) || r3 != mixv(s + 3) || r4 != mixv(s + 4) || r5 != mixv(s + 5) || r6 != mixv(s + 6)) bad("a value in a register changed across a switch in %d of the ring", me->id);
        for (int i = 0; i < 16; i++) if (a[i] != mixv(s + 50 + i)) bad("a value on the stack changed across a switch in %d of the ring", me->id);
    }
}
static void r_body() {
    Cr *me = (Cr *)co_priv(); if (!me) bad("a coroutine starts without its private pointer");
    r_arrive(me->g, me->id, true); r_frame(me, 0);
    me->g->want = r_leave(me->g, me->id);
}
static void ring_one(uint64_t seed, std::map<string, uint64_t> &out) {
    R.seed(seed); Ring grp, *g = &grp;
    corr_yield();       // nothing happens outside of coroutines
    for (int round = 1 + rnd(4); round > 0; round--) {
        g->budget = 20 + rnd(400);
        int id = -1; for (Cr &c : g->all) if (!c.in && chance(1, 2)) { id = c.id; break; }
        if (id < 0) { g->all.emplace_back(); Cr &c = g->all.back(); id = c.id = (int)g->all.size() - 1; c.g = g; c.gen = R(); c.stk = 16384 + rnd(30000); c.c = corr_create(c.stk, r_ptr(), &c, &g->host); if (!c.c) bad("corr_create gives nothing"); }
        else { Cr &c = g->all[id]; c.gen = R(); c.started = false; corr_reuse(c.c, r_ptr(), &c, &g->host); }
        g->all[id].in = true; g->order = {id};
        for (int k = rnd(6); k > 0; k--) r_link(g, g->order[rnd(g->order.size())]);
        while (g->order.size()) {
            int first = g->order[rnd(g->order.size())];
            g->want = first; corr_enter(g->all[first].c); r_arrive(g, -1, false);
            if (g->order.size() && chance(1, 3)) r_link(g, g->order[rnd(g->order.size())]);
        }
    }
    for (Cr &c : g->all) corr_destroy(c.c);
    out["yields"] += g->yields; out["ring_exits"] += g->exits; out["links"] += g->links; out["yields_alone"] += g->alone; out["ring_backs"] += g->backs;
}
static void coroutines() {
    int T = chance(2, 3) ? 1 : 2 + rnd(3); bool ring = chance(1, 2);
    char d[60]; snprintf(d, 60, "%s threads=%d", ring ? "ring" : "free", T); cur_desc = d;
    vector<std::map<string, uint64_t>> out(T); vector<uint64_t> seeds; for (int i = 0; i < T; i++) seeds.push_back(R());
    auto one = [&](int t) { for (int k = 0; k < 4; k++) ring ? ring_one(seeds[t] + k, out[t]) : co_one(seeds[t] + k, out[t]); };
    if (T == 1) { auto keep = R; one(0); R = keep; }
    else { vector<std::thread> ts; for (int t = 0; t < T; t++) ts.emplace_back(one, t); for (auto &t : ts) t.join(); }
    for (auto &o : out) for (auto &p : o) ev[p.first] = p.first == "deepest" ? std::max(ev[p.first], p.second) : ev[p.first] + p.second;
    no_stacks_left();
}

// ---- fork-join and placement
static std::atomic<int> fail_from{0}; static std::atomic<int> created{0}, refused{0}; static std::atomic<uint32_t> fail_mask{0};
extern "C" int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
extern "C" int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    if (fail_mask.load()) { uint32_t n = (uint32_t)created++; if (mixv(n * 7919 + fail_mask) % 1000 < (uint32_t)fail_from.load()) { refused++; return EAGAIN; } }
    int r = __real_pthread_create(t, a, f, x); if (r) refused++;     // the machine itself may be short of threads
    return r;
}
struct Task { std::atomic<int> runs{0}; uint32_t cpus = 0, cpu = 0; char name[16]; pthread_t who; };
static vector<uint32_t> my_cpus() { cpu_set_t s; CPU_ZERO(&s); vector<uint32_t> r; sched_getaffinity(0, sizeof s, &s); for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &s)) r.push_back(i); return r; }
static std::atomic<int> inside{0}, total_runs{0}; static std::mutex mtx; static std::set<pthread_t> pool;
static void observe(Task *t) {
    inside++; total_runs++; t->runs++;
    auto c = my_cpus(); t->cpus = (uint32_t)c.size(); t->cpu = c.empty() ? 0 : c[0]; t->who = pthread_self(); pthread_getname_np(pthread_self(), t->name, 16);
    for (volatile int i = (int)(mixv((uint64_t)t) % 3000); i > 0; i--);
    if (mixv((uint64_t)t) % 17 == 0) usleep(200);
    inside--;
}
static std::deque<Task> *shared_tasks; static std::atomic<uint32_t> next_task{0};
static void *run_own(void *p) { observe((Task *)p); return nullptr; }
static void *run_shared(void *p) { if (p != (void *)&next_task) bad("a task got an argument that was not given"); observe(&(*shared_tasks)[next_task++]); return nullptr; }
static void *at_start(void *p) { observe((Task *)p); return p; }

static string with_stderr(const std::function<void()> &f) {
    fflush(stderr); int m = memfd_create("err", 0), old = dup(2); dup2(m, 2); f(); fflush(stderr); dup2(old, 2); close(old);
    string r((size_t)lseek(m, 0, SEEK_END), 0); if (pread(m, &r[0], r.size(), 0) < 0) r.clear(); close(m); return r;
}
static void fork_join() {
    auto base = my_cpus(); uint32_t ncpu = (uint32_t)sysconf(_SC_NPROCESSORS_CONF);
    char name0[16] = "?"; char want_name[16]; snprintf(want_name, 16, "vf%lx", (unsigned long)(R() & 0xffffff)); thread_set_name(pthread_self(), want_name); thread_get_name(pthread_self(), name0, 16);
    if (strcmp(name0, want_name)) bad("a thread named %s answers %s", want_name, name0);
    for (int it = 0; it < 6; it++) {
        // place the caller
        vector<uint32_t> sub; for (uint32_t c : base) if (chance(2, 3)) sub.push_back(c);
        if (sub.empty()) sub = base;
        last_op = "thread_setaffinity_list";
        vector<uint32_t> list = sub; for (size_t i = list.size(); i > 1; i--) std::swap(list[i - 1], list[rnd(i)]);
        if (chance(1, 3)) list.push_back(ncpu + rnd(4000));      // no such cpu: ignored
        thread_setaffinity_list((uint32_t)list.size(), list.data());
        if (my_cpus() != sub) bad("the caller does not run on the cpus of the list");
        if (process_affinity_count() != sub.size()) bad("%u cpus counted, %zu allowed", process_affinity_count(), sub.size());
        for (uint32_t max : {0u, 1u, (uint32_t)rnd(10), ncpu, ncpu + 5}) {
            last_op = "process_getaffinity_list"; vector<uint32_t> buf(max + 4, 0xdeadbeef); uint32_t n = process_getaffinity_list(max, buf.data());
            if (n != std::min<size_t>(max, sub.size())) bad("%u cpus listed, %zu allowed, room for %u", n, sub.size(), max);
            for (uint32_t i = 0; i < n; i++) if (buf[i] != sub[i]) bad("cpu %u of the list is %u, not %u", i, buf[i], sub[i]);
            for (uint32_t i = max; i < max + 4; i++) if (buf[i] != 0xdeadbeef) bad("the list of cpus was written past its end");
            ev["placements"]++;
        }
        bool args = chance(1, 2), fail = chance(1, 3); uint32_t nr = chance(1, 6) ? 0 : chance(1, 12) ? 100 + rnd(100) : chance(1, 2) ? 1 + rnd(9) : 1u << rnd(6), real = nr ? nr : (uint32_t)sub.size();
        if (nr > 4 && chance(1, 3)) { nr += rnd(3) - 1; real = nr; }
        
        bool huge = chance(1, 40);      // more than there can be; no thread is to be had, so only the caller's own task runs
        if (huge) { nr = 65000 + rnd(2000); real = std::min<uint32_t>(nr, 65536); args = false; fail = true; }
        std::deque<Task> own(args ? real : 0), sh(args ? 0 : real + 8); vector<void *> argv; for (Task &t : own) argv.push_back(&t);
        shared_tasks = &sh; next_task = 0; total_runs = 0; created = 0; refused = 0;
        fail_from = huge ? 1000 : (int)(1 + rnd(chance(1, 2) ? 1000 : 150)); fail_mask = fail ? (uint32_t)(R() | 1) : 0;
        char d[100]; snprintf(d, 100, "fork-join nr=%u args=%d fail=%d cpus=%zu", nr, args, fail, sub.size()); cur_desc = d; last_op = "thread_fork_join";
        uint64_t t0 = time_nsec(), dt = 0; 
        string err = with_stderr([&] { dt = thread_fork_join(nr, args ? run_own : run_shared, args, args ? (void *)argv.data() : (void *)&next_task); });
        uint64_t t1 = time_nsec(); fail_mask = 0;
        if (inside) bad("fork-join returned while %d tasks still ran", inside.load());
        if (dt > t1 - t0) bad("fork-join took %lu ns, says it took %lu", t1 - t0, dt);
        uint32_t ran = 0, missing = 0;
        for (uint32_t i = 0; i < real; i++) {
            Task &t = args ? own[i] : sh[i]; int r = t.runs;
            if (r > 1) bad("task %u ran %d times", i, r);
            if (!r) { missing++; continue; }
            ran++;
            if (t.cpus != 1 || !std::count(sub.begin(), sub.end(), t.cpu)) bad("task %u ran on %u cpus, first %u: not on one of the caller's", i, t.cpus, t.cpu);
            if (args && t.cpu != sub[i % sub.size()]) bad("task %u ran on cpu %u, its turn was %u", i, t.cpu, sub[i % sub.size()]);
            if (strncmp(t.name, want_name, std::min<size_t>(strlen(want_name), 8))) bad("task %u ran under the name %s", i, t.name);
        }
        if (total_runs != (int)ran) bad("%d runs, %u tasks", total_runs.load(), real);
        if (!refused && missing) bad("%u of %u tasks did not run", missing, real);
        if (refused) {
            unsigned f = ~0u, j = ~0u; const char *p = strstr(err.c_str(), "fork "); if (!p || sscanf(p, "fork %u join %u", &f, &j) != 2) bad("%u tasks did not run and nothing is said", missing);
            if (f != missing || j) bad("%u tasks did not run, %u are reported, and %u failed joins", missing, f, j);
            ev["forks_with_refusals"]++;
        } else if (err.size()) bad("a fork-join without errors says: %s", err.c_str());
        if (my_cpus() != sub) bad("after fork-join the caller runs on other cpus than before");
        thread_get_name(pthread_self(), name0, 16); if (strcmp(name0, want_name)) bad("after fork-join the caller is named %s, it was %s", name0, want_name);
        ev["fork_joins"]++; ev["tasks"] += ran; ev["tasks_refused"] += missing;
        // one thread at a place
        last_op = "thread_create_at"; uint32_t cpu = sub[rnd(sub.size())]; uint32_t ask = chance(1, 3) ? cpu + ncpu * (uint32_t)rnd(1000) : cpu;
        Task one; pthread_t th; void *res = nullptr; int r = EAGAIN; for (int k = 0; r == EAGAIN && k < 200; k++) { r = thread_create_at(ask, &th, at_start, &one); if (r == EAGAIN) usleep(20000); }
        if (r == EAGAIN) continue;
        if (r) bad("no thread at cpu %u: %d", ask, r);
        pthread_join(th, &res);
        if (res != &one || one.runs != 1 || one.cpus != 1 || one.cpu != cpu) bad("the thread at cpu %u ran %d times on cpu %u", ask, one.runs.load(), one.cpu);
        ev["threads_placed"]++;
        last_op = "thread_pin"; try { std::thread([&] { thread_pin(ask); auto c = my_cpus(); if (c.size() != 1 || c[0] != cpu) bad("a thread pinned to cpu %u runs elsewhere", ask); }).join(); } catch (std::system_error &) { continue; }
    }
    thread_setaffinity_list((uint32_t)base.size(), base.data()); if (my_cpus() != base) bad("the caller cannot get its cpus back");
    last_op = "time"; timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); uint64_t n = time_nsec(); double s = time_sec(); clock_gettime(CLOCK_MONOTONIC, &b);
    if (n > b.tv_sec * 1000000000ull + b.tv_nsec || n < a.tv_sec * 1000000000ull + a.tv_nsec) bad("the clock shows %lu", n);
    if (s > b.tv_sec + b.tv_nsec * 1e-9 + 1e-6 || s < a.tv_sec + a.tv_nsec * 1e-9 - 1e-6) bad("the clock shows %f s", s);
    usleep(500); uint64_t dn = time_diff_nsec(n); double ds = time_diff_sec(s); if (dn < 500000 || ds < 0.0005 || dn > 60000000000ull || ds > 60) bad("500 us last %lu ns, %f s", dn, ds);
    rusage u0, u1; getrusage(RUSAGE_SELF, &u0); uint64_t cpu = process_cpu_time_usec(); long rss = process_get_rss(); getrusage(RUSAGE_SELF, &u1);
    auto us = [](rusage &u) { return (uint64_t)(u.ru_utime.tv_sec + u.ru_stime.tv_sec) * 1000000 + u.ru_utime.tv_usec + u.ru_stime.tv_usec; };
    if (cpu < us(u0) || cpu > us(u1) || rss < u0.ru_maxrss || rss > u1.ru_maxrss) bad("processor time %lu us, memory %ld kB", cpu, rss);
}

int main(int, char **v) {
    reset_signals();
    string mode = v[1]; uint64_t a = strtoull(v[2], 0, 10), b = strtoull(v[3], 0, 10);
    for (uint64_t s = a; s < b; s++) { begin_case(mode, s); if (mode == "co") coroutines(); else fork_join(); end_case(); }
    puts("DONE");
}
