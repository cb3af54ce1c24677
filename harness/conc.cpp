// Monitor of the maps under concurrent users.
//   hist  all threads use the same few keys; every operation is recorded with its times, and each key's
//         history is checked for linearizability afterwards
//   own   every thread owns some of the keys of shared leaves and knows their exact state at all times
#include "maps.hpp"
#include "keys.hpp"
#include <algorithm>
#include <atomic>
#include <sched.h>
#include <thread>
#include <time.h>
using namespace vf;

static int64_t now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }

// ---- delays at the points where the map calls back (it holds its locks there) ----
static int jit_den;
static void jit() {
    if (!jit_den || rnd(jit_den)) return;
    switch (rnd(4)) {
        case 0: sched_yield(); break;
        case 1: { for (volatile int i = rnd(2000); i > 0; i--); break; }
        case 2: { for (volatile int i = rnd(200); i > 0; i--); break; }
        default: { timespec t = {0, (long)rnd(40000)}; nanosleep(&t, nullptr); }
    }
}
// ---- delays around the map's locks and grace periods (the linker routes those calls through here) ----
static int lock_den;
static std::atomic<uint64_t> n_read, n_write, n_refused, n_grace, n_meta;
static void jl() {
    if (!lock_den || rnd(lock_den)) return;
    switch (rnd(5)) {
        case 0: sched_yield(); break;
        case 1: case 2: { for (volatile int i = rnd(3000); i > 0; i--); break; }
        case 3: { for (volatile int i = rnd(300); i > 0; i--); break; }
        default: { timespec t = {0, (long)rnd(60000)}; nanosleep(&t, nullptr); }
    }
}
// ---- a thread works on the map only while it is announced as a reader (lib.h: resume comes between park and update) ----
static thread_local std::map<const void *, bool> my_refs;      // this thread's references: parked?
static thread_local bool is_worker; static thread_local uint64_t n_announced;
static void announced(const void *ref) {
    auto i = my_refs.find(ref); if (i == my_refs.end()) return;
    n_announced++;
    if (i->second) bad("the map announces progress for a user that is parked: its pages can be released under it");
}
static void holding() {
    if (!is_worker || my_refs.empty()) return;
    for (auto &p : my_refs) if (!p.second) return;
    bad("the map takes a leaf's lock for a user that is parked: the leaf can be released under it");
}
static void tick(std::atomic<uint64_t> &c) { c.fetch_add(1, std::memory_order_relaxed); }
extern "C" {
#define LOCK(f, T, C) void __real_##f(T *const l); void __wrap_##f(T *const l) { jl(); __real_##f(l); tick(C); jl(); }
#define UNLOCK(f, T) void __real_##f(T *const l); void __wrap_##f(T *const l) { jl(); __real_##f(l); jl(); }
LOCK(rwlock_lock_read, rwlock, n_read)
LOCK(rwlock_lock_write, rwlock, n_write)
LOCK(spinlock_lock, spinlock, n_meta)
UNLOCK(rwlock_unlock_read, rwlock)
UNLOCK(rwlock_unlock_write, rwlock)
UNLOCK(spinlock_unlock, spinlock)
#define TRY(f, C) bool __real_##f(rwlock *const l); bool __wrap_##f(rwlock *const l) { jl(); holding(); bool r = __real_##f(l); if (r) { tick(C); jl(); } else tick(n_refused); return r; }
#define TRYN(f, C) bool __real_##f(rwlock *const l, u16 n); bool __wrap_##f(rwlock *const l, u16 n) { jl(); holding(); bool r = __real_##f(l, n); if (r) { tick(C); jl(); } else tick(n_refused); return r; }
TRY(rwlock_trylock_read, n_read)
TRY(rwlock_trylock_write, n_write)
TRYN(rwlock_trylock_read_nr, n_read)
TRYN(rwlock_trylock_write_nr, n_write)
void __real_qsbr_wait(struct qsbr *const q, const u64 v);
void __wrap_qsbr_wait(struct qsbr *const q, const u64 v) { jl(); __real_qsbr_wait(q, v); tick(n_grace); jl(); }
void __real_qsbr_update(struct qsbr_ref *const q, const u64 v);
void __wrap_qsbr_update(struct qsbr_ref *const q, const u64 v) { jl(); announced(q); __real_qsbr_update(q, v); jl(); }
bool __real_qsbr_register(struct qsbr *const q, struct qsbr_ref *const r);
bool __wrap_qsbr_register(struct qsbr *const q, struct qsbr_ref *const r) { bool ok = __real_qsbr_register(q, r); if (ok) my_refs[r] = false; return ok; }
void __real_qsbr_unregister(struct qsbr *const q, struct qsbr_ref *const r);
void __wrap_qsbr_unregister(struct qsbr *const q, struct qsbr_ref *const r) { jl(); my_refs.erase(r); __real_qsbr_unregister(q, r); jl(); }
void __real_qsbr_park(struct qsbr_ref *const r);
void __wrap_qsbr_park(struct qsbr_ref *const r) { jl(); auto i = my_refs.find(r); if (i != my_refs.end()) i->second = true; __real_qsbr_park(r); jl(); }
void __real_qsbr_resume(struct qsbr_ref *const r);
void __wrap_qsbr_resume(struct qsbr_ref *const r) { jl(); __real_qsbr_resume(r); auto i = my_refs.find(r); if (i != my_refs.end()) i->second = false; jl(); }
}
// ---- memory hooks: every pair is released exactly once, poisoned when it is ----
static const uint64_t LIVE = 0x11fe11fe11fe11feull, DEAD = 0xdeaddeaddeaddeadull;
static std::atomic<uint64_t> mm_in, mm_free;
static struct kv *cm_in(struct kv *const kv, void *const) {
    size_t n = kv_size(kv);
    char *p = (char *)malloc(16 + n);
    ((std::atomic<uint64_t> *)p)->store(LIVE, std::memory_order_relaxed);
    memcpy(p + 16, kv, n);
    mm_in.fetch_add(1, std::memory_order_relaxed);
    jit();
    return (struct kv *)(p + 16);
}
static void cm_free(struct kv *const kv, void *const) {
    char *p = (char *)kv - 16;
    if (((std::atomic<uint64_t> *)p)->exchange(DEAD, std::memory_order_relaxed) != LIVE) bad("the map released a pair twice");
    mm_free.fetch_add(1, std::memory_order_relaxed);
    jit();
    memset(p + 16, 0xDD, kv_size(kv));
    free(p);
}
static struct kv *cm_out(struct kv *const kv, struct kv *const out) { return kvmap_mm_out_dup(kv, out); }

// ---- values ----
static vector<string> U;              // the keys, sorted
static bool ISINT;
static size_t vlen_of(uint32_t k) { return ISINT ? 16 : 8 + k % 37; }
static string enc(uint32_t k, uint64_t id) {
    string v(vlen_of(k), 0);
    for (size_t i = 0; i < v.size(); i++) v[i] = (char)(id >> (8 * (i % 8)) ^ (i / 8 * 29));
    return v;
}
static uint64_t dec(uint32_t k, const string &v) {
    uint64_t id = 0;
    if (v.size() != vlen_of(k)) bad("a value of %zu bytes was read for key %u, %zu bytes are stored", v.size(), k, vlen_of(k));
    for (size_t i = 0; i < 8; i++) id |= (uint64_t)(uint8_t)v[i] << (8 * i);
    if (v != enc(k, id)) bad("a torn value was read for key %u: %s", k, hex(v).c_str());
    return id;
}
static int idx(const string &k) { auto i = std::lower_bound(U.begin(), U.end(), k); return i != U.end() && *i == k ? i - U.begin() : -1; }

// ---- callbacks ----
struct CB { Seen s; };
static void cj_read(struct kv *const c, void *const p) { jit(); cb_read(c, p); }
static void cj_write(struct kv *const c, void *const p) {
    Seen *s = (Seen *)p; see(c, s); jit();
    if (c) { uint8_t *v = (uint8_t *)kv_vptr(c); size_t n = std::min<size_t>(c->vlen, s->nv.size()); memcpy(v, s->nv.data(), n / 2); jit(); memcpy(v + n / 2, s->nv.data() + n / 2, n - n / 2); }
}
static struct kv *cj_merge(struct kv *const c, void *const p) { jit(); return cb_merge(c, p); }

// ---- history ----
enum K { READ, WRITE, RMW, DEL, PROBE, ERASE };
struct Op { int64_t t0, t1; uint8_t kind; bool res; uint8_t tid; uint32_t key; uint64_t a, b; };
static const char *kname[] = {"read", "write", "update", "delete", "probe", "range-delete"};

static bool apply(const Op &o, uint64_t st, uint64_t &out) {
    out = st;
    switch (o.kind) {
        case READ: return st == o.a;
        case WRITE: out = o.b; return true;
        case RMW: if (st != o.a) return false; out = o.b; return true;
        case DEL: out = 0; return (st != 0) == o.res;
        case PROBE: return (st != 0) == o.res;
        default: out = 0; return true;
    }
}
// one key: is there an order of the operations, consistent with their times, that explains all results?
static bool linear(vector<Op> &h, uint64_t init, size_t &where, uint64_t &maxconf) {
    struct E { int64_t t; bool resp; uint32_t i; };
    vector<E> e;
    for (uint32_t i = 0; i < h.size(); i++) { e.push_back({h[i].t0, false, i}); e.push_back({h[i].t1, true, i}); }
    std::sort(e.begin(), e.end(), [](const E &a, const E &b) { return a.t != b.t ? a.t < b.t : a.resp < b.resp; });
    vector<uint32_t> pend;      // open operations, at most 64
    typedef std::pair<uint64_t, uint64_t> C;   // done mask over slots, state
    vector<int> slot(h.size(), -1); uint64_t used = 0; int own[64];
    std::set<C> cur = {{0, init}};
    for (auto &x : e) {
        if (!x.resp) { int s = __builtin_ctzll(~used); used |= 1ull << s; slot[x.i] = s; own[s] = x.i; continue; }
        uint64_t bit = 1ull << slot[x.i];
        std::set<C> all = cur, next; vector<C> work(cur.begin(), cur.end());
        while (!work.empty()) {
            C c = work.back(); work.pop_back();
            if (c.first & bit) { next.insert({c.first & ~bit, c.second}); continue; }
            for (uint64_t m = used & ~c.first; m; m &= m - 1) {
                int s = __builtin_ctzll(m); uint64_t st;
                if (!apply(h[own[s]], c.second, st)) continue;
                C d = {c.first | 1ull << s, st};
                if (all.insert(d).second) work.push_back(d);
            }
        }
        maxconf = std::max<uint64_t>(maxconf, all.size());
        if (next.empty()) { where = x.i; return false; }
        cur.swap(next); used &= ~bit;
    }
    return true;
}

struct Cfg { int threads, ops, win, pscan, pdelr, pdel, prmw, tide; bool rr; bool iters; } cfg;
static std::atomic<int> gate;
static std::atomic<uint64_t> phase_ctr;

struct Th {
    int tid; Map *m; uint64_t seed; vector<Op> log; std::map<string, uint64_t> cnt; uint32_t seq = 0; uint64_t ops = 0;
    uint64_t fresh() { return (uint64_t)(tid + 1) << 32 | ++seq; }
    void rec(int64_t t0, int64_t t1, K kind, uint32_t k, bool res, uint64_t a, uint64_t b) { log.push_back({t0, t1, (uint8_t)kind, res, (uint8_t)tid, k, a, b}); }
    uint32_t pick() {
        uint32_t n = U.size();
        if (cfg.win && n > (uint32_t)cfg.win) { uint32_t base = (phase_ctr.load(std::memory_order_relaxed) / 3000 * 7919) % (n - cfg.win); return base + rnd(cfg.win); }
        return rnd(n);
    }
    // a scan: every key passed over was absent, every key met was present with that value, each at some moment
    template <class P, class A> void scan(P present, A absent) {
        uint32_t k = pick(); string start = chance(1, 20) ? string() : U[k];
        if (start.empty()) k = 0;
        m->it_open();
        int64_t t0 = now();
        m->seek(start);
        uint32_t nextk = k; string last; bool first = true;
        for (int n = chance(1, 6) ? rnd(300) : rnd(40); ; n--) {
            Pair p; bool f = m->peek(p, rnd(12));
            int64_t t1 = now();
            uint32_t at = U.size();
            if (f) {
                if (!first && p.k <= last) bad("a scan went from %s to %s", hex(last).c_str(), hex(p.k).c_str());
                if (p.k < start) bad("a scan from %s met %s", hex(start).c_str(), hex(p.k).c_str());
                int i = idx(p.k);
                if (i < 0) bad("a scan met the key %s that was never stored", hex(p.k).c_str());
                at = i; last = p.k; first = false;
            }
            for (; nextk < at; nextk++) absent(nextk, t0, t1);
            if (!f) break;
            present(at, dec(at, p.v), t0, t1);
            nextk = at + 1;
            cnt["scan_positions"]++;
            if (n <= 0) break;
            jit();
            t0 = now();
            m->skip1();
        }
        m->it_close();
        cnt["scans"]++;
    }
    void hist() {
        for (int i = 0; i < cfg.ops; i++) {
            uint64_t pc = phase_ctr.fetch_add(1, std::memory_order_relaxed); ops++;
            int pdel = cfg.tide ? pc / cfg.tide & 1 ? 75 : 5 : cfg.pdel;     // all threads fill and empty the leaves together
            uint32_t k = pick(); const string &key = U[k];
            int c = rnd(100); int64_t t0, t1;
            if (c < cfg.pscan) { scan([&](uint32_t k, uint64_t id, int64_t a, int64_t b) { rec(a, b, READ, k, 0, id, 0); }, [&](uint32_t k, int64_t a, int64_t b) { rec(a, b, READ, k, 0, 0, 0); }); continue; }
            c -= cfg.pscan;
            if (c < cfg.pdelr) {
                uint32_t e = std::min<size_t>(U.size() - 1, k + (chance(1, 4) ? rnd(120) : rnd(10)));
                t0 = now(); uint64_t n = m->delr(key, &U[e]); t1 = now();
                if (n > e - k) bad("a range delete over %u keys says it removed %lu", e - k, n);
                for (uint32_t x = k; x < e; x++) rec(t0, t1, ERASE, x, 0, 0, 0);
                cnt["range_deletes"]++; continue;
            }
            c = rnd(100);
            if (c < pdel) { t0 = now(); bool f = m->del(key); t1 = now(); rec(t0, t1, DEL, k, f, 0, 0); cnt["deletes"]++; }
            else if (c < pdel + 20) {
                if (m->can_get() && chance(2, 3)) { string v; t0 = now(); bool f = m->get(key, v); t1 = now(); rec(t0, t1, READ, k, f, f ? dec(k, v) : 0, 0); cnt["gets"]++; }
                else { t0 = now(); bool f = m->probe(key); t1 = now(); rec(t0, t1, PROBE, k, f, 0, 0); cnt["probes"]++; }
            } else if (m->can_inp() && (int)rnd(100) < cfg.prmw) {
                Seen s; uint64_t id = fresh(); s.nv = enc(k, id); s.key = key;
                switch (rnd(3)) {
                    case 0: { t0 = now(); bool f = m->inpr2(key, s, cj_read); t1 = now(); if (f == s.null || s.calls != 1) bad("in-place read: found %d, null %d, calls %d", f, s.null, s.calls); rec(t0, t1, READ, k, f, f ? dec(k, s.v) : 0, 0); cnt["inplace_reads"]++; break; }
                    case 1: { t0 = now(); bool f = m->inpw2(key, s, cj_write); t1 = now(); if (f == s.null || s.calls != 1) bad("in-place write: found %d, null %d, calls %d", f, s.null, s.calls);
                        if (f) rec(t0, t1, RMW, k, f, dec(k, s.v), id); else rec(t0, t1, READ, k, f, 0, 0); cnt["inplace_writes"]++; break; }
                    default: { s.act = rnd(4); t0 = now(); bool f = m->merge2(key, s, cj_merge); t1 = now();
                        if (!f || s.calls != 1) bad("merge: ok %d, calls %d", f, s.calls);
                        uint64_t a = s.null ? 0 : dec(k, s.v);
                        if (s.act == 0 || (s.act == 3 && !s.null)) rec(t0, t1, READ, k, f, a, 0); else rec(t0, t1, RMW, k, f, a, id);
                        cnt["merges"]++; }
                }
            } else { uint64_t id = fresh(); string v = enc(k, id); t0 = now(); if (!m->put(key, v)) bad("put failed"); t1 = now(); rec(t0, t1, WRITE, k, true, 0, id); cnt["puts"]++; }
            idle();
        }
    }
    void idle() {
        if (chance(1, 40)) jit();
        if (chance(1, 60)) m->refresh();
        if (chance(1, 500)) m->reref();
        if (chance(1, 300)) { m->park(); jit(); m->resume(); }
    }
    std::map<uint32_t, uint64_t> mine; std::vector<uint32_t> lastseen; int B;
    bool is_mine(uint32_t k) { return (int)(k / B % cfg.threads) == tid; }
    void foreign(uint32_t k, uint64_t id) {
        if ((int)(id >> 32) != (int)(k / B % cfg.threads) + 1 && id >> 32 != 99) bad("key %u holds a value its only writer never wrote (%lx)", k, id);
        uint32_t s = id >> 32 == 99 ? 0 : (uint32_t)id;
        if (s < lastseen[k]) bad("key %u went back from its write %u to write %u", k, lastseen[k], s);
        lastseen[k] = s;
        cnt["foreign_reads"]++;
    }
    void own() {
        lastseen.assign(U.size(), 0);
        vector<uint32_t> ks; for (uint32_t k = 0; k < U.size(); k++) if (is_mine(k)) ks.push_back(k);
        if (ks.empty()) return;
        int pdel = rnd(100);
        for (int i = 0; i < cfg.ops; i++) {
            uint64_t pc = phase_ctr.fetch_add(1, std::memory_order_relaxed); ops++;
            if (cfg.tide) pdel = pc / cfg.tide & 1 ? 95 : 5; else if (chance(1, 200)) pdel = chance(1, 3) ? 90 : chance(1, 2) ? 10 : rnd(100);
            uint32_t k;
            if (cfg.win && ks.size() > (size_t)cfg.win) { uint32_t base = (pc / 3000 * 7919) % U.size(); uint32_t j = std::lower_bound(ks.begin(), ks.end(), base) - ks.begin(); k = ks[(j + rnd(cfg.win)) % ks.size()]; }
            else k = ks[rnd(ks.size())];
            auto it = mine.find(k); bool e = it != mine.end(); const string &key = U[k];
            int c = rnd(100);
            if (c < cfg.pscan) {
                scan([&](uint32_t x, uint64_t id, int64_t, int64_t) { if (!is_mine(x)) return foreign(x, id); auto y = mine.find(x); if (y == mine.end()) bad("a scan met key %u, which its owner has deleted", x); if (y->second != id) bad("a scan read %lx for key %u, its owner wrote %lx", id, x, y->second); },
                     [&](uint32_t x, int64_t, int64_t) { if (is_mine(x) && mine.count(x)) bad("a scan passed over key %u, which its owner has stored", x); });
                continue;
            }
            c -= cfg.pscan;
            if (c < cfg.pdelr) {        // inside one block of own keys
                uint32_t a = k, b = std::min<uint32_t>((k / B + 1) * B, U.size() - 1); if (cfg.threads == 1) b = std::min<uint32_t>(k + rnd(200), U.size() - 1);
                if (a < b) a += rnd(2), b = a + rnd(b - a + 1);
                uint64_t want = 0; for (uint32_t x = a; x < b; x++) want += mine.erase(x);
                uint64_t got = m->delr(U[a], &U[b]);
                if (got != want) bad("a range delete removed %lu keys, its owner had stored %lu", got, want);
                cnt["range_deletes"]++; continue;
            }
            c = rnd(100);
            if (c < 20) {
                uint32_t x = chance(1, 2) ? k : pick(); bool me = is_mine(x); auto y = mine.find(x); bool ex = me && y != mine.end();
                if (m->can_get() && chance(2, 3)) { string v; bool f = m->get(U[x], v); if (me ? f != ex : false) bad("get of key %u answers %d, its owner %s it", x, f, ex ? "stored" : "does not have"); if (f) { uint64_t id = dec(x, v); if (me && id != y->second) bad("get of key %u returns %lx, its owner wrote %lx", x, id, y->second); if (!me) foreign(x, id); } }
                else { bool f = m->probe(U[x]); if (me && f != ex) bad("probe of key %u answers %d, its owner %s it", x, f, ex ? "stored" : "does not have"); }
                cnt["lookups"]++;
            } else if ((int)rnd(100) < pdel) { if (m->del(key) != e) bad("delete of key %u answers %d", k, !e); if (e) mine.erase(it); cnt["deletes"]++; }
            else if (m->can_inp() && (int)rnd(100) < cfg.prmw) {
                Seen s; uint64_t id = fresh(); s.nv = enc(k, id); s.key = key;
                if (chance(1, 2)) { bool f = m->inpw2(key, s, cj_write); if (f != e) bad("in-place write of key %u answers %d", k, f); if (e) { if (dec(k, s.v) != it->second) bad("in-place write saw another value"); it->second = id; } cnt["inplace_writes"]++; }
                else { s.act = rnd(4); if (!m->merge2(key, s, cj_merge) || s.null == e) bad("merge of key %u: null %d, present %d", k, s.null, e); if (e && dec(k, s.v) != it->second) bad("merge saw another value"); if (s.act && !(e && s.act == 3)) mine[k] = id; cnt["merges"]++; }
            } else { uint64_t id = fresh(); if (!m->put(key, enc(k, id))) bad("put failed"); mine[k] = id; cnt["puts"]++; }
            idle();
        }
    }
};

int main(int, char **v) {
    reset_signals();
    string mode = v[1]; uint64_t a = strtoull(v[2], 0, 10), b = strtoull(v[3], 0, 10);
    bool isint = mode.find("int") != string::npos, ownm = mode.find("own") != string::npos;
    double scale = getenv("CONC_SCALE") ? atof(getenv("CONC_SCALE")) : 1;
    for (uint64_t s = a; s < b; s++) {
        begin_case(mode, s);
        ISINT = isint; mm_in = mm_free = 0; phase_ctr = 0; jit_den = lock_den = 0; n_read = n_write = n_refused = n_grace = n_meta = 0;
        Gen g; g.init(isint);
        std::set<string> ks; bool many = ownm && chance(1, 8);
        if (many) g.big();
        size_t want = many ? 12000 + rnd(8000) : ownm ? 1 + rnd(chance(1, 3) ? 5000 : 400) : 2 + rnd(chance(1, 3) ? 600 : 60);
        if (isint) g.shorts = false;
        for (int i = 0; i < 60000 && ks.size() < want; i++) ks.insert(g.k());
        U.assign(ks.begin(), ks.end());
        Map *m; kvmap_mm mm = {cm_in, cm_out, cm_free, nullptr}; bool hooks = false;
        if (isint) { int w = rnd(3); m = w == 0 ? (Map *)new WI() : new KI(w == 1); }
        else { int w = rnd(3); hooks = w; m = w == 0 ? (Map *)new WH() : new KM(w - 1, &mm); }
        cfg.threads = 2 + rnd(5); cfg.ops = (ownm ? 3000 + rnd(12000) : 1000 + rnd(4000)) * scale / (cfg.threads / 2.0);
        cfg.tide = chance(1, 2) ? 0 : (30 << rnd(5)) * (chance(1, 3) ? 8 : 1);
        cfg.win = chance(1, 2) ? 0 : 8 << rnd(5);
        cfg.iters = !isint; cfg.pscan = cfg.iters && chance(1, 2) ? rnd(10) : 0; cfg.pdelr = chance(1, 2) ? rnd(6) : 0; cfg.pdel = chance(1, 2) ? 40 : rnd(70); cfg.prmw = chance(1, 2) ? rnd(60) : 0;
        jit_den = chance(1, 4) ? 0 : 20 << rnd(8); int ld = chance(1, 3) ? 0 : 30 << rnd(8);
        int B = ownm ? (int[]){1, 2, 8, 40, 150}[rnd(5)] : 1;
        char d[200]; snprintf(d, 200, "map=%s keys=%d n=%zu threads=%d ops=%d window=%d tide=%d scans=%d ranges=%d delays=%d/%d block=%d", m->name, g.dist, U.size(), cfg.threads, cfg.ops, cfg.win, cfg.tide, cfg.pscan, cfg.pdelr, jit_den, ld, B); cur_desc = d;
        vector<uint64_t> init(U.size(), 0);
        vector<Th> th(cfg.threads);
        for (int t = 0; t < cfg.threads; t++) { th[t].tid = t; th[t].B = B; th[t].seed = R(); }
        if (chance(1, 2)) for (uint32_t k = 0; k < U.size(); k++) if (chance(1, 2)) { init[k] = 99ull << 32; m->put(U[k], enc(k, init[k])); if (ownm) th[k / B % cfg.threads].mine[k] = init[k]; }
        m->park();
        gate = 0;
        m->conc = true; lock_den = ld;
        vector<std::thread> ts;
        for (auto &t : th) ts.emplace_back([&, p = &t] {
            R.seed(p->seed); is_worker = true;
            std::unique_ptr<Map> mine(m->clone()); p->m = mine.get();
            mine->park();
            gate.fetch_add(1); while (gate.load() < cfg.threads) sched_yield();
            mine->resume();
            if (ownm) p->own(); else p->hist();
            p->cnt["announcements"] += n_announced;
        });
        for (auto &t : ts) t.join();
        m->resume(); m->conc = false;
        last_op = "after all threads finished"; jit_den = lock_den = 0;
        for (auto &t : th) { for (auto &c : t.cnt) ev[c.first] += c.second; op_index += t.ops; }
        ev["ops"] += op_index; ev["threads"] = cfg.threads;
        ev["read_locks"] = n_read; ev["write_locks"] = n_write; ev["refused_locks"] = n_refused; ev["structure_changes"] = n_grace;
        // the final contents, by lookups and by a full scan
        std::map<uint32_t, uint64_t> fin; int64_t T = now() + 1;
        m->it_open(); m->seek("");
        { string last; for (; m->valid(); m->skip1()) { Pair p; m->peek(p, rnd(12)); int i = idx(p.k); if (i < 0) bad("the map holds a key that was never stored: %s", hex(p.k).c_str()); if (fin.size() && p.k <= last) bad("the final scan is not in order"); last = p.k; fin[i] = dec(i, p.v); } }
        m->it_close();
        for (uint32_t k = 0; k < U.size(); k++) {
            bool e = fin.count(k);
            if (m->probe(U[k]) != e) bad("key %u: probe says %d, the scan says %d", k, !e, e);
            string x; if (m->can_get()) { if (m->get(U[k], x) != e) bad("key %u: get says %d, the scan says %d", k, !e, e); if (e && dec(k, x) != fin[k]) bad("key %u: get and scan differ", k); }
        }
        if (hooks && mm_in - mm_free != fin.size()) bad("%lu pairs were taken over and %lu released, but %zu are present", (uint64_t)mm_in, (uint64_t)mm_free, fin.size());
        if (ownm) {
            std::map<uint32_t, uint64_t> want; for (auto &t : th) for (auto &p : t.mine) want[p.first] = p.second;
            for (auto &p : want) if (!fin.count(p.first)) bad("key %u, stored by its owner, is lost", p.first);
            for (auto &p : fin) { if (!want.count(p.first)) bad("key %u, deleted by its owner, is present", p.first); if (want[p.first] != p.second) bad("key %u holds %lx, its owner wrote %lx", p.first, p.second, want[p.first]); }
            ev["final_keys"] = fin.size();
        } else {
            vector<vector<Op>> per(U.size());
            for (auto &t : th) for (auto &o : t.log) per[o.key].push_back(o);
            uint64_t maxc = 0, over = 0, checked = 0;
            for (uint32_t k = 0; k < U.size(); k++) {
                per[k].push_back({T, T + 1, READ, 0, 63, k, fin.count(k) ? fin[k] : 0, 0});
                std::sort(per[k].begin(), per[k].end(), [](const Op &a, const Op &b) { return a.t0 < b.t0; });
                for (size_t i = 1; i < per[k].size(); i++) over += per[k][i].t0 <= per[k][i - 1].t1;
                size_t w; checked += per[k].size();
                if (!linear(per[k], init[k], w, maxc)) {
                    string m; size_t lo = w > 6 ? w - 6 : 0;
                    for (size_t i = lo; i < std::min(per[k].size(), w + 7); i++) { auto &o = per[k][i]; char b[160]; snprintf(b, 160, "%s[t%d %s +%ld..+%ld res=%d saw=%lx new=%lx] ", i == w ? "->" : "", o.tid, kname[o.kind], o.t0 - per[k][lo].t0, o.t1 - per[k][lo].t0, o.res, o.a, o.b); m += b; }
                    bad("the history of key %u (%s) has no order that explains its results: %s", k, hex(U[k]).c_str(), m.c_str());
                }
            }
            ev["recorded_ops"] = checked; ev["overlapping_same_key_ops"] = over; ev["max_orders_in_play"] = maxc; ev["histories_checked"] = U.size();
        }
        delete m;
        if (hooks && mm_in != mm_free) bad("%lu pairs were never released", (uint64_t)(mm_in - mm_free));
        end_case();
    }
    puts("DONE");
}
