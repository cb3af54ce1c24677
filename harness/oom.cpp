// Monitor of the maps while memory is refused to them: every request for memory of an operation is refused in turn.
#define main tree_main
#include "tree.cpp"
#undef main
#include <sys/mman.h>
#include <errno.h>

static const char *why = "";
static bool refuse(const char *what) {
    if (!vf_at) return false;
    vf_asked++;
    if (vf_sticky ? vf_asked < vf_at : vf_asked != vf_at) return false;
    vf_fired++; why = what; ev[string("refused ") + what]++;
    return true;
}
extern "C" {
void *vf_malloc(size_t n) { return refuse("malloc") ? nullptr : malloc(n); }
void *vf_calloc(size_t n, size_t m) { return refuse("calloc") ? nullptr : calloc(n, m); }
void *vf_realloc(void *p, size_t n) { return refuse("realloc") ? nullptr : realloc(p, n); }
int vf_memalign(void **p, size_t a, size_t n) { return refuse("aligned") ? ENOMEM : posix_memalign(p, a, n); }
void *vf_mmap(void *a, size_t n, int p, int f, int d, off_t o) { if (refuse("pages")) { errno = ENOMEM; return MAP_FAILED; } return mmap(a, n, p, f, d, o); }
unsigned vf_sleep(unsigned) { vf_at = 0; vf_slept++; ev["waits_for_memory"]++; return 0; }      // the map waits until there is memory
// a slab out of objects that gets no further block
bool __real_slab_reserve_unsafe(struct slab *, uint64_t);
void *__real_slab_alloc_safe(struct slab *);
void *__real_slab_alloc_unsafe(struct slab *);
static bool reserved;
bool __wrap_slab_reserve_unsafe(struct slab *s, uint64_t n) { reserved = true; return refuse("slab") ? false : __real_slab_reserve_unsafe(s, n); }
void *__wrap_slab_alloc_safe(struct slab *s) { return refuse("slab") ? nullptr : __real_slab_alloc_safe(s); }
void *__wrap_slab_alloc_unsafe(struct slab *s) { return !reserved && refuse("slab") ? nullptr : __real_slab_alloc_unsafe(s); }
}
struct Arm { Arm(uint64_t n) { vf_fired = vf_slept = vf_asked = 0; reserved = false; vf_sticky = chance(1, 3); vf_at = n; } ~Arm() { vf_at = 0; } };

struct Oom : Run {
    Oom(Map *p) : Run(p) {}
    void outcome(const char *op, bool ok) {
        if (!ok && !vf_fired) bad("%s failed although every request for memory was met", op);
        if (!ok) ev["operations_refused"]++; else if (vf_fired) ev["operations_that_did_without"]++;
    }
    template <class F> void until(F f) {       // refuse request 1, 2, ... until the operation goes through untouched; or give up after some
        int lim = chance(1, 4) ? 1 + rnd(3) : 40;
        for (int n = 1; n <= lim; n++) if (f(n)) return;
    }
    void oput() {
        string k = anykey(), v = val(cur->is_int); note("puts", k);
        until([&](int n) {
            bool ok; { Arm a(n); ok = cur->put(k, v); }
            outcome("put", ok);
            last_op = "put " + hex(k.substr(0, 24)) + " with request " + std::to_string(n) + " refused (" + why + ")";
            if (ok) mod[k] = v;
            if (!ok || chance(1, 4)) look(k);
            return ok;
        });
    }
    void omerge() {
        string k = anykey(); note("merges", k);
        until([&](int n) {
            auto it = mod.find(k); bool e = it != mod.end();
            Seen s; s.nv = val(false); s.act = rnd(4); bool ok;
            { Arm a(n); ok = cur->merge(k, s); }
            outcome("merge", ok);
            if (ok ? s.calls != 1 : s.calls > 1) bad("merge answers %d, calls %d", ok, s.calls);
            if (s.calls && (s.null == e || (e && (s.v != it->second || s.k != k)))) bad("merge saw another pair");
            if (s.calls && e && s.act == 1) { size_t m = std::min(s.nv.size(), it->second.size()); it->second.replace(0, m, s.nv, 0, m); }
            else if (ok && s.act && !(e && s.act == 3)) mod[k] = s.nv;
            look(k); return ok;
        });
    }
    void under(bool range) {        // a delete needs no memory that it cannot do without
        { Arm a(1 + rnd(4)); vf_sticky = true; refuse_at = vf_at; }
        if (range) Run::delr(); else del();
        refuse_at = 0; if (vf_fired) ev["deletes_under_refusal"]++;
    }
    void odel() { under(false); }
    void odelr() { under(true); }
    void oiter() {
        until([&](int n) {
            bool ok; { Arm a(n); cur->it_open(); ok = opened(); }
            outcome("the creation of an iterator", ok);
            if (ok) cur->it_close();
            return ok;
        });
    }
    bool opened() {
        if (auto m = dynamic_cast<WH *>(cur)) return m->it;
        if (auto m = dynamic_cast<KM *>(cur)) return m->it;
        if (auto m = dynamic_cast<WI *>(cur)) return m->it;
        return ((KI *)cur)->it;
    }
    void oref() {
        until([&](int n) {
            void *r;
            if (auto m = dynamic_cast<WH *>(cur)) { wh_park(m->r); { Arm a(n); r = wh_ref(m->w); } outcome("a new reference", r); if (r) wh_unref((wormref *)r); wh_resume(m->r); }
            else if (auto m = dynamic_cast<KM *>(cur)) { m->park(); { Arm a(n); r = kvmap_ref(m->api, m->map); } outcome("a new reference", r); if (r) kvmap_unref(m->api, r); m->resume(); }
            else if (auto m = dynamic_cast<WI *>(cur)) { wh_int_park(m->r); { Arm a(n); r = wh_int_ref(m->w); } outcome("a new reference", r); if (r) wh_int_unref((wormref_int *)r); wh_int_resume(m->r); }
            else { auto i = (KI *)cur; i->park(); { Arm a(n); r = i->safe ? whsafe_int_ref(i->w) : wormhole_int_ref(i->w); } outcome("a new reference", r); if (r) wormhole_int_unref((wormref_int *)r); i->resume(); }
            return !!r;
        });
    }
    // the same map through its other interfaces (they differ in how they lock)
    void iface() {
        auto m = dynamic_cast<KM *>(mp.get());
        if (!m || !m->own || cur != m || users.size() || !both || m->single) return;
        kvmap_unref(m->api, m->r);
        int w = rnd(3); m->api = w == 0 ? &kvmap_api_wormhole : w == 1 ? &kvmap_api_whsafe : &kvmap_api_whunsafe; m->unsafe = w == 2; m->rev = !m->unsafe;
        m->r = kvmap_ref(m->api, m->map); ev["changes_of_interface"]++;
    }
    bool both = false;
    void go() {
        char b[120]; snprintf(b, 120, "oom map=%s keys=%d short=%d", cur->name, g.dist, g.shorts); cur_desc = b;
        int pd = chance(1, 2) ? rnd(30) : rnd(100), n = chance(1, 3) ? rnd(8000) : rnd(2500), pf = 1 + rnd(100);
        for (int i = 0; i < n; i++) {
            op_index++;
            if (chance(1, 400)) pd = chance(1, 2) ? rnd(30) : rnd(100);
            if ((int)rnd(100) >= pf) { if ((int)rnd(100) < pd) del(); else put(); continue; }
            int c = rnd(100);
            if (c < 2) oiter(); else if (c < 4) oref();
            else if (c < 5) odelr();
            else if (c < 20 && cur->can_inp()) omerge();
            else if ((int)rnd(100) < pd) odel(); else oput();
            if (chance(1, 300)) iface();
            if (chance(1, 1500)) full();
        }
        full();
        if (chance(1, 4)) { cur->clean(); mod.clear(); full(); for (int i = 0; i < 200; i++) put(); full(); }
    }
};

static Map *make(int w) {
    switch (w) {
        case 0: return new WI(); case 1: return new KI(true); case 2: return new KI(false); case 3: return new WH();
        default: return new KM(w - 4);
    }
}
// creation
static void create(int w) {
    Track t; struct kvmap_mm mm = {tr_in, kvmap_mm_out_dup, tr_free, &t};
    for (int n = 1; n < 100; n++) {
        void *m; { Arm a(n);
            switch (w) {
                case 0: m = wh_int_create(); break;
                case 1: case 2: m = wormhole_int_create(nullptr); break;
                case 3: m = wh_create(); break;
                case 6: m = whunsafe_create(&mm); break;
                default: m = wormhole_create(&mm);
            } }
        if (!m && !vf_fired) bad("creation failed although every request for memory was met");
        if (!m) { ev["creations_refused"]++; continue; }
        ev["creations"]++;
        bool un = !vf_fired;
        switch (w) {
            case 0: wh_int_destroy((wormhole_int *)m); break;
            case 1: case 2: wormhole_int_destroy((wormhole_int *)m); break;
            case 3: wh_destroy((wormhole *)m); break;
            default: wormhole_destroy((wormhole *)m);
        }
        if (un) return;
    }
    bad("creation never succeeds");
}

// the other functions that return memory
static void util() {
    cur_desc = "functions that return memory";
    auto each = [&](const char *what, auto f, auto rel) {
        last_op = what;
        for (int n = 1; n < 60; n++) {
            void *p; { Arm a(n); p = (void *)f(); }
            if (!p && !vf_fired) bad("%s gave nothing although every request for memory was met", what);
            if (!p) { ev["calls_refused"]++; continue; }
            bool un = !vf_fired; rel((decltype(f()))p); ev["calls_met"]++;
            if (un) return;
        }
        bad("%s never succeeds", what);
    };
    for (int i = 0; i < 10; i++) {
        string k(rnd(300), 'k'), v(rnd(300), 'v'), txt; int words = rnd(200);
        for (int j = 0; j < words; j++) { txt += string(1 + rnd(9), 'a' + rnd(26)); txt += ','; }
        struct kv *x = kv_create(k.data(), k.size(), v.data(), v.size());
        auto fr = [](auto p) { free((void *)p); };
        auto eq = [&](struct kv *y) { if (y->klen != k.size() || memcmp(y->kv, k.data(), k.size())) bad("%s gave another key", last_op.c_str()); free(y); };
        each("kv_create", [&] { return kv_create(k.data(), k.size(), v.data(), v.size()); }, eq);
        each("kv_dup", [&] { return kv_dup(x); }, eq);
        each("kv_dup_key", [&] { return kv_dup_key(x); }, eq);
        each("kv_dup2", [&] { return kv_dup2(x, nullptr); }, eq);
        each("kv_dup2_key", [&] { return kv_dup2_key(x, nullptr); }, eq);
        each("kv_dup2_key_prefix", [&] { return kv_dup2_key_prefix(x, nullptr, k.size() / 2); }, fr);
        struct kvref r; kvref_ref_kv(&r, x);
        each("kvref_dup2_kv", [&] { return kvref_dup2_kv(&r, nullptr); }, eq);
        each("kvref_dup2_key", [&] { return kvref_dup2_key(&r, nullptr); }, eq);
        size_t es; uint8_t *enc = kv128_encode_kv(x, nullptr, &es);
        each("kv128_encode_kv", [&] { return kv128_encode_kv(x, nullptr, &es); }, fr);
        each("kv128_decode_kv", [&] { return kv128_decode_kv(enc, nullptr, &es); }, eq);
        free(enc); free(x);
        each("strtoks", [&] { return strtoks(txt.c_str(), ","); }, [&](char **t) { int n = 0; while (t[n]) n++; if (n != words) bad("strtoks gave %d of %d words", n, words); free(t); });
        size_t nr = 1 + rnd(20), sz = 8 * (1 + rnd(20));
        each("malloc_2d", [&] { return malloc_2d(nr, sz); }, [&](void **m) { for (size_t j = 0; j < nr; j++) memset(m[j], 1, sz); free(m); });
        each("calloc_2d", [&] { return calloc_2d(nr, sz); }, [&](void **m) { for (size_t j = 0; j < nr; j++) for (size_t q = 0; q < sz; q++) if (((char *)m[j])[q]) bad("calloc_2d gave bytes that are not zero"); free(m); });
        each("slab_create", [&] { return slab_create(8 * (1 + rnd(64)), 4096); }, [](struct slab *s) { slab_destroy(s); });
        each("qsbr_create", [&] { return qsbr_create(); }, [](struct qsbr *q) { qsbr_destroy(q); });
        uint64_t got = 0; each("pages_alloc_best", [&] { return pages_alloc_best(4096 * (1 + rnd(20)), true, &got); }, [&](void *p) { memset(p, 1, got); pages_unmap(p, got); });
        struct slab *s = slab_create(64, 4096);
        for (int j = 0; j < 200; j++) { Arm a(rnd(3)); reserved = true; void *o = slab_alloc_unsafe(s); ev[o ? "objects" : "objects_refused"]++; if (o) memset(o, 1, 64); else if (!vf_fired) bad("a slab gave no object although every request for memory was met"); }
        slab_destroy(s);
    }
}

int main(int c, char **v) {
    reset_signals();
    uint64_t a = strtoull(v[2], 0, 10), b = strtoull(v[3], 0, 10);
    string mode = v[1];
    for (uint64_t s = a; s < b; s++) {
        begin_case(mode, s);
        if (mode == "oom_util") { util(); end_case(); continue; }
        int w = mode == "oom_int" ? rnd(3) : 3 + rnd(4);
        if (chance(1, 8)) { cur_desc = "creation"; last_op = "create"; create(w); end_case(); continue; }
        Map *m = make(w);
        { Oom r(m); auto k = dynamic_cast<KM *>(m); r.both = k && chance(1, 2); r.go(); }
        end_case();
    }
    puts("DONE");
}
