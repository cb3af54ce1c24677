// Uniform access to the ordered maps under test: the byte-key map through its plain-buffer
// interface (wh_*) and its three kvmap interfaces, the integer map through wh_int_* and the
// wormhole_int_*/whsafe_int_* functions. Only names declared in the public headers are used.
#pragma once
#include "common.hpp"
#include "wh.h"
#include "wh_int.h"
#include <memory>
#include <unistd.h>
#include <set>
#include <unordered_map>

namespace vf {
struct Pair { string k, v; };

// ---- refusing memory to the library (only in the "fault" flavour, see fault_shim.h) ----
static uint64_t vf_at, vf_fired, vf_slept, vf_asked; static bool vf_sticky;
struct Calm { uint64_t s; Calm() { s = vf_at; vf_at = 0; } ~Calm() { vf_at = s; } };     // not while the harness itself uses library functions

// what a callback saw
struct Seen { int calls = 0; bool null = false; string k, v; string nv; int act = 0; struct kv *made = nullptr; string key; bool own = false; };
inline void see(struct kv *c, Seen *s) {
    s->calls++; s->null = !c;
    if (c) { s->k.assign((const char *)kv_kptr_c(c), c->klen); s->v.assign((const char *)kv_vptr_c(c), c->vlen); }
}
inline void cb_read(struct kv *const c, void *const p) { see(c, (Seen *)p); }
inline void cb_write(struct kv *const c, void *const p) {
    Seen *s = (Seen *)p; see(c, s);
    if (c) memcpy(kv_vptr(c), s->nv.data(), std::min<size_t>(c->vlen, s->nv.size()));
}
// act 0: leave alone (NULL), 1: change in place, 2: replace, 3: return the same pair unchanged
inline struct kv *cb_merge(struct kv *const c, void *const p) {
    Seen *s = (Seen *)p; see(c, s);
    if (s->act == 0) return nullptr;
    if (c && s->act == 1) { memcpy(kv_vptr(c), s->nv.data(), std::min<size_t>(c->vlen, s->nv.size())); return c; }
    if (c && s->act == 3) return c;
    Calm calm;
    return s->made = kv_create(s->key.data(), s->key.size(), s->nv.data(), s->nv.size());
}

struct Map {
    bool is_int = false, rev = true;
    const char *name = "";
    virtual ~Map() {}
    virtual bool put(const string &k, const string &v) = 0;
    virtual bool del(const string &k) = 0;
    virtual bool probe(const string &k) = 0;
    virtual bool can_get() { return true; }
    virtual bool get(const string &k, string &v) = 0;           // at least the first 16 bytes for the integer map
    virtual bool can_inp() { return !is_int; }
    virtual bool inpr2(const string &, Seen &, kv_inp_func) { return false; }
    virtual bool inpw2(const string &, Seen &, kv_inp_func) { return false; }
    virtual bool merge2(const string &, Seen &, kv_merge_func) { return false; }
    bool inpr(const string &k, Seen &s) { return inpr2(k, s, cb_read); }
    bool inpw(const string &k, Seen &s) { return inpw2(k, s, cb_write); }
    bool merge(const string &k, Seen &s) { return merge2(k, s, cb_merge); }
    virtual uint64_t delr(const string &a, const string *b) = 0;
    virtual bool can_delr_open() { return true; }
    virtual void clean() = 0;
    virtual void reref() = 0;
    // iterator
    virtual void it_open() = 0;
    virtual void seek(const string &k) = 0;
    virtual bool valid() = 0;
    virtual bool peek(Pair &p, int how) = 0;
    virtual void skip1() = 0;
    virtual void skip(uint32_t n) = 0;
    virtual void skip1_rev() = 0;
    virtual bool next(Pair &) { return false; }
    virtual bool prev(Pair &) { return false; }
    virtual bool can_next() { return false; }
    virtual bool it_write(const string &) { return false; }     // overwrite the value under the cursor in place
    virtual bool can_it_write() { return true; }
    virtual void it_park() = 0;
    virtual void it_close() = 0;
    virtual void fprint(FILE *) {}
    virtual void dump(const std::map<string, string> &) {}
    virtual void accounting(const std::map<string, string> &) {}
    bool own = true, conc = false;              // conc: other threads use the map too
    virtual Map *clone() { return nullptr; }    // another user of the same map, for another thread
    virtual void refresh() {}
    virtual void park() {}                      // stop using the map for a while
    virtual void resume() {}
};

// exact-size heap copy of a key or value: a sanitizer sees any access past it
struct Buf {
    uint8_t *p; size_t n;
    Buf(const string &s) : p((uint8_t *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
    ~Buf() { free(p); }
};
// the integer map takes keys of up to 8 bytes in an 8-byte buffer
struct Buf8 {
    uint8_t *p; size_t n;
    Buf8(const string &s) : p((uint8_t *)malloc(8)), n(s.size()) { memset(p, (int)R(), 8); memcpy(p, s.data(), n); }
    ~Buf8() { free(p); }
};

// ---- allocator hooks: every pair the map takes over is released exactly once ----
struct Track {
    std::unordered_map<struct kv *, size_t> live;
    uint64_t in = 0, freed = 0;
    bool noop_in = false;
};
inline struct kv *tr_in(struct kv *const kv, void *const p) {
    Track *t = (Track *)p;
    struct kv *n = t->noop_in ? kv : kv_dup(kv);
    if (!n) return n;
    t->in++;
    if (!t->live.emplace(n, kv_size(n)).second) bad("the map took over a pair it already holds");
    return n;
}
inline void tr_free(struct kv *const kv, void *const p) {
    Track *t = (Track *)p; t->freed++;
    if (!t->live.erase(kv)) bad("the map released a pair it does not hold (or twice)");
    free(kv);
}

// ---- byte-key map, plain buffers ----
struct WH : Map {
    struct wormhole *w; struct wormref *r; struct wormhole_iter *it = nullptr;
    WH(struct wormhole *sh = nullptr) { name = "wh"; own = !sh; w = sh ? sh : wh_create(); r = wh_ref(w); }
    ~WH() { wh_unref(r); if (own) wh_destroy(w); }
    Map *clone() override { auto m = new WH(w); m->conc = conc = true; return m; }
    bool put(const string &k, const string &v) override { Buf a(k), b(v); return wh_put(r, a.p, a.n, b.p, b.n); }
    bool del(const string &k) override { Buf a(k); return wh_del(r, a.p, a.n); }
    bool probe(const string &k) override { Buf a(k); return wh_probe(r, a.p, a.n); }
    bool get(const string &k, string &v) override {
        Buf a(k); uint32_t cap = !conc && chance(1, 4) ? rnd(20) : 8192; uint32_t vl = 77777;
        uint8_t *o = (uint8_t *)malloc(cap + 1); memset(o, 0xA5, cap + 1);
        bool f = wh_get(r, a.p, a.n, o, cap, &vl);
        if (f) {
            uint32_t c = std::min(cap, vl);
            for (uint32_t i = c; i <= cap; i++) if (o[i] != 0xA5) bad("get wrote past the %u bytes of the value it was to copy", c);
            v.assign((char *)o, c); v.resize(vl, '\1');
            if (c < vl) { string full; full.resize(vl); uint32_t v2; wh_get(r, a.p, a.n, &full[0], vl, &v2); if (full.compare(0, c, v, 0, c)) bad("a short get copied other bytes than a full one"); v = full; }
        } else { if (vl != 77777) bad("get of an absent key changed the length"); for (uint32_t i = 0; i <= cap; i++) if (o[i] != 0xA5) bad("get of an absent key wrote to the buffer"); }
        free(o);
        return f;
    }
    bool inpr2(const string &k, Seen &s, kv_inp_func f) override { Buf a(k); return wh_inpr(r, a.p, a.n, f, &s); }
    bool inpw2(const string &k, Seen &s, kv_inp_func f) override { Buf a(k); return wh_inpw(r, a.p, a.n, f, &s); }
    bool merge2(const string &k, Seen &s, kv_merge_func mf) override { Buf a(k); s.key = k; return wh_merge(r, a.p, a.n, mf, &s); }
    uint64_t delr(const string &a, const string *b) override { Buf x(a), y(*b); return wh_delr(r, x.p, x.n, y.p, y.n); }
    bool can_delr_open() override { return false; }
    void clean() override { wh_clean(w); }
    void reref() override { wh_unref(r); r = wh_ref(w); if (chance(1, 2)) { wh_park(r); wh_resume(r); } }
    void it_open() override { it = wh_iter_create(r); }
    void seek(const string &k) override { if (k.empty() && chance(1, 2)) wh_iter_seek(it, nullptr, 0); else { Buf a(k); wh_iter_seek(it, a.p, a.n); } }
    bool valid() override { return wh_iter_valid(it); }
    bool peek(Pair &p, int how) override {
        if (how % 3 == 0 && valid()) {
            const void *kp; void *vp; u32 kl, vl;
            wh_iter_peek_ref(it, &kp, &kl, &vp, &vl);
            p.k.assign((const char *)kp, kl); p.v.assign((const char *)vp, vl); return true;
        }
        if (how % 3 == 1) { Seen s; bool f = wh_iter_inp(it, cb_read, &s); if (s.calls != 1 || s.null == f) bad("iterator callback ran %d times, null=%d, found=%d", s.calls, s.null, f); p = {s.k, s.v}; return f; }
        std::vector<char> kb(9000), vb(9000); u32 kl = 0, vl = 0;
        bool f = wh_iter_peek(it, kb.data(), 9000, &kl, vb.data(), 9000, &vl);
        if (f) { p.k.assign(kb.data(), kl); p.v.assign(vb.data(), vl); }
        return f;
    }
    void skip1() override { wh_iter_skip1(it); }
    void skip(uint32_t n) override { wh_iter_skip(it, n); }
    void skip1_rev() override { wh_iter_skip1_rev(it); }
    bool it_write(const string &v) override {
        if (chance(1, 2)) { Seen s; s.nv = v; return wh_iter_inp(it, cb_write, &s); }
        const void *kp; void *vp; u32 kl, vl;
        wh_iter_peek_ref(it, &kp, &kl, &vp, &vl);
        memcpy(vp, v.data(), std::min<size_t>(vl, v.size()));
        return true;
    }
    void it_park() override { wh_iter_park(it); }
    void it_close() override { wh_iter_destroy(it); it = nullptr; }
};

// ---- byte-key map, kvmap interfaces ----
struct KM : Map {
    const struct kvmap_api *api; void *map; void *r; void *it = nullptr; Track t; bool unsafe, single = false;
    KM(KM &o) : api(o.api), map(o.map), unsafe(o.unsafe) { name = o.name; own = false; conc = o.conc = true; rev = o.rev; t.noop_in = o.t.noop_in; r = kvmap_ref(api, map); }
    Map *clone() override { return new KM(*this); }
    void refresh() override { if (api == &kvmap_api_wormhole) wormhole_refresh_qstate((struct wormref *)r); }
    void park() override { if (api->park) api->park(r); }
    void resume() override { if (api->resume) api->resume(r); }
    KM(int which, const struct kvmap_mm *other = nullptr) {
        unsafe = which == 2; rev = !unsafe;
        t.noop_in = !other && chance(1, 2);
        struct kvmap_mm mm = {tr_in, kvmap_mm_out_dup, tr_free, &t};
        if (other) mm = *other;
        const char *names[] = {"wormhole", "whsafe", "whunsafe"};
        name = names[which];
        api = which == 0 ? &kvmap_api_wormhole : which == 1 ? &kvmap_api_whsafe : &kvmap_api_whunsafe;
        single = unsafe && chance(1, 2);      // one table of anchors only: not for the other interfaces
        map = single ? whunsafe_create(&mm) : wormhole_create(&mm);
        r = kvmap_ref(api, map);
    }
    ~KM() { kvmap_unref(api, r); if (!own) return; api->destroy(map); if (!t.live.empty()) bad("%zu pairs were never released", t.live.size()); }
    struct kv *mk(const string &k, const string &v) { Calm c; Buf a(k), b(v); return kv_create(a.p, a.n, b.p, b.n); }
    bool put(const string &k, const string &v) override {
        struct kv *n = mk(k, v);
        bool f = chance(1, 2) ? kvmap_kv_put(api, r, n) : api->put(r, n);
        if (!t.noop_in) free(n);
        return f;
    }
    template <class F, class G> bool either(const string &k, F f, G g) {
        if (chance(1, 2)) { struct kv *n = mk(k, ""); bool x = f(n); free(n); return x; }
        Buf a(k); return g(a);
    }
    bool del(const string &k) override { return either(k, [&](struct kv *n) { return kvmap_kv_del(api, r, n); }, [&](Buf &a) { return kvmap_raw_del(api, r, a.n, a.p); }); }
    bool probe(const string &k) override { return either(k, [&](struct kv *n) { return kvmap_kv_probe(api, r, n); }, [&](Buf &a) { return kvmap_raw_probe(api, r, a.n, a.p); }); }
    bool get(const string &k, string &v) override {
        struct kv *out = chance(1, 2) ? nullptr : (struct kv *)malloc(9000), *g = nullptr;
        either(k, [&](struct kv *n) { g = kvmap_kv_get(api, r, n, out); return true; }, [&](Buf &a) { g = kvmap_raw_get(api, r, a.n, a.p, out); return true; });
        bool f = g;
        if (g) { if (string((char *)kv_kptr_c(g), g->klen) != k) bad("get returned the pair of another key"); v.assign((char *)kv_vptr_c(g), g->vlen); if (!out) free(g); }
        free(out);
        return f;
    }
    bool inpr2(const string &k, Seen &s, kv_inp_func f) override { return either(k, [&](struct kv *n) { return kvmap_kv_inpr(api, r, n, f, &s); }, [&](Buf &a) { return kvmap_raw_inpr(api, r, a.n, a.p, f, &s); }); }
    bool inpw2(const string &k, Seen &s, kv_inp_func f) override { return either(k, [&](struct kv *n) { return kvmap_kv_inpw(api, r, n, f, &s); }, [&](Buf &a) { return kvmap_raw_inpw(api, r, a.n, a.p, f, &s); }); }
    bool merge2(const string &k, Seen &s, kv_merge_func mf) override {
        struct kv *n = mk(k, ""); s.key = k;
        bool f = kvmap_kv_merge(api, r, n, mf, &s); free(n);
        if (!t.noop_in) free(s.made);
        return f;
    }
    uint64_t delr(const string &a, const string *b) override {
        struct kv *x = mk(a, ""), *y = b ? mk(*b, "") : nullptr;
        uint64_t d;
        if (y) d = kvmap_kv_delr(api, r, x, y);
        else { struct kref kr; kref_ref_kv_hash32(&kr, x); d = api->delr(r, &kr, nullptr); }
        free(x); free(y);
        return d;
    }
    void clean() override { api->clean(map); }
    void reref() override {
        kvmap_unref(api, r); r = kvmap_ref(api, map);
        if (api->park && chance(1, 2)) { api->park(r); api->resume(r); }
    }
    void it_open() override { it = api->iter_create(r); }
    void seek(const string &k) override {
        if (k.empty() && chance(1, 2)) { api->iter_seek(it, kref_null()); return; }
        either(k, [&](struct kv *n) { kvmap_kv_iter_seek(api, it, n); return true; }, [&](Buf &a) { kvmap_raw_iter_seek(api, it, a.n, a.p); return true; });
    }
    bool valid() override { return api->iter_valid(it); }
    bool peek(Pair &p, int how) override {
        if (how % 4 == 0) { struct kvref kr; bool f = api->iter_kvref(it, &kr); if (f) { p.k.assign((const char *)kr.kptr, kr.hdr.klen); p.v.assign((const char *)kr.vptr, kr.hdr.vlen); } return f; }
        if (how % 4 == 1) { Seen s; bool f = api->iter_inp(it, cb_read, &s); if (s.calls != 1 || s.null == f) bad("iterator callback ran %d times, null=%d, found=%d", s.calls, s.null, f); p = {s.k, s.v}; return f; }
        struct kv *out = how % 4 == 2 ? nullptr : (struct kv *)malloc(9000), *g = api->iter_peek(it, out);
        bool f = g;
        if (g) {
            p.k.assign((char *)kv_kptr_c(g), g->klen); p.v.assign((char *)kv_vptr_c(g), g->vlen);
            struct kref kr; if (!api->iter_kref(it, &kr) || string((const char *)kr.ptr, kr.len) != p.k) bad("iter_kref and iter_peek disagree");
            if (!out) free(g);
        }
        free(out);
        return f;
    }
    void skip1() override { api->iter_skip1(it); }
    void skip(uint32_t n) override { api->iter_skip(it, n); }
    void skip1_rev() override { api->iter_skip1_rev(it); }
    bool can_next() override { return true; }
    bool next(Pair &p) override { struct kv *g = api->iter_next(it, nullptr); if (!g) return false; p.k.assign((char *)kv_kptr_c(g), g->klen); p.v.assign((char *)kv_vptr_c(g), g->vlen); free(g); return true; }
    bool prev(Pair &p) override { struct kv *g = wormhole_iter_prev((struct wormhole_iter *)it, nullptr); if (!g) return false; p.k.assign((char *)kv_kptr_c(g), g->klen); p.v.assign((char *)kv_vptr_c(g), g->vlen); free(g); return true; }
    bool it_write(const string &v) override { Seen s; s.nv = v; return api->iter_inp(it, cb_write, &s); }
    void it_park() override { if (api->iter_park) api->iter_park(it); }
    void it_close() override { api->iter_destroy(it); it = nullptr; }
    void accounting(const std::map<string, string> &m) override {
        if (t.live.size() != m.size()) bad("the map holds %zu pairs, %zu keys are present", t.live.size(), m.size());
        ev["pairs_accounted"] += m.size();
    }
    void fprint(FILE *f) override { api->fprint(map, f); }
    // the list of keys that the library prints
    void dump(const std::map<string, string> &m) override {
        char *txt = nullptr; FILE *f = tmpfile(); if (!f) return;
        uint64_t n = kvmap_dump_keys(api, map, fileno(f));
        if (n != m.size()) bad("the dump lists %lu keys, %zu are present", n, m.size());
        long sz = lseek(fileno(f), 0, SEEK_END); string s(sz, 0); if (pread(fileno(f), &s[0], sz, 0) != sz) bad("cannot read the dump"); fclose(f); free(txt);
        size_t at = 0; uint64_t i = 0;
        for (auto &p : m) {     // printing stops at a zero byte of the key
            char h[60], e[40]; snprintf(h, 60, "%010lu [%3zu] ", i++, p.first.size()); snprintf(e, 40, " [%zu]\n", p.second.size());
            string want = string(h) + p.first.substr(0, p.first.find('\0')) + e;
            if (s.compare(at, want.size(), want)) bad("line %lu of the dump is not that of key %s", i - 1, hex(p.first).c_str());
            at += want.size();
        }
        if (at != s.size()) bad("the dump has more than the keys"); ev["dumped_keys"] += m.size();
    }
};

// ---- integer map, plain buffers ----
struct WI : Map {
    struct wormhole_int *w; struct wormref_int *r; struct wormhole_int_iter *it = nullptr;
    WI(struct wormhole_int *sh = nullptr) { is_int = true; name = "wh_int"; own = !sh; w = sh ? sh : wh_int_create(); r = wh_int_ref(w); }
    ~WI() { wh_int_unref(r); if (own) wh_int_destroy(w); }
    Map *clone() override { auto m = new WI(w); m->conc = conc = true; return m; }
    bool put(const string &k, const string &v) override { Buf8 a(k); Buf b(v); return wh_int_put(r, a.p, a.n, b.p, b.n); }
    bool del(const string &k) override { Buf8 a(k); return wh_int_del(r, a.p, a.n); }
    bool probe(const string &k) override { Buf8 a(k); return wh_int_probe(r, a.p, a.n); }
    bool can_get() override { return false; }
    bool get(const string &, string &) override { return false; }
    uint64_t delr(const string &a, const string *b) override { Buf8 x(a), y(*b); return wh_int_delr(r, x.p, x.n, y.p, y.n); }
    bool can_delr_open() override { return false; }
    void clean() override { wh_int_clean(w); }
    void reref() override { wh_int_unref(r); r = wh_int_ref(w); if (chance(1, 2)) { wh_int_park(r); wh_int_resume(r); } }
    void it_open() override { it = wh_int_iter_create(r); }
    void seek(const string &k) override { { Buf8 a(k); wh_int_iter_seek(it, a.p, a.n); } }
    bool valid() override { return wh_int_iter_valid(it); }
    bool peek(Pair &p, int how) override {
        if (!valid()) { p = {}; return false; }
        if (how % 3 == 0) { const void *kp; void *vp; u32 kl, vl; wh_int_iter_peek_ref(it, &kp, &kl, &vp, &vl); p.k.assign((const char *)kp, kl); p.v.assign((const char *)vp, vl); return true; }
        if (how % 3 == 1) { Seen s; bool f = wh_int_iter_inp(it, cb_read, &s); if (s.calls != 1) bad("iterator callback ran %d times", s.calls); p = {s.k, s.v}; return f; }
        char kb[16], vb[32]; u32 kl = 0, vl = 0; bool f = wh_int_iter_peek(it, kb, 16, &kl, vb, 32, &vl);
        p.k.assign(kb, kl); p.v.assign(vb, vl); return f;
    }
    void skip1() override { wh_int_iter_skip1(it); }
    void skip(uint32_t n) override { wh_int_iter_skip(it, n); }
    void skip1_rev() override { wh_int_iter_skip1_rev(it); }
    bool it_write(const string &v) override { const void *kp; void *vp; u32 kl, vl; wh_int_iter_peek_ref(it, &kp, &kl, &vp, &vl); memcpy(vp, v.data(), std::min<size_t>(vl, v.size())); return true; }
    void it_park() override { wh_int_iter_park(it); }
    void it_close() override { wh_int_iter_destroy(it); it = nullptr; }
};

// ---- integer map, kv interface ----
// The single-user functions of the integer map have no declaration in wh_int.h; they are exercised when the library has them.
extern "C" {
bool whunsafe_int_put(struct wormhole_int *, struct kv *) __attribute__((weak));
bool whunsafe_int_del(struct wormhole_int *, const struct kref *) __attribute__((weak));
bool whunsafe_int_probe(struct wormhole_int *, const struct kref *) __attribute__((weak));
struct kv *whunsafe_int_get(struct wormhole_int *, const struct kref *, struct kv *) __attribute__((weak));
uint64_t whunsafe_int_delr(struct wormhole_int *, const struct kref *, const struct kref *) __attribute__((weak));
}
struct KI : Map {
    struct wormhole_int *w; struct wormref_int *r; struct wormhole_int_iter *it = nullptr; bool safe;
    KI(bool s, struct wormhole_int *sh = nullptr) : safe(s) { is_int = true; own = !sh; name = safe ? "whsafe_int" : "wormhole_int"; w = sh ? sh : wormhole_int_create(nullptr); r = safe ? whsafe_int_ref(w) : wormhole_int_ref(w); }
    ~KI() { wormhole_int_unref(r); if (own) wormhole_int_destroy(w); }
    Map *clone() override { auto m = new KI(safe, w); m->conc = conc = true; return m; }
    void refresh() override { if (!safe) wormhole_int_refresh_qstate(r); }
    void park() override { if (!safe) wormhole_int_park(r); }
    void resume() override { if (!safe) wormhole_int_resume(r); }
    struct KR { Buf8 b; struct kref k; KR(const string &s) : b(s) { kref_ref_hash32(&k, b.p, b.n); } };
    bool put(const string &k, const string &v) override {
        struct kv *n; { Calm calm; Buf a(k), b(v); n = kv_create(a.p, a.n, b.p, b.n); }
        bool f = safe ? whsafe_int_put(r, n) : wormhole_int_put(r, n); free(n); return f;
    }
    bool del(const string &k) override { KR a(k); return safe ? whsafe_int_del(r, &a.k) : wormhole_int_del(r, &a.k); }
    bool probe(const string &k) override { KR a(k); return safe ? whsafe_int_probe(r, &a.k) : wormhole_int_probe(r, &a.k); }
    bool get(const string &k, string &v) override {
        KR a(k); struct kv *out = (struct kv *)malloc(sizeof(struct kv) + 8 + 64);
        struct kv *g = safe ? whsafe_int_get(r, &a.k, out) : wormhole_int_get(r, &a.k, out);
        bool f = g;
        if (g) { if (string((char *)kv_kptr_c(g), g->klen) != k) bad("get returned the pair of another key"); v.assign((char *)kv_vptr_c(g), g->vlen); }
        free(out); return f;
    }
    uint64_t delr(const string &a, const string *b) override {
        KR x(a); if (!b) return safe ? whsafe_int_delr(r, &x.k, nullptr) : wormhole_int_delr(r, &x.k, nullptr);
        KR y(*b); return safe ? whsafe_int_delr(r, &x.k, &y.k) : wormhole_int_delr(r, &x.k, &y.k);
    }
    void clean() override { wormhole_int_clean(w); }
    void reref() override { wormhole_int_unref(r); r = safe ? whsafe_int_ref(w) : wormhole_int_ref(w); if (!safe && chance(1, 2)) { wormhole_int_park(r); wormhole_int_resume(r); wormhole_int_refresh_qstate(r); } }
    void it_open() override { it = wormhole_int_iter_create(r); }
    void seek(const string &k) override { KR a(k); if (safe) whsafe_int_iter_seek(it, &a.k); else wormhole_int_iter_seek(it, &a.k); }
    bool valid() override { return wormhole_int_iter_valid(it); }
    bool peek(Pair &p, int) override {
        struct kv *out = (struct kv *)malloc(sizeof(struct kv) + 8 + 64), *g = wormhole_int_iter_peek(it, out);
        bool f = g; if (g) { p.k.assign((char *)kv_kptr_c(g), g->klen); p.v.assign((char *)kv_vptr_c(g), g->vlen); }
        free(out); return f;
    }
    void skip1() override { wormhole_int_iter_skip1(it); }
    void skip(uint32_t n) override { wormhole_int_iter_skip(it, n); }
    void skip1_rev() override { wormhole_int_iter_skip1_rev(it); }
    bool can_next() override { return true; }
    bool step(Pair &p, bool fw) {
        struct kv *out = (struct kv *)malloc(sizeof(struct kv) + 8 + 64), *g = fw ? wormhole_int_iter_next(it, out) : wormhole_int_iter_prev(it, out);
        bool f = g; if (g) { p.k.assign((char *)kv_kptr_c(g), g->klen); p.v.assign((char *)kv_vptr_c(g), g->vlen); }
        free(out); return f;
    }
    bool next(Pair &p) override { return step(p, true); }
    bool prev(Pair &p) override { return step(p, false); }
    bool can_it_write() override { return false; }
    void it_park() override { if (safe) whsafe_int_iter_park(it); else wormhole_int_iter_park(it); }
    void it_close() override { if (safe) whsafe_int_iter_destroy(it); else wormhole_int_iter_destroy(it); it = nullptr; }
};
// the same, with writes and lookups through the single-user functions
struct KU : KI {
    KU() : KI(false) { name = "whunsafe_int"; }
    static bool there() { return whunsafe_int_put && whunsafe_int_del && whunsafe_int_probe && whunsafe_int_get && whunsafe_int_delr; }
    bool put(const string &k, const string &v) override {
        struct kv *n; { Calm calm; Buf a(k), b(v); n = kv_create(a.p, a.n, b.p, b.n); }
        bool f = whunsafe_int_put(w, n); free(n); return f;
    }
    bool del(const string &k) override { KR a(k); return whunsafe_int_del(w, &a.k); }
    bool probe(const string &k) override { KR a(k); return whunsafe_int_probe(w, &a.k); }
    bool get(const string &k, string &v) override {
        KR a(k); struct kv *out = (struct kv *)malloc(sizeof(struct kv) + 8 + 64), *g = whunsafe_int_get(w, &a.k, out);
        if (g) { if (string((char *)kv_kptr_c(g), g->klen) != k) bad("get returned the pair of another key"); v.assign((char *)kv_vptr_c(g), g->vlen); }
        free(out); return g;
    }
    uint64_t delr(const string &a, const string *b) override { KR x(a); if (!b) return whunsafe_int_delr(w, &x.k, nullptr); KR y(*b); return whunsafe_int_delr(w, &x.k, &y.k); }
    Map *clone() override { return KI::clone(); }
};
}
