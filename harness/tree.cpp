// Monitor of the ordered maps: random sequential histories of the real map next to std::map.
#include "maps.hpp"
#include "keys.hpp"
#include <algorithm>
#include <cmath>
using namespace vf;
using std::vector;
typedef std::map<string, string> Model;

static string val(bool isint) {
    size_t n = isint ? 16 : chance(1, 30) ? rnd(3000) : rnd(24);
    string v(n, 0);
    for (auto &c : v) c = (char)R();
    return v;
}
static string nb(const string &k, bool isint) {      // a neighbour of k
    string s = k;
    switch (rnd(5)) {
        case 0: if (!s.empty()) { s.back()++; } break;
        case 1: if (!s.empty()) { s.back()--; } break;
        case 2: if (!s.empty() && !(isint && false)) s.pop_back(); break;
        case 3: if (!isint || s.size() < 8) s += (char)(rnd(2) ? 0 : rnd(256)); break;
        default: if (!s.empty()) s[rnd(s.size())] = (char)rnd(256);
    }
    if (isint && s.empty()) s = string(8, 0);
    return s;
}

struct Run {
    std::unique_ptr<Map> mp; vector<std::unique_ptr<Map>> users; Map *cur; Model mod; Gen g; uint64_t refuse_at = 0;
    Run(Map *p) : mp(p), cur(p) { g.init(p->is_int); }
    ~Run() { if (users.size()) { for (auto &u : users) if (u.get() != cur) u->resume(); if (cur != mp.get()) mp->resume(); users.clear(); } }
    // several users of one map, one at a time: those that are idle must not hold up the others
    void another() { cur->park(); size_t i = rnd(users.size() + 1); cur = i ? users[i - 1].get() : mp.get(); cur->resume(); ev["changes_of_user"]++; }
    string anykey() {
        int c = rnd(10);
        if (c < 5 && mod.size()) { auto it = mod.lower_bound(g.k()); if (it == mod.end()) it = mod.begin(); return c < 3 ? it->first : fix(nb(it->first, cur->is_int)); }
        return g.k();
    }
    string fix(string s) { if (cur->is_int && !g.shorts) s.resize(8, 0); return s; }
    void note(const char *op, const string &k) { last_op = string(op) + " " + hex(k.substr(0, 24)); ev[op]++; }
    void put() {
        string k = anykey(), v = val(cur->is_int);
        note("puts", k);
        if (!cur->put(k, v)) bad("put failed");
        ev[mod.count(k) ? "updates" : "insertions"]++;
        mod[k] = v;
        if (chance(1, 8)) look(k);
    }
    void del() {
        string k = anykey(); note("deletes", k);
        bool e = mod.erase(k);
        vf_at = refuse_at; bool d = cur->del(k); vf_at = 0;
        if (d != e) bad("delete answered %d, the key was%s present", !e, e ? "" : " not");
        if (e) ev["deleted_present"]++;
        if (chance(1, 8)) look(k);
    }
    void look(const string &k) {
        ev["lookups"]++;
        auto it = mod.find(k); bool e = it != mod.end();
        if (cur->probe(k) != e) bad("probe of %s answers %d, the key is%s present", hex(k).c_str(), !e, e ? "" : " not");
        string v;
        if (cur->can_get()) { bool f = cur->get(k, v); if (f != e) bad("get of %s answers %d", hex(k).c_str(), f); if (e && v != it->second) bad("get of %s returns %s, stored %s", hex(k).c_str(), hex(v).c_str(), hex(it->second).c_str()); }
        if (cur->can_inp() && chance(1, 4)) {
            Seen s; bool f = cur->inpr(k, s);
            if (f != e || s.calls != 1 || s.null == e) bad("in-place read of %s: found %d, calls %d, null %d, present %d", hex(k).c_str(), f, s.calls, s.null, e);
            if (e && (s.k != k || s.v != it->second)) bad("in-place read of %s saw %s=%s", hex(k).c_str(), hex(s.k).c_str(), hex(s.v).c_str());
        }
    }
    void inpw() {
        string k = anykey(); note("inplace_writes", k);
        auto it = mod.find(k); bool e = it != mod.end();
        Seen s; s.nv = val(false);
        bool f = cur->inpw(k, s);
        if (f != e || s.calls != 1 || s.null == e) bad("in-place write: found %d, calls %d, null %d, present %d", f, s.calls, s.null, e);
        if (e) { if (s.v != it->second || s.k != k) bad("in-place write saw another pair"); size_t n = std::min(s.nv.size(), it->second.size()); it->second.replace(0, n, s.nv, 0, n); }
        look(k);
    }
    void merge() {
        string k = anykey(); note("merges", k);
        auto it = mod.find(k); bool e = it != mod.end();
        Seen s; s.nv = val(false); s.act = rnd(4);
        if (!cur->merge(k, s)) bad("merge failed");
        if (s.calls != 1 || s.null == e) bad("merge: calls %d, null %d, present %d", s.calls, s.null, e);
        if (e && (s.v != it->second || s.k != k)) bad("merge saw another pair");
        if (e && s.act == 1) { size_t n = std::min(s.nv.size(), it->second.size()); it->second.replace(0, n, s.nv, 0, n); }
        else if (s.act && !(e && s.act == 3)) mod[k] = s.nv;
        look(k);
    }
    void delr() {
        string a = anykey(), b = anykey();
        if (chance(2, 3) && mod.size()) {   // bounded number of keys
            auto it = mod.lower_bound(a); size_t n = chance(1, 3) ? rnd(400) : rnd(40);
            while (it != mod.end() && n--) ++it;
            if (it != mod.end()) b = chance(1, 2) ? it->first : fix(nb(it->first, cur->is_int));
        }
        if (a > b && chance(9, 10)) std::swap(a, b);
        bool open = cur->can_delr_open() && chance(1, 12);
        note("range_deletes", a); last_op += " to " + (open ? string("end") : hex(b.substr(0, 24)));
        uint64_t want = 0;
        if (open) { auto i = mod.lower_bound(a); want = std::distance(i, mod.end()); mod.erase(i, mod.end()); }
        else if (a < b) { auto i = mod.lower_bound(a), j = mod.lower_bound(b); want = std::distance(i, j); mod.erase(i, j); }
        vf_at = refuse_at; uint64_t got = cur->delr(a, open ? nullptr : &b); vf_at = 0;
        if (got != want) bad("range delete removed %lu keys, %lu were in the range", got, want);
        ev["max_range_deleted"] = std::max(ev["max_range_deleted"], want);
        look(a); look(b);
        mp->accounting(mod);
    }
    void same(Model::iterator it) {
        bool v = cur->valid(), w = it != mod.end();
        if (v != w) bad("the iterator is %s, the model says %s", v ? "valid" : "exhausted", w ? "valid" : "exhausted");
        Pair p; bool f = cur->peek(p, rnd(12));
        if (f != w) bad("peek answers %d at a %s position", f, w ? "valid" : "exhausted");
        if (w && (p.k != it->first || p.v != it->second)) bad("the iterator stands at %s=%s, expected %s=%s", hex(p.k).c_str(), hex(p.v).c_str(), hex(it->first).c_str(), hex(it->second).c_str());
        ev["iterator_positions"]++;
    }
    void iter() {
        cur->it_open();
        for (int rounds = 1 + rnd(3); rounds > 0; rounds--) {
            string k = chance(1, 12) ? string() : anykey();
            note("seeks", k);
            cur->seek(k);
            auto it = mod.lower_bound(k);
            same(it);
            int bias = rnd(3);
            for (int st = chance(1, 5) ? rnd(600) : rnd(20); st > 0 && it != mod.end(); st--) {
                int c = rnd(10);
                if (cur->rev && (bias == 2 ? c < 7 : bias == 1 ? c < 4 : c < 1)) {
                    if (cur->can_next() && chance(1, 3)) { Pair p; if (!cur->prev(p) || p.k != it->first || p.v != it->second) bad("prev returned another pair"); } else cur->skip1_rev();
                    last_op = "back"; ev["steps_back"]++;
                    if (it == mod.begin()) it = mod.end(); else --it;
                } else if (c == 9) {
                    uint32_t n = chance(1, 4) ? rnd(500) : rnd(6);
                    last_op = "skip " + std::to_string(n); ev["skips"]++;
                    cur->skip(n);
                    while (n-- && it != mod.end()) ++it;
                } else if (c == 8 && cur->can_it_write()) {
                    string nv = val(cur->is_int); last_op = "write through iterator"; ev["iterator_writes"]++;
                    if (!cur->it_write(nv)) bad("write through a valid iterator failed");
                    size_t n = std::min(nv.size(), it->second.size()); it->second.replace(0, n, nv, 0, n);
                } else if (cur->can_next() && c >= 6) {
                    Pair p; last_op = "next"; ev["steps_forward"]++;
                    if (!cur->next(p) || p.k != it->first || p.v != it->second) bad("next returned another pair");
                    ++it;
                } else { cur->skip1(); last_op = "forward"; ev["steps_forward"]++; ++it; }
                same(it);
            }
            if (it == mod.end()) { cur->skip1(); cur->skip(3); if (cur->rev) cur->skip1_rev(); same(it); ev["ends_reached"]++; }
            if (chance(1, 3)) { cur->it_park(); }
        }
        cur->it_close();
    }
    void full() {
        last_op += " then full scan"; ev["full_scans"]++;
        cur->it_open(); cur->seek("");
        auto it = mod.begin();
        for (; it != mod.end(); ++it) { same(it); cur->skip1(); }
        same(it);
        if (cur->rev && mod.size()) {
            cur->seek(mod.rbegin()->first);
            for (auto r = mod.end(); r != mod.begin();) { --r; same(r); cur->skip1_rev(); }
            if (cur->valid()) bad("the iterator is valid before the first key");
        }
        cur->it_close();
        for (auto &p : mod) look(p.first);
        for (int i = 0; i < 50; i++) look(anykey());
        mp->accounting(mod);
        if (mod.size() < 4000 && chance(1, 4)) cur->dump(mod);
        ev["max_keys"] = std::max<uint64_t>(ev["max_keys"], mod.size());
    }
    void batch() {      // sorted bulk insertion, forwards or backwards
        int n = rnd(1500); vector<string> ks;
        for (int i = 0; i < n; i++) ks.push_back(g.k());
        std::sort(ks.begin(), ks.end());
        if (chance(1, 2)) std::reverse(ks.begin(), ks.end());
        ev["sorted_batches"]++;
        for (auto &k : ks) { string v = val(cur->is_int); note("puts", k); if (!cur->put(k, v)) bad("put failed"); mod[k] = v; }
    }
    void big() {        // many anchors: the tables of anchors grow
        g.big(); char b[120]; snprintf(b, 120, "map=%s groups=%u prefix=%u", cur->name, g.nclus, g.plen); cur_desc = b;
        for (uint64_t n = (uint64_t)g.nclus * (40 + rnd(40)); n > 0; n--) { string k = g.k(), v = val(cur->is_int); if (v.size() > 40) v.resize(40); op_index++; if (!cur->put(k, v)) bad("put failed"); mod[k] = v; if (chance(1, 50)) look(anykey()); if (chance(1, 50)) { string d = anykey(); if (cur->del(d) != !!mod.erase(d)) bad("delete answers wrongly"); } }
        ev["insertions"] += mod.size(); full();
        int keep = rnd(20);
        for (auto it = mod.begin(); it != mod.end();) if ((int)rnd(100) < keep) ++it; else { if (!cur->del(it->first)) bad("delete of a present key failed"); it = mod.erase(it); ev["deleted_present"]++; }
        full();
        for (int i = 0; i < 3000; i++) { op_index++; if (chance(1, 3)) del(); else put(); if (chance(1, 200)) delr(); }
        full();
    }
    void go(const string &mode) {
        char b[120]; snprintf(b, 120, "map=%s keys=%d short=%d", cur->name, g.dist, g.shorts); cur_desc = b;
        bool wi = mode.find("iter") != string::npos, wr = mode.find("delr") != string::npos;
        if (mode.find("users") != string::npos) for (int u = 1 + rnd(3); u > 0; u--) { users.emplace_back(cur->clone()); users.back()->park(); }
        if (mode.find("big") != string::npos) { big(); return; }
        int phases = 1 + rnd(5);
        for (int ph = 0; ph < phases; ph++) {
            int pd = rnd(100), n = chance(1, 3) ? rnd(5000) : rnd(900);
            if (chance(1, 4)) batch();
            int pi = wi ? 30 : chance(1, 3) ? 4 : 0, pr = wr ? 3 : chance(1, 4) ? 1 : 0, pm = cur->can_inp() ? (wi || wr ? 3 : 20) : 0;
            if (wi) n /= 3;
            for (int i = 0; i < n; i++) {
                op_index++;
                if (chance(1, 400)) pd = rnd(100);
                int c = rnd(100);
                if (c < pi) iter();
                else if (c < pi + pr) delr();
                else if (c < pi + pr + pm) { if (chance(1, 2)) merge(); else inpw(); }
                else if ((int)rnd(100) < pd) del();
                else put();
                if (users.size() && chance(1, 30)) another();
                if (chance(1, 300)) { cur->reref(); ev["rerefs"]++; }
            }
            if (chance(1, 10)) { last_op = "clean"; ev["cleans"]++; cur->clean(); mod.clear(); full(); }
            if (chance(1, 2) || ph == phases - 1) full();
            if (chance(1, 8)) { // drain
                vector<string> ks; for (auto &p : mod) ks.push_back(p.first);
                if (chance(1, 2)) std::shuffle(ks.begin(), ks.end(), R); else if (chance(1, 2)) std::reverse(ks.begin(), ks.end());
                for (auto &k : ks) { note("deletes", k); if (!cur->del(k)) bad("delete of a present key failed"); mod.erase(k); }
                ev["drains"]++; full();
            }
        }
    }
};

// ---- the interface for 64-bit keys and values ----
static void kv64() {
    static const struct kvmap_api *const apis[] = {&kvmap_api_wormhole, &kvmap_api_whsafe, &kvmap_api_whunsafe};
    int w = rnd(3); const struct kvmap_api *api = apis[w]; void *map = wormhole_create(&kvmap_mm_dup); void *r = kvmap_ref(api, map);
    Gen g; g.init(true); g.shorts = false; std::map<uint64_t, uint64_t> mod;
    char d[80]; snprintf(d, 80, "kv64 map=%d keys=%d", w, g.dist); cur_desc = d;
    auto key = [&] { if (mod.size() && chance(1, 2)) { string k = g.k(); uint64_t x = 0; for (char c : k) x = x << 8 | (uint8_t)c; auto it = mod.lower_bound(x); if (it != mod.end()) return it->first + (chance(1, 3) ? (uint64_t)rnd(3) - 1 : 0); } string k = g.k(); uint64_t x = 0; for (char c : k) x = x << 8 | (uint8_t)c; return x; };
    int pd = rnd(100);
    for (int i = 100 + rnd(6000); i > 0; i--) {
        op_index++; uint64_t k = key(); auto it = mod.find(k); bool e = it != mod.end(); last_op = "key " + std::to_string(k);
        if (chance(1, 500)) pd = rnd(100);
        switch (rnd(8)) {
            case 0: if (kvmap_kv64_probe(api, r, k) != e) bad("probe answers %d", !e); ev["lookups"]++; break;
            case 1: { uint64_t o = 0x5555; bool f = kvmap_kv64_get(api, r, k, &o); if (f != e || o != (e ? it->second : 0x5555)) bad("get answers %d, %lx", f, o); ev["lookups"]++; break; }
            case 2: {
                if (!chance(1, 8)) break;
                void *q = api->iter_create(r); kvmap_kv64_iter_seek(api, q, k); auto j = mod.lower_bound(k); ev["seeks"]++;
                for (int n = rnd(60); ; n--) {
                    uint64_t a = 1, b = 2; bool f = kvmap_kv64_iter_peek(api, q, chance(1, 8) ? nullptr : &a, chance(1, 8) ? nullptr : &b);
                    if (f != (j != mod.end())) bad("the iterator is %s", f ? "valid" : "exhausted");
                    if (!f || !n) break;
                    if ((a != 1 && a != j->first) || (b != 2 && b != j->second)) bad("the iterator shows %lu=%lx, expected %lu=%lx", a, b, j->first, j->second);
                    api->iter_skip1(q); ++j;
                }
                api->iter_destroy(q); break;
            }
            default:
                if ((int)rnd(100) < pd) { if (kvmap_kv64_del(api, r, k) != e) bad("delete answers %d", !e); mod.erase(k); ev["deleted_present"] += e; }
                else { uint64_t v = R(); if (!kvmap_kv64_put(api, r, k, v)) bad("put failed"); mod[k] = v; ev["insertions"] += !e; }
        }
    }
    for (auto &p : mod) { uint64_t o; if (!kvmap_kv64_get(api, r, p.first, &o) || o != p.second) bad("key %lu is lost", p.first); }
    kvmap_unref(api, r); api->destroy(map);
}

int main(int c, char **v) {
    reset_signals();
    uint64_t a = strtoull(v[2], 0, 10), b = strtoull(v[3], 0, 10);
    string mode = v[1];
    for (uint64_t s = a; s < b; s++) {
        begin_case(mode, s);
        Map *m;
        if (mode == "kv64") { kv64(); end_case(); continue; }
        if (mode.find("int") != string::npos) { int w = rnd(mode.find("users") != string::npos || !KU::there() ? 3 : 4); if (w == 0) m = new WI(); else if (w == 3) m = new KU(); else m = new KI(w == 1); }
        else { int w = rnd(mode == "users" ? 3 : 4); if (w >= 3 - (mode == "users")) m = new WH(); else m = new KM(w); }
        { Run r(m); r.go(mode); }
        end_case();
    }
    puts("DONE");
}
