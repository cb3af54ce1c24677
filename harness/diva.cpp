// Monitors of the range filter. One process runs the cases [from, to) of a mode;
// a case is a random history of the real filter, driven next to a reference set.
#include "diva.hpp"
#include "common.hpp"
#include <array>
#include <list>
#include <memory>
#include <set>
using namespace vf;
using std::string_view;
using std::vector;
typedef std::set<string> Model;

static string be(uint64_t k) { k = __builtin_bswap64(k); return string((char *)&k, 8); }
static uint64_t le(const string &s) { uint64_t k; memcpy(&k, s.data(), 8); return __builtin_bswap64(k); }
static const string FF8(8, (char)255), Z8(8, 0);

// ---- key generators -------------------------------------------------------------------------------
struct Gen {
    bool isint;
    int dist;
    uint64_t base, step, ctr = 0;
    vector<uint64_t> cl;
    vector<int> wid;    // per cluster: log2 of its width
    string pref;
    vector<string> words;
    size_t fixed = 0;   // fixed key length of Diva<false>, 0 for variable length
    string upper;       // keys stay below it
    static const int ND_INT = 12, ND_STR = 12;
    void init(bool isint_, int d = -1) {
        isint = isint_;
        dist = d >= 0 ? d : rnd(isint ? ND_INT : ND_STR);
        base = R() >> 1;
        step = 1 + (R() >> (20 + rnd(43)));
        int nc = 1 + rnd(6);
        for (int i = 0; i < nc; i++) cl.push_back(R());
        uint64_t pow = 1ull << (20 + rnd(43));       // clusters of very different widths around one power of two
        for (int i = 0; i < nc; i++) {
            wid.push_back(6 + rnd(36));
            if (dist == 10) cl[i] = pow + (chance(1, 2) ? 0 : (R() >> (1 + rnd(62)))) - (chance(1, 2) ? 1ull << (wid[i] - chance(1, 2)) : 0);
        }
        int pl = 1 + rnd(chance(1, 5) ? 200 : 30); if (!isint && chance(1, 12)) pl = 200 + rnd(2000);
        for (int i = 0; i < pl; i++) pref += (char)('a' + rnd(26));
        int nw = 3 + rnd(20);
        for (int i = 0; i < nw; i++) { string w; int l = 1 + rnd(7); while (l--) w += (char)(chance(1, 12) ? rnd(256) : 'a' + rnd(26)); words.push_back(w); }
        upper = string(isint ? 8 : 4096, (char)255);
    }
    string raw() {
        if (isint) {
            uint64_t k;
            switch (dist) {
                case 0: k = R(); break;
                case 1: k = base + rnd(1 << 20); break;
                case 2: k = cl[rnd(cl.size())] + rnd(1 << 14); break;
                case 3: k = R() >> rnd(60); break;
                case 4: k = R() << rnd(60); break;
                case 5: k = cl[rnd(cl.size())]; for (int i = 0; i < 4; i++) k ^= 1ull << rnd(64); break;
                case 6: { double s = 0; for (int i = 0; i < 12; i++) s += rnd(1u << 31); k = base + (uint64_t)(s * 1000); break; }
                case 7: k = base + step * (ctr++ % 40000); break;
                case 8: { k = 0; for (int i = 0; i < 8; i++) k = k << 8 | (cl[rnd(cl.size())] >> (8 * rnd(2)) & 255); break; }
                case 10: case 11: { size_t i = rnd(cl.size()); k = cl[i] + (R() & ((1ull << wid[i]) - 1)); break; }
                default: k = (chance(1, 2) ? ~0ull - (R() >> (1 + rnd(62))) : R() >> (1 + rnd(62))); break;
            }
            return be(k);
        }
        string s;
        switch (dist) {
            case 0: { int l = 1 + rnd(16); for (int i = 0; i < l; i++) s += (char)rnd(256); break; }
            case 1: { int l = 1 + rnd(20); for (int i = 0; i < l; i++) s += (char)('a' + rnd(2)); break; }
            case 2: { s = pref; int l = 1 + rnd(12); for (int i = 0; i < l; i++) s += (char)rnd(256); break; }
            case 3: { s = pref.substr(0, rnd(pref.size())); int l = 1 + rnd(6); for (int i = 0; i < l; i++) s += (char)rnd(256); break; }
            case 4: { int l = 1 + rnd(40); for (int i = 0; i < l; i++) s += (char)(rnd(3) ? 0 : rnd(3) ? 255 : rnd(256)); break; }
            case 5: { for (int i = 0; i < 8; i++) s += (char)rnd(256); break; }
            case 6: { int l = 1 + rnd(5); for (int i = 0; i < l; i++) { s += (char)(32 + rnd(4) * 17); s += (char)rnd(256); } break; }
            case 7: { int l = 1 + rnd(6); for (int i = 0; i < l; i++) { s += words[rnd(words.size())]; if (chance(1, 2)) s += '/'; } break; }
            case 8: { char b[40]; snprintf(b, 40, "user%0*lu", (int)(1 + rnd(12)), R() >> rnd(60)); s = b; break; }
            case 10: case 11: {     // clusters that share prefixes of very different lengths
                size_t i = rnd(cl.size());
                s = pref.substr(0, dist == 10 ? rnd(3) : 0) + be(cl[i]) + be(cl[(i + 1) % cl.size()]);
                s.resize(1 + wid[i] / 3);
                int l = 1 + rnd(5); for (int q = 0; q < l; q++) s += (char)rnd(256);
                break;
            }
            default: { s = pref; int l = 8 + rnd(250); for (int i = 0; i < l; i++) s += (char)(chance(1, 30) ? rnd(256) : 'x'); break; }
        }
        return s;
    }
    bool norm(string &s) {
        if (isint) return s > Z8 && s < FF8;
        if (fixed) {
            s.resize(fixed, 0);
            return s > string(fixed, 0) && s < string(fixed, (char)255);
        }
        while (!s.empty() && s.back() == 0) s.pop_back();
        return !s.empty() && s > Z8 && s < upper;
    }
    string get() { for (;;) { string s = raw(); if (norm(s)) return s; } }
    // a key close to k: same prefix, or a small numeric distance
    string near(const string &k) {
        for (int t = 0; t < 20; t++) {
            string s = k;
            if (isint) {
                uint64_t v = le(k);
                switch (rnd(4)) {
                    case 0: v += 1 + rnd(4); break;
                    case 1: v -= 1 + rnd(4); break;
                    case 2: v ^= 1ull << rnd(64); break;
                    default: v += (R() >> (1 + rnd(63))) * (chance(1, 2) ? 1 : -1);
                }
                s = be(v);
            } else {
                size_t p = rnd(s.size());
                switch (rnd(5)) {
                    case 0: s[p] ^= (char)(1 << rnd(8)); break;
                    case 1: s.resize(p + 1); break;
                    case 2: s += (char)(1 + rnd(255)); break;
                    case 3: s.resize(p + 1); s += (char)rnd(256); s += (char)(1 + rnd(255)); break;
                    default: s.back()++;
                }
            }
            if (norm(s)) return s;
        }
        return get();
    }
};

// ---- access to the filter ---------------------------------------------------------------------------
class DivaTests {
public:
    template <bool I> static void split(Diva<I> &d, const string &k) {
        d.InsertSplit({(const uint8_t *)k.data(), (uint32_t)k.size()});
    }
    template <bool I> static void tree(Diva<I> &d, uint64_t &keys, uint64_t &elems, vector<string> *out = nullptr, vector<uint64_t> *cnt = nullptr) {
        keys = elems = 0;
        const uint8_t *k; uint32_t kl, dm; typename Diva<I>::InfixStore *s;
        if constexpr (I) {
            auto *it = wh_int_iter_create(d.better_tree_int_);
            for (wh_int_iter_seek(it, nullptr, 0); wh_int_iter_valid(it); wh_int_iter_skip1(it)) {
                wh_int_iter_peek_ref(it, (const void **)&k, &kl, (void **)&s, &dm);
                keys++; elems += s->GetElemCount();
                if (out) out->push_back(string((const char *)k, kl));
                if (cnt) cnt->push_back(s->GetElemCount());
            }
            wh_int_iter_destroy(it);
        } else {
            auto *it = wh_iter_create(d.better_tree_);
            for (wh_iter_seek(it, nullptr, 0); wh_iter_valid(it); wh_iter_skip1(it)) {
                wh_iter_peek_ref(it, (const void **)&k, &kl, (void **)&s, &dm);
                keys++; elems += s->GetElemCount();
                if (out) out->push_back(string((const char *)k, kl));
                if (cnt) cnt->push_back(s->GetElemCount());
            }
            wh_iter_destroy(it);
        }
    }
};

template <bool I> struct Flt {
    std::unique_ptr<Diva<I>> d;
    uint32_t infix;
    bool pq(const string &k) const {
        if constexpr (I) return d->PointQuery(le(k));
        else return d->PointQuery(string_view(k));
    }
    bool rq(const string &l, const string &r) const {
        if constexpr (I) return d->RangeQuery(le(l), le(r));
        else return d->RangeQuery(string_view(l), string_view(r));
    }
    void ins(const string &k) {
        if constexpr (I) d->Insert(le(k));
        else d->Insert(string_view(k));
    }
    void del(const string &k) {
        if constexpr (I) d->Delete(le(k));
        else d->Delete(string_view(k));
    }
    string bytes() const {
        string s(d->Size() + 64, (char)0xA5);
        uint32_t n = d->Serialize(&s[0]);
        if (n > d->Size()) bad("Serialize wrote %u bytes, Size() announced %u", n, d->Size());
        s.resize(n);
        return s;
    }
};

struct Opt {        // what a history may contain
    bool splits = true, dels = true, shrink = false, ser = false;
    bool pt = true, rg = false;         // oracles
    int max_n = 6000, max_ops = 6000;
    uint32_t min_infix = 1, max_infix = 40;
    size_t fixed = 0;                   // fixed-length keys for Diva<false>
    int loadkind = -1;                  // 0 constructor, 1 streaming
};

template <bool I> struct Run {
    Flt<I> f;
    Model m;
    Gen g;
    Opt o;
    uint32_t seed32;
    vector<string> bulk;

    // ---- oracles
    void must_point(const string &k) {
        ev["point_checks"]++;
        if (!f.pq(k)) bad("false negative: point query for stored key %s answers no", hex(k).c_str());
    }
    void must_range(const string &l, const string &r, const string &k) {
        ev["range_checks"]++;
        if (!f.rq(l, r)) bad("false negative: range query [%s,%s] answers no but holds stored key %s", hex(l).c_str(), hex(r).c_str(), hex(k).c_str());
    }
    bool ends = false;                     // the smallest and the largest key there is come and go too
    bool is_end(const string &k) { return I ? k == Z8 || k == FF8 : !o.fixed && k == g.upper; }
    size_t ends_stored() { return I ? m.count(Z8) + m.count(FF8) : o.fixed ? 0 : m.count(g.upper); }
    string lower_of(const string &k) {     // some l <= k
        if constexpr (I) {
            if (k == Z8) return k;
            uint64_t v = le(k), w;
            switch (rnd(5)) {
                case 0: return k;
                case 1: w = R() >> rnd(64); return be(v > w ? std::max<uint64_t>(1, v - w) : 1);
                case 2: { uint64_t t = v & ~((1ull << rnd(64)) - 1); return be(t ? t : 1); }
                case 3: { auto it = m.lower_bound(k); if (it == m.begin()) return be(1); --it; return be(std::min(v, le(*it) + 1)); }
                default: { string x = g.near(k); return x <= k ? x : k; }
            }
        }
        switch (rnd(6)) {
            case 0: return k;
            case 1: { string s = k.substr(0, 1 + rnd(k.size())); return g.norm(s) && s <= k ? s : k; }
            case 2: { auto it = m.lower_bound(k); for (int i = rnd(5); i > 0 && it != m.begin(); i--) --it; return it != m.end() && *it <= k ? *it : k; }
            case 3: { string s = k; size_t p = rnd(s.size()); if (s[p]) { s[p] = (char)rnd((unsigned char)s[p]); } s.resize(p + 1 + (o.fixed ? 0 : rnd(3)), (char)(1 + rnd(255))); return g.norm(s) && s <= k ? s : k; }
            case 4: { string x = g.near(k); return x <= k ? x : k; }
            default: { string x = g.get(); return x <= k ? x : k; }
        }
    }
    string upper_of(const string &k) {
        if constexpr (I) {
            if (k == FF8) return k;
            uint64_t v = le(k), w;
            switch (rnd(5)) {
                case 0: return k;
                case 1: w = R() >> rnd(64); return be(v + w < v || v + w == ~0ull ? ~0ull - 1 : v + w);
                case 2: { uint64_t t = v | ((1ull << rnd(64)) - 1); return be(t == ~0ull ? t - 1 : t); }
                case 3: { auto it = m.upper_bound(k); if (it == m.end()) return be(~0ull - 1); return be(le(*it) - (le(*it) > v)); }
                default: { string x = g.near(k); return x >= k ? x : k; }
            }
        }
        switch (rnd(6)) {
            case 0: return k;
            case 1: { string s = k + (char)(1 + rnd(255)); return g.norm(s) && s >= k ? s : k; }
            case 2: { auto it = m.lower_bound(k); for (int i = rnd(5); i > 0 && it != m.end(); i--) ++it; return it == m.end() ? std::max(*m.rbegin(), k) : *it; }
            case 3: { string s = k; size_t p = rnd(s.size()); s[p] = (char)((unsigned char)s[p] + rnd(256 - (unsigned char)s[p])); s.resize(p + 1 + (o.fixed ? 0 : rnd(3)), (char)(1 + rnd(255))); return g.norm(s) && s >= k ? s : k; }
            case 4: { string x = g.near(k); return x >= k ? x : k; }
            default: { string x = g.get(); return x >= k ? x : k; }
        }
    }
    void check_key(const string &k) {
        if (o.pt) must_point(k);
        if (o.rg) {
            must_range(k, k, k);
            must_range(lower_of(k), upper_of(k), k);
        }
    }
    void check_all() { ev["full_scans"]++; for (auto &k : m) check_key(k); }
    void check_near(const string &k, int w = 3) {
        auto it = m.lower_bound(k);
        for (int i = 0; i < w && it != m.begin(); i++) --it;
        for (int i = 0; i < 2 * w + 1 && it != m.end(); i++, ++it) check_key(*it);
    }

    // ---- construction
    void load(size_t n, int kind) {
        m.clear();
        size_t tries = 0;
        while (m.size() < n && tries++ < 5 * n + 50) m.insert(g.get());
        while (m.size() < n && tries++ < 60 * n + 500) m.insert(g.near(*m.begin()));
        if (I && ends && chance(1, 2)) m.insert(Z8);
        if (I && ends && chance(1, 2)) m.insert(FF8);
        load_model(kind);
    }
    void load_model(int kind) {
        bulk.assign(m.begin(), m.end());
        if constexpr (I) {
            vector<uint64_t> v;
            for (auto &s : bulk) v.push_back(le(s));
            if (kind == 0) f.d.reset(new Diva<I>(f.infix, v.begin(), v.end(), 8, seed32, 0.95f));
            else {
                f.d.reset(new Diva<I>(f.infix, seed32, 0.95f));
                for (auto k : v) f.d->BulkLoadStreaming(k);
                f.d->BulkLoadStreamingFinish();
            }
        } else {
            if (kind == 0 && !o.fixed) {
                f.d.reset(new Diva<I>(f.infix, bulk.begin(), bulk.end(), seed32, 0.95f));
                size_t ml = 0; for (auto &s : bulk) ml = std::max(ml, s.size());
                g.upper = string(ml, (char)255);
            } else if (kind == 0 && o.fixed == 8) {
                vector<uint64_t> v(bulk.size());
                for (size_t i = 0; i < bulk.size(); i++) memcpy(&v[i], bulk[i].data(), 8);
                f.d.reset(new Diva<I>(f.infix, v.begin(), v.end(), 8, seed32, 0.95f));
            } else if (kind == 0 && o.fixed == 16) {
                vector<std::array<char, 16>> v(bulk.size());
                for (size_t i = 0; i < bulk.size(); i++) memcpy(&v[i], bulk[i].data(), 16);
                f.d.reset(new Diva<I>(f.infix, v.begin(), v.end(), 16, seed32, 0.95f));
            } else {
                f.d.reset(new Diva<I>(f.infix, seed32, 0.95f));
                size_t ml = 0;
                for (auto &k : bulk) { f.d->BulkLoadStreaming(string_view(k)); ml = std::max(ml, k.size()); }
                f.d->BulkLoadStreamingFinish();
                g.upper = string(ml, (char)255);
            }
        }
        ev["loads"]++;
    }
    size_t pick_n() {
        switch (rnd(6)) {
            case 0: return 1 + rnd(40);
            case 1: return 1 + rnd(3000);
            case 2: return 1024 * (1 + rnd(3)) - 3 + rnd(6);
            case 3: return 1000 + rnd(50);
            default: return 1 + rnd(o.max_n);
        }
    }
    void setup() {
        g.fixed = o.fixed;
        f.infix = o.min_infix + rnd(o.max_infix - o.min_infix + 1);
        if (chance(1, 2)) f.infix = std::min(o.max_infix, std::max(o.min_infix, (uint32_t)(4 + rnd(12))));
        seed32 = (uint32_t)R();
        int kind = o.loadkind >= 0 ? o.loadkind : chance(1, 4);
        size_t n = pick_n();
        char b[200];
        load(n, kind);
        snprintf(b, 200, "int=%d dist=%d infix=%u n=%zu load=%d fixed=%zu", I, g.dist, f.infix, bulk.size(), kind, o.fixed);
        cur_desc = b;
        observe();
        check_all();
    }
    uint64_t last_keys = 0, last_elems = 0;
    void observe() {
        uint64_t k, e;
        DivaTests::tree<I>(*f.d, k, e);
        if (last_keys && k > last_keys) ev["boundaries_added"] += k - last_keys;
        if (last_keys && k < last_keys) ev["boundaries_removed"] += last_keys - k;
        last_keys = k; last_elems = e;
        ev["max_boundaries"] = std::max(ev["max_boundaries"], k);
        ev["max_elems"] = std::max(ev["max_elems"], e);
    }

    // ---- operations
    void op_insert(const string &k, bool force_split) {
        if (!m.insert(k).second) return;
        if (force_split && !is_end(k)) { last_op = "insert+split " + hex(k); ev["inserts_forced_split"]++; DivaTests::split<I>(*f.d, k); }
        else { last_op = "insert " + hex(k); ev["inserts"]++; f.ins(k); }
        check_near(k, 1);
    }
    void op_delete(const string &k) {
        m.erase(k);
        last_op = "delete " + hex(k); ev["deletes"]++;
        f.del(k);
        check_near(k, 2);
    }
    void op_shrink() {
        if (f.infix <= 1) return;
        uint32_t ni = std::max<int>(1, (int)f.infix - 1 - (int)rnd(chance(1, 3) ? f.infix : 4));
        last_op = "shrink to " + std::to_string(ni); ev["shrinks"]++;
        f.d->ShrinkInfixSize(ni);
        f.infix = ni;
        check_all();
    }
    void op_serialize() {
        last_op = "serialize"; ev["roundtrips"]++;
        string s = f.bytes();
        { vector<char> buf(s.begin(), s.end()); f.d.reset(new Diva<I>(buf.data())); memset(buf.data(), 0xEE, buf.size()); }
        check_all();
    }
    string existing() {
        auto it = m.lower_bound(chance(1, 2) ? g.get() : g.near(*m.begin()));
        if (it == m.end()) it = m.begin();
        return *it;
    }
    void history(int ops) {
        int psplit = o.splits ? (chance(1, 2) ? rnd(300) : rnd(30)) : 0, pdel = o.dels ? rnd(70) : 0;
        while ((int)op_index < ops) {
            op_index++;
            if (chance(1, 400)) pdel = o.dels ? rnd(90) : 0;
            if (o.dels && chance(1, 700) && m.size() > 8) {     // drop a run of neighbours
                auto it = m.lower_bound(existing());
                vector<string> ks;
                for (int c = 1 + rnd(chance(1, 4) ? 1500 : 60); c > 0 && it != m.end(); c--, ++it) ks.push_back(*it);
                if (chance(1, 2)) std::reverse(ks.begin(), ks.end());
                for (auto &k : ks) { if (m.size() <= 2) break; op_delete(k); }
                ev["delete_runs"]++;
            } else if (chance(1, 500)) {                        // crowd one spot
                string c = existing();
                for (int n = rnd(chance(1, 3) ? 1200 : 60); n > 0; n--) op_insert(g.near(c), (int)rnd(1000) < psplit);
                ev["bursts"]++;
            } else if (o.dels && chance(1, 60) && bulk.size() > 4) {   // boundary keys go and come back
                string k = bulk[std::min(bulk.size() - 1, (size_t)(rnd(bulk.size() / 1024 + 1) * 1024 + rnd(2)))];
                if (chance(1, 20)) k = bulk.back();
                if (m.count(k)) { if (m.size() > 2) op_delete(k); }
                else op_insert(k, (int)rnd(1000) < psplit);
            } else if (I && ends && chance(1, 40)) {
                string k = chance(1, 2) ? Z8 : FF8; ev["ends_used"]++;
                if (m.count(k)) { if (o.dels && m.size() > 2) op_delete(k); } else op_insert(k, false);
            } else if ((int)rnd(100) < pdel && m.size() > 2) op_delete(existing());
            else op_insert(chance(1, 4) ? g.near(existing()) : g.get(), (int)rnd(1000) < psplit);
            if (o.shrink && chance(1, 900)) op_shrink();
            if (o.ser && chance(1, 1500)) op_serialize();
            if (chance(1, 1500)) { observe(); check_all(); }
        }
        last_op = "end";
        observe();
        check_all();
    }
    void full(Opt opt) {
        o = opt;
        g.init(I);
        ends = I && chance(1, 5);
        setup();
        history(chance(1, 2) ? rnd(600) : rnd(o.max_ops));
    }
};

// ---- modes ------------------------------------------------------------------------------------------
template <bool I> static void m_member(const Opt &o) { Run<I> r; r.full(o); }

static Opt opt_of(bool pt, bool rg) { Opt o; o.pt = pt; o.rg = rg; o.shrink = chance(1, 3); o.ser = chance(1, 6); o.dels = chance(3, 4); return o; }
static size_t pick_fixed() { return chance(1, 4) ? (chance(1, 2) ? 8 : 16) : 0; }

static void run_case(const string &mode);
#include "diva_modes.hpp"

int main(int c, char **v) {
    reset_signals();
    string mode = v[1];
    uint64_t a = strtoull(v[2], 0, 10), b = strtoull(v[3], 0, 10);
    for (uint64_t s = a; s < b; s++) { begin_case(mode, s); run_case(mode); end_case(); }
    puts("DONE");
}
