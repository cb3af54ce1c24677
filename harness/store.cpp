// Monitor of the fingerprint store: random histories of the real store next to a
// multiset of fingerprints. Only what the store answers is compared, never its layout.
#include "diva.hpp"
#include "common.hpp"
#include <set>
using namespace vf;
using std::vector;

static uint64_t low(uint64_t a) { return a & -a; }
static uint64_t base(uint64_t a) { return a - low(a); }
static bool lt(uint64_t a, uint64_t b) { return base(a) < base(b) || (base(a) == base(b) && low(a) > low(b)); }

class InfixStoreTests {
public:
    template <bool I> static void run() {
        typedef Diva<I> D;
        uint32_t is = 1 + rnd(chance(1, 4) ? 40 : 20);
        D d(is, (uint32_t)R(), 0.95f);
        uint32_t ti = chance(1, 2) ? 1024 : chance(1, 4) ? 512 : 512 + rnd(513);
        int dist = rnd(5), pshort = chance(1, 3) ? 0 : rnd(30);
        uint32_t hot = 1 + rnd(30), hb = rnd(ti);
        auto impl = [&]() -> uint64_t {
            switch (dist) {
                case 0: return rnd(ti);
                case 1: return std::min<uint32_t>(ti - 1, hb + rnd(hot));
                case 2: return ti - 1 - rnd(std::min(ti, hot));
                case 3: return chance(1, 2) ? rnd(hot) : ti - 1 - rnd(hot);
                default: return rnd(ti) & ~(uint64_t)63;
            }
        };
        auto fp = [&](bool full) {
            uint32_t sh = !full && (int)rnd(100) < pshort ? rnd(is) : 0;
            uint64_t e = (R() & ((1ull << is) - 1)) | 1;
            return (impl() << is) | (((e >> sh) | 1) << sh);
        };
        vector<uint64_t> m;
        size_t n = chance(1, 4) ? rnd(20) : rnd(1600);
        for (size_t i = 0; i < n; i++) m.push_back(fp(false));
        std::sort(m.begin(), m.end(), lt);
        uint32_t g = std::lower_bound(d.scaled_sizes_, d.scaled_sizes_ + 500, n) - d.scaled_sizes_;
        typename D::InfixStore s(d.scaled_sizes_[g], d.infix_size_, g);
        d.LoadListToInfixStore(s, m.data(), n, ti);
        char b[160]; snprintf(b, 160, "int=%d bits=%u implicit=%u dist=%d short=%d n=%zu", I, is, ti, dist, pshort, n); cur_desc = b;

        auto match = [&](uint64_t f, uint64_t key) { uint64_t mask = 2 * low(f) - 1; return (f | mask) == (key | mask); };
        auto content = [&] {
            ev["content_checks"]++;
            if (s.GetElemCount() != m.size()) bad("the store counts %u fingerprints, %zu were put in", s.GetElemCount(), m.size());
            vector<uint64_t> got(m.size() + 1, 0);
            uint32_t c = d.GetInfixList(s, got.data());
            if (c != m.size()) bad("the store lists %u fingerprints, %zu were put in", c, m.size());
            got.resize(c);
            for (size_t i = 1; i < got.size(); i++) if (base(got[i]) < base(got[i - 1])) bad("listed fingerprints are out of order at %zu: %lx after %lx", i, got[i], got[i - 1]);
            vector<uint64_t> x = m;
            std::sort(x.begin(), x.end()); std::sort(got.begin(), got.end());
            for (size_t i = 0; i < c; i++) if (x[i] != got[i]) bad("fingerprint %lx stored, the store lists %lx", x[i], got[i]);
            ev["max_fingerprints"] = std::max<uint64_t>(ev["max_fingerprints"], c);
        };
        auto anykey = [&] {
            uint64_t k = m.size() && chance(2, 3) ? m[rnd(m.size())] : fp(true);
            if (chance(1, 2)) k = base(k) | (R() & (2 * low(k) - 1));
            if (chance(1, 3)) k ^= 1ull << rnd(is + 2);
            if (k >> is >= ti) k = (uint64_t)(ti - 1) << is;
            return k | 1;
        };
        auto queries = [&](int q) {
            while (q--) {
                uint64_t k = anykey();
                bool want = false; uint32_t longest = 0;
                for (auto f : m) if (match(f, k)) { want = true; longest = std::max<uint32_t>(longest, is - __builtin_ctzll(f)); }
                ev[want ? "point_yes" : "point_no"]++;
                if (d.PointQueryInfixStore(s, k, ti) != want) bad("point query %lx answers %d, stored fingerprints say %d", k, !want, want);
                uint32_t l2 = d.GetLongestMatchingInfixSize(s, k, ti);
                if (l2 != longest) bad("longest match of %lx is reported as %u bits, stored fingerprints say %u", k, l2, longest);
                uint64_t a = anykey(), c = chance(1, 2) ? anykey() : a + rnd(1ull << (1 + rnd(is)));
                a ^= rnd(2); c ^= rnd(2);
                if (c >> is >= ti) c = a;
                if (a > c) std::swap(a, c);
                want = false;
                for (auto f : m) if (base(f) <= c && (f | (low(f) - 1)) >= a) want = true;
                ev[want ? "range_yes" : "range_no"]++;
                if (d.RangeQueryInfixStore(s, a, c, ti) != want) bad("range query [%lx,%lx] answers %d, stored fingerprints say %d", a, c, !want, want);
            }
        };
        content();
        queries(20);
        int ops = chance(1, 2) ? rnd(400) : rnd(3500), pd = rnd(60);
        for (int i = 0; i < ops; i++) {
            op_index = i;
            if (chance(1, 300)) pd = rnd(100);
            if (chance(1, 500)) dist = rnd(5);
            char o[80];
            if (m.size() && (int)rnd(100) < pd) {
                uint64_t k = m[rnd(m.size())];
                k = base(k) | (R() & (2 * low(k) - 1)) | 1;
                size_t best = m.size(); uint64_t bl = ~0ull;
                for (size_t q = 0; q < m.size(); q++) if (match(m[q], k) && low(m[q]) < bl) { bl = low(m[q]); best = q; }
                snprintf(o, 80, "delete %lx", k); last_op = o; ev["deletes"]++;
                m[best] = m.back(); m.pop_back();
                d.DeleteRawFromInfixStore(s, k, ti);
            } else if (m.size() < 6000) {
                uint64_t k = m.size() && chance(1, 6) ? m[rnd(m.size())] | 1 : fp(true);
                snprintf(o, 80, "insert %lx", k); last_op = o; ev["inserts"]++;
                m.push_back(k);
                d.InsertRawIntoInfixStore(s, k, ti);
            }
            if (s.GetElemCount() != m.size()) bad("the store counts %u fingerprints, %zu were put in", s.GetElemCount(), m.size());
            if (chance(1, 8)) content();
            if (chance(1, 8)) queries(2);
        }
        last_op = "end";
        content(); queries(100);
        if (is > 1 && chance(1, 2)) {
            uint32_t ni = 1 + rnd(is - 1);
            last_op = "shrink to " + std::to_string(ni); ev["shrinks"]++;
            d.ShrinkInfixStoreInfixSize(s, ni);
            d.infix_size_ = ni;
            uint32_t sh = is - ni;
            for (auto &f : m) f = low(f) >> sh ? f >> sh : (f >> sh) | 1;
            is = ni;
            content();
            for (int t = rnd(300); t > 0; t--) { uint64_t k = fp(true); m.push_back(k); d.InsertRawIntoInfixStore(s, k, ti); ev["inserts"]++; }
            content(); queries(100);
        }
        delete[] s.ptr;
    }
};

int main(int c, char **v) {
    reset_signals();
    uint64_t a = strtoull(v[2], 0, 10), b = strtoull(v[3], 0, 10);
    for (uint64_t s = a; s < b; s++) {
        begin_case(v[1], s);
        if (chance(1, 2)) InfixStoreTests::run<false>(); else InfixStoreTests::run<true>();
        end_case();
    }
    puts("DONE");
}
