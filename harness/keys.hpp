// Key distributions for the maps.
#pragma once
#include "common.hpp"

namespace vf {
using std::vector;
struct Gen {
    int dist; bool isint; uint32_t nclus = 1, cseed = 0; string pref; vector<string> dict; uint64_t base, step; uint32_t ctr = 0, width;
    bool shorts = false;
    // groups of keys, each with a long prefix of its own: few leaves, many anchor nodes
    string cluster(uint32_t c, size_t n) { string s; uint64_t x = (c + 1) * 0x9E3779B97F4A7C15ull ^ cseed; while (s.size() < n) { x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; s += (char)x; } return s; }
    void big() {
        dist = isint ? 8 : 12; cseed = R();
        plen = isint ? 7 : 20 + rnd(280);
        nclus = isint ? 500 + rnd(8000) : (chance(1, 6) ? 8000 : 36000) / plen * (100 + rnd(160)) / 100 + 1;
    }
    uint32_t plen = 10;
    void init(bool i) {
        isint = i;
        dist = rnd(i ? 9 : 13); cseed = R(); nclus = 1 + rnd(60); plen = i ? 4 + rnd(4) : 4 + rnd(100);
        base = R(); step = 1ull << rnd(56); width = 50 + rnd(4000);
        if (i) { shorts = chance(1, 3); return; }
        size_t l = chance(1, 4) ? 200 + rnd(300) : rnd(40);
        while (l--) pref += (char)(chance(1, 3) ? rnd(256) : 'k');
        for (int d = 0; d < 4; d++) { string s; for (int q = 1 + rnd(12); q > 0; q--) s += (char)(chance(1, 8) ? rnd(256) : 'a' + rnd(3)); dict.push_back(s); }
    }
    static string be(uint64_t x) { string s(8, 0); for (int i = 0; i < 8; i++) s[i] = (char)(x >> (56 - 8 * i)); return s; }
    string ik() {
        uint64_t x;
        switch (dist) {
            case 0: x = R(); break;
            case 1: x = base + rnd(width); break;
            case 2: x = rnd(width) * step; break;
            case 3: x = base + rnd(width) * step; break;
            case 4: x = (uint64_t)rnd(1 + width / 50) << 56 | rnd(200) << (8 * rnd(7)); break;
            case 5: x = rnd(2) ? rnd(300) : ~0ull - rnd(300); break;
            case 6: { x = 0; for (int i = 0; i < 8; i++) x = x << 8 | (chance(1, 3) ? 255 : chance(1, 2) ? 0 : rnd(3)); break; }
            case 8: { string s = cluster(rnd(nclus), plen); while (s.size() < 8) s += (char)rnd(256); return s; }
            default: x = base + (ctr++ % (4 * width)) * (1 + step % 977); break;
        }
        string s = be(x);
        if (shorts && chance(1, 2)) { s.resize(1 + rnd(8)); }
        return s;
    }
    string k() {
        if (isint) return ik();
        string s; int l;
        switch (dist) {
            case 0: for (l = 1 + rnd(6); l > 0; l--) s += (char)rnd(256); return s;
            case 1: for (l = rnd(14); l > 0; l--) s += (char)('a' + rnd(2)); return s;
            case 2: s = pref; for (l = rnd(4); l > 0; l--) s += (char)rnd(256); return s;
            case 3: for (l = rnd(20); l > 0; l--) s += (char)(rnd(3) ? 0 : 255); return s;
            case 4: for (l = 1 + rnd(2); l > 0; l--) s += (char)rnd(256); return s;
            case 5: return be(base + rnd(width));
            case 6: return std::to_string(rnd(width * 3));
            case 7: s.assign(1 + rnd(300), 'a'); for (l = rnd(3); l > 0; l--) s += (char)rnd(256); return s;
            case 8: for (l = rnd(8); l > 0; l--) s += dict[rnd(4)]; return s;
            case 9: s = pref.substr(0, rnd(pref.size() + 1)); for (l = rnd(3); l > 0; l--) s += (char)rnd(256); return s;
            case 10: s.assign(rnd(40), 'x'); s += be(rnd(width)); for (l = rnd(40); l > 0; l--) s += 'y'; return s;
            case 12: s = cluster(rnd(nclus), plen); s += (char)rnd(256); if (rnd(2)) s += (char)rnd(2); return s;
            default: return be(base + (ctr++ % (4 * width)) * (1 + step % 977)) + (char)rnd(2);
        }
    }
};
}
