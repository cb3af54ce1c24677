// Monitor of the building blocks: bit utilities of the filter, records and codecs of the maps, slab allocator.
#include "common.hpp"
#include "kv.h"
#include "lib.h"
#include "util.hpp"
#include <algorithm>
#include <set>
#include <thread>
#include <atomic>
using namespace vf;
using std::vector;

static uint64_t word() {
    switch (rnd(6)) {
        case 0: return 0;
        case 1: return ~0ull;
        case 2: return R() & R() & R();
        case 3: return R() | R() | R();
        case 4: { uint64_t a = rnd(64), b = rnd(64); return (~0ull << a) & (~0ull >> b); }
        default: return R() >> rnd(64);
    }
}
static int sgn(int x) { return (x > 0) - (x < 0); }

// ---- bits: util.hpp against bit-by-bit definitions ----
static void bits() {
    cur_desc = "bits";
    for (int it = 0; it < 3000; it++) {
        op_index++;
        uint64_t x = word(); uint32_t i = rnd(64);
        int n = 0, pos[64];
        for (int b = 0; b < 64; b++) if (x >> b & 1) pos[n++] = b;
        for (int k = 0; k < 64; k++) {
            uint64_t want = k < n ? pos[k] : 64;
            if (_select64(x, k) != want) bad("select64(%lx, %d) = %lu, expected %lu", x, k, _select64(x, k), want);
            if (bit_select(x, k) != want) bad("bit_select(%lx, %d) = %u, expected %lu", x, k, bit_select(x, k), want);
        }
        uint32_t rk[65]; rk[0] = 0;
        for (int b = 0; b < 64; b++) rk[b + 1] = rk[b] + (x >> b & 1);
        for (int b = 0; b <= 64; b++) if (bit_rank(x, b) != rk[b]) bad("bit_rank(%lx, %d) = %u, expected %u", x, b, bit_rank(x, b), rk[b]);
        if (lowbit_pos(x) != (n ? pos[0] : 64)) bad("lowbit_pos(%lx) = %d", x, lowbit_pos(x));
        if (highbit_pos(x) != (n ? pos[n - 1] : -1)) bad("highbit_pos(%lx) = %d", x, highbit_pos(x));
        uint8_t *p = (uint8_t *)&x; uint64_t be = 0; for (int b = 0; b < 8; b++) be = be << 8 | p[b];
        if (to_big_endian_order(x) != be) bad("to_big_endian_order(%lx) = %lx", x, (uint64_t)to_big_endian_order(x));
        if (to_big_endian_order((uint32_t)x) != (uint32_t)(be >> 32)) bad("to_big_endian_order of 32 bits");
        if (to_big_endian_order((uint16_t)x) != (uint16_t)(be >> 48)) bad("to_big_endian_order of 16 bits");
        uint32_t h = R(), m = 1 + (uint32_t)(R() >> (32 + rnd(32)));
        if (fast_reduce(h, m) >= m || fast_reduce(h, m) != (uint32_t)((unsigned __int128)h * m >> 32)) bad("fast_reduce(%u, %u) = %u", h, m, fast_reduce(h, m));
        uint32_t h2 = h < ~0u ? h + 1 + rnd(~0u - h) : h;
        if (fast_reduce(h, m) > fast_reduce(h2, m)) bad("fast_reduce is not monotone at %u, %u", h, m);
        for (int b = 0; b < 64; b++) { uint64_t w = b ? (1ull << b) - 1 : 0; if (BITMASK(b) != w) bad("BITMASK(%d)", b); }
        if (BITMASK(64) != ~0ull) bad("BITMASK(64)");
        (void)i;
        ev["words"]++;
    }
    for (int it = 0; it < 1500; it++) {
        op_index++;
        uint32_t nb = 64 * (1 + rnd(24)), W = nb / 64;
        uint64_t *a = (uint64_t *)malloc(W * 8);
        vector<bool> m(nb);
        int dens = rnd(5);
        for (uint32_t i = 0; i < W; i++) a[i] = dens == 0 ? 0 : dens == 1 ? ~0ull : dens == 2 ? R() : word();
        for (uint32_t i = 0; i < nb; i++) m[i] = a[i / 64] >> (i % 64) & 1;
        int how = rnd(5);
        uint32_t l = rnd(nb), r = l + rnd(nb - l);
        if (chance(1, 3)) { l = l / 64 * 64; if (chance(1, 2)) r = std::min(nb - 1, (r / 64 + 1) * 64 - 1); if (r < l) r = l; }
        char d[120];
        if (how < 2) {          // shift l..r right, within the bitmap
            uint32_t maxs = nb - 1 - r; if (!maxs) { free(a); continue; }
            uint32_t s = 1 + rnd(chance(2, 3) ? std::min(maxs, 70u) : maxs);
            if (how) s = 1;
            snprintf(d, 120, "shift_bitmap_right(%u, %u, %u) of %u bits", l, r, s, nb); last_op = d;
            vector<bool> w = m;
            for (uint32_t i = l; i <= r; i++) w[i + s] = m[i];
            for (uint32_t i = l; i < l + s; i++) w[i] = false;
            shift_bitmap_right(a, l, r, s);
            m = w; ev["shifts_right"]++;
        } else if (how < 4) {
            if (!l) { free(a); continue; }
            uint32_t s = 1 + rnd(chance(2, 3) ? std::min(l, 70u) : l);
            if (how == 3) s = 1;
            if (s > r + 1) { free(a); continue; }
            snprintf(d, 120, "shift_bitmap_left(%u, %u, %u) of %u bits", l, r, s, nb); last_op = d;
            vector<bool> w = m;
            for (uint32_t i = l; i <= r; i++) w[i - s] = m[i];
            for (uint32_t i = r + 1 - s; i <= r; i++) w[i] = false;
            shift_bitmap_left(a, l, r, s);
            m = w; ev["shifts_left"]++;
        } else {
            for (int q = 0; q < 40; q++) {
                uint32_t p = rnd(nb); last_op = "set or reset bit " + std::to_string(p);
                if (chance(1, 2)) { set_bitmap_bit(a, p); m[p] = true; } else { reset_bitmap_bit(a, p); m[p] = false; }
                uint32_t g = rnd(nb); if (get_bitmap_bit(a, g) != (uint64_t)m[g]) bad("get_bitmap_bit(%u)", g);
                ev["single_bits"]++;
            }
        }
        for (uint32_t i = 0; i < nb; i++) if ((a[i / 64] >> (i % 64) & 1) != m[i]) bad("bit %u is %d, expected %d", i, !m[i], (int)m[i]);
        free(a);
    }
}

// ---- records ----
static uint32_t crc_ref(const string &s, uint32_t crc) {
    for (unsigned char c : s) { crc ^= c; for (int k = 0; k < 8; k++) crc = crc >> 1 ^ (crc & 1 ? 0x82F63B78u : 0); }
    return crc;
}
static string bytes(size_t n, int kind) { string s(n, 0); for (auto &c : s) c = (char)(kind == 0 ? R() : kind == 1 ? (rnd(2) ? 0 : 255) : 'a' + rnd(2)); return s; }
static struct kv *mk(const string &k, const string &v) {
    char *a = (char *)malloc(k.size() + 1), *b = (char *)malloc(v.size() + 1); memcpy(a, k.data(), k.size()); memcpy(b, v.data(), v.size());
    struct kv *r = kv_create(a, k.size(), b, v.size()); free(a); free(b); return r;
}
static void is(const struct kv *x, const string &k, const string &v, const char *what) {
    if (!x) bad("%s gave nothing", what);
    if (x->klen != k.size() || x->vlen != v.size() || memcmp(x->kv, k.data(), k.size()) || memcmp(x->kv + k.size(), v.data(), v.size())) bad("%s holds another key or value", what);
    uint32_t h = crc_ref(k, KV_CRC32C_SEED);
    if (x->hashlo != h || x->hash != ((uint64_t)~h << 32 | h)) bad("%s: hash %lx, expected the CRC32C %x of the key, complemented above", what, x->hash, h);
    if (kv_size(x) != sizeof(struct kv) + k.size() + v.size() || key_size(x) != sizeof(struct kv) + k.size()) bad("%s: wrong size", what);
    if (kv_kptr_c(x) != x->kv || kv_vptr_c(x) != x->kv + k.size()) bad("%s: wrong pointers", what);
}
static void kvs() {
    cur_desc = "records";
    for (int it = 0; it < 400; it++) {
        op_index++;
        int kind = rnd(3); size_t n1 = chance(1, 8) ? rnd(400) : rnd(20), n2;
        string a = bytes(n1, kind), b;
        switch (rnd(5)) {
            case 0: b = bytes(rnd(20), kind); break;
            case 1: b = a; break;
            case 2: b = a.substr(0, rnd(a.size() + 1)); break;
            case 3: b = a + bytes(rnd(10), kind); break;
            default: b = a; if (b.size()) b[rnd(b.size())] ^= 1 << rnd(8);
        }
        n2 = b.size();
        if (chance(1, 4)) { a.resize(8, 1); b.resize(8, 2); n1 = n2 = 8; }
        string va = bytes(chance(1, 10) ? rnd(3000) : rnd(30), 0), vb = chance(1, 3) ? va : bytes(rnd(30), 0);
        last_op = "keys " + hex(a.substr(0, 40)) + " " + hex(b.substr(0, 40));
        struct kv *x = mk(a, va), *y = mk(b, vb);
        is(x, a, va, "kv_create"); is(y, b, vb, "kv_create");
        int c = a.compare(b) < 0 ? -1 : a == b ? 0 : 1;
        { size_t m = std::min(n1, n2); int q = memcmp(a.data(), b.data(), m); c = sgn(q ? q : n1 < n2 ? -1 : n1 > n2); }
        uint32_t lcp = 0; while (lcp < std::min(n1, n2) && a[lcp] == b[lcp]) lcp++;
        if (sgn(kv_compare(x, y)) != c || sgn(kv_compare(y, x)) != -c) bad("kv_compare answers %d, byte order is %d", kv_compare(x, y), c);
        if (kv_match(x, y) != (c == 0) || kv_match_hash(x, y) != (c == 0)) bad("kv_match answers %d", kv_match(x, y));
        if (kv_match_full(x, y) != (c == 0 && va == vb)) bad("kv_match_full answers %d", kv_match_full(x, y));
        if (kv_key_lcp(x, y) != lcp) bad("kv_key_lcp answers %u, expected %u", kv_key_lcp(x, y), lcp);
        uint32_t l0 = rnd(lcp + 1); if (kv_key_lcp_skip(x, y, l0) != lcp) bad("kv_key_lcp_skip from %u answers %u, expected %u", l0, kv_key_lcp_skip(x, y, l0), lcp);
        if (memlcp(x->kv, y->kv, std::min(n1, n2)) != lcp) bad("memlcp answers %u, expected %u", memlcp(x->kv, y->kv, std::min(n1, n2)), lcp);
        struct kref ka, kb; kref_ref_hash32(&ka, x->kv, n1); kref_ref_kv(&kb, y);
        if (ka.hash32 != x->hashlo || kb.hash32 != y->hashlo) bad("a key reference has another hash than its key");
        struct kref kc = kv_kref(x), kd, ke; kref_ref_kv_hash32(&kd, x); kref_ref_raw(&ke, x->kv, n1); kref_update_hash32(&ke);
        for (struct kref *q : {&kc, &kd, &ke}) if (q->len != n1 || q->hash32 != x->hashlo || (n1 && memcmp(q->ptr, a.data(), n1))) bad("a key reference names another key");
        if (kref_match(&ka, &kb) != (c == 0) || kref_kv_match(&ka, y) != (c == 0)) bad("kref_match answers %d", kref_match(&ka, &kb));
        if (sgn(kref_compare(&ka, &kb)) != c) bad("kref_compare answers %d, byte order is %d", kref_compare(&ka, &kb), c);
        if (sgn(kref_kv_compare(&ka, y)) != c || sgn(kref_kv_compare(&kb, x)) != -c) bad("kref_kv_compare answers %d, byte order is %d", kref_kv_compare(&ka, y), c);
        if (kref_lcp(&ka, &kb) != lcp || kref_kv_lcp(&ka, y) != lcp) bad("kref_lcp answers %u, expected %u", kref_lcp(&ka, &kb), lcp);
        struct kvref rf; kvref_ref_kv(&rf, x);
        if (sgn(kvref_kv_compare(&rf, y)) != c) bad("kvref_kv_compare answers %d, byte order is %d", kvref_kv_compare(&rf, y), c);
        struct kv *d1 = kv_dup(x), *d2 = kv_dup2(x, nullptr), *d3 = kv_dup_key(x), *d4 = kvref_dup2_kv(&rf, nullptr), *d5 = kv_create_kref(&ka, va.data(), va.size()), *d6 = (struct kv *)malloc(sizeof(struct kv) + n1 + va.size());
        is(d1, a, va, "kv_dup"); is(d2, a, va, "kv_dup2"); is(d3, a, "", "kv_dup_key"); is(d4, a, va, "kvref_dup2_kv"); is(d5, a, va, "kv_create_kref");
        if (kv_dup2(x, d6) != d6) bad("kv_dup2 did not use the buffer given"); is(d6, a, va, "kv_dup2 to a buffer");
        memset(d6, 0xEE, sizeof(struct kv) + n1 + va.size()); kv_refill_kref_v(d6, &ka, va.data(), va.size()); is(d6, a, va, "kv_refill_kref_v");
        uint32_t pl = rnd(n1 + 1); struct kv *d7 = kv_dup2_key_prefix(x, nullptr, pl); is(d7, a.substr(0, pl), "", "kv_dup2_key_prefix");
        struct kv *d8 = kv_dup2_key(x, nullptr); is(d8, a, "", "kv_dup2_key"); memset(d8, 0xEE, sizeof(struct kv) + n1); kv_refill_kref(d8, &ka); is(d8, a, "", "kv_refill_kref");
        memset(d6, 0xEE, sizeof(struct kv) + n1 + va.size()); kv_refill(d6, a.data(), n1, va.data(), va.size()); is(d6, a, va, "kv_refill");
        memset(d6, 0xEE, sizeof(struct kv) + n1 + va.size()); if (kv_dup2_key(x, d6) != d6) bad("kv_dup2_key did not use the buffer given"); is(d6, a, "", "kv_dup2_key to a buffer");
        memset(d6, 0xEE, sizeof(struct kv) + n1 + va.size()); if (kvref_dup2_kv(&rf, d6) != d6) bad("kvref_dup2_kv did not use the buffer given"); is(d6, a, va, "kvref_dup2_kv to a buffer");
        memset(d6, 0xEE, sizeof(struct kv) + n1 + va.size()); if (kv_dup2_key_prefix(x, d6, pl) != d6) bad("kv_dup2_key_prefix did not use the buffer given"); is(d6, a.substr(0, pl), "", "kv_dup2_key_prefix to a buffer");
        { struct kv *q = kvref_dup2_key(&rf, nullptr); if (!q || q->klen != n1 || memcmp(q->kv, a.data(), n1) || q->hash != x->hash) bad("kvref_dup2_key holds another key"); free(q); }
        for (uint64_t al = 1; al <= 256; al *= 2) {
            uint64_t s1 = sizeof(struct kv) + n1 + va.size(), s2 = sizeof(struct kv) + n1;
            if (kv_size_align(x, al) != (s1 + al - 1) / al * al || key_size_align(x, al) != (s2 + al - 1) / al * al) bad("size of the record rounded up to %lu is %zu / %zu", al, kv_size_align(x, al), key_size_align(x, al));
        }
        if (kv_kptr(x) != x->kv || kv_vptr(x) != x->kv + n1) bad("wrong pointers into the record");
        if (kv_crc32c(a.data(), n1) != x->hashlo || kv_crc32c_extend(x->hashlo) != x->hash) bad("the hash functions disagree with the record's hash");
        { uint64_t h = x->hash; x->hash = 0; kv_update_hash(x); if (x->hash != h) bad("kv_update_hash gives another hash"); }
        {   // pass-through and duplicating memory hooks
            struct kv *q = kvmap_mm_in_dup(x, nullptr); is(q, a, va, "kvmap_mm_in_dup"); if (q == x) bad("kvmap_mm_in_dup did not copy"); kvmap_mm_free_noop(q, nullptr); is(q, a, va, "the pair after a free that does nothing"); kvmap_mm_free_free(q, nullptr);
            if (kvmap_mm_in_noop(x, nullptr) != x || kvmap_mm_out_noop(x, nullptr) != x) bad("a pass-through hook copied the pair");
            q = kvmap_mm_out_dup(x, nullptr); is(q, a, va, "kvmap_mm_out_dup"); free(q);
            q = nullptr; kvmap_inp_steal_kv(x, &q); if (q != x) bad("kvmap_inp_steal_kv gave another pair");
        }
        {   // text keys
            string ta, tb; for (char c : a) ta += (char)('a' + (uint8_t)c % 26); for (char c : vb) tb += (char)('A' + (uint8_t)c % 26);
            struct kv *q = kv_create_str(ta.c_str(), va.data(), va.size()); is(q, ta, va, "kv_create_str"); free(q);
            q = kv_create_str_str(ta.c_str(), tb.c_str()); is(q, ta, tb, "kv_create_str_str");
            kv_refill_str(q, ta.substr(ta.size() / 2).c_str(), "", 0); is(q, ta.substr(ta.size() / 2), "", "kv_refill_str");
            kv_refill_str_str(q, ta.substr(ta.size() / 2).c_str(), tb.c_str()); is(q, ta.substr(ta.size() / 2), tb, "kv_refill_str_str"); free(q);
        }
        is(kv_null(), "", "", "kv_null");
        { struct kv *z = mk(b, ""); bool eqh = kv_match_hash(x, z); if (eqh != (c == 0)) bad("kv_match_hash answers %d", eqh); z->hashlo = x->hashlo; z->hash = x->hash; if (kv_match_hash(x, z) != (c == 0)) bad("kv_match_hash takes two keys of equal hash for the same key"); free(z); }
        for (struct kv *q : {d1, d2, d3, d4, d5, d6, d7, d8}) free(q);
        // u64 keys keep the order of the numbers
        uint64_t u = word(), w = chance(1, 4) ? u : chance(1, 2) ? u + rnd(3) - 1 : word(); struct kv *e1 = (struct kv *)malloc(sizeof(struct kv) + 8), *e2 = (struct kv *)malloc(sizeof(struct kv) + 8);
        kv_refill_u64(e1, u, "", 0); kv_refill_u64(e2, w, "", 0);
        string us(8, 0); for (int i = 0; i < 8; i++) us[i] = (char)(u >> (56 - 8 * i)); is(e1, us, "", "kv_refill_u64");
        if (sgn(kv_compare(e1, e2)) != (u > w) - (u < w)) bad("keys of %lu and %lu are out of order", u, w);
        kref_ref_kv(&ka, e1); if (sgn(kref_kv_compare(&ka, e2)) != (u > w) - (u < w)) bad("references to keys of %lu and %lu are out of order", u, w);
        kref_ref_kv(&ka, x);
        free(e1); free(e2);
        struct kv *hx = (struct kv *)malloc(sizeof(struct kv) + 40); char t[20];
        kv_refill_hex32(hx, (uint32_t)u, "v", 1); snprintf(t, 20, "%08x", (uint32_t)u); is(hx, t, "v", "kv_refill_hex32");
        kv_refill_hex64(hx, u, "vw", 2); snprintf(t, 20, "%016lx", u); is(hx, t, "vw", "kv_refill_hex64");
        uint32_t kl = rnd(30); kv_refill_hex64_klen(hx, u, kl, "x", 1); is(hx, string(t) + string(kl > 16 ? kl - 16 : 0, '!'), "x", "kv_refill_hex64_klen");
        kv_refill_value(hx, "abc", 3); is(hx, string(t) + string(kl > 16 ? kl - 16 : 0, '!'), "abc", "kv_refill_value");
        free(hx);
        // compact encoding
        size_t es = kv128_estimate_kv(x), got = 0, dg = 0; uint8_t *buf = (uint8_t *)malloc(es);
        if (kv128_encode_kv(x, buf, &got) != buf || got != es) bad("kv128: estimated %zu bytes, wrote %zu", es, got);
        if (kv128_size(buf) != es) bad("kv128_size answers %zu, the encoding has %zu bytes", kv128_size(buf), es);
        struct kv *back = kv128_decode_kv(buf, nullptr, &dg); if (dg != es) bad("kv128 decoding consumed %zu of %zu bytes", dg, es);
        is(back, a, va, "kv128 round trip"); free(back);
        if (sgn(kv_kv128_compare(y, buf)) != -c || sgn(kref_kv128_compare(&kb, buf)) != -c) bad("comparison with an encoded pair answers %d, byte order is %d", kv_kv128_compare(y, buf), -c);
        if (kv_match_kv128(y, buf) != (c == 0)) bad("kv_match_kv128 answers %d", kv_match_kv128(y, buf));
        free(buf);
        buf = (uint8_t *)malloc(vi128_estimate_u32(n1) + n1); uint8_t *e = vi128_encode_u32(buf, n1); memcpy(e, a.data(), n1);
        if (sgn(kv_k128_compare(y, buf)) != -c || sgn(kref_k128_compare(&kb, buf)) != -c) bad("comparison with an encoded key answers %d, byte order is %d", kv_k128_compare(y, buf), -c);
        free(buf);
        {   // printing
            auto hexs = [](const string &z) { string r; char q[8]; for (uint8_t ch : z) { snprintf(q, 8, " %02x", ch); r += q; } return r; };
            auto decs = [](const string &z) { string r; char q[8]; for (uint8_t ch : z) { snprintf(q, 8, " %03u", ch); r += q; } return r; };
            string ta; for (char c : a) ta += (char)('a' + (uint8_t)c % 26); struct kv *z = mk(ta, va);
            bool txt = va.find('\0') == string::npos;
            string cmd(1, "sxd-"[rnd(4)]); cmd += txt ? "sxd-"[rnd(4)] : "xd-"[rnd(3)]; if (rnd(2)) cmd += 'n';
            char *out = nullptr; size_t on = 0; FILE *f = open_memstream(&out, &on); kv_print(z, cmd.c_str(), f); fclose(f); string got(out, on), want; free(out);
            char h[60]; snprintf(h, 60, "#%016lx k[%3u]", (unsigned long)z->hash, (unsigned)ta.size()); want = h;
            want += cmd[0] == 's' ? " " + ta : cmd[0] == 'x' ? hexs(ta) : cmd[0] == 'd' ? decs(ta) : "";
            snprintf(h, 60, "  v[%4u]", (unsigned)va.size()); if (cmd[1] != '-') want += h;
            want += cmd[1] == 's' ? " " + va : cmd[1] == 'x' ? hexs(va) : cmd[1] == 'd' ? decs(va) : "";
            if (cmd.size() > 2) want += "\n";
            if (got != want) bad("kv_print %s writes <%s>, expected <%s>", cmd.c_str(), got.c_str(), want.c_str());
            free(z);
        }
        free(x); free(y);
        ev["record_pairs"]++; ev[c ? "different_keys" : "equal_keys"]++;
    }
    for (int it = 0; it < 20; it++) {   // sorting
        size_t n = 1 + rnd(chance(1, 3) ? 2000 : 60); vector<struct kv *> v; int kind = rnd(3); size_t ml = 1 + rnd(8);
        for (size_t i = 0; i < n; i++) v.push_back(mk(bytes(rnd(ml), kind), ""));
        vector<struct kv *> s = v, p = v; std::multiset<struct kv *> in(v.begin(), v.end());
        auto less = [](struct kv *a, struct kv *b) { return string((char *)a->kv, a->klen) < string((char *)b->kv, b->klen); };
        std::stable_sort(s.begin(), s.end(), less);
        kv_qsort(v.data(), n);
        size_t lo = rnd(n), hi = lo + rnd(n - lo);
        kv_psort(p.data(), n, lo, hi);
        if (std::multiset<struct kv *>(v.begin(), v.end()) != in || std::multiset<struct kv *>(p.begin(), p.end()) != in) bad("sorting %zu keys lost some", n);
        for (size_t i = 0; i < n; i++) {
            if (kv_compare(v[i], s[i])) bad("kv_qsort: wrong key at %zu of %zu", i, n);
            if (i >= lo && i <= hi && kv_compare(p[i], s[i])) bad("kv_psort: wrong key at %zu of %zu, %zu..%zu were to be sorted", i, n, lo, hi);
        }
        for (auto q : v) free(q);
        ev["sorts"]++;
    }
}

// ---- codecs ----
// the registry of map types: names lead to what was registered under them
struct Fake { string name, arg; int nargs; struct kvmap_api api; char reg[24]; };
static Fake fakes[48]; static int fakes_nr, created_by = -1; static bool refuse; static const struct kvmap_mm *seen_mm;
template <int I> static void *fake_create(const char *name, const struct kvmap_mm *mm, char **args) {
    if (fakes[I].name != name) bad("the maker of %s was asked for a %s", fakes[I].name.c_str(), name);
    created_by = I; seen_mm = mm; fakes[I].arg = fakes[I].nargs ? args[fakes[I].nargs - 1] : ""; return refuse ? nullptr : &fakes[I];
}
typedef void *(*maker)(const char *, const struct kvmap_mm *, char **);
template <int... I> static void fill_makers(maker *m, std::integer_sequence<int, I...>) { ((m[I] = fake_create<I>), ...); }
static void registry() {
    static maker mk[48]; static bool once;
    if (!once) {
        once = true; fill_makers(mk, std::make_integer_sequence<int, 48>());
        for (int i = 0; i < 20; i++) { fakes[i].nargs = i % 4; fakes[i].name = string("fake") + (i % 3 ? "x" : "") + std::to_string(i); kvmap_api_register(fakes[i].nargs, fakes[i].name.c_str(), "...", mk[i], &fakes[i].api); }
    }
    for (int it = 0; it < 10; it++) {
        int i = rnd(20), n = fakes[i].nargs, extra = rnd(3), lack = n ? rnd(3) == 0 : 0; char c0[] = "api", c1[32]; strcpy(c1, fakes[i].name.c_str()); bool known = !chance(1, 6), key = !chance(1, 8);
        if (!known) strcat(c1, "q"); if (!key) c0[2] = 'j'; refuse = chance(1, 8);
        vector<string> args; for (int k = 0; k < n + extra; k++) args.push_back("a" + std::to_string(rnd(1000)));
        vector<char *> argv{c0, c1}; for (auto &x : args) argv.push_back(&x[0]); if (lack) argv.resize(2 + n - 1);
        const struct kvmap_api *api = nullptr; void *map = nullptr; created_by = -1; last_op = string("registry: ") + c1; const struct kvmap_mm *mm = rnd(2) ? &kvmap_mm_dup : nullptr;
        int r = kvmap_api_helper((int)argv.size(), argv.data(), mm, &api, &map);
        if (!known || !key || lack || refuse) { if (r != -1 || map || api) bad("a request that cannot be met answers %d", r); if ((!known || !key || lack) && created_by >= 0) bad("a map was made for a wrong request"); }
        else { if (r != 2 + n || map != &fakes[i] || api != &fakes[i].api || created_by != i || seen_mm != mm) bad("%s leads to %d and consumes %d of %d words", c1, created_by, r, 2 + n); if (n && fakes[i].arg != argv[1 + n]) bad("%s got other arguments", c1); }
        char *none[] = {c0}; if (kvmap_api_helper(1, none, mm, &api, &map) != -1 || kvmap_api_helper(0, none, mm, &api, &map) != -1) bad("a request without a name is met");
        ev["registry_lookups"]++;
    }
}
static void codec() {
    cur_desc = "codecs";
    registry();
    for (int it = 0; it < 3000; it++) {
        op_index++;
        uint64_t x = word(), y = word(); uint32_t u = (uint32_t)(chance(1, 2) ? x : x >> 32);
        char d[60]; snprintf(d, 60, "x=%lx u=%x", x, u); last_op = d;
        uint32_t n = vi128_estimate_u64(x); uint8_t *b = (uint8_t *)malloc(n); uint64_t o = 1; uint32_t o32 = 1;
        if (vi128_encode_u64(b, x) != b + n) bad("vi128 of %lx: estimated %u bytes, wrote %ld", x, n, vi128_encode_u64(b, x) - b);
        if (vi128_decode_u64(b, &o) != b + n || o != x) bad("vi128 of %lx decodes to %lx", x, o);
        if (!b[0]) bad("the encoding of %lx starts with a zero byte", x);
        free(b);
        n = vi128_estimate_u32(u); b = (uint8_t *)malloc(n);
        if (vi128_encode_u32(b, u) != b + n) bad("vi128 of %x: estimated %u bytes, wrote another number", u, n);
        if (vi128_decode_u32(b, &o32) != b + n || o32 != u) bad("vi128 of %x decodes to %x", u, o32);
        if (!b[0]) bad("the encoding of %x starts with a zero byte", u);
        free(b);
        char *s = (char *)malloc(20); char t[40];
        strdec_64(s, x); snprintf(t, 40, "%020lu", x); if (memcmp(s, t, 20)) bad("strdec_64(%lu) = %.20s", x, s);
        s = (char *)realloc(s, 10); strdec_32(s, u); snprintf(t, 40, "%010u", u); if (memcmp(s, t, 10)) bad("strdec_32(%u) = %.10s", u, s);
        s = (char *)realloc(s, 16); strhex_64(s, x); snprintf(t, 40, "%016lx", x); if (memcmp(s, t, 16)) bad("strhex_64(%lx) = %.16s", x, s);
        s = (char *)realloc(s, 8); strhex_32(s, u); snprintf(t, 40, "%08x", u); if (memcmp(s, t, 8)) bad("strhex_32(%x) = %.8s", u, s);
        free(s);
        snprintf(t, 40, "%lu", x); if (a2u64(t) != x) bad("a2u64(%s) = %lu", t, a2u64(t));
        snprintf(t, 40, "%u", u); if (a2u32(t) != u) bad("a2u32(%s) = %u", t, a2u32(t));
        snprintf(t, 40, "%ld", (int64_t)x); if (a2s64(t) != (int64_t)x) bad("a2s64(%s) = %ld", t, a2s64(t));
        snprintf(t, 40, "%d", (int)u); if (a2s32(t) != (int)u) bad("a2s32(%s) = %d", t, a2s32(t));
        uint64_t rv = 0; for (int i = 0; i < 64; i++) rv |= (x >> i & 1) << (63 - i); if (bits_reverse_u64(x) != rv) bad("bits_reverse_u64(%lx)", x);
        uint32_t rw = 0; for (int i = 0; i < 32; i++) rw |= (u >> i & 1) << (31 - i); if (bits_reverse_u32(u) != rw) bad("bits_reverse_u32(%x)", u);
        unsigned k = 1 + rnd(63), k2 = 1 + rnd(31);
        if (bits_rotl_u64(x, k) != (x << k | x >> (64 - k)) || bits_rotr_u64(x, k) != (x >> k | x << (64 - k))) bad("rotation of %lx by %u", x, k);
        if (bits_rotl_u32(u, k2) != (u << k2 | u >> (32 - k2)) || bits_rotr_u32(u, k2) != (u >> k2 | u << (32 - k2))) bad("rotation of %x by %u", u, k2);
        uint64_t up = 1; while (up < x && up) up <<= 1; if (x <= 1ull << 63 && bits_p2_up_u64(x) != (x ? up : 0)) bad("bits_p2_up_u64(%lx) = %lx", x, bits_p2_up_u64(x));
        uint32_t up2 = 1; while (up2 < u && up2) up2 <<= 1; if (u <= 1u << 31 && bits_p2_up_u32(u) != (u ? up2 : 0)) bad("bits_p2_up_u32(%x) = %x", u, bits_p2_up_u32(u));
        uint64_t dn = x ? 1ull << 63 : 0; while (dn > x) dn >>= 1; if (bits_p2_down_u64(x) != dn) bad("bits_p2_down_u64(%lx) = %lx", x, bits_p2_down_u64(x));
        uint32_t dn2 = u ? 1u << 31 : 0; while (dn2 > u) dn2 >>= 1; if (bits_p2_down_u32(u) != dn2) bad("bits_p2_down_u32(%x) = %x", u, bits_p2_down_u32(u));
        uint64_t z = x >> 2; unsigned pw = rnd(60); uint64_t al = 1 + (y >> (2 + rnd(60)));
        uint64_t q = 1ull << pw, ru = z % q ? z - z % q + q : z, rd = z - z % q; if (bits_round_up(z, pw) != ru || bits_round_down(z, pw) != rd) bad("rounding %lx to 2^%u", z, pw);
        ru = z % al ? z - z % al + al : z; rd = z - z % al; if (bits_round_up_a(z, al) != ru || bits_round_down_a(z, al) != rd) bad("rounding %lx to %lx", z, al);
        uint64_t ga = x >> rnd(64), gb = y >> rnd(64), g = gcd64(ga, gb); { uint64_t a = ga, b = gb; while (b) { uint64_t t = a % b; a = b; b = t; } if (g != a) bad("gcd64(%lu, %lu) = %lu, expected %lu", ga, gb, g, a); }
        struct entry13 e = entry13((uint16_t)x, y >> 16); if (e.e1 != (uint16_t)x || e.e3 != y >> 16) bad("entry13"); entry13_update_e3(&e, x >> 16); if (e.e1 != (uint16_t)x || e.e3 != x >> 16) bad("entry13_update_e3");
        string cs = bytes(rnd(chance(1, 10) ? 300 : 24), 0); char *cb = (char *)malloc(cs.size() + 1); memcpy(cb, cs.data(), cs.size());
        if (crc32c_inc((uint8_t *)cb, cs.size(), u) != crc_ref(cs, u)) bad("crc32c of %zu bytes", cs.size());
        size_t cut = rnd(cs.size() + 1); if (crc32c_inc((uint8_t *)cb + cut, cs.size() - cut, crc32c_inc((uint8_t *)cb, cut, u)) != crc_ref(cs, u)) bad("crc32c of %zu bytes in two pieces", cs.size());
        if (cs.size()) { uint32_t tl = 1 + (cs.size() - 1) % 3; if (crc32c_inc_123((uint8_t *)cb, tl, u) != crc_ref(cs.substr(0, tl), u)) bad("crc32c of a tail of %u bytes", tl); }
        if (crc32c_inc_x4((uint8_t *)cb, cs.size() / 4 * 4, u) != crc_ref(cs.substr(0, cs.size() / 4 * 4), u)) bad("crc32c of %zu bytes in words", cs.size() / 4 * 4);
        free(cb);
        { string w((char *)&x, 8); if (crc32c_u8(u, (uint8_t)x) != crc_ref(w.substr(0, 1), u) || crc32c_u16(u, (uint16_t)x) != crc_ref(w.substr(0, 2), u) || crc32c_u32(u, (uint32_t)x) != crc_ref(w.substr(0, 4), u) || crc32c_u64(u, x) != crc_ref(w, u)) bad("crc32c of the word %lx", x); }
        if (e.ptr != (void *)e.v64 || ptr_to_u64(u64_to_ptr(x)) != x) bad("pointer conversion of %lx", x);
        ev["values"]++;
    }
    for (int it = 0; it < 200; it++) {
        op_index++;
        string s; vector<string> want; int n = chance(1, 4) ? 28 + rnd(10) : chance(1, 3) ? 60 + rnd(8) : rnd(100);
        const char *dl = rnd(2) ? " " : ",;";
        for (int i = rnd(2) * rnd(3); i > 0; i--) s += dl[rnd(strlen(dl))];
        for (int i = 0; i < n; i++) { string w = bytes(1 + rnd(6), 2); want.push_back(w); s += w; if (i + 1 < n || rnd(2)) for (int j = 1 + rnd(2) * rnd(3); j > 0; j--) s += dl[rnd(strlen(dl))]; }
        last_op = "strtoks of " + std::to_string(n) + " words";
        char **t = strtoks(s.c_str(), dl); if (!t) bad("strtoks gave nothing");
        for (int i = 0; i < n; i++) if (!t[i] || want[i] != t[i]) bad("strtoks: word %d of %d is %s, expected %s", i, n, t[i] ? t[i] : "missing", want[i].c_str());
        if (t[n]) bad("strtoks gave more than %d words", n);
        free(t); ev["token_lists"]++;
    }
    for (int it = 0; it < 20; it++) {       // dumps
        string z = bytes(rnd(chance(1, 4) ? 600 : 20), rnd(3)), want; bool hx = rnd(2); char q[8], *out = nullptr; size_t on = 0; last_op = "dump of " + std::to_string(z.size()) + " bytes";
        for (uint8_t ch : z) { snprintf(q, 8, hx ? " %02x" : " %03u", ch); want += q; }
        FILE *f = open_memstream(&out, &on); if (hx) str_print_hex(f, z.data(), z.size()); else str_print_dec(f, z.data(), z.size()); fclose(f);
        if (string(out, on) != want) bad("a dump of %zu bytes is wrong", z.size());
        free(out); ev["dumps"]++;
    }
    for (int it = 0; it < 3; it++) {        // pages
        uint64_t got = 0, k = 1 + rnd(3); int how = rnd(4); size_t want = how == 0 ? k << 12 : how == 1 ? k << 21 : chance(1, 4) ? (1 << 19) + rnd(2 << 20) : 1 + rnd(600000);
        last_op = "pages for " + std::to_string(want) + " bytes";
        char *pg = (char *)(how == 0 ? pages_alloc_4kb(k) : how == 1 ? pages_alloc_2mb(k) : pages_alloc_best(want, rnd(2), &got));
        if (!pg) { if (how == 1) continue; bad("no pages for %zu bytes", want); }     // 2 MB pages may not be there
        if (how < 2) got = want; if (got < want) bad("%lu bytes of pages for %zu bytes", got, want);
        if ((uintptr_t)pg & 4095) bad("pages are not aligned");
        for (size_t i = 0; i < got; i += 8) if (*(uint64_t *)(pg + i)) bad("fresh pages are not clear");
        memset(pg, 0x5a, got); pages_unmap(pg, got); ev["page_blocks"]++;
    }
    uint64_t sd = R(); srandom_u64(sd); vector<uint64_t> a; for (int i = 0; i < 50; i++) a.push_back(random_u64());
    std::thread([&] { srandom_u64(sd + 1); for (int i = 0; i < 50; i++) { double f = random_double(); if (!(f >= 0 && f <= 1)) bad("random_double gave %f", f); } }).join();
    vector<uint64_t> more; for (int i = 0; i < 50; i++) more.push_back(random_u64());
    srandom_u64(sd); for (auto x : a) if (random_u64() != x) bad("the same seed gave another sequence");
    for (auto x : more) if (random_u64() != x) bad("another thread's numbers changed this one's sequence");
    if (std::set<uint64_t>(a.begin(), a.end()).size() < 40) bad("the generator repeats itself at once");
    ev["random_sequences"]++;
}

// ---- slab ----
static void slab() {
    uint64_t osz = 8 * (1 + rnd(chance(1, 4) ? 400 : 40)), bsz = 4096ull << rnd(6);
    if (chance(1, 20)) { if (slab_create(osz + 1 + rnd(7), bsz)) bad("a slab of unaligned objects was created"); if (slab_create(osz, bsz + 8)) bad("a slab with an odd block size was created"); if (slab_create(0, bsz)) bad("a slab of empty objects was created"); if (slab_create(8192, 4096)) bad("a slab of objects larger than its blocks was created"); }
    struct slab *s = slab_create(osz, bsz);
    if (!s) { if (osz + 64 <= bsz && 2 * osz <= bsz) bad("no slab for objects of %lu and blocks of %lu bytes", osz, bsz); cur_desc = "slab too large"; ev["refused"]++; return; }
    int threads = chance(1, 2) ? 0 : 2 + rnd(5);
    char d[100]; snprintf(d, 100, "slab object=%lu block=%lu threads=%d", osz, bsz, threads); cur_desc = d;
    auto fill = [&](void *p, uint64_t id) { for (uint64_t i = 0; i < osz / 8; i++) ((uint64_t *)p)[i] = id + i; };
    auto check = [&](void *p, uint64_t id) { for (uint64_t i = 0; i < osz / 8; i++) if (((uint64_t *)p)[i] != id + i) bad("an object in use was changed"); };
    std::atomic<uint64_t> total{0};
    auto work = [&](int t, uint64_t seed, bool safe, int ops) {
        std::map<char *, uint64_t> live; vector<char *> order; uint64_t id = (uint64_t)(t + 1) << 40; int p = 50;
        std::mt19937_64 r(seed);
        for (int i = 0; i < ops; i++) {
            if (r() % 200 == 0) p = r() % 101;
            if (live.size() < 3000 && (int)(r() % 100) < p) {
                char *o = (char *)(safe ? slab_alloc_safe(s) : slab_alloc_unsafe(s));
                if (!o || (uintptr_t)o % 8) bad("the slab gave %p", (void *)o);
                auto it = live.upper_bound(o); if (it != live.end() && it->first < o + osz) bad("two objects in use overlap"); if (it != live.begin() && std::prev(it)->first + osz > o) bad("two objects in use overlap");
                fill(o, id); live[o] = id; order.push_back(o); id += 1 << 20;
                total++;
            } else if (order.size()) {
                size_t q = r() % order.size(); char *o = order[q]; order[q] = order.back(); order.pop_back();
                check(o, live[o]); live.erase(o);
                if (safe) slab_free_safe(s, o); else slab_free_unsafe(s, o);
            }
            if (!safe && r() % 300 == 0 && slab_get_nalloc(s) != live.size()) bad("the slab counts %lu objects in use, %zu are", slab_get_nalloc(s), live.size());
            if (!safe && r() % 300 == 0 && !slab_reserve_unsafe(s, r() % 500)) bad("reserve failed");
            if (!safe && r() % 4000 == 0) { for (auto &l : live) check(l.first, l.second); slab_free_all(s); live.clear(); order.clear(); if (slab_get_nalloc(s)) bad("a cleared slab counts objects in use"); }
        }
        for (auto &l : live) check(l.first, l.second);
        return live;
    };
    if (!threads) { auto l = work(0, R(), false, 6000); if (slab_get_nalloc(s) != l.size()) bad("the slab counts %lu objects in use, %zu are", slab_get_nalloc(s), l.size()); }
    else {
        vector<std::thread> ts; vector<std::map<char *, uint64_t>> out(threads); vector<uint64_t> seeds; for (int t = 0; t < threads; t++) seeds.push_back(R());
        std::atomic<int> gate{0};
        for (int t = 0; t < threads; t++) ts.emplace_back([&, t] { gate++; while (gate < threads); out[t] = work(t, seeds[t], true, 4000); });
        for (auto &t : ts) t.join();
        std::map<char *, uint64_t> all; size_t n = 0; for (auto &o : out) { n += o.size(); for (auto &p : o) { if (!all.insert(p).second) bad("one object is in use by two threads"); } }
        char *last = nullptr; for (auto &p : all) { if (last && last + osz > p.first) bad("two objects in use overlap"); last = p.first; check(p.first, p.second); }
        if (slab_get_nalloc(s) != n) bad("the slab counts %lu objects in use, %zu are", slab_get_nalloc(s), n);
        ev["threads"] = threads;
    }
    ev["allocations"] += total;
    slab_destroy(s);
}

int main(int, char **v) {
    reset_signals();
    string mode = v[1]; uint64_t a = strtoull(v[2], 0, 10), b = strtoull(v[3], 0, 10);
    for (uint64_t s = a; s < b; s++) {
        begin_case(mode, s);
        if (mode == "bits") bits(); else if (mode == "kv") kvs(); else if (mode == "codec") codec(); else slab();
        char d[40]; snprintf(d, 40, " inputs=%08x", (uint32_t)R()); cur_desc += d;    // the generator's state after all the draws of the case
        end_case();
    }
    puts("DONE");
}
