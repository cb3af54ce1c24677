// ---- C05: consistency of the answers of one filter (monotone ranges, point = degenerate range) --------
template <bool I> static string any_key(Run<I> &r) {
    if (chance(1, 3) || r.m.empty()) return r.g.get();
    string k = r.existing();
    return chance(1, 4) ? k : r.g.near(k);
}
template <bool I> static void consistency(Run<I> &r, int n) {
    for (int i = 0; i < n; i++) {
        string q = any_key(r);
        bool p = r.f.pq(q);
        ev[p ? "pos_points" : "neg_points"]++;
        if (p != r.f.rq(q, q)) bad("point query of %s answers %d, range query of the same single key %d", hex(q).c_str(), p, !p);
        string l = any_key(r), h = any_key(r);
        if (l > h) std::swap(l, h);
        if (p) {
            string a = std::min(l, q), b = std::max(h, q);
            if (!r.f.rq(a, b)) bad("point %s answers yes, range [%s,%s] around it no", hex(q).c_str(), hex(a).c_str(), hex(b).c_str());
            a = r.lower_of(q), b = r.upper_of(q);
            if (!r.f.rq(a, b)) bad("point %s answers yes, range [%s,%s] around it no", hex(q).c_str(), hex(a).c_str(), hex(b).c_str());
            ev["monotone_checks"] += 2;
        }
        l = r.lower_of(q), h = r.upper_of(q);
        bool x = r.f.rq(l, h);
        ev[x ? "pos_ranges" : "neg_ranges"]++;
        if (x) {
            string a = r.lower_of(l), b = r.upper_of(h);
            if (!r.f.rq(a, b)) bad("range [%s,%s] answers yes, the wider range [%s,%s] no", hex(l).c_str(), hex(h).c_str(), hex(a).c_str(), hex(b).c_str());
            ev["monotone_checks"]++;
        }
    }
}
template <bool I> static void m_mono(Opt o) {
    o.pt = o.rg = false;
    Run<I> r;
    r.o = o;
    r.g.init(I);
    r.setup();
    for (int ph = 0; ph < 4; ph++) {
        consistency(r, 400);
        op_index = 0;
        r.history(rnd(chance(1, 2) ? 100 : 1500));
    }
    consistency(r, 800);
}

// ---- integer filter against general filter on the same 8-byte keys ------------------------------------
static void same_answers(Flt<true> &a, Flt<false> &b, Run<true> &r, int n) {
    for (int i = 0; i < n; i++) {
        string q = any_key(r), l = r.lower_of(q), h = r.upper_of(q);
        ev["compared_answers"] += 2;
        bool x = a.pq(q), y = b.pq(q);
        ev[x ? "pos_answers" : "neg_answers"]++;
        if (x != y) bad("point %s: integer filter %d, general filter %d", hex(q).c_str(), x, y);
        x = a.rq(l, h), y = b.rq(l, h);
        ev[x ? "pos_answers" : "neg_answers"]++;
        if (x != y) bad("range [%s,%s]: integer filter %d, general filter %d", hex(l).c_str(), hex(h).c_str(), x, y);
    }
}
static void m_diff() {
    Run<true> r;
    r.o = opt_of(false, false);
    r.g.init(true);
    r.f.infix = 1 + rnd(chance(1, 2) ? 40 : 14);
    r.seed32 = (uint32_t)R();
    size_t n = r.pick_n();
    int kind = chance(1, 3), kind2 = chance(1, 3);
    r.load(n, kind);
    Run<false> t;
    t.o.fixed = 8; t.f.infix = r.f.infix; t.seed32 = r.seed32; t.m = r.m;
    t.load_model(kind2);
    char b[200]; snprintf(b, 200, "dist=%d infix=%u n=%zu load=%d/%d", r.g.dist, r.f.infix, r.bulk.size(), kind, kind2); cur_desc = b;
    same_answers(r.f, t.f, r, 300);
    int ops = chance(1, 2) ? rnd(400) : rnd(4000), pdel = rnd(70), psplit = rnd(100);
    while ((int)op_index < ops) {
        op_index++;
        if ((int)rnd(100) < pdel && r.m.size() > 2) {
            string k = chance(1, 20) ? r.bulk[rnd(r.bulk.size() / 1024 + 1) * 1024 % r.bulk.size()] : r.existing();
            if (!r.m.count(k)) continue;
            r.m.erase(k); last_op = "delete " + hex(k); ev["deletes"]++;
            r.f.del(k); t.f.del(k);
        } else {
            string k = chance(1, 3) ? r.g.near(r.existing()) : r.g.get();
            if (!r.m.insert(k).second) continue;
            last_op = "insert " + hex(k);
            if ((int)rnd(1000) < psplit) { ev["inserts_forced_split"]++; DivaTests::split<true>(*r.f.d, k); DivaTests::split<false>(*t.f.d, k); }
            else { ev["inserts"]++; r.f.ins(k); t.f.ins(k); }
        }
        if (chance(1, 1500) && r.f.infix > 2) { r.f.infix--; t.f.infix--; r.f.d->ShrinkInfixSize(r.f.infix); t.f.d->ShrinkInfixSize(r.f.infix); ev["shrinks"]++; }
        if (chance(1, 40)) same_answers(r.f, t.f, r, 8);
    }
    last_op = "end";
    same_answers(r.f, t.f, r, 600);
    for (auto &k : r.m) if (!r.f.pq(k) || !t.f.pq(k)) bad("stored key %s: integer filter %d, general filter %d", hex(k).c_str(), r.f.pq(k), t.f.pq(k));
    string x = r.f.bytes(), y = t.f.bytes();
    ev["byte_equal"] += x.substr(1) == y.substr(1);
    ev["byte_diff"] += x.substr(1) != y.substr(1);
}

// ---- determinism and purity: the same history gives the same bytes, queries change nothing -------------
template <bool I> static void m_det(Opt o) {
    o.pt = o.rg = false;
    std::mt19937_64 saved = R;
    string out[2];
    size_t marks = 0;
    vector<string> trace[2];
    for (int pass = 0; pass < 2; pass++) {
        R = saved;
        op_index = 0;
        Run<I> r;
        r.o = o;
        r.g.init(I);
        r.setup();
        int ph = 1 + rnd(4);
        for (int i = 0; i < ph; i++) {
            op_index = 0;
            r.history(rnd(chance(1, 2) ? 100 : 1500));
            if (pass == 1) {        // queries, sizes and serializations only in the second run
                std::mt19937_64 s2 = R;
                auto e2 = ev;
                Gen g2 = r.g;
                string before = r.f.bytes();
                consistency(r, 200);
                r.f.d->Size();
                string after = r.f.bytes();
                if (before != after) bad("answering queries changed the serialized filter");
                R = s2;
                ev = e2;
                r.g = g2;
                ev["purity_checks"] += 200;
            }
            trace[pass].push_back(r.f.bytes());
        }
    }
    ev["history_comparisons"] += trace[0].size();
    if (trace[0].size() != trace[1].size()) bad("harness: phases differ");
    for (size_t i = 0; i < trace[0].size(); i++)
        if (trace[0][i] != trace[1][i]) bad("the same history and seed gave different filters (phase %zu)", i);
}

// ---- overloads -----------------------------------------------------------------------------------------
template <bool I> static void m_api() {
    // a: uint64_t overloads, b: string_view, c: pointer and length
    Run<I> r;
    r.o.fixed = I ? 0 : 8;
    r.g.init(true);
    r.f.infix = 1 + rnd(24); r.seed32 = (uint32_t)R();
    int kind = chance(1, 2);
    r.load(r.pick_n(), 0);
    vector<string> ks = r.bulk;
    auto P = [](const string &s) { return (const uint8_t *)s.data(); };
    Diva<I> a(r.f.infix, r.seed32, 0.95f), b(r.f.infix, r.seed32, 0.95f), c(r.f.infix, r.seed32, 0.95f);
    for (auto &k : ks) { a.BulkLoadStreaming(le(k)); b.BulkLoadStreaming(string_view(k)); c.BulkLoadStreaming(P(k), 8); }
    a.BulkLoadStreamingFinish(); b.BulkLoadStreamingFinish(); c.BulkLoadStreamingFinish();
    char d[200]; snprintf(d, 200, "int=%d dist=%d infix=%u n=%zu", I, r.g.dist, r.f.infix, ks.size()); cur_desc = d;
    auto ser = [](Diva<I> &x) { string s(x.Size() + 64, 0); s.resize(x.Serialize(&s[0])); return s; };
    auto same = [&]() {
        string x = ser(a), y = ser(b), z = ser(c);
        ev["filters_compared"]++;
        if (x != y) bad("the integer and the string_view overloads built different filters");
        if (x != z) bad("the integer and the pointer overloads built different filters");
    };
    same();
    if (ser(a) != ser(*r.f.d)) bad("streaming and constructor built different filters from the same 8-byte keys");
    int ops = rnd(3000), pdel = rnd(60);
    for (int i = 0; i < ops; i++) {
        op_index = i;
        if ((int)rnd(100) < pdel && r.m.size() > 2) {
            string k = r.existing(); r.m.erase(k); ev["deletes"]++; last_op = "delete " + hex(k);
            a.Delete(le(k)); b.Delete(string_view(k)); c.Delete(P(k), 8);
        } else {
            string k = chance(1, 3) ? r.g.near(r.existing()) : r.g.get(); if (!r.m.insert(k).second) continue;
            ev["inserts"]++; last_op = "insert " + hex(k);
            a.Insert(le(k)); b.Insert(string_view(k)); c.Insert(P(k), 8);
        }
        if (chance(1, 5)) {
            string q = any_key(r), l = q, h = r.g.near(q);
            if (chance(1, 4)) h = any_key(r);
            if (l > h) std::swap(l, h);
            bool x = a.PointQuery(le(q)), y = b.PointQuery(string_view(q)), z = c.PointQuery(P(q), 8);
            if (x != y || x != z) bad("point %s: %d %d %d through the three overloads", hex(q).c_str(), x, y, z);
            x = a.RangeQuery(le(l), le(h)), y = b.RangeQuery(string_view(l), string_view(h)), z = c.RangeQuery(P(l), 8, P(h), 8);
            if (x != y || x != z) bad("range [%s,%s]: %d %d %d through the three overloads", hex(l).c_str(), hex(h).c_str(), x, y, z);
            ev["compared_answers"] += 6;
        }
        if (chance(1, 800)) same();
    }
    same();
}


// keys of any length through the string_view and the pointer overloads
static void m_api_str() {
    Run<false> r; r.g.init(false);
    r.f.infix = 1 + rnd(24); r.seed32 = (uint32_t)R();
    r.load(r.pick_n(), 0);
    vector<string> ks = r.bulk;
    auto P = [](const string &s) { return (const uint8_t *)s.data(); };
    Diva<false> b(r.f.infix, r.seed32, 0.95f), c(r.f.infix, r.seed32, 0.95f);
    for (auto &k : ks) { b.BulkLoadStreaming(string_view(k)); c.BulkLoadStreaming(P(k), (uint32_t)k.size()); }
    b.BulkLoadStreamingFinish(); c.BulkLoadStreamingFinish();
    char d[200]; snprintf(d, 200, "strings dist=%d infix=%u n=%zu", r.g.dist, r.f.infix, ks.size()); cur_desc = d;
    auto ser = [](Diva<false> &x) { string s(x.Size() + 64, 0); s.resize(x.Serialize(&s[0])); return s; };
    auto same = [&]() { ev["filters_compared"]++; if (ser(b) != ser(c)) bad("the string_view and the pointer overloads built different filters"); };
    same();
    int ops = rnd(3000), pdel = rnd(60);
    for (int i = 0; i < ops; i++) {
        op_index = i;
        if ((int)rnd(100) < pdel && r.m.size() > 2) {
            string k = r.existing(); r.m.erase(k); ev["deletes"]++; last_op = "delete " + hex(k);
            b.Delete(string_view(k)); c.Delete(P(k), (uint32_t)k.size());
        } else {
            string k = chance(1, 3) ? r.g.near(r.existing()) : r.g.get(); if (!r.m.insert(k).second) continue;
            ev["inserts"]++; last_op = "insert " + hex(k);
            b.Insert(string_view(k)); c.Insert(P(k), (uint32_t)k.size());
        }
        if (chance(1, 5)) {
            string q = any_key(r), l = q, h = chance(1, 4) ? any_key(r) : r.g.near(q);
            if (l > h) std::swap(l, h);
            bool y = b.PointQuery(string_view(q)), z = c.PointQuery(P(q), (uint32_t)q.size());
            if (y != z) bad("point %s: %d %d through the two overloads", hex(q).c_str(), y, z);
            y = b.RangeQuery(string_view(l), string_view(h)), z = c.RangeQuery(P(l), (uint32_t)l.size(), P(h), (uint32_t)h.size());
            if (y != z) bad("range [%s,%s]: %d %d through the two overloads", hex(l).c_str(), hex(h).c_str(), y, z);
            ev["compared_answers"] += 4;
        }
        if (chance(1, 800)) same();
    }
    same();
}

// ---- probes: a fixed list of queries whose answers can be compared across filter states ----------------
struct Probe { string l, h; bool point; };
template <bool I> static vector<Probe> make_probes(Run<I> &r, int n) {
    vector<Probe> v;
    for (int i = 0; i < n; i++) {
        string q = any_key(r);
        if (chance(1, 2)) v.push_back({q, q, true});
        else v.push_back({r.lower_of(q), r.upper_of(q), false});
    }
    return v;
}
template <bool I> static bool ask(const Flt<I> &f, const Probe &p) { return p.point ? f.pq(p.l) : f.rq(p.l, p.h); }

// ---- shrinking the fingerprints ------------------------------------------------------------------------
template <bool I> static void m_shrink(Opt o) {
    o.pt = o.rg = true; o.shrink = o.ser = false; o.min_infix = 2; o.max_n = 4000;
    Run<I> r;
    r.o = o;
    r.g.init(I);
    r.ends = I && chance(1, 5);
    r.setup();
    r.history(rnd(chance(1, 2) ? 100 : 2000));
    while (r.f.infix > 1) {
        uint32_t ni = chance(1, 3) ? 1 + rnd(r.f.infix) : chance(1, 4) ? r.f.infix : r.f.infix - 1;
        auto pr = make_probes(r, 500);
        vector<bool> before;
        for (auto &p : pr) before.push_back(ask(r.f, p));
        uint32_t size = r.f.d->Size();
        uint64_t k0, e0, k1, e1;
        DivaTests::tree<I>(*r.f.d, k0, e0);
        last_op = "shrink " + std::to_string(r.f.infix) + "->" + std::to_string(ni);
        r.f.d->ShrinkInfixSize(ni);
        ev["shrinks"]++;
        uint32_t old = r.f.infix;
        r.f.infix = ni;
        r.check_all();
        for (size_t i = 0; i < pr.size(); i++) {
            bool x = ask(r.f, pr[i]);
            ev[x ? (before[i] ? "yes_yes" : "no_yes") : (before[i] ? "yes_no" : "no_no")]++;
            if (before[i] && !x) bad("%s [%s,%s] answered yes before shrinking and no after", pr[i].point ? "point" : "range", hex(pr[i].l).c_str(), hex(pr[i].h).c_str());
            if (!before[i] && x && ni == old) bad("shrinking to the same size changed an answer");
        }
        if (r.f.d->Size() > size) bad("shrinking the fingerprints grew the filter from %u to %u bytes", size, r.f.d->Size());
        DivaTests::tree<I>(*r.f.d, k1, e1);
        if (e1 != e0 || k1 != k0) bad("shrinking changed the number of stored keys from %lu+%lu to %lu+%lu", k0, e0, k1, e1);
        if (ni == old && chance(1, 2)) continue;
        op_index = 0;
        r.history(rnd(chance(1, 2) ? 50 : 600));
        if (chance(1, 3)) break;
    }
}

// ---- serialization ---------------------------------------------------------------------------------------
template <bool I> static void m_ser(Opt o) {
    o.pt = o.rg = true; o.ser = false; o.max_n = 4000;
    Run<I> r;
    r.o = o;
    r.g.init(I);
    r.setup();
    int ph = 1 + rnd(4);
    for (int i = 0; i < ph; i++) {
        op_index = 0;
        if (i || chance(3, 4)) r.history(rnd(chance(1, 2) ? 100 : 2500));
        last_op = "serialize";
        uint32_t size = r.f.d->Size();
        size_t off = rnd(9), slack = 32;
        // exact-size heap buffer: the sanitizer build sees a write past it; canaries see it in the plain build
        vector<char> buf(off + size + slack, (char)0x5C);
        uint32_t n = r.f.d->Serialize(buf.data() + off);
        if (n != size) bad("Serialize wrote %u bytes, Size() announced %u", n, size);
        for (size_t j = 0; j < slack; j++) if (buf[off + size + j] != 0x5C) bad("Serialize wrote past Size() bytes");
        for (size_t j = 0; j < off; j++) if (buf[j] != 0x5C) bad("Serialize wrote before the buffer");
        { std::unique_ptr<char[]> ex(new char[size]); r.f.d->Serialize(ex.get()); if (memcmp(ex.get(), buf.data() + off, size)) bad("two serializations differ"); }
        auto pr = make_probes(r, 600);
        Flt<I> f2;
        f2.infix = r.f.infix;
        {
            std::unique_ptr<char[]> ex(new char[size + off]);
            memcpy(ex.get() + off, buf.data() + off, size);
            f2.d.reset(new Diva<I>(ex.get() + off));
            if (memcmp(ex.get() + off, buf.data() + off, size)) bad("reading a filter back changed its buffer");
            memset(ex.get(), 0xEE, size + off);
        }
        for (auto &p : pr) {
            bool x = ask(r.f, p), y = ask(f2, p);
            ev[x ? "yes_compared" : "no_compared"]++;
            if (x != y) bad("%s [%s,%s]: %d before and %d after the round trip", p.point ? "point" : "range", hex(p.l).c_str(), hex(p.h).c_str(), x, y);
        }
        if (f2.d->Size() != size) bad("size %u before and %u after the round trip", size, f2.d->Size());
        if (f2.bytes() != string(buf.data() + off, size)) bad("serializing a filter that was read back gives other bytes");
        ev["roundtrips"]++;
        if (chance(1, 3)) {     // the original lives on after the copy was changed and dropped
            Run<I> r2;
            r2.o = r.o; r2.g = r.g; r2.m = r.m; r2.bulk = r.bulk; r2.f.d = std::move(f2.d); r2.f.infix = r.f.infix;
            op_index = 0;
            r2.history(rnd(300));
            r.check_all();
        } else r.f.d = std::move(f2.d);      // the copy takes over
    }
    op_index = 0;
    r.history(rnd(600));
}

// ---- bulk loading: every input size, every way to load -----------------------------------------------------
static size_t load_size(uint64_t i) {
    switch (i % 4) {
        case 0: return 1 + (i / 4) % 70;
        case 1: return 1024 * (1 + (i / 4) % 6) - 4 + (i / 24) % 9;
        case 2: return 1 + rnd(7000);
        default: return 1 + rnd(2200);
    }
}
template <bool I, class It> static void load_with(Run<I> &r, It b, It e, uint32_t kl, const char *what) {
    if constexpr (!I && std::is_constructible_v<string_view, decltype(*b)>) r.f.d.reset(new Diva<I>(r.f.infix, b, e, r.seed32, 0.95f));
    else r.f.d.reset(new Diva<I>(r.f.infix, b, e, kl, r.seed32, 0.95f));
    ev[what]++;
}
template <bool I> static void m_load() {
    Run<I> r;
    r.o.pt = r.o.rg = true;
    r.o.fixed = I ? 0 : chance(1, 3) ? (chance(1, 2) ? 8 : 16) : 0;
    r.g.fixed = r.o.fixed;
    r.g.init(I);
    r.f.infix = 1 + rnd(chance(1, 2) ? 40 : 12);
    r.seed32 = (uint32_t)R();
    size_t n = load_size(cur_seed);
    bool extremes = chance(1, 6);
    r.load(n, 0);
    if (I && extremes) { r.m.insert(be(0)); if (chance(1, 2)) r.m.insert(be(~0ull)); while (r.m.size() > n) r.m.erase(std::next(r.m.begin())); }
    r.bulk.assign(r.m.begin(), r.m.end());
    char b[200]; snprintf(b, 200, "int=%d dist=%d infix=%u n=%zu fixed=%zu extremes=%d", I, r.g.dist, r.f.infix, r.bulk.size(), r.o.fixed, I && extremes); cur_desc = b;
    vector<Probe> pr = make_probes(r, 300);
    vector<bool> ref;
    bool have = false;
    auto done = [&](const char *what) {
        last_op = what;
        ev["loads"]++;
        for (auto &k : r.m) {
            r.must_point(k);
            r.must_range(k, k, k);
            r.must_range(r.lower_of(k), r.upper_of(k), k);
        }
        uint64_t kk, ee;
        DivaTests::tree<I>(*r.f.d, kk, ee);
        ev["max_boundaries"] = std::max(ev["max_boundaries"], kk);
        vector<bool> a;
        for (auto &p : pr) a.push_back(ask(r.f, p));
        if (have) for (size_t i = 0; i < pr.size(); i++) {
            ev["compared_answers"]++;
            if (a[i] != ref[i]) bad("%s [%s,%s] answered %d by the first and %d by this way of loading", pr[i].point ? "point" : "range", hex(pr[i].l).c_str(), hex(pr[i].h).c_str(), (int)ref[i], (int)a[i]);
        }
        ref = a; have = true;
    };
    if constexpr (I) {
        vector<uint64_t> v; for (auto &s : r.bulk) v.push_back(le(s));
        load_with<I>(r, v.begin(), v.end(), 8, "from_vector"); done("vector");
        load_with<I>(r, (const uint64_t *)v.data(), (const uint64_t *)v.data() + v.size(), 8, "from_pointer"); done("pointer");
        std::set<uint64_t> st(v.begin(), v.end());
        load_with<I>(r, st.begin(), st.end(), 8, "from_set"); done("set");
    } else if (r.o.fixed == 8) {
        vector<uint64_t> v(r.bulk.size()); for (size_t i = 0; i < v.size(); i++) memcpy(&v[i], r.bulk[i].data(), 8);
        load_with<I>(r, v.begin(), v.end(), 8, "from_vector"); done("vector");
        std::list<uint64_t> li(v.begin(), v.end());
        load_with<I>(r, li.begin(), li.end(), 8, "from_list"); done("list");
    } else if (r.o.fixed == 16) {
        vector<std::array<char, 16>> v(r.bulk.size()); for (size_t i = 0; i < v.size(); i++) memcpy(&v[i], r.bulk[i].data(), 16);
        load_with<I>(r, v.begin(), v.end(), 16, "from_vector"); done("vector");
    } else {
        load_with<I>(r, r.bulk.begin(), r.bulk.end(), 0, "from_vector"); done("vector");
        load_with<I>(r, r.m.begin(), r.m.end(), 0, "from_set"); done("set");
        vector<string_view> sv(r.bulk.begin(), r.bulk.end());
        load_with<I>(r, sv.begin(), sv.end(), 0, "from_views"); done("views");
    }
    // streaming; the caller's buffer is overwritten after every call
    r.f.d.reset(new Diva<I>(r.f.infix, r.seed32, 0.95f));
    for (auto &k : r.bulk) {
        if (I) r.f.d->BulkLoadStreaming(le(k));
        else { string tmp = k; r.f.d->BulkLoadStreaming(string_view(tmp)); memset(&tmp[0], 0x77, tmp.size()); }
    }
    r.f.d->BulkLoadStreamingFinish();
    ev["from_stream"]++;
    if (!I && !r.o.fixed) have = false;     // the general constructor has a shorter smallest boundary
    done("stream");
    size_t ml = 0; for (auto &k : r.bulk) ml = std::max(ml, k.size());
    if (!I && !r.o.fixed) r.g.upper = string(ml, (char)255);
    r.ends = I && extremes;
    if (r.m.size() > 2) { r.bulk.assign(r.m.begin(), r.m.end()); r.o.splits = true; r.history(rnd(200)); }     // and it works on
}


// ---- deletion: nothing else is lost, and what was deleted is forgotten -----------------------------------
template <bool I> static void m_del(Opt o) {
    o.pt = o.rg = true; o.dels = true; o.ser = false; o.max_n = 4000;
    Run<I> r;
    r.o = o;
    r.g.init(I);
    r.ends = I && chance(1, 5);
    r.setup();
    r.history(rnd(chance(1, 2) ? 100 : 1500));
    vector<string> all(r.m.begin(), r.m.end());
    switch (rnd(4)) {
        case 0: break;
        case 1: std::reverse(all.begin(), all.end()); break;
        case 2: std::shuffle(all.begin(), all.end(), R); break;
        default: std::rotate(all.begin(), all.begin() + rnd(all.size()), all.end());
    }
    for (auto &k : all) { r.op_delete(k); if (chance(1, 3000)) r.check_all(); }
    ev["drained"]++;
}
// load, then delete only: every deletion gives its entry back, an emptied filter answers no to everything
template <bool I> static void m_forget(Opt o) {
    o.pt = o.rg = true;
    Run<I> r;
    r.o = o;
    r.g.init(I);
    r.ends = I && chance(1, 5);
    r.setup();
    vector<string> all(r.m.begin(), r.m.end());
    switch (rnd(5)) {
        case 0: break;
        case 1: std::reverse(all.begin(), all.end()); break;
        case 2: case 3: std::shuffle(all.begin(), all.end(), R); break;
        default: std::rotate(all.begin(), all.begin() + rnd(all.size()), all.end());
    }
    auto count = [&] {
        uint64_t kk, ee;
        DivaTests::tree<I>(*r.f.d, kk, ee);
        ev["count_checks"]++;
        if (kk + ee != r.m.size() + 2 - r.ends_stored()) bad("%zu keys are stored, the filter holds %lu boundary keys and %lu fingerprints", r.m.size(), kk, ee);
    };
    count();
    for (auto &k : all) {
        r.op_delete(k);
        op_index++;
        if (chance(1, 200)) count();
        if (chance(1, 3000)) r.check_all();
        if (o.shrink && chance(1, 1500)) r.op_shrink();
        if (o.ser && chance(1, 1500)) r.op_serialize();
    }
    count();
    ev["emptied"]++;
    string lo, hi;
    for (auto &k : all) {
        if (r.is_end(k)) continue;      // these two answer yes for good
        if (lo.empty()) lo = hi = k;
        if (r.f.pq(k)) bad("the emptied filter still answers yes for deleted key %s", hex(k).c_str());
        lo = std::min(lo, k); hi = std::max(hi, k);
        ev["forgotten_keys"]++;
    }
    if (lo.size() && r.f.rq(lo, hi)) bad("the emptied filter still answers yes for the range of all deleted keys");
    for (int i = 0; i < 500; i++) {
        string a = r.g.get(), b = r.g.get();
        if (r.f.pq(a) || r.f.rq(std::min(a, b), std::max(a, b))) bad("the emptied filter answers yes for %s or [%s,%s]", hex(a).c_str(), hex(std::min(a, b)).c_str(), hex(std::max(a, b)).c_str());
        ev["no_answers"] += 2;
    }
    // and it can be filled again
    for (auto &k : all) { if (chance(1, 3)) r.op_insert(k, false); }
    for (int i = 0; i < 100; i++) r.op_insert(r.g.get(), false);
    r.check_all();
}
// ---- false positives and space --------------------------------------------------------------------------
template <bool I> static void m_fpr(bool measure) {
    Run<I> r;
    r.o.pt = r.o.rg = false;
    r.g.init(I, 0);
    if (!I) r.g.dist = 5, r.g.fixed = r.o.fixed = 8;
    r.f.infix = 4 + rnd(13);
    r.seed32 = (uint32_t)R();
    size_t n = 20000 + rnd(30000);
    r.load(n, chance(1, 4));
    int grow = rnd(3);
    if (grow) for (size_t t = n / (grow == 1 ? 2 : 1); t > 0; t--) { string k = r.g.get(); if (r.m.insert(k).second) { r.f.ins(k); ev["inserts"]++; } }
    if (chance(1, 2)) { size_t t = r.m.size() * (1 + rnd(19)) / 20; while (t--) { string k = r.existing(); r.m.erase(k); r.f.del(k); ev["deletes"]++; } }
    n = r.m.size();
    char b[200]; snprintf(b, 200, "int=%d infix=%u n=%zu grow=%d del=%d", I, r.f.infix, n, grow, ev.count("deletes") > 0); cur_desc = b;
    auto empty = [&](const string &l, const string &h) { auto it = r.m.lower_bound(l); return it == r.m.end() || *it > h; };
    const int Q = 40000;
    for (int kind = 0; kind < 3; kind++) {
        uint64_t q = 0, fp = 0;
        uint64_t w = kind == 0 ? 0 : kind == 1 ? (1 << 10) : (1 << 20);
        for (int i = 0; i < Q; i++) {
            uint64_t v = R();
            if (!v || v + w + 1 < v) continue;
            string l = be(v), h = be(v + w);
            if (!empty(l, h)) continue;
            q++;
            fp += w ? r.f.rq(l, h) : r.f.pq(l);
        }
        double lim = 10.0 / (double)(1ull << r.f.infix);
        if (!measure && q && (double)fp > q * lim + 6 * sqrt(q * lim) + 6)
            bad("%lu of %lu uniformly random empty %s queries (width %lu) answer yes with fingerprints of %u bits; expected at most %.0f", fp, q, w ? "range" : "point", w, r.f.infix, q * lim);
        if (measure) printf("FPR %s kind=%d fpr*2^i=%.3f size=%.2f over=%.2f\n", cur_desc.c_str(), kind, (double)fp / q * (1ull << r.f.infix), r.f.d->Size() * 8.0 / n, r.f.d->Size() * 8.0 / n - r.f.infix);
        ev["empty_queries"] += q; ev["false_positives"] += fp;
    }
}
// every yes is explained by a stored key within the resolution of the fingerprints
template <bool I> static void m_acc(bool measure) {
    Run<I> r;
    r.o.pt = r.o.rg = false;
    r.g.init(true);
    if (!I) r.o.fixed = 8;
    r.f.infix = 1 + rnd(chance(1, 4) ? 30 : 16);
    r.seed32 = (uint32_t)R();
    r.load(chance(1, 3) ? r.pick_n() : 2000 + rnd(12000), chance(1, 4));
    vector<uint64_t> bd{0};
    for (size_t i = 0; i < r.bulk.size(); i += 1024) bd.push_back(le(r.bulk[i]));
    bd.push_back(le(r.bulk.back()));
    bd.push_back(~0ull);
    if (r.bulk.size() % 1024 == 1) bd.erase(bd.end() - 2);
    int hist = rnd(4);
    if (hist == 1) for (int t = rnd(4000); t > 0; t--) { string k = chance(1, 3) ? r.g.near(r.existing()) : r.g.get(); if (r.m.insert(k).second) { r.f.ins(k); ev["inserts"]++; } }
    if (hist == 2) for (int t = rnd(r.m.size()); t > 0; t--) { string k = r.existing(); if (std::binary_search(bd.begin(), bd.end(), le(k))) continue; r.m.erase(k); r.f.del(k); ev["deletes"]++; }
    if (chance(1, 3) && r.f.infix > 1) { r.f.infix -= 1 + rnd(r.f.infix - 1); r.f.d->ShrinkInfixSize(r.f.infix); ev["shrinks"]++; }
    char b[200]; snprintf(b, 200, "int=%d dist=%d infix=%u n=%zu hist=%d shrunk=%d", I, r.g.dist, r.f.infix, r.bulk.size(), hist, ev.count("shrinks") > 0); cur_desc = b;
    double worst = 0;
    for (int i = 0; i < 20000; i++) {
        uint64_t v = le(any_key(r));
        if (chance(1, 2)) { auto it = std::upper_bound(bd.begin(), bd.end() - 1, v); double span = *it - *std::prev(it); v += (int64_t)(span / (1ull << (r.f.infix + 1)) / 512 * (1 + rnd(64)) / 8) * (chance(1, 2) ? 1 : -1); }
        if (!v || v == ~0ull) continue;
        bool yes = r.f.pq(be(v));
        ev[yes ? "yes" : "no"]++;
        if (!yes) continue;
        auto it = r.m.lower_bound(be(v));
        uint64_t d = ~0ull;
        if (it != r.m.end()) d = std::min(d, le(*it) - v);
        if (it != r.m.begin()) d = std::min(d, v - le(*std::prev(it)));
        if (!d) continue;
        auto jt = std::upper_bound(bd.begin(), bd.end() - 1, v);
        uint64_t hi = *jt, lo = *std::prev(jt);
        if (v == lo || v == hi) continue;
        double res = (double)(hi - lo) / 1024 / (double)(1ull << r.f.infix);
        worst = std::max(worst, (double)(d - 1) / res);
        if (!measure && (double)(d - 1) > 4.5 * res + 1)
            bad("point query %s answers yes, but the closest stored key is %lu away; fingerprints of %u bits resolve %.1f here", hex(be(v)).c_str(), d, r.f.infix, 4 * res);
    }
    for (int i = 0; i < 8000; i++) {
        string a = any_key(r), c = chance(1, 2) ? be(le(a) + (R() >> (1 + rnd(63)))) : r.upper_of(a);
        if (chance(1, 2)) {     // a gap between two stored keys, or most of it
            auto it = r.m.upper_bound(a);
            if (it == r.m.end() || it == r.m.begin()) continue;
            uint64_t x = le(*std::prev(it)), y = le(*it), gap = y - x;
            if (gap < 4) continue;
            uint64_t p = 1 + rnd(chance(1, 2) ? gap - 1 : std::min<uint64_t>(gap - 1, gap >> rnd(20))), q = 1 + rnd(chance(1, 2) ? gap - 1 : std::min<uint64_t>(gap - 1, gap >> rnd(20)));
            uint64_t lo = x + p, hi = y - q;
            if (lo > hi) std::swap(lo, hi);
            if (lo <= x || hi >= y) continue;
            a = be(lo); c = be(hi);
        }
        a.resize(8, 0); c.resize(8, 0);
        if (a > c || c >= FF8 || a <= Z8) continue;
        auto it = r.m.lower_bound(a);
        bool yes = r.f.rq(a, c), holds = it != r.m.end() && *it <= c;
        if (holds && !yes) bad("false negative: range [%s,%s]", hex(a).c_str(), hex(c).c_str());
        if (holds) continue;
        ev[yes ? "empty_range_yes" : "empty_range_no"]++;
        if (!yes) continue;
        auto res = [&](uint64_t v) { auto jt = std::upper_bound(bd.begin(), bd.end() - 1, v); return (double)(*jt - *std::prev(jt)) / 1024 / (double)(1ull << r.f.infix); };
        double e = 1e9;
        uint64_t dl = 0, dh = 0;
        if (it != r.m.begin()) { dl = le(a) - le(*std::prev(it)); e = std::min(e, (double)(dl - 1) / res(le(a))); }
        if (it != r.m.end()) { dh = le(*it) - le(c); e = std::min(e, (double)(dh - 1) / res(le(c))); }
        ev["explained_range_yes"]++;
        worst = std::max(worst, e);
        if (!measure && e > 4.5 && (!dl || (double)dl > 4.5 * res(le(a)) + 1) && (!dh || (double)dh > 4.5 * res(le(c)) + 1))
            bad("range query [%s,%s] answers yes, but the closest stored keys are %lu below and %lu above it; fingerprints of %u bits resolve %.1f and %.1f here",
                hex(a).c_str(), hex(c).c_str(), dl, dh, r.f.infix, 4 * res(le(a)), 4 * res(le(c)));
    }
    if (measure) printf("ACC %.3f %s\n", worst, b);
}
// ---- space: Size() is what Serialize writes, and it follows the number of stored keys ----------------------
template <bool I> static void m_space(bool measure) {
    Run<I> r;
    r.o.pt = r.o.rg = false;
    r.g.init(true);
    r.o.fixed = I ? 0 : 8;
    r.f.infix = 1 + rnd(24);
    r.seed32 = (uint32_t)R();
    r.load(chance(1, 3) ? r.pick_n() : 3000 + rnd(20000), chance(1, 4));
    char b[200]; snprintf(b, 200, "int=%d dist=%d infix=%u n=%zu", I, r.g.dist, r.f.infix, r.bulk.size()); cur_desc = b;
    double worst = 0;
    auto check = [&](const char *when) {
        uint64_t kk, ee;
        vector<uint64_t> cnt;
        DivaTests::tree<I>(*r.f.d, kk, ee, nullptr, &cnt);
        uint32_t size = r.f.d->Size();
        string s(size + 64, (char)0x5C);
        uint32_t w = r.f.d->Serialize(&s[0]);
        if (w != size) bad("Serialize wrote %u bytes, Size() announced %u", w, size);
        for (int i = 0; i < 64; i++) if (s[size + i] != 0x5C) bad("Serialize wrote past Size() bytes");
        // a loaded filter has up to four stores outside its boundary keys that start empty at full size
        double lim = 400 + 4 * 1080.0 * (r.f.infix + 3);
        for (auto c : cnt) lim += 1350 + std::max(72.0, 1.2 * c) * (r.f.infix + 1.5);
        ev["size_checks"]++; ev["max_bytes"] = std::max<uint64_t>(ev["max_bytes"], size);
        if (measure) { if (size * 8.0 / lim > worst) printf("SP %.3f %s %s m=%zu kk=%lu ee=%lu bits=%lu\n", size * 8.0 / lim, b, when, r.m.size(), kk, ee, size * 8ul); }
        worst = std::max(worst, size * 8.0 / lim);
        if (!measure && size * 8.0 > 1.1 * lim) bad("after %s the filter takes %u bytes for %zu keys in %lu stores; expected at most %.0f", when, size, r.m.size(), kk, 1.1 * lim / 8);
    };
    check("load");
    for (int ph = rnd(4); ph > 0; ph--) {
        if (chance(1, 2)) { for (int t = rnd(8000); t > 0; t--) { string k = chance(1, 3) ? r.g.near(r.existing()) : r.g.get(); if (r.m.insert(k).second) { r.f.ins(k); ev["inserts"]++; } } check("inserts"); }
        else if (chance(1, 5) && r.f.infix > 1) { r.f.infix -= 1 + rnd(r.f.infix - 1); r.f.d->ShrinkInfixSize(r.f.infix); ev["shrinks"]++; check("shrink"); }
        else if (chance(1, 2)) {    // thin out, keeping the boundary keys of the load
            std::set<string> bd; for (size_t i = 0; i < r.bulk.size(); i += 1024) bd.insert(r.bulk[i]);
            vector<string> all(r.m.begin(), r.m.end()); int keep = rnd(60);
            for (auto &k : all) if (!bd.count(k) && (int)rnd(100) >= keep) { r.m.erase(k); r.f.del(k); ev["deletes"]++; }
            check("thinning");
        } else { for (size_t t = rnd(r.m.size()); t > 0 && r.m.size() > 2; t--) { string k = r.existing(); r.m.erase(k); r.f.del(k); ev["deletes"]++; } check("deletes"); }
    }
}
static void run_case(const string &mode) {
    Opt o;
    if (mode == "pt_int") { m_member<true>(opt_of(true, false)); }
    else if (mode == "pt_str") { o = opt_of(true, false); o.fixed = pick_fixed(); m_member<false>(o); }
    else if (mode == "rg_int") { m_member<true>(opt_of(false, true)); }
    else if (mode == "rg_str") { o = opt_of(false, true); o.fixed = pick_fixed(); m_member<false>(o); }
    else if (mode == "mono_int") { m_mono<true>(opt_of(false, false)); }
    else if (mode == "mono_str") { o = opt_of(false, false); o.fixed = pick_fixed(); m_mono<false>(o); }
    else if (mode == "diff") m_diff();
    else if (mode == "det") { o = opt_of(false, false); if (chance(1, 2)) m_det<true>(o); else { o.fixed = pick_fixed(); m_det<false>(o); } }
    else if (mode == "api") { if (chance(1, 3)) m_api<true>(); else if (chance(1, 2)) m_api<false>(); else m_api_str(); }
    else if (mode == "shrink") { o = opt_of(true, true); if (chance(1, 2)) m_shrink<true>(o); else { o.fixed = pick_fixed(); m_shrink<false>(o); } }
    else if (mode == "ser") { o = opt_of(true, true); if (chance(1, 2)) m_ser<true>(o); else { o.fixed = pick_fixed(); m_ser<false>(o); } }
    else if (mode == "load") { if (cur_seed / 7 % 2) m_load<true>(); else m_load<false>(); }
    else if (mode == "del") { o = opt_of(true, true); if (chance(1, 2)) m_del<true>(o); else { o.fixed = pick_fixed(); m_del<false>(o); } }
    else if (mode == "forget") { o = opt_of(true, true); if (chance(1, 2)) m_forget<true>(o); else { o.fixed = pick_fixed(); m_forget<false>(o); } }
    else if (mode == "fprm") { if (chance(1, 2)) m_fpr<true>(true); else m_fpr<false>(true); }
    else if (mode == "fpr") { if (chance(1, 2)) m_fpr<true>(false); else m_fpr<false>(false); }
    else if (mode == "acc") { if (chance(1, 2)) m_acc<true>(false); else m_acc<false>(false); }
    else if (mode == "accm") { if (chance(1, 2)) m_acc<true>(true); else m_acc<false>(true); }
    else if (mode == "space") { if (chance(1, 2)) m_space<true>(false); else m_space<false>(false); }
    else if (mode == "mix") { static const char *ms[] = {"pt_int", "pt_str", "rg_int", "rg_str", "mono_int", "mono_str", "api", "shrink", "ser", "load", "del", "forget", "det"}; run_case(ms[rnd(13)]); }
    else if (mode == "leak") { static const char *ms[] = {"pt_int", "pt_str", "rg_int", "rg_str", "api", "shrink", "ser", "del", "forget", "diff"}; run_case(ms[rnd(10)]); }
    else if (mode == "spacem") { if (chance(1, 2)) m_space<true>(true); else m_space<false>(true); }
    else { fprintf(stderr, "unknown mode\n"); exit(2); }
}
