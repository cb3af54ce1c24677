// Monitor of the synchronisation primitives: spinlock, mutex, reader-writer lock, quiescent-state reclamation.
#include "common.hpp"
#include "lib.h"
#include <atomic>
#include <sched.h>
#include <thread>
#include <time.h>
using namespace vf;
using std::vector;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void pause_a_bit() {
    switch (rnd(6)) {
        case 0: sched_yield(); break;
        case 1: { for (volatile int i = rnd(3000); i > 0; i--); break; }
        case 2: { timespec t = {0, (long)rnd(30000)}; nanosleep(&t, nullptr); break; }
        default: { for (volatile int i = rnd(60); i > 0; i--); }
    }
}

// Who is inside, in one word that every entry and exit updates at once: writers in the upper half, readers in the lower.
struct Room {
    std::atomic<uint64_t> in{0};
    uint64_t a = 0, b = 0;       // plain data that the lock protects
    void w_enter() { uint64_t o = in.fetch_add(1ull << 32, std::memory_order_relaxed); if (o) bad("a writer entered while %lu writers and %lu readers were inside", o >> 32, o & 0xffffffff); }
    void w_leave() { in.fetch_sub(1ull << 32, std::memory_order_relaxed); }
    void r_enter() { uint64_t o = in.fetch_add(1, std::memory_order_relaxed); if (o >> 32) bad("a reader entered while a writer was inside"); }
    void r_leave() { in.fetch_sub(1, std::memory_order_relaxed); }
    void change() { uint64_t x = a; if (b != x) bad("a writer found half a change"); a = x + 1; if (chance(1, 30)) pause_a_bit(); b = x + 1; }
    void look() { uint64_t x = a; if (chance(1, 30)) pause_a_bit(); if (b != x || a != x) bad("a reader saw half a change or a change under its lock"); }
};

static void single() {      // exact answers of the try functions, one user
    rwlock l; rwlock_init(&l);
    for (int it = 0; it < 200; it++) {
        int readers = 0; bool writer = false;
        for (int st = rnd(40); st > 0; st--) {
            op_index++;
            int o = rnd(9); bool got, want;
            const char *n[] = {"trylock_read", "trylock_read_lp", "trylock_read_nr", "trylock_write", "trylock_write_nr", "trylock_write_hp", "trylock_write_hp_nr", "unlock", "write_to_read"};
            last_op = n[o];
            if (o <= 2) { want = !writer; got = o == 0 ? rwlock_trylock_read(&l) : o == 1 ? rwlock_trylock_read_lp(&l) : rwlock_trylock_read_nr(&l, rnd(4)); if (got) readers++; }
            else if (o <= 4) { want = !writer && !readers; got = o == 3 ? rwlock_trylock_write(&l) : rwlock_trylock_write_nr(&l, rnd(4)); if (got) writer = true; }
            else if (o <= 6) { if (readers) continue; want = !writer; got = o == 5 ? rwlock_trylock_write_hp(&l) : rwlock_trylock_write_hp_nr(&l, rnd(4)); if (got) writer = true; }
            else if (o == 7) { if (writer) { rwlock_unlock_write(&l); writer = false; } else if (readers) { rwlock_unlock_read(&l); readers--; } continue; }
            else { if (writer) { rwlock_write_to_read(&l); writer = false; readers = 1; } continue; }
            if (got != want) bad("%s answers %d with %d readers and %d writers inside", n[o], got, readers - (got && o <= 2), writer);
            ev["single_user_answers"]++;
        }
        if (writer) rwlock_unlock_write(&l);
        while (readers--) rwlock_unlock_read(&l);
        if (!rwlock_trylock_write(&l)) bad("the lock is not free after everyone left");
        rwlock_unlock_write(&l);
        switch (rnd(3)) { case 0: rwlock_lock_read(&l); rwlock_unlock_read(&l); break; case 1: rwlock_lock_write(&l); rwlock_unlock_write(&l); break; default: rwlock_lock_write_hp(&l); rwlock_unlock_write(&l); }
    }
    spinlock s; spinlock_init(&s); mutex m; mutex_init(&m);
    for (int i = 0; i < 20; i++) {
        if (!spinlock_trylock(&s)) bad("a free spinlock was refused"); if (spinlock_trylock(&s)) bad("a held spinlock was given twice"); spinlock_unlock(&s); spinlock_lock(&s); if (spinlock_trylock(&s)) bad("a held spinlock was given twice"); spinlock_unlock(&s);
        if (!mutex_trylock(&m)) bad("a free mutex was refused"); bool g = true; std::thread([&] { g = mutex_trylock(&m); if (g) mutex_unlock(&m); }).join(); if (g) bad("a held mutex was given twice"); mutex_unlock(&m); mutex_lock(&m); mutex_unlock(&m);
        ev["single_user_answers"] += 4;
    }
    mutex_deinit(&m);
}

static void locks() {
    int kind = rnd(4);
    if (chance(1, 5)) { cur_desc = "one user"; single(); return; }
    int T = 2 + rnd(5), ops = 400 + rnd(1500); bool hp = chance(1, 2);
    const char *nm[] = {"spinlock", "mutex", "rwlock", "rwlock"};
    char d[80]; snprintf(d, 80, "%s threads=%d ops=%d hp=%d", nm[kind], T, ops, hp); cur_desc = d;
    spinlock s; mutex m; rwlock l; spinlock_init(&s); mutex_init(&m); rwlock_init(&l);
    Room room; std::atomic<uint64_t> writes{0}, reads{0}, refused{0}, downs{0}; std::atomic<int> gate{0};
    vector<std::thread> ts; vector<uint64_t> seeds; for (int i = 0; i < T; i++) seeds.push_back(R());
    for (int t = 0; t < T; t++) ts.emplace_back([&, t] {
        R.seed(seeds[t]); gate++; while (gate < T) sched_yield();
        int pw = chance(1, 3) ? 50 : chance(1, 2) ? 5 : 90;
        uint64_t nw = 0, nr = 0, no = 0, nd = 0;
        for (int i = 0; i < ops; i++) {
            if (kind < 2) {
                bool ok = true, tr = chance(1, 3);
                if (kind == 0) { if (tr) ok = spinlock_trylock(&s); else spinlock_lock(&s); } else { if (tr) ok = mutex_trylock(&m); else mutex_lock(&m); }
                if (!ok) { no++; continue; }
                room.w_enter(); room.change(); nw++; room.w_leave();
                if (kind == 0) spinlock_unlock(&s); else mutex_unlock(&m);
            } else if ((int)rnd(100) < pw) {
                bool ok = true;
                switch (rnd(hp ? 6 : 3)) { case 0: rwlock_lock_write(&l); break; case 1: ok = rwlock_trylock_write(&l); break; case 2: ok = rwlock_trylock_write_nr(&l, rnd(100)); break; case 3: rwlock_lock_write_hp(&l); break; case 4: ok = rwlock_trylock_write_hp(&l); break; default: ok = rwlock_trylock_write_hp_nr(&l, rnd(100)); }
                if (!ok) { no++; continue; }
                room.w_enter(); room.change(); nw++;
                if (chance(1, 4)) { uint64_t x = room.a; room.in.fetch_sub((1ull << 32) - 1, std::memory_order_relaxed); rwlock_write_to_read(&l); if (room.in.load(std::memory_order_relaxed) >> 32) bad("a writer is inside with the former writer"); room.look(); if (room.a != x) bad("a writer came between a write and its continuation as a read"); room.r_leave(); rwlock_unlock_read(&l); nd++; }
                else { room.w_leave(); rwlock_unlock_write(&l); }
            } else {
                bool ok = true;
                switch (rnd(4)) { case 0: rwlock_lock_read(&l); break; case 1: ok = rwlock_trylock_read(&l); break; case 2: ok = rwlock_trylock_read_nr(&l, rnd(100)); break; default: ok = rwlock_trylock_read_lp(&l); }
                if (!ok) { no++; continue; }
                room.r_enter(); room.look(); nr++; room.r_leave(); rwlock_unlock_read(&l);
            }
            if (chance(1, 50)) pause_a_bit();
        }
        writes += nw; reads += nr; refused += no; downs += nd;
    });
    for (auto &t : ts) t.join();
    if (room.a != writes || room.b != writes) bad("%lu changes were made under the lock, %lu are there", (uint64_t)writes, room.a);
    if (room.in) bad("someone is still inside");
    if (kind == 0) { if (!spinlock_trylock(&s)) bad("the spinlock is not free after everyone left"); spinlock_unlock(&s); }
    if (kind == 1 && !mutex_trylock(&m)) bad("the mutex is not free after everyone left");
    if (kind == 1) { mutex_unlock(&m); } mutex_deinit(&m);
    if (kind > 1) { if (!rwlock_trylock_write(&l)) bad("the lock is not free after everyone left"); rwlock_unlock_write(&l); }
    op_index = (uint64_t)T * ops;
    ev["writes"] = writes; ev["reads"] = reads; ev["refusals"] = refused; ev["downgrades"] = downs; ev["threads"] = T;
}

// ---- qsbr: two copies of a structure; a writer may only touch the old one after waiting for all readers ----
struct Obj { std::atomic<uint64_t> v; std::atomic<uint64_t> w[24]; };
static void qsbr_case() {
    if (chance(1, 6)) {     // a wait cannot end before the reader it must wait for has moved on
        cur_desc = "one reader held back";
        struct qsbr *q = qsbr_create();
        int n = 1 + rnd(60), parked = 0; vector<struct qsbr_ref> refs(n); vector<bool> pk(n); vector<int> act;
        for (int i = 0; i < n; i++) { if (!qsbr_register(q, &refs[i])) bad("reader %d of %d was refused", i, n); qsbr_update(&refs[i], 1); }
        for (int i = 0; i < n; i++) if (chance(1, 3)) { qsbr_park(&refs[i]); pk[i] = true; parked++; } else act.push_back(i);
        if (act.size()) {
            std::atomic<bool> done{false};
            std::thread w([&] { qsbr_wait(q, 2); done = true; });
            int left = act[rnd(act.size())];
            for (int i : act) if (i != left) { if (chance(1, 2)) { qsbr_update(&refs[i], 2); } else { qsbr_park(&refs[i]); pk[i] = true; } }
            for (int k = 0; k < 20; k++) { pause_a_bit(); if (done) bad("the wait ended while reader %d of %d had not moved on", left, n); }
            switch (rnd(3)) { case 0: qsbr_update(&refs[left], 2); break; case 1: qsbr_park(&refs[left]); pk[left] = true; break; default: qsbr_unregister(q, &refs[left]); pk[left] = true; left = ~left; }
            w.join();
            if (left < 0) { refs[~left] = refs[n - 1]; if (~left != n - 1) { left = ~left; } }
        } else qsbr_wait(q, 2);
        ev["held_waits"]++; ev["readers"] = n;
        qsbr_destroy(q);
        return;
    }
    if (chance(1, 4)) {     // readers come and go while a writer waits, on fresh slots
        int T = 1 + rnd(4), per = 1 + rnd(40), rounds = 20; bool upd = chance(1, 2);
        char d[80]; snprintf(d, 80, "arrivals threads=%d per=%d", T, per); cur_desc = d;
        std::atomic<uint64_t> waits{0};
        double end = now() + 0.3;
        for (int r = 0; r < rounds && now() < end; r++) {
            struct qsbr *q = qsbr_create(); std::atomic<int> gate{0}, done{0}; vector<std::thread> ts;
            for (int t = 0; t < T; t++) ts.emplace_back([&] {
                vector<struct qsbr_ref> rf(per); int n = 0;
                gate++; while (gate <= T) sched_yield();
                for (auto &x : rf) { if (!qsbr_register(q, &x)) break; n++; if (upd) qsbr_update(&x, ~0ull); qsbr_park(&x); }
                done++;
                for (int i = 0; i < n; i++) qsbr_unregister(q, &rf[i]);
            });
            while (gate < T) sched_yield();
            gate++;
            for (uint64_t v = 1; done < T; v++) { qsbr_wait(q, v); waits++; op_index++; }
            for (auto &t : ts) t.join();
            qsbr_destroy(q);
        }
        ev["waits_during_arrivals"] = waits; ev["arrivals"] = (uint64_t)rounds * T * per;
        return;
    }
    if (chance(1, 3)) {     // readers that park after every short read
        int T = 1 + rnd(4), rounds = 60000, work = rnd(40); bool reg = chance(1, 4);
        char d[80]; snprintf(d, 80, "short readers=%d rounds=%d work=%d reg=%d", T, rounds, work, reg); cur_desc = d;
        struct qsbr *q = qsbr_create();
        struct alignas(64) One { std::atomic<uint64_t> v; alignas(64) std::atomic<uint64_t> w; };
        static One obj[2]; static std::atomic<One *> cur; std::atomic<bool> stop{false}; std::atomic<int> gate{0}; std::atomic<uint64_t> nreads{0};
        obj[0].v = obj[0].w = 1; cur = &obj[0];
        vector<std::thread> ts;
        for (int t = 0; t < T; t++) ts.emplace_back([&] {
            struct qsbr_ref *rf = (struct qsbr_ref *)malloc(sizeof *rf); uint64_t n = 0;
            if (!qsbr_register(q, rf)) bad("a reader was refused");
            qsbr_park(rf); gate++;
            while (!stop.load(std::memory_order_relaxed)) {
                if (reg) { qsbr_unregister(q, rf); if (!qsbr_register(q, rf)) bad("a reader was refused"); } else qsbr_resume(rf);
                One *o = cur.load(std::memory_order_acquire); uint64_t v = o->v.load(std::memory_order_acquire);
                qsbr_update(rf, v);
                for (int k = 0; k <= work; k++) { uint64_t y = o->w.load(std::memory_order_relaxed); if (y != v) bad("a reader that came back and announced version %lu saw its data change to %lx before it moved on", v, y); }
                qsbr_park(rf); n++;
            }
            qsbr_unregister(q, rf); free(rf); nreads += n;
        });
        while (gate < T) sched_yield();
        One *o = &obj[0]; uint64_t v = 1; double end = now() + 0.15; int r = 0;
        for (; r < rounds && ((r & 15) || now() < end); r++) {
            One *nw = o == &obj[0] ? &obj[1] : &obj[0];
            v++; op_index++; nw->v = v; nw->w = v;
            cur.exchange(nw); qsbr_wait(q, v);
            o->w.store(~v); o = nw;
        }
        stop = true; for (auto &t : ts) t.join();
        qsbr_destroy(q);
        ev["grace_periods"] = r; ev["reads"] = nreads; ev["threads"] = T; ev["returns"] = nreads;
        return;
    }
    struct qsbr *q = qsbr_create();
    int T = 1 + rnd(6), rounds = 50 + rnd(300); bool dyn = chance(1, 2), ebr = chance(1, 2);
    char d[80]; snprintf(d, 80, "readers=%d rounds=%d dynamic=%d park=%d", T, rounds, dyn, ebr); cur_desc = d;
    Obj obj[2]; std::atomic<Obj *> cur; std::atomic<bool> stop{false}; std::atomic<uint64_t> nreads{0}, nreg{0}, npark{0};
    auto fill = [](Obj *o, uint64_t v) { o->v.store(v, std::memory_order_release); for (auto &x : o->w) x.store(v, std::memory_order_relaxed); };
    fill(&obj[0], 1); fill(&obj[1], 0); cur = &obj[0];
    std::atomic<int> gate{0}; vector<std::thread> ts; vector<uint64_t> seeds; for (int i = 0; i < T; i++) seeds.push_back(R());
    for (int t = 0; t < T; t++) ts.emplace_back([&, t] {
        R.seed(seeds[t]); struct qsbr_ref *rf = (struct qsbr_ref *)malloc(sizeof *rf);
        if (!qsbr_register(q, rf)) bad("a reader was refused");
        qsbr_park(rf);
        gate++; while (gate < T) sched_yield();
        qsbr_resume(rf);
        uint64_t n = 0, regs = 0, pks = 0;
        while (!stop.load(std::memory_order_relaxed)) {
            Obj *o = cur.load(std::memory_order_acquire); uint64_t v = o->v.load(std::memory_order_acquire);
            qsbr_update(rf, v);
            for (int k = 1 + rnd(4); k > 0; k--) {
                if (chance(1, 20)) pause_a_bit();
                for (auto &x : o->w) { uint64_t y = x.load(std::memory_order_relaxed); if (y != v) bad("a reader that announced version %lu saw its data change to %lx before it moved on", v, y); }
            }
            n++;
            if (ebr && chance(1, 3)) { qsbr_park(rf); if (chance(1, 4)) pause_a_bit(); qsbr_resume(rf); pks++; }
            if (dyn && chance(1, 20)) { qsbr_unregister(q, rf); if (chance(1, 2)) { free(rf); rf = (struct qsbr_ref *)malloc(sizeof *rf); } if (!qsbr_register(q, rf)) bad("a reader was refused"); regs++; }
        }
        qsbr_unregister(q, rf); free(rf); nreads += n; nreg += regs; npark += pks;
    });
    while (gate < T) sched_yield();
    Obj *o = &obj[0]; uint64_t v = 1; double end = now() + 0.4; int r = 0;
    for (; r < rounds && now() < end; r++) {
        Obj *nw = o == &obj[0] ? &obj[1] : &obj[0];
        v++; op_index++;
        fill(nw, v);
        cur.exchange(nw);
        qsbr_wait(q, v);
        for (auto &x : o->w) x.store(~v, std::memory_order_relaxed);    // nobody may look at the old copy any more
        if (chance(1, 10)) pause_a_bit();
        o = nw;
    }
    stop = true;
    for (auto &t : ts) t.join();
    qsbr_destroy(q);
    ev["grace_periods"] = r; ev["reads"] = nreads; ev["registrations"] = nreg; ev["parks"] = npark; ev["threads"] = T;
}

int main(int, char **v) {
    reset_signals();
    string mode = v[1]; uint64_t a = strtoull(v[2], 0, 10), b = strtoull(v[3], 0, 10);
    for (uint64_t s = a; s < b; s++) { begin_case(mode, s); if (mode == "lock") locks(); else qsbr_case(); end_case(); }
    puts("DONE");
}
