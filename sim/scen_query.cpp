// Database properties: C05 C08 C09 C10 C12 C14
#include "scen.hpp"

static GenCfg small_cfg() {
    GenCfg g; g.max_points = 8; g.max_names = 4; g.max_types = 4; g.max_vars = 4; g.finite_floats = true; 
    switch (choose(W, 4)) { case 0: break; case 1: g.few_values = true; break; case 2: g.few_values = true; g.max_names = 2; g.max_types = 2; break; case 3: g.max_points = 16; break; }
    if (chance(W, 1, 6)) g.blob_max = chance(W, 1, 2) ? 100 : 300;
    return g;
}
static void load_into(void* db, const MTrace& m, const std::string& path) { make_file(path, encode(m).bytes); if (!do_add(db, path.c_str(), 0, 0)) violation("good-refused", "a well-formed trace was refused"); }
// a database of many small traces, around the sizes at which containers grow and small counters wrap
static void fill_db(void* db, const MTrace& like, std::vector<MTrace>& have) {
    static const unsigned cnt[] = {15, 16, 63, 64, 255, 257}; unsigned n = cnt[choose(W, is_ts() ? 3 : 6)], d = (unsigned)choose(W, 3); probe("database of many traces"); MTrace m = like; if (m.points.size() > 2) m.points.resize(2); if (m.names.size() > 200) return;
    for (unsigned i = 0; i + d < n; i++) { if (i % 7 == 0) m.names.push_back("many" + std::to_string(i)); finish_model(m); load_into(db, m, "/t/many"); have.push_back(m); }
}

// ---------------------------------------------------------------- C05
struct AddRec { std::string tag; MTrace m; uint64_t inv = 0, ret = 0; bool ok = false, may_fail = false, must_fail = false, dup = false; int thread; std::string path; };
static void c05() {
    GenCfg g = small_cfg(); g.max_points = 4; g.max_vars = 3; g.big = false; draw_sched(); draw_rand();
    if (chance(D, 1, 3)) k->latency_max = 1000;
    void* db = new_db(); unsigned nt = 2 + (unsigned)choose(W, 2); std::vector<std::unique_ptr<AddRec>> recs; std::vector<MTrace> base;
    if (chance(W, 1, 3)) { MTrace m = gen_trace(g); m.names.push_back("base"); load_into(db, m, "/t/base"); base.push_back(m); if (chance(W, 1, 12)) { fill_db(db, m, base); } }
    std::vector<std::vector<AddRec*>> per(nt); MTrace shared_model = gen_trace(g);
    for (unsigned t = 0; t < nt; t++) { unsigned n = 1 + (unsigned)choose(W, 2);
        for (unsigned i = 0; i < n; i++) {
            auto a = std::make_unique<AddRec>(); a->thread = t; a->m = chance(W, 1, 2) ? shared_model : gen_trace(g); a->tag = "#" + std::to_string(t) + "." + std::to_string(i); a->m.names.push_back(a->tag); a->path = "/t/" + a->tag; if (!recs.empty() && chance(W, 1, 5)) { AddRec* o = recs[choose(W, recs.size())].get(); a->m = o->m; a->tag = o->tag; a->dup = o->dup = true; probe("identical trace added twice"); } finish_model(a->m); Encoded e = encode(a->m); hash_trace(a->m);
            switch (choose(F, 8)) {
            default: if (chance(D, 1, 3)) deliver(a->path, e.bytes, DelCfg()); else make_file(a->path, e.bytes); break;
            case 5: a->must_fail = true; fault(F_OPEN_ENOENT); break;
            case 6: { a->must_fail = true; make_file(a->path, e.bytes.substr(0, choose(F, e.header))); fault(F_TRUNCATE); break; }
            case 7: { auto nd = make_file(a->path, e.bytes); nd->err_at = choose(F, e.bytes.size()); nd->err_no = EIO; a->must_fail = true; break; }
            }
            per[t].push_back(a.get()); recs.push_back(std::move(a));
        } }
    bool oom = chance(F, 1, 5); if (oom) { for (auto& a : recs) a->may_fail = true; arm_alloc(1 + choose(F, 120), 1 + choose(F, 3)); }       // memory runs out for whoever is there
    for (unsigned t = 0; t < nt; t++) spawn([&, t] { for (auto a : per[t]) { a->inv = event_seq(); a->ok = do_add(db, a->path.c_str(), 0, 0); a->ret = event_seq(); log_event("add %s -> %d", a->tag.c_str(), a->ok); } });
    if (join_all() != JOIN_DONE) violation("deadlock", "concurrent adds never finished");
    alloc_cfg.fail_at = 0; if (oom && !alloc_fault_fired) for (auto& a : recs) a->may_fail = false;
    checked(); sample("%u threads, %zu adds into one database", nt, recs.size());
    size_t nok = 0; for (auto& a : recs) { nok += a->ok; if (a->ok && a->must_fail) violation("failure-not-reported", "add %s reported success but its input is missing or broken", a->tag.c_str()); if (!a->ok && !a->must_fail && !a->may_fail) violation("refused", "add %s of a well-formed trace failed", a->tag.c_str()); }
    uint32_t n = ntraces(db); if (n != nok + base.size()) violation("lost-or-duplicated", "%zu successful adds but %u traces in the database (of which %zu were there before)", nok, n, base.size());
    std::vector<AddRec*> order;
    for (uint32_t i = 0; i < n; i++) {
        MTrace d = dump_trace(trace_of(db, i));
        if (i < base.size()) { std::string e = diff(base[i], d); if (!e.empty()) violation("altered", "a trace added earlier changed: %s", e.c_str()); continue; }
        AddRec* f = nullptr; if (!d.names.empty()) for (auto& a : recs) if (a->tag == d.names.back() && (!f || (!f->ok || std::find(order.begin(), order.end(), f) != order.end()))) f = a.get();
        if (!f) violation("altered", "trace %u of the database is none of the traces added", i);
        if (!f->ok) violation("failed-add-present", "the trace of failed add %s is in the database", f->tag.c_str());
        for (auto o : order) if (o == f) violation("lost-or-duplicated", "trace %s is in the database twice", f->tag.c_str());
        std::string e = diff(f->m, d); if (!e.empty()) violation("altered", "trace %s: %s", f->tag.c_str(), e.c_str());
        e = diff_capi(f->m, trace_of(db, i)); if (!e.empty()) violation("altered", "trace %s: %s", f->tag.c_str(), e.c_str());
        if (!f->dup) for (auto o : order) if (!o->dup && f->ret < o->inv) violation("order", "add %s returned before add %s began but comes after it", f->tag.c_str(), o->tag.c_str());
        order.push_back(f);
    }
    if (open_fds()) violation("fd-leak", "descriptor leaked");
    if (!order.empty()) { AddRec* a = order[choose(W, order.size())]; uint32_t i = 0; for (; i < order.size() && order[i] != a; i++) {} MQuery q = gen_query(a->m); std::string e = check_query(db, base.size() + i, a->m, q); if (!e.empty()) violation("wrong-answer", "query after concurrent adds: %s; query: %s", e.c_str(), describe(q).c_str()); }
    free_db_(db);
}
static Reg r05("C05", true, c05);

// ---------------------------------------------------------------- C08
static bool same_multiset(const std::vector<QResult>& a, const std::vector<QResult>& b) {
    if (a == b) return true; if (a.size() != b.size()) return false; std::vector<bool> used(b.size());       // (few results)
    for (auto& x : a) { bool f = false; for (size_t i = 0; i < b.size() && !f; i++) if (!used[i] && b[i] == x) used[i] = f = true; if (!f) return false; } return true;
}
struct DB { void* db; std::vector<MTrace> t; };
// one point with very many variables, or very many points, and simple questions about them
static void c08_large() {
    MTrace m; m.names = {"a", "b", "c"}; m.types = {{0, FU, 4}, {1, FS, 8}, {2, FP, 8}}; bool wide = chance(W, 1, 2); MQuery q; probe(wide ? "query with very many bindings" : "query over very many points"); query_cpp = chance(W, 1, 4);
    static const uint32_t nv[] = {300, 40, 257, 70000}, np[] = {300, 66000, 5000, 65536}; unsigned pickd = (unsigned)choose(W, 4); uint32_t vars = wide ? nv[pickd] : 1, pts = wide ? 1 + (uint32_t)choose(W, 2) : np[pickd];
    for (uint32_t i = 0; i < pts; i++) { MPoint p; MEntry s; s.tag = 1; s.a = i % 2 ? i : (uint64_t)i << 32; p.entries.push_back(s); uint32_t v0 = (uint32_t)choose(W, wide ? 50 : 1); for (uint32_t j = 0; j < (wide && i ? 3 : vars); j++) { MEntry e; e.tag = 2; e.v.name = j % 3; e.v.type = (i + j) % 3; e.v.fmt = m.types[e.v.type].fmt; e.v.size = m.types[e.v.type].size; e.v.value = wide ? (v0 + j) % 1000 : i % 1000; p.entries.push_back(e); } m.points.push_back(p); }
    finish_model(m); hash_trace(m); void* db = new_db(); load_into(db, m, "/t/large");
    unsigned free_n = wide ? (vars == 300 || vars == 257 ? 1 + (unsigned)choose(W, 2) : vars == 40 ? 2 + (unsigned)choose(W, 2) : 1) : (unsigned)choose(W, 2);
    for (unsigned i = 0; i < free_n; i++) { std::vector<uint32_t> ts = {0, 1, 2}; if (chance(W, 1, 3)) ts.pop_back(); q.vars.push_back(ts); }
    if (free_n && chance(W, 1, 2)) { MPred r, v, c, g; r.kind = 1; r.u = choose(W, free_n); v.kind = 3; v.ch = {r}; c.kind = 6; c.u = choose(W, 1000); g.kind = 11 + (int)choose(W, 5); g.ch = {v, c}; (chance(W, 1, 4) ? q.soft.emplace_back() : q.hard) = g; }
    if (!wide && chance(W, 1, 3)) q.seed = 1 + (uint32_t)choose(W, 100000); q.keep = free_n > 2 || !chance(W, 1, 3); if (chance(W, 1, 3)) { q.mask = chance(W, 1, 2) ? UINT64_MAX : 1; q.stmt = chance(W, 1, 2) ? 1 : 65535; if (q.mask == 1) q.stmt &= 1; }
    sample("%u points of %u variables: %s", pts, vars, describe(q).c_str()); op(); std::string e = check_query(db, 0, m, q); checked(); if (!e.empty()) violation("wrong-answer", "%s; query: %s; trace of %u points with %u variables in the first", e.c_str(), describe(q).c_str(), pts, vars); free_db_(db);
}
// many different questions first, so that whatever the library remembers of them is well filled
static void warm_up(void* db, uint64_t index, const MTrace& m, bool preds, unsigned exactly = 0, uint64_t from = 0, bool now = true) {
    static const unsigned cnt[] = {20, 70, 300, 1100}; unsigned n = exactly ? exactly : cnt[choose(W, is_ts() ? 2 : 4)]; uint64_t base = exactly ? from : choose(W, 1000) * 1000; probe(now ? "many different queries before" : "many different queries at the same time"); MQuery q;
    if (preds && !m.types.empty()) { std::vector<uint32_t> ts; for (uint32_t j = 0; j < m.types.size() && j < 50; j++) ts.push_back(j); q.vars.push_back(ts); MPred r, v; r.kind = 1; v.kind = 3; v.ch = {r}; q.hard.kind = 11; q.hard.ch = {v, MPred()}; q.hard.ch[1].kind = 6; }
    for (unsigned i = 0; i < n; i++) { if (q.vars.empty()) { q.mask = UINT64_MAX - i % 3; q.stmt = base + 4 * i; } else q.hard.ch[1].u = base + i; if (!now) op(); std::string e = check_query(db, index, m, q); if (!e.empty()) violation("wrong-answer", "%s; query: %s", e.c_str(), describe(q).c_str()); }
}
static void c08() {
    if (!is_ts() && chance(W, 1, 150)) { c08_large(); return; }
    GenCfg g = small_cfg(); g.finite_floats = !chance(W, 1, 4); draw_rand(); alloc_cfg.reuse = !chance(F, 1, 4); std::vector<DB> dbs; std::vector<MQuery> qs; std::vector<MTrace> pool; unsigned nops = 6 + (unsigned)choose(W, 18), nq = 0, fileno = 0; query_cpp = chance(W, 1, 4);
    struct Memo { MTrace m; MQuery q; std::vector<QResult> a; }; std::vector<Memo> memo;
    for (unsigned o = 0; o < nops; o++) {
        unsigned kind = (unsigned)choose(W, 8); op();
        if (dbs.empty() || (kind == 0 && dbs.size() < 3)) { dbs.push_back({new_db(), {}}); kind = 1; }
        DB& d = dbs[choose(W, dbs.size())];
        if (d.t.empty()) kind = 1;
        if (kind == 4 && !pool.empty() && chance(W, 1, 3)) { const MTrace& m = pool[choose(W, pool.size())]; std::string pth = "/t/" + std::to_string(fileno++); make_file(pth, encode(m).bytes); void* tr = do_read(pth.c_str(), 0, 0); if (!tr) violation("good-refused", "a well-formed trace was refused"); free_trace_(tr); log_event("read and freed"); continue; }
        if (kind == 1) { MTrace m = !pool.empty() && chance(W, 1, 3) ? pool[choose(W, pool.size())] : gen_trace(g); pool.push_back(m); load_into(d.db, m, "/t/" + std::to_string(fileno++)); d.t.push_back(m); log_event("add"); }
        else if (kind == 2 && chance(W, 1, 2)) { free_db_(d.db); dbs.erase(dbs.begin() + (&d - &dbs[0])); log_event("free"); probe("database freed"); }
        else if (kind == 3 && chance(W, 1, 2)) { std::string s = snapshot(d.db); bool drop = chance(W, 1, 2); if (drop) free_db_(d.db); void* n = restore(s); if (!n) violation("restore-failed", "a snapshot could not be restored"); if (drop) d.db = n; else { if (dbs.size() < 4) dbs.push_back({n, d.t}); else free_db_(n); } log_event("reload"); probe("database reloaded"); }
        else {
            size_t i = choose(W, d.t.size()); const MTrace& m = d.t[i]; MQuery q; if (chance(W, 1, 200)) warm_up(d.db, i, m, chance(W, 1, 2));
            if (!memo.empty() && chance(W, 1, 3)) {      // the same question about an equal trace, at another point of the history
                const Memo& mo = memo[choose(W, memo.size())]; size_t at = SIZE_MAX; for (size_t x = 0; x < d.t.size(); x++) if (d.t[x] == mo.m) at = x;
                if (at == SIZE_MAX) { load_into(d.db, mo.m, "/t/" + std::to_string(fileno++)); d.t.push_back(mo.m); at = d.t.size() - 1; }
                std::string er; auto a = run_query(d.db, at, mo.m, mo.q, er); checked(); probe("answer compared with an earlier one");
                if (!er.empty() || !same_multiset(a, mo.a)) violation("answer-changed", "the same query on an equal trace gave another answer later (%zu results, %zu before); query: %s", a.size(), mo.a.size(), describe(mo.q).c_str());
                continue;
            }
            bool again = !qs.empty() && chance(W, 1, 3); if (again) { q = qs[choose(W, qs.size())]; probe("query repeated"); } else { q = gen_query(m); qs.push_back(q); }
            if (again && chance(W, 1, 2)) { vary_query(q, m); qs.push_back(q); probe("query repeated with one detail changed"); }
            std::string e = check_query(d.db, i, m, q); checked(); nq++;
            if (nq == 1) sample("%s", describe(q).c_str());
            if (!e.empty()) violation("wrong-answer", "%s; query: %s; trace: %s", e.c_str(), describe(q).c_str(), describe(m, 2).substr(0, 1500).c_str());
            if (memo.size() < 6 && chance(W, 1, 2) && !query_too_large(m, q)) { std::string er; Memo mo{m, q, run_query(d.db, i, m, q, er)}; memo.push_back(mo); }
            if (chance(W, 1, 6)) {                      // the same question about a trace of the same shape, which may now lie where this one was
                MTrace t2 = m; std::string what; if (chance(W, 1, 2)) mutate_one(t2, what); else { for (auto& p : t2.points) for (auto& x : p.entries) if (x.tag == 2 && x.v.fmt <= FS && x.v.size && chance(W, 1, 2)) x.v.value = choose(W, 3); finish_model(t2); }
                size_t di = &d - &dbs[0]; bool drop = chance(W, 2, 3); if (drop) { free_db_(d.db); dbs[di].db = new_db(); dbs[di].t.clear(); }
                load_into(dbs[di].db, t2, "/t/" + std::to_string(fileno++)); dbs[di].t.push_back(t2); log_event("twin"); probe("same query on a similar trace"); std::string e2 = check_query(dbs[di].db, dbs[di].t.size() - 1, t2, q); checked();
                if (!e2.empty()) violation("wrong-answer", "%s; query: %s, asked before of a similar trace%s; trace: %s", e2.c_str(), describe(q).c_str(), drop ? ", freed since" : "", describe(t2, 2).substr(0, 1500).c_str());
            }
        }
    }
    for (auto& d : dbs) { must_equal_db("db-changed", d.t, d.db, "database after queries"); free_db_(d.db); }
}
static Reg r08("C08", true, c08);

// ---------------------------------------------------------------- C09
static void c09() {
    GenCfg g = small_cfg(); g.max_points = 5; g.max_vars = 3; draw_sched(); void* db = new_db(); std::vector<MTrace> ms; unsigned n = 1 + (unsigned)choose(W, 2);
    for (unsigned i = 0; i < n; i++) { MTrace m = gen_trace(g); hash_trace(m); load_into(db, m, "/t/" + std::to_string(i)); ms.push_back(m); }
    unsigned nt = 2 + (unsigned)choose(W, 2); struct Q { size_t i; MQuery q; std::string err; }; std::vector<std::vector<Q>> per(nt); std::vector<Q> all;
    for (unsigned t = 0; t < nt; t++) { unsigned c = 1 + (unsigned)choose(W, 3); for (unsigned j = 0; j < c; j++) { Q q; q.i = choose(W, n); if (!all.empty() && chance(W, 1, 2)) { q = all[choose(W, all.size())]; if (n > 1 && chance(W, 1, 3)) q.i = (q.i + 1) % n; if (chance(W, 1, 3)) vary_query(q.q, ms[q.i]); } else q.q = gen_query(ms[q.i]); all.push_back(q); per[t].push_back(q); } }
    if (chance(W, 1, 3)) { std::string e = check_query(db, all[0].i, ms[all[0].i], all[0].q); if (!e.empty()) violation("wrong-answer", "%s", e.c_str()); }
    bool others = chance(W, 1, 3); if (chance(W, 1, 12)) warm_up(db, all[0].i, ms[all[0].i], chance(W, 1, 3));
    if (chance(W, 1, 8)) {   // fill whatever is remembered, then go on filling it from several threads
        bool preds = chance(W, 1, 3); unsigned c[3]; uint64_t fill = choose(W, is_ts() ? 140 : 300), same = chance(W, 1, 2); for (auto& x : c) x = 3 + (unsigned)choose(W, preds ? 6 : 20);
        if (fill) warm_up(db, 0, ms[0], preds, (unsigned)fill, 7000);
        for (unsigned t = 0; t < nt; t++) spawn([&, t] { warm_up(db, 0, ms[0], preds, c[t], 100000 + (same ? 8 : 1000) * t, false); checked(); });
        if (join_all() != JOIN_DONE) violation("deadlock", "concurrent queries never finished");
    }
    for (unsigned t = 0; t < nt; t++) spawn([&, t] { for (auto& q : per[t]) { op(); q.err = check_query(db, q.i, ms[q.i], q.q); checked(); if (!q.err.empty()) violation("wrong-answer", "thread %u: %s; query: %s; trace: %s", t, q.err.c_str(), describe(q.q).c_str(), describe(ms[q.i], 2).substr(0, 1500).c_str()); if (others) { std::string e = diff_capi(ms[q.i], trace_of(db, (uint32_t)q.i)); if (!e.empty()) violation("wrong-answer", "inspecting during queries: %s", e.c_str()); } } });
    if (join_all() != JOIN_DONE) violation("deadlock", "concurrent queries never finished");
    sample("%u threads, %zu queries on %u traces; first: %s", nt, all.size(), n, describe(all[0].q).c_str());
    must_equal_db("db-changed", ms, db, "database after concurrent queries"); free_db_(db);
}
static Reg r09("C09", true, c09);

// ---------------------------------------------------------------- C10
struct Op10 { int kind; MTrace m; MQuery q; std::string path; };
static void c10() {
    GenCfg g = small_cfg(); g.max_points = 4; g.max_vars = 3; draw_sched(); draw_rand(); unsigned nt = 2 + (unsigned)choose(W, 2); std::vector<std::vector<Op10>> ops(nt); std::vector<MTrace> pool; std::vector<MQuery> qp; unsigned f = 0;
    for (unsigned t = 0; t < nt; t++) { std::vector<MTrace> mine; unsigned n = 2 + (unsigned)choose(W, 5); MTrace last;
        for (unsigned i = 0; i < n; i++) { Op10 o; o.kind = (int)choose(W, 11); if (mine.empty()) o.kind = chance(W, 1, 4) ? 6 : 0;
            switch (o.kind) {
            case 0: case 1: o.kind = 0; o.m = !pool.empty() && chance(W, 2, 3) ? pool[choose(W, pool.size())] : gen_trace(g); pool.push_back(o.m); o.path = "/t/" + std::to_string(f++); make_file(o.path, encode(o.m).bytes); hash_trace(o.m); mine.push_back(o.m); break;
            case 2: if (!qp.empty() && chance(W, 1, 2)) { o.q = qp[choose(W, qp.size())]; if (chance(W, 1, 2)) vary_query(o.q, mine.back()); } else o.q = gen_query(mine.back()); qp.push_back(o.q); break;
            case 3: break; case 4: mine.clear(); break; case 5: break;
            case 6: case 8: o.m = !pool.empty() && chance(W, 3, 4) ? pool[choose(W, pool.size())] : gen_trace(g); pool.push_back(o.m); o.path = "/t/" + std::to_string(f++); { std::string b = encode(o.m).bytes; if (o.kind == 8) { b.resize(choose(F, 12)); fault(F_TRUNCATE); } make_file(o.path, b); } hash_trace(o.m); break; }
            ops[t].push_back(o); } }
    for (unsigned t = 0; t < nt; t++) spawn([&, t] {
        void* db = new_db(); std::vector<MTrace> have; std::vector<std::pair<void*, const MTrace*>> own;
        for (auto& o : ops[t]) { op();
            switch (o.kind) {
            case 0: if (!do_add(db, o.path.c_str(), 0, 0)) violation("refused", "a well-formed trace was refused"); have.push_back(o.m); { std::string e = diff(o.m, dump_trace(trace_of(db, (uint32_t)have.size() - 1))); if (!e.empty()) violation("interference", "thread %u: the trace just added differs: %s", t, e.c_str()); } break;
            case 2: { std::string e = check_query(db, have.size() - 1, have.back(), o.q); checked(); if (!e.empty()) violation("interference", "thread %u: wrong query answer: %s; query %s", t, e.c_str(), describe(o.q).c_str()); break; }
            case 3: must_equal_db("interference", have, db, "database used by one thread"); break;
            case 4: free_db_(db); db = new_db(); have.clear(); break;
            case 5: { std::string s = snapshot(db); void* d2 = restore(s); if (!d2) violation("interference", "restore failed"); free_db_(db); db = d2; must_equal_db("interference", have, db, "reloaded database"); break; }
            case 6: { void* tr = do_read(o.path.c_str(), 0, 0); if (!tr) violation("refused", "a well-formed trace was refused"); must_equal("interference", o.m, tr, "a trace read by one thread"); own.push_back({tr, &o.m}); probe("trace outside any database"); break; }
            case 7: if (!own.empty()) { must_equal("interference", *own[0].second, own[0].first, "a trace read by one thread"); free_trace_(own[0].first); own.erase(own.begin()); } break;
            case 8: if (do_add(db, o.path.c_str(), 0, 0)) violation("failure-not-reported", "a trace cut inside its header was accepted"); break;
            case 9: { void* c; { App a; c = shim_db_copy(db); } free_db_(db); db = c; must_equal_db("interference", have, db, "copy of a database whose original was freed"); break; }
            case 10: { uint64_t h1, h2; { App a; h1 = shim_db_hash(db); h2 = shim_db_hash(db); } if (h1 != h2) violation("interference", "the hash of a database changed"); for (auto& x : own) must_equal("interference", *x.second, x.first, "a trace read by one thread"); break; }
            } }
        must_equal_db("interference", have, db, "database of one thread at the end"); for (auto& x : own) { must_equal("interference", *x.second, x.first, "a trace read by one thread"); free_trace_(x.first); } must_equal_db("interference", have, db, "database of one thread at the end"); free_db_(db); });
    if (join_all() != JOIN_DONE) violation("deadlock", "threads using separate databases never finished");
    sample("%u threads with a database each", nt);
}
static Reg r10("C10", true, c10);

// ---------------------------------------------------------------- C12
static void put_blob(const std::string& s) { uint32_t n = (uint32_t)s.size(); if (sh->blob_len + 4 + n > sizeof sh->blob) { finish_ok(); } memcpy(sh->blob + sh->blob_len, &n, 4); memcpy(sh->blob + sh->blob_len + 4, s.data(), n); sh->blob_len += 4 + n; }
static std::string get_blob(uint32_t& o) { if (o + 4 > sh->blob_len) harness_error("blob"); uint32_t n; memcpy(&n, sh->blob + o, 4); std::string s(sh->blob + o + 4, n); o += 4 + n; return s; }
static MTrace decode_model(const std::string& b) { MTrace m; size_t c; bool p; if (!decode_independent(b, m, c, p) || p) harness_error("model"); return m; }
MTrace add_points_model(void* db, uint64_t fail_at, uint64_t fail_n, bool* failed) {                 // the second way traces get into a database
    MTrace m; unsigned nn = 2 + (unsigned)choose(W, 4); for (unsigned i = 0; i < nn; i++) m.names.push_back("n" + std::to_string(choose(W, 50)));
    unsigned np = (unsigned)choose(W, 5); std::map<uint32_t, bool> neg;
    for (unsigned i = 0; i < np; i++) { MPoint p; p.stmt = chance(W, 1, 8) ? bits64(W) : choose(W, 9); unsigned nv = (unsigned)choose(W, 4); for (unsigned j = 0; j < nv; j++) { MVar v; v.name = (uint32_t)choose(W, nn); v.type = (uint32_t)choose(W, nn); v.value = chance(W, 1, 3) ? (uint64_t)-(int64_t)choose(W, 5) : choose(W, 100); if (chance(W, 1, 8)) v.value = bits64(W); v.size = 8; v.has_bs = chance(W, 1, 3); v.bs = v.has_bs ? choose(W, 64) : 0; neg[v.type] |= (int64_t)v.value < 0; p.vars.push_back(v); } unsigned na = (unsigned)choose(W, 3); for (unsigned j = 0; j < na; j++) p.aux.push_back(chance(W, 1, 8) ? bits64(W) : choose(W, 7)); m.points.push_back(p); }
    std::vector<char*> names; for (auto& s : m.names) names.push_back((char*)s.c_str()); std::vector<api_point> ps(np); std::vector<std::vector<api_var>> vs(np);
    for (unsigned i = 0; i < np; i++) { for (auto& v : m.points[i].vars) { api_var a; memset(&a, 0, sizeof a); a.value = v.value; a.format = FS; a.var_name_index = v.name; a.type_name_index = v.type; a.size = 8; a.buffer_size = v.bs; a.has_buffer_size = v.has_bs; vs[i].push_back(a); } ps[i].statement = m.points[i].stmt; ps[i].vars = vs[i].data(); ps[i].n_vars = (uint32_t)vs[i].size(); ps[i].aux = m.points[i].aux.data(); ps[i].n_aux = (uint32_t)m.points[i].aux.size(); }
    if (fail_at) { arm_alloc(fail_at, fail_n); *failed = false; try { App a; if (!api_add_points(db, ps.data(), np, names.data(), nn)) *failed = true; } catch (...) { *failed = true; } alloc_cfg.fail_at = 0; }
    else { App a; api_add_points(db, ps.data(), np, names.data(), nn); } op();
    std::map<uint32_t, uint32_t> ix; for (auto& kv : neg) { ix[kv.first] = (uint32_t)m.types.size(); m.types.push_back({kv.first, kv.second ? (uint32_t)FS : (uint32_t)FU, 8}); }
    for (auto& p : m.points) for (auto& v : p.vars) { v.type = ix[v.type]; v.fmt = m.types[v.type].fmt; }
    return m;
}
// the value of a trace as text, to hand over to the next process image
static std::string pack(const MTrace& m) {
    std::string s; auto u = [&](uint64_t x) { s.append((char*)&x, 8); }; auto st = [&](const std::string& x) { u(x.size()); s += x; };
    u(m.names.size()); for (auto& n : m.names) st(n); u(m.types.size()); for (auto& t : m.types) { u(t.name); u(t.fmt); u(t.size); }
    u(m.points.size()); for (auto& p : m.points) { u(p.stmt); u(p.sizes.size()); for (auto& z : p.sizes) { u(z.first); u(z.second); } u(p.vars.size()); for (auto& v : p.vars) { u(v.name); u(v.type); u(v.fmt); u(v.size); u(v.value); u(v.has_bs); u(v.bs); st(v.blob); } u(p.aux.size()); for (auto& a : p.aux) u(a); }
    return s;
}
static MTrace unpack(const std::string& s) {
    MTrace m; size_t o = 0; auto u = [&] { uint64_t x; memcpy(&x, &s[o], 8); o += 8; return x; }; auto st = [&] { size_t n = u(); std::string r = s.substr(o, n); o += n; return r; };
    for (uint64_t n = u(); n; n--) m.names.push_back(st()); for (uint64_t n = u(); n; n--) { MType t; t.name = (uint32_t)u(); t.fmt = (uint32_t)u(); t.size = (uint32_t)u(); m.types.push_back(t); }
    for (uint64_t n = u(); n; n--) { MPoint p; p.stmt = u(); for (uint64_t c = u(); c; c--) { uint64_t a = u(), b = u(); p.sizes.push_back({a, b}); } for (uint64_t c = u(); c; c--) { MVar v; v.name = (uint32_t)u(); v.type = (uint32_t)u(); v.fmt = (uint32_t)u(); v.size = (uint32_t)u(); v.value = u(); v.has_bs = u() != 0; v.bs = u(); v.blob = st(); p.vars.push_back(v); } for (uint64_t c = u(); c; c--) p.aux.push_back(u()); m.points.push_back(p); }
    return m;
}
static void pack_pred(std::string& s, const MPred& p) { auto u = [&](uint64_t x) { s.append((char*)&x, 8); }; u(p.kind); u(p.u); u((uint64_t)p.s); s.append((const char*)&p.f, 8); u(p.ch.size()); for (auto& c : p.ch) pack_pred(s, c); }
static MPred unpack_pred(const std::string& s, size_t& o) { auto u = [&] { uint64_t x; memcpy(&x, &s[o], 8); o += 8; return x; }; MPred p; p.kind = (int)u(); p.u = u(); p.s = (int64_t)u(); memcpy(&p.f, &s[o], 8); o += 8; for (uint64_t n = u(); n; n--) p.ch.push_back(unpack_pred(s, o)); return p; }
static std::string pack(const MQuery& q) { std::string s; auto u = [&](uint64_t x) { s.append((char*)&x, 8); }; u(q.vars.size()); for (auto& v : q.vars) { u(v.size()); for (auto x : v) u(x); } pack_pred(s, q.hard); u(q.soft.size()); for (auto& p : q.soft) pack_pred(s, p); u(q.seed); u(q.keep); u(q.mask); u(q.stmt); return s; }
static MQuery unpack_query(const std::string& s) { size_t o = 0; auto u = [&] { uint64_t x; memcpy(&x, &s[o], 8); o += 8; return x; }; MQuery q; for (uint64_t n = u(); n; n--) { std::vector<uint32_t> v; for (uint64_t c = u(); c; c--) v.push_back((uint32_t)u()); q.vars.push_back(v); } q.hard = unpack_pred(s, o); for (uint64_t n = u(); n; n--) q.soft.push_back(unpack_pred(s, o)); q.seed = (uint32_t)u(); q.keep = u() != 0; q.mask = u(); q.stmt = u(); return q; }
static std::string answer_text(const std::vector<QResult>& rs) {     // order-independent
    std::vector<std::string> l; for (auto& r : rs) { std::string s; auto u = [&](uint64_t x) { s.append((char*)&x, 8); }; u(r.stmt); for (auto& v : r.vars) { u(v.name); u(v.type); u(v.fmt); u(v.size); u(v.value); u(v.has_bs); u(v.bs); s += v.blob; } for (auto a : r.aux) u(a); l.push_back(s); }
    std::sort(l.begin(), l.end()); std::string o; for (auto& s : l) { uint64_t n = s.size(); o.append((char*)&n, 8); o += s; } return o;
}
static void c12() {
    if (g_param == 0) {
        GenCfg g = draw_gencfg(is_ts() ? 0 : 100); if (g.max_points > 20) g.max_points = 20; g.finite_floats = chance(W, 1, 2); draw_rand(); void* db = new_db(); std::vector<MTrace> have; unsigned nops = 1 + (unsigned)choose(W, 6); bool qok = !g.huge;
        std::string last; size_t last_n = 0;
        for (unsigned i = 0; i < nops; i++) {
            unsigned kd = (unsigned)choose(W, 5);
            if (kd <= 1) { MTrace m = gen_trace(g); load_into(db, m, "/t/" + std::to_string(i)); have.push_back(m); if (i == 0 && !g.huge && chance(W, 1, 60)) fill_db(db, m, have); }
            else if (kd == 2) { have.push_back(add_points_model(db)); }
            else if (kd == 3 && !have.empty() && qok) { size_t x = choose(W, have.size()); MQuery q = gen_query(have[x]); std::string e = check_query(db, x, have[x], q); if (!e.empty()) violation("wrong-answer", "%s", e.c_str()); }
            else { uint64_t h0, h9; { App a; h0 = shim_db_hash(db); } std::string s = snapshot(db), s2 = snapshot(db); { App a; h9 = shim_db_hash(db); } if (h0 != h9) violation("snapshot-changes-db", "the hash of a database changed when a snapshot was taken"); if (s != s2) violation("snapshot-changes", "two snapshots of an unchanged database differ"); last = s; last_n = have.size(); must_equal_db("snapshot-changes-db", have, db, "database after a snapshot"); if (chance(W, 1, 2)) { void* d = restore(s); if (!d) violation("restore-failed", "a snapshot could not be restored"); must_equal_db("restore-differs", have, d, "restored in the same process"); { int eq; uint64_t h1, h2; { App a; eq = shim_db_eq(db, d); h1 = shim_db_hash(db); h2 = shim_db_hash(d); } if (!eq || h1 != h2) violation("restore-unequal", "a database and its restored snapshot %s", eq ? "have different hashes" : "do not compare equal"); } if (snapshot(d) != s) violation("resnapshot-differs", "snapshot of the restored database differs"); free_db_(d); } }
        }
        if (last.empty() || chance(W, 1, 2)) { last = snapshot(db); last_n = have.size(); }
        std::string chk = snapshot(db); (void)chk; uint64_t eqn = last_n; put_blob(std::string((char*)&eqn, 8)); put_blob(last); put_blob(qok ? "1" : "0");
        for (size_t i = 0; i < last_n; i++) { put_blob(pack(have[i])); hash_trace(have[i]); }
        uint64_t nask = qok && last_n ? choose(W, 3) : 0; put_blob(std::string((char*)&nask, 8));
        for (uint64_t i = 0; i < nask; i++) { uint64_t x = choose(W, last_n); MQuery q = gen_query(have[x]); std::string er, a = answer_text(run_query(db, x, have[x], q, er)); put_blob(std::string((char*)&x, 8)); put_blob(pack(q)); put_blob(a); }
        hash_bytes(last.data(), last.size()); log_event("snapshot of %zu traces, %zu bytes", last_n, last.size());
        must_equal_db("snapshot-changes-db", have, db, "database after snapshots");
        if (chance(F, 1, 2)) free_db_(db); else fault(F_PROC_CRASH);
        next_image();
    }
    uint32_t o = 0; uint64_t n; { std::string s = get_blob(o); memcpy(&n, s.data(), 8); } std::string text = get_blob(o); bool qok = get_blob(o) == "1"; std::vector<MTrace> have; for (uint64_t i = 0; i < n; i++) have.push_back(unpack(get_blob(o)));
    struct Ask { uint64_t x; MQuery q; std::string a; }; std::vector<Ask> asks; { uint64_t na; std::string s = get_blob(o); memcpy(&na, s.data(), 8); for (; na; na--) { Ask k2; s = get_blob(o); memcpy(&k2.x, s.data(), 8); k2.q = unpack_query(get_blob(o)); k2.a = get_blob(o); asks.push_back(k2); } }
    draw_rand(); alloc_cfg.fill = chance(F, 1, 2) ? 0 : 0xA5; dirty_stack(0xEE);
    if (chance(W, 1, 2)) { void* d = new_db(); GenCfg g; MTrace m = gen_trace(g); load_into(d, m, "/t/other"); if (chance(W, 1, 2)) free_db_(d); }   // the new process has a history of its own
    void* db = restore(text); if (!db) violation("restore-failed", "a snapshot of %llu traces could not be restored in a new process", (unsigned long long)n);
    sample("%llu traces, %zu bytes of snapshot, restored in a new process image", (unsigned long long)n, text.size());
    must_equal_db("restore-differs", have, db, "restored in a new process"); checked();
    std::string again = snapshot(db); if (again != text) violation("resnapshot-differs", "snapshot of the restored database differs from the original text");
    for (auto& k2 : asks) { std::string er, a = answer_text(run_query(db, k2.x, have[k2.x], k2.q, er)); checked(); probe("query repeated after the restart"); if (a != k2.a) violation("answer-changed", "a query gives another answer after the restart: %s", describe(k2.q).c_str()); }
    if (qok) for (int i = 0; i < 3 && n; i++) { size_t x = choose(W, n); MQuery q = gen_query(have[x]); std::string e = check_query(db, x, have[x], q); if (!e.empty()) violation("wrong-answer", "restored database: %s; query %s", e.c_str(), describe(q).c_str()); }
    if (chance(W, 1, 3)) { GenCfg g; MTrace m = gen_trace(g); load_into(db, m, "/t/more"); have.push_back(m); must_equal_db("restore-differs", have, db, "restored database after another add"); }
    log_event("restored"); free_db_(db);
}
static Reg r12("C12", true, c12);

// ---------------------------------------------------------------- C14
static void c14() {
    GenCfg g = small_cfg(); g.finite_floats = chance(W, 1, 2); g.big = !is_ts() && chance(W, 1, 12); draw_sched(); if (!is_ts()) g.huge = chance(W, 1, 100); g.huge_points = 5000; bool qok = !g.huge; draw_rand(); alloc_cfg.reuse = !chance(F, 1, 4);
    MTrace m = gen_trace(g); MTrace other = m; std::string what; mutate_one(other, what); hash_trace(m); hash_trace(other); Encoded e = encode(m), eo = encode(other);
    // load copies through different routes and histories
    struct Copy { void* db; uint32_t i; void* tr; const MTrace* m; const char* how; }; std::vector<Copy> cs; unsigned n = 2 + (unsigned)choose(W, g.huge ? 1 : 3); unsigned f = 0;
    std::vector<void*> tofree;
    auto one = [&](const MTrace& mm, const Encoded& ee) {
        std::string path = "/t/" + std::to_string(f++); Copy c{nullptr, 0, nullptr, &mm, ""}; 
        switch (choose(W, 5)) {
        case 4: { make_file(path, ee.bytes); void* x = do_read(path.c_str(), 0, 0); if (!x) violation("good-refused", "refused"); { App a; c.tr = shim_trace_copy(x); } free_trace_(x); c.how = "copied"; break; }
        case 0: deliver(path, ee.bytes, DelCfg()); c.tr = do_read(path.c_str(), 0, 0); if (!c.tr) violation("good-refused", "refused"); c.how = "read"; break;
        case 1: make_file(path, ee.bytes); c.db = new_db(); if (chance(W, 1, 2)) { MTrace x = gen_trace(g); load_into(c.db, x, path + "x"); c.i = 1; } if (!do_add(c.db, path.c_str(), 0, 0)) violation("good-refused", "refused"); c.how = "added"; break;
        case 2: { void* d = new_db(); load_into(d, mm, path); std::string s = snapshot(d); if (chance(W, 1, 2)) free_db_(d); else tofree.push_back(d); c.db = restore(s); if (!c.db) violation("restore-failed", "restore failed"); c.how = "restored"; break; }
        case 3: { auto nd = make_file(path, ee.bytes); nd->chunk_max = g.huge ? 0 : 5; c.db = new_db(); if (!do_add(c.db, path.c_str(), 0, 0)) violation("good-refused", "refused"); if (qok) { for (unsigned nq = 1 + (unsigned)choose(W, 3); nq; nq--) { MQuery q = gen_query(mm); std::string er = check_query(c.db, 0, mm, q); if (!er.empty()) violation("wrong-answer", "%s", er.c_str()); } if (chance(W, 1, 4)) warm_up(c.db, 0, mm, chance(W, 1, 3), 3 + (unsigned)choose(W, 20), choose(W, 8)); } c.how = "queried"; break; }
        }
        return c; };
    bool conc = is_ts() && chance(W, 1, 2);
    if (conc) { std::vector<Copy> out(n); std::vector<std::string> paths(n); for (unsigned i = 0; i < n; i++) { paths[i] = "/t/c" + std::to_string(i); make_file(paths[i], e.bytes); }
        unsigned nt = std::min(n, 3u); for (unsigned t = 0; t < nt; t++) spawn([&, t] { for (unsigned i = t; i < n; i += nt) { void* tr = do_read(paths[i].c_str(), 0, 0); if (!tr) violation("good-refused", "refused"); out[i] = {nullptr, 0, tr, &m, "read concurrently"}; } });
        if (join_all() != JOIN_DONE) violation("deadlock", "concurrent reads never finished"); cs = out; }
    else for (unsigned i = 0; i < n; i++) cs.push_back(one(m, e));
    if (!chance(W, 1, 5)) { cs.push_back(one(other, eo)); }
    if (chance(W, 1, 2)) { void* d = new_db(); MTrace x = gen_trace(g); load_into(d, x, "/t/tmp"); load_into(d, m, "/t/tmp2"); free_db_(d); }
    auto tp = [&](const Copy& c) { return c.tr ? (const void*)c.tr : trace_of(c.db, c.i); };
    sample("%zu copies, one differing in: %s", cs.size(), what.c_str());
    for (size_t i = 0; i < cs.size(); i++) for (size_t j = 0; j < cs.size(); j++) {
        const void *a = tp(cs[i]), *b = tp(cs[j]); int eq; uint64_t ha, hb; { App x; eq = shim_trace_eq(a, b); ha = shim_trace_hash(a); hb = shim_trace_hash(b); } checked();
        bool want = *cs[i].m == *cs[j].m; op();
        if ((eq != 0) != want) violation(want ? "equal-traces-differ" : "different-traces-equal", "%s (%s) and %s (%s): equality is %d%s%s", "trace", cs[i].how, "trace", cs[j].how, eq, want ? "" : ", but they differ in: ", want ? "" : what.c_str());
        if (want && ha != hb) violation("hash-differs", "equal traces (%s / %s) have different hashes", cs[i].how, cs[j].how);
    }
    // databases: lists of traces, compared in both directions
    {
        static const unsigned char lists[][2][4] = {{{1, 1, 0, 0}, {1, 1, 0, 0}}, {{2, 1, 2, 0}, {2, 1, 2, 0}}, {{2, 1, 2, 0}, {1, 1, 0, 0}}, {{2, 1, 2, 0}, {2, 1, 1, 0}}, {{2, 1, 2, 0}, {2, 2, 1, 0}}, {{0, 0, 0, 0}, {1, 1, 0, 0}}, {{0, 0, 0, 0}, {0, 0, 0, 0}}, {{2, 1, 1, 0}, {1, 1, 0, 0}}, {{3, 1, 2, 1}, {3, 1, 2, 2}}, {{3, 1, 1, 2}, {3, 1, 1, 2}}, {{3, 1, 2, 1}, {2, 1, 2, 0}}, {{1, 1, 0, 0}, {1, 2, 0, 0}}};
        unsigned var = (unsigned)choose(W, 12); void* d[2]; std::vector<const MTrace*> l[2]; bool swp = chance(W, 1, 2);
        for (int x = 0; x < 2; x++) { d[x] = new_db(); auto& q = lists[var][swp ? 1 - x : x]; for (unsigned i = 0; i < q[0]; i++) { const MTrace* mm = q[1 + i] == 1 ? &m : &other; load_into(d[x], *mm, "/t/d" + std::to_string(x) + std::to_string(i)); l[x].push_back(mm); } }
        for (int x = 0; x < 2; x++) if (chance(W, 1, 4)) { std::string s = snapshot(d[x]); free_db_(d[x]); d[x] = restore(s); if (!d[x]) violation("restore-failed", "restore failed"); }
        if (qok && !l[0].empty() && chance(W, 1, 2)) { MQuery q = gen_query(*l[0][0]); check_query(d[0], 0, *l[0][0], q); }
        bool same = l[0].size() == l[1].size(); for (size_t i = 0; same && i < l[0].size(); i++) if (!(*l[0][i] == *l[1][i])) same = false;
        int e12, e21, e11, e22; uint64_t h1, h2; { App x; e12 = shim_db_eq(d[0], d[1]); e21 = shim_db_eq(d[1], d[0]); e11 = shim_db_eq(d[0], d[0]); e22 = shim_db_eq(d[1], d[1]); h1 = shim_db_hash(d[0]); h2 = shim_db_hash(d[1]); } checked(3);
        if ((e12 != 0) != same || (e21 != 0) != same) violation(same ? "equal-databases-differ" : "different-databases-equal", "databases of %zu and %zu traces: equality is %d, the other way round %d (traces differ in: %s)", l[0].size(), l[1].size(), e12, e21, what.c_str());
        if (!e11 || !e22) violation("equal-databases-differ", "a database does not compare equal to itself");
        if (same && h1 != h2) violation("hash-differs", "equal databases have different hashes");
        free_db_(d[0]); free_db_(d[1]);
    }
    log_event("c14 done");
    for (auto& c : cs) { must_equal("altered", *c.m, tp(c), c.how); if (c.tr) free_trace_(c.tr); else free_db_(c.db); }
    for (auto d : tofree) free_db_(d);
}
static Reg r14("C14", true, c14);
