// C23 torn snapshots, C24 concurrent readers, C25 ordering
#include "scen.hpp"

static void load_into(void* db, const MTrace& m, const std::string& path) { make_file(path, encode(m).bytes); if (!do_add(db, path.c_str(), 0, 0)) violation("good-refused", "a well-formed trace was refused"); }
static void put_blob(const std::string& s) { uint32_t n = (uint32_t)s.size(); if (sh->blob_len + 4 + n > sizeof sh->blob) finish_ok(); memcpy(sh->blob + sh->blob_len, &n, 4); memcpy(sh->blob + sh->blob_len + 4, s.data(), n); sh->blob_len += 4 + n; }
static std::string get_blob(uint32_t& o) { if (o + 4 > sh->blob_len) harness_error("blob"); uint32_t n; memcpy(&n, sh->blob + o, 4); std::string s(sh->blob + o + 4, n); o += 4 + n; return s; }

// ---------------------------------------------------------------- C23: the process storing a snapshot dies, the text on disk is cut short
static void* restore_cut(const std::string& s) { op(); try { App a; return api_deserialize(s.c_str()); } catch (...) { violation("exception-escaped", "deserialize_trace_db threw something that is not a std::exception"); } }
// A cut inside the last number of the text leaves a complete text with another number, which nothing can tell from a real one. Writing it again need not
// give the same text (the number may make two values equal that are stored once), so compare what it describes: everything but that number's place is as in the whole text.
static bool only_last_number(void* d, const std::string& cut, const std::string& full) {
    if (cut.empty() || cut.size() >= full.size()) return false;
    size_t e = full.find_last_not_of(" \n"); if (e == std::string::npos) return false; size_t b = full.find_last_of(" \n", e); b = b == std::string::npos ? 0 : b + 1; if (cut.size() <= b) return false;
    void* w = restore(full); if (!w) violation("whole-snapshot-refused", "a complete snapshot was refused after a cut one");
    unsigned bad = 0; uint32_t n = ntraces(w); if (ntraces(d) != n) bad = 2;
    for (uint32_t i = 0; i < n && bad < 2; i++) { MTrace x = dump_trace(trace_of(w, i)), y = dump_trace(trace_of(d, i)); if (x.points.size() != y.points.size()) { bad = 2; break; } bad += !(x.names == y.names) + !(x.types == y.types); for (size_t k = 0; k < x.points.size(); k++) bad += !(x.points[k] == y.points[k]); }
    free_db_(w); probe("cut inside the last number"); return bad < 2;
}
static void c23() {
    if (g_param == 0) {
        GenCfg g = draw_gencfg(200); if (g.max_points > 12) g.max_points = 12; g.finite_floats = chance(W, 1, 2); g.no_blobs = chance(W, 1, 2); g.huge_points = 3000; draw_rand(); void* db = new_db(); std::vector<MTrace> have; unsigned n = (unsigned)choose(W, 4);
        for (unsigned i = 0; i < n; i++) {
            MTrace m = gen_trace(g); unsigned cut = (unsigned)choose(W, 6);      // the text may end with a type, a name or a point
            if (cut >= 3) { m.types.clear(); for (auto& p : m.points) { std::vector<MEntry> e; for (auto& x : p.entries) if (x.tag != 2) e.push_back(x); p.entries = e; } if (cut == 5) m.names.clear(); finish_model(m); }
            if (chance(W, 1, 4)) have.push_back(add_points_model(db)); else { load_into(db, m, "/t/" + std::to_string(i)); have.push_back(m); }
        }
        std::string s = snapshot(db); size_t k2, L = s.size();
        switch (choose(F, 6)) {                                               // where the storing process died
        default: k2 = choose(F, L + 1); break;
        case 1: k2 = L - std::min<size_t>(L, choose(F, 40)); break;
        case 2: { std::vector<size_t> sp; for (size_t i = 0; i < L; i++) if (s[i] == ' ') sp.push_back(i); k2 = sp.empty() ? 0 : sp[choose(F, sp.size())] + choose(F, 2); break; }
        case 3: { size_t b = chance(F, 1, 2) ? 512 : 4096; k2 = std::min(L, b * choose(F, L / b + 1)); break; }
        case 4: k2 = std::min(L, (size_t)choose(F, 60)); break;
        }
        bool twice = chance(W, 1, 3); put_blob(s); put_blob(s.substr(0, k2)); put_blob(g.no_blobs && !g.huge ? "1" : "0"); put_blob(twice ? "1" : "0"); hash_bytes(s.data(), s.size()); log_event("snapshot of %zu traces, %zu bytes, %zu stored", have.size(), L, k2); fault(F_PROC_CRASH); fault(F_TRUNCATE);
        must_equal_db("snapshot-changes-db", have, db, "database after a snapshot"); next_image();
    }
    uint32_t o = 0; std::string full = get_blob(o), cut = get_blob(o); bool noblobs = get_blob(o) == "1", twice = get_blob(o) == "1"; draw_rand(); alloc_cfg.fill = chance(F, 1, 2) ? 0 : 0xA5; dirty_stack(chance(F, 1, 2) ? 0xEE : 0);
    void* mine = new_db(); GenCfg g; g.finite_floats = true; MTrace m = gen_trace(g); load_into(mine, m, "/t/other");       // the new process has data of its own
    void* d = restore_cut(cut); checked(); sample("%zu of %zu bytes of a snapshot were stored", cut.size(), full.size());
    if (d) {
        std::string again = snapshot(d); log_event("accepted"); probe(cut.size() == full.size() ? "whole snapshot restored" : "cut snapshot accepted");
        auto trim = [](std::string x) { while (!x.empty() && (x.back() == ' ' || x.back() == '\n')) x.pop_back(); return x; };
        if (trim(again) != trim(cut) && !only_last_number(d, cut, full)) violation("torn-snapshot-accepted", "the first %zu of %zu bytes of a snapshot were restored without an error, but the result is not what those bytes describe (its snapshot has %zu bytes): ...%s", cut.size(), full.size(), again.size(), cut.substr(cut.size() - std::min<size_t>(cut.size(), 40)).c_str());
        for (uint32_t i = 0, n = ntraces(d); i < n; i++) { MTrace t = dump_trace(trace_of(d, i)); for (auto& x : t.names) if (x.find('\0') != std::string::npos) violation("torn-snapshot-accepted", "the first %zu of %zu bytes of a snapshot were restored without an error, with a name of which only the first %zu bytes were there: ...%s", cut.size(), full.size(), strlen(x.c_str()), cut.substr(cut.size() - std::min<size_t>(cut.size(), 40)).c_str()); }
        free_db_(d);
    } else { log_event("refused"); probe("cut snapshot refused"); if (cut.size() == full.size()) violation("whole-snapshot-refused", "a complete snapshot was refused"); }
    if (open_fds()) violation("fd-leak", "descriptor leaked");
    must_equal_db("other-data-changed", {m}, mine, "a database of the restoring process");
    if (!d && noblobs && twice) { uint64_t held[4]; for (auto& h : held) { void* x = restore_cut(cut); if (x) violation("outcome-varies", "a cut snapshot was refused once and accepted later"); h = app_live_blocks(); } checked(); if (held[1] > held[0] && held[2] > held[1] && held[3] > held[2]) violation("memory-grows", "every refused restore leaves %llu block(s) of memory behind", (unsigned long long)(held[3] - held[2])); }
    void* w = restore(full); if (!w) violation("whole-snapshot-refused", "a complete snapshot was refused after a cut one"); if (snapshot(w) != full) violation("restore-differs", "a complete snapshot restored after a cut one gives another database"); free_db_(w);
    MQuery q = gen_query(m); std::string e = check_query(mine, 0, m, q); if (!e.empty()) violation("other-data-changed", "query after a refused restore: %s", e.c_str()); free_db_(mine);
}
static Reg r23("C23", false, c23);

// ---------------------------------------------------------------- C24: readers of one database at the same time
static long to_string_sink(void* c, const char* p, long n) { Sim s; ((std::string*)c)->append(p, n); return n; }
static std::string rewrite_(const void* t) { std::string r; int bad; { App a; bad = shim_write(t, to_string_sink, &r); } if (bad) violation("write-failed", "writing a trace failed without a fault"); return r; }
static void c24() {
    GenCfg g; g.max_points = 4; g.max_names = 4; g.max_types = 4; g.max_vars = 3; g.finite_floats = true; g.few_values = chance(W, 1, 2); draw_sched(); set_step_limit(300000000);
    void* db = new_db(); std::vector<MTrace> ms; unsigned n = 1 + (unsigned)choose(W, 2);
    for (unsigned i = 0; i < n; i++) { MTrace m = i && chance(W, 1, 3) ? ms[0] : gen_trace(g); hash_trace(m); load_into(db, m, "/t/" + std::to_string(i)); ms.push_back(m); }
    struct R { int kind; size_t i, j; MQuery q; std::string text; uint64_t h = 0; int eq = 0; }; unsigned nt = 2 + (unsigned)choose(W, 2); std::vector<std::vector<R>> per(nt); size_t total = 0;
    for (auto& l : per) { unsigned c = 1 + (unsigned)choose(W, 3); for (unsigned x = 0; x < c; x++) { R r; r.kind = (int)choose(W, 9); r.i = choose(W, n); r.j = choose(W, n); if (r.kind == 8) r.q = gen_query(ms[r.i]); l.push_back(r); total++; } }
    for (unsigned t = 0; t < nt; t++) spawn([&, t] { for (auto& r : per[t]) { op(); const void* tr = trace_of(db, (uint32_t)r.i); log_event("thread %u: reader %d", t, r.kind);
        switch (r.kind) {
        case 0: { std::string e = diff(ms[r.i], dump_trace(tr)); if (!e.empty()) violation("wrong-answer", "thread %u: inspection: %s", t, e.c_str()); break; }
        case 1: { std::string e = diff_capi(ms[r.i], tr); if (!e.empty()) violation("wrong-answer", "thread %u: inspection through the C interface: %s", t, e.c_str()); break; }
        case 2: r.text = snapshot(db); break;
        case 3: r.text = rewrite_(tr); break;
        case 4: { App a; r.h = shim_trace_hash(tr); break; }
        case 5: { App a; r.h = shim_db_hash(db); r.eq = shim_trace_eq(tr, api_get_trace(db, (uint32_t)r.j)); break; }
        case 6: { void* c; { App a; c = shim_trace_copy(tr); } std::string e = diff(ms[r.i], dump_trace(c)); if (!e.empty()) violation("wrong-answer", "thread %u: a copy of a trace differs: %s", t, e.c_str()); free_trace_(c); break; }
        case 7: { void* c; { App a; c = shim_db_copy(db); } must_equal_db("wrong-answer", ms, c, "a copy of a database made while others read it"); free_db_(c); break; }
        case 8: { std::string e = check_query(db, r.i, ms[r.i], r.q); if (!e.empty()) violation("wrong-answer", "thread %u: query: %s; query: %s", t, e.c_str(), describe(r.q).c_str()); break; }
        } checked(); } });
    if (join_all() != JOIN_DONE) violation("deadlock", "concurrent readers never finished");
    sample("%u threads, %zu read operations on a database of %u traces", nt, total, n); std::string s = snapshot(db); uint64_t dh; { App a; dh = shim_db_hash(db); }
    for (auto& l : per) for (auto& r : l) { const void* tr = trace_of(db, (uint32_t)r.i); checked();
        if (r.kind == 2 && r.text != s) violation("wrong-answer", "a snapshot taken while others read differs from one taken alone (%zu and %zu bytes)", r.text.size(), s.size());
        if (r.kind == 3 && r.text != rewrite_(tr)) violation("wrong-answer", "a trace rewritten while others read differs from one rewritten alone");
        if (r.kind == 4) { uint64_t h; { App a; h = shim_trace_hash(tr); } if (h != r.h) violation("wrong-answer", "the hash of a trace taken while others read differs"); }
        if (r.kind == 5 && (r.h != dh || (r.eq != 0) != (ms[r.i] == ms[r.j]))) violation("wrong-answer", "comparing or hashing while others read gave another answer"); }
    must_equal_db("db-changed", ms, db, "database after concurrent readers"); void* c = restore(s); if (!c) violation("wrong-answer", "a snapshot could not be restored"); must_equal_db("wrong-answer", ms, c, "restored"); free_db_(c); free_db_(db);
}
static Reg r24("C24", true, c24);

// ---------------------------------------------------------------- C25: ordering
struct Item { int what; uint32_t i, x; size_t t; };      // t: which trace
static void c25() {
    GenCfg g; g.max_points = 6; g.max_types = 6; g.max_vars = 4; g.few_values = chance(W, 2, 3); g.finite_floats = chance(W, 1, 2); g.max_names = 1 + (unsigned)choose(W, 4); if (chance(W, 1, 5)) { static const unsigned bm[] = {80, 300, 600, 5000}; g.blob_max = bm[choose(W, is_ts() ? 3 : 4)]; } draw_rand(); alloc_cfg.reuse = !chance(F, 1, 4);
    MTrace m = gen_trace(g); void* junk[4]; unsigned nj = (unsigned)choose(W, 5); for (unsigned i = 0; i < nj; i++) { App a; junk[i] = app_malloc(16 + 100 * i); }
    // a first look, to learn where the library happens to keep the blobs: a traced program may well record such numbers as pointers
    void* db = new_db(); load_into(db, m, "/t/0");
    if (is_ts() && chance(W, 1, 2)) {      // (in that build addresses are part of the simulation, hence repeatable)
        std::vector<uint64_t> ad; { uint32_t np = (uint32_t)m.points.size(); api_point* p; { App a; p = api_get_points(trace_of(db, 0)); } for (uint32_t i = 0; i < np; i++) for (uint32_t j = 0; j < p[i].n_vars; j++) if (p[i].vars[j].format == FB && p[i].vars[j].value) ad.push_back(p[i].vars[j].value); { App a; api_free_points(p, np); } }
        if (!ad.empty()) { uint32_t ty = (uint32_t)m.types.size(); m.types.push_back({0, chance(W, 1, 2) ? (uint32_t)FP : (uint32_t)FU, 8}); MPoint q; MEntry st; st.tag = 1; st.a = choose(W, 5); q.entries.push_back(st); for (int z = 0; z < 2; z++) { MEntry e; e.tag = 2; e.v.name = 0; e.v.type = ty; e.v.fmt = m.types[ty].fmt; e.v.size = 8; e.v.value = ad[choose(W, ad.size())] + (z ? 1 : 0); q.entries.push_back(e); } m.points.push_back(q); finish_model(m); probe("address of a blob recorded as a value"); }
    }
    // traces that differ in one detail each: their points have the same position but other contents
    std::vector<MTrace> ms{m}; for (unsigned v = (unsigned)choose(W, 4); v; v--) { MTrace o = ms[choose(W, ms.size())]; std::string what; mutate_one(o, what); ms.push_back(o); }
    for (size_t t = 0; t < ms.size(); t++) { hash_trace(ms[t]); load_into(db, ms[t], "/t/1" + std::to_string(t)); } std::vector<const void*> A; for (size_t t = 0; t < ms.size(); t++) A.push_back(trace_of(db, 1 + (uint32_t)t)); std::vector<Item> it; int kind = (int)choose(W, 4);
    for (size_t t = 0; t < ms.size(); t++) { const MTrace& m = ms[t];
        for (uint32_t i = 0; i < m.points.size(); i++) { if (kind == 0) it.push_back({0, i, 0, t}); else if (kind == 1) for (uint32_t x = 0; x < m.points[i].vars.size(); x++) it.push_back({1, i, x, t}); else if (kind == 3) for (uint32_t x = 0; x < m.points[i].sizes.size(); x++) it.push_back({3, i, x, t}); }
        if (kind == 2) for (uint32_t i = 0; i < m.types.size(); i++) it.push_back({2, i, 0, t}); }
    if (it.size() > 14) { for (size_t i = 0; i < 14; i++) std::swap(it[i], it[i + choose(W, it.size() - i)]); it.resize(14); }
    size_t N = it.size(); static const char* nm[] = {"points", "variables", "types", "allocations"};
    typedef std::vector<const void*> Ts; auto matrix = [&](const Ts& t, const Ts& u) { std::vector<int> r(N * N); for (size_t a = 0; a < N; a++) for (size_t b = 0; b < N; b++) { App x; r[a * N + b] = shim_cmp(t[it[a].t], u[it[b].t], kind, it[a].i, it[a].x, it[b].i, it[b].x); } op(); return r; };
    auto c = matrix(A, A); auto same = [&](size_t a, size_t b) { const MTrace &ma = ms[it[a].t], &mb = ms[it[b].t]; switch (kind) { case 0: return it[a].i == it[b].i && ma.points[it[a].i] == mb.points[it[b].i]; case 1: return ma.points[it[a].i].vars[it[a].x] == mb.points[it[b].i].vars[it[b].x]; case 2: return ma.types[it[a].i] == mb.types[it[b].i]; default: return ma.points[it[a].i].sizes[it[a].x] == mb.points[it[b].i].sizes[it[b].x]; } };
    sample("%zu %s compared with one another, in two histories", N, nm[kind]);
    auto axioms = [&](const std::vector<int>& c) { for (size_t a = 0; a < N; a++) for (size_t b = 0; b < N; b++) { bool lt = c[a * N + b] & 1, gt = c[b * N + a] & 1, eq = c[a * N + b] & 2; checked();
        if (eq != same(a, b)) violation("equality", "%s %zu and %zu: equality is %d", nm[kind], a, b, (int)eq);
        if (lt && gt) violation("not-antisymmetric", "%s %zu and %zu are each less than the other", nm[kind], a, b);
        if (eq == (lt || gt)) violation("inconsistent-with-equality", "%s %zu and %zu: %s", nm[kind], a, b, eq ? "equal, but one is less than the other" : "different, but neither is less than the other");
        if (lt) for (size_t d = 0; d < N; d++) if ((c[b * N + d] & 1) && !(c[a * N + d] & 1)) violation("not-transitive", "%s %zu < %zu < %zu, but not %zu < %zu", nm[kind], a, b, d, a, d); } };
    axioms(c); if (matrix(A, A) != c) violation("unstable", "the order of %s changed", nm[kind]);
    // the same contents again, through another history, at other addresses
    bool keep = chance(W, 1, 3); std::string s = snapshot(db); if (!keep) free_db_(db); { App a; for (int i = 0; i < 3; i++) app_malloc(1 + choose(W, 4000)); } void* d2; Ts B; size_t nm_ = ms.size();
    bool rest = chance(W, 1, 2); if (rest) d2 = restore(s); else { d2 = new_db(); if (chance(W, 1, 2)) load_into(d2, gen_trace(g), "/t/x"); else load_into(d2, m, "/t/x"); for (size_t t = nm_; t-- > 0;) load_into(d2, ms[t], "/t/2" + std::to_string(t)); }
    if (!d2) violation("restore-failed", "a snapshot could not be restored"); for (size_t t = 0; t < nm_; t++) B.push_back(trace_of(d2, 1 + (uint32_t)(rest ? t : nm_ - 1 - t))); auto c2 = matrix(B, B); axioms(c2);
    if (c2 != c) { for (size_t a = 0; a < N; a++) for (size_t b = 0; b < N; b++) if (c2[a * N + b] != c[a * N + b]) violation("history-dependent", "%s %zu and %zu compare differently after they were loaded again", nm[kind], a, b); }
    if (keep) { if (matrix(A, B) != c) violation("history-dependent", "%s compare differently with those of an equal trace", nm[kind]); free_db_(db); }
    log_event("c25 %zu", N); free_db_(d2);
}
static Reg r25("C25", false, c25);
