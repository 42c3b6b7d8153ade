// C21: memory and descriptors are given back.  A random history that ends with everything freed is repeated; the memory
// held by the library afterwards may not grow from one repetition to the next.
#include "scen.hpp"

// calls that may run out of memory
static bool try_snapshot(void* db, uint64_t at, uint64_t n, std::string& text) {
    char* s = nullptr; arm_alloc(at, n); bool threw = false; try { App a; s = api_serialize(db); } catch (...) { threw = true; } alloc_cfg.fail_at = 0;
    if (threw && !alloc_fault_fired) violation("snapshot-failed", "serialize_trace_db threw although memory was there"); if (!s) return false; text = s; { App a; api_free(s); } return true;
}
static void* try_restore(const std::string& text, uint64_t at, uint64_t n) {
    void* d = nullptr; arm_alloc(at, n); try { App a; d = api_deserialize(text.c_str()); } catch (...) { } alloc_cfg.fail_at = 0; return d;
}
// 0: failed, 1: right
static bool try_inspect(const MTrace& m, const void* t, uint64_t at, uint64_t n, int what) {
    void* r = nullptr; arm_alloc(at, n); try { App a; r = what == 0 ? (void*)api_get_points(t) : what == 1 ? (void*)api_get_names(t) : (void*)api_get_types(t); } catch (...) { } alloc_cfg.fail_at = 0;
    if (!r) return false;
    if (what == 0) { api_point* p = (api_point*)r; for (size_t i = 0; i < m.points.size(); i++) { auto& w = m.points[i]; bool ok = p[i].statement == w.stmt && p[i].n_vars == w.vars.size() && p[i].n_aux == w.aux.size() && (p[i].vars || w.vars.empty()) && (p[i].aux || w.aux.empty());
            for (size_t j = 0; ok && j < w.vars.size(); j++) ok = p[i].vars[j].format == w.vars[j].fmt && p[i].vars[j].var_name_index == w.vars[j].name && p[i].vars[j].size == w.vars[j].size && (w.vars[j].fmt == FB || p[i].vars[j].value == w.vars[j].value);
            for (size_t j = 0; ok && j < w.aux.size(); j++) ok = p[i].aux[j] == w.aux[j];
            if (!ok) violation("wrong-answer", "get_points gave a wrong point %zu when memory ran out", i); }
        App a; api_free_points(p, m.points.size()); }
    else { const char** p = (const char**)r; size_t c = what == 1 ? m.names.size() : m.types.size(); for (size_t i = 0; i < c; i++) if (!p[i] || (what == 1 ? m.names[i] : m.names[m.types[i].name]) != p[i]) violation("wrong-answer", "get_%s gave a wrong entry when memory ran out", what == 1 ? "names" : "types"); App a; api_free(r); }
    return true;
}
struct Step { int kind; std::string path; MTrace m; MQuery q; int fault = 0; uint64_t at = 0, n = 0, max = 0; bool keep = false; };
static void c21() {
    GenCfg g = draw_gencfg(); g.max_points = std::min(g.max_points, 12u); g.finite_floats = true; draw_rand(); g.no_blobs = !chance(W, 1, 6);
    std::vector<Step> sc; unsigned n = 1 + (unsigned)choose(W, 7); std::vector<MTrace> good; std::map<size_t, uint64_t> blobs; uint64_t nblobs = 0;
    for (unsigned i = 0; i < n; i++) {
        Step s; s.kind = (int)choose(W, 7); s.path = "/t/" + std::to_string(i); if (good.empty() && s.kind >= 3) s.kind = 0;
        s.m = gen_trace(g); hash_trace(s.m); Encoded e = encode(s.m); std::string b = e.bytes; s.keep = chance(W, 1, 2);
        if (s.kind <= 1) {
            s.fault = (int)choose(F, 10); s.max = chance(W, 1, 5) ? 1 + choose(W, 6) : 0;
            if (s.fault == 1) { b.resize(choose(F, b.size() + 1)); fault(F_TRUNCATE); }
            else if (s.fault == 2 && g.no_blobs) { unsigned c = 1 + (unsigned)choose(F, 3); for (unsigned j = 0; j < c && !b.empty(); j++) b[choose(F, b.size())] = (char)choose(F, 256); fault(F_CORRUPT); MTrace o; size_t cp; bool pa; decode_independent(b, o, cp, pa); for (auto& t : o.types) if (t.fmt >= FB) b = e.bytes; }
            else if (s.fault == 3) s.at = choose(F, b.size() + 1);
            else if (s.fault == 4) { s.at = 1 + choose(F, chance(F, 1, 3) ? 400 : 60); s.n = chance(F, 1, 3) ? 1000000 : 1; }
            else if (s.fault < 7 && s.kind == 0 && !s.max) good.push_back(s.m);
            for (auto& p : s.m.points) for (auto& v : p.vars) if (v.fmt == FB) { for (size_t mk : {0u, 0xffu, 0xffffu, 0xffffffu, ~0u}) blobs[v.blob.size() & mk]++; nblobs++; }   // a size may be cut off, too
            for (auto& y : s.m.types) if (y.fmt == FB) { blobs[y.size]++; if (s.fault) nblobs++; }       // a cut type index may name another type
        }
        if (s.kind <= 1 && s.fault == 7) { s.path += "-none"; fault(F_OPEN_ENOENT); } else if (s.kind <= 1 && s.fault == 8) { s.at = 1 + choose(F, 5); make_fifo(s.path); fault(F_STALL); sc.push_back(s); continue; }
        auto nd = make_file(s.kind <= 1 && s.fault == 7 ? "/t/unused" : s.path, b); if (s.fault == 3) { nd->err_at = s.at; nd->err_no = EIO; }
        if (s.kind >= 2 && s.kind <= 5 && chance(F, 1, 3)) { s.fault = 4; s.at = 1 + choose(F, chance(F, 1, 3) ? 400 : 40); s.n = chance(F, 1, 3) ? 1000000 : 1; }
        if (s.kind >= 3) { s.m = good[choose(W, good.size())]; s.q = gen_query(s.m); }
        sc.push_back(s);
    }
    const int cycles = 5; uint64_t held[cycles], mark = 0;
    for (int c = 0; c < cycles; c++) {
        if (c == cycles - 1) { track_allocs(); mark = alloc_mark(); } void* db = new_db(); std::vector<void*> owned; uint64_t loads = nblobs;
        for (auto& s : sc) {
            op();
            switch (s.kind) {
            case 0: case 1:
                if (s.fault == 4) { alloc_cfg.count = 0; alloc_cfg.fail_at = s.at; alloc_cfg.fail_count = s.n; }
                if (s.fault == 9) k->fd_base = 1024;       // more descriptors open than select() can watch
                { uint32_t tmo = s.fault == 8 ? (uint32_t)s.at : 0; if (s.kind == 0) do_add(db, s.path.c_str(), tmo, s.max); else { void* t = do_read(s.path.c_str(), tmo, s.max); if (t) owned.push_back(t); } }
                alloc_cfg.fail_at = 0; k->fd_base = 3; break;
            case 2: if (s.fault == 4 && c >= 2) { std::string t; if (s.keep) { try_snapshot(db, s.at, s.n, t); } else { t = snapshot(db); loads += loads; void* d2 = try_restore(t, s.at, s.n); if (d2) free_db_(d2); } break; }
                { std::string t = snapshot(db); void* d2 = restore(t); loads += loads; if (!d2) violation("restore-failed", "a snapshot could not be restored"); if (s.keep) { free_db_(db); db = d2; } else free_db_(d2); break; }
            case 3: case 4: { uint32_t nt = ntraces(db); for (uint32_t i = 0; i < nt; i++) { MTrace d = dump_trace(trace_of(db, i)); if (!(d == s.m)) continue; std::string er; if (s.fault == 4 && c >= 2) { query_fault.at = s.at; query_fault.n = s.n; } run_query(db, i, s.m, s.q, er); query_fault.at = 0; break; } break; }
            case 5: if (s.fault == 4 && c >= 2) { uint32_t nt = ntraces(db); for (uint32_t i = 0; i < nt; i++) { MTrace d = dump_trace(trace_of(db, i)); try_inspect(d, trace_of(db, i), s.at, s.n, (int)(s.at % 3)); } break; }
                { uint32_t nt = ntraces(db); for (uint32_t i = 0; i < nt; i++) { MTrace d = dump_trace(trace_of(db, i)); diff_capi(d, trace_of(db, i)); int eq; { App a; eq = shim_trace_eq(trace_of(db, 0), trace_of(db, i)); shim_trace_hash(trace_of(db, i)); shim_db_hash(db); } (void)eq; } break; }
            case 6: free_db_(db); db = new_db(); break;
            }
        }
        for (auto t : owned) free_trace_(t);
        free_db_(db);
        if (open_fds()) violation("fd-leak", "%d descriptor(s) are still open after everything was freed", open_fds());
        uint64_t live = app_live_blocks(); checked(); log_event("cycle %d: %llu blocks", c, (unsigned long long)live);
        held[c] = live;
        if (c == cycles - 1 && held[2] > held[1] && held[3] > held[2] && held[4] > held[3]) { uint64_t blocks = held[3];
            bool only_blobs = !g.no_blobs && live - blocks <= loads; for (auto z : held_sizes(mark)) if (!blobs.count(z)) only_blobs = false;
            if (!only_blobs) violation("memory-grows", "%llu blocks of memory are still held after everything was freed, %llu after the previous repetition of the same history%s", (unsigned long long)live, (unsigned long long)blocks, held_since(mark).c_str());
            probe("known:blob-memory");
        }
    }
    sample("%zu steps repeated %d times", sc.size(), cycles);
}
static Reg r21("C21", false, c21);

// ---------------------------------------------------------------- C22: memory runs out during a query, inspection, snapshot or restore
static void c22() {
    GenCfg g = draw_gencfg(); g.max_points = std::min(g.max_points, 14u); g.finite_floats = true; draw_rand(); void* db = new_db(); std::vector<MTrace> have; unsigned nt = 1 + (unsigned)choose(W, 3);
    for (unsigned i = 0; i < nt; i++) { MTrace m = gen_trace(g); hash_trace(m); std::string p = "/t/" + std::to_string(i); make_file(p, encode(m).bytes); if (!do_add(db, p.c_str(), 0, 0)) violation("good-refused", "a well-formed trace was refused"); have.push_back(m); }
    unsigned rounds = 1 + (unsigned)choose(W, 6), failures = 0; struct Asked { size_t x; MQuery q; }; std::vector<Asked> asked;
    for (unsigned r = 0; r < rounds; r++) {
        uint64_t at = 1 + choose(F, chance(F, 1, 3) ? 400 : 40), n = chance(F, 1, 3) ? 1000000 : 1; size_t x = choose(W, have.size()); unsigned kd = (unsigned)choose(W, 8); op(); const char* what = "";
        switch (kd) {
        case 0: case 1: case 2: case 3: { what = "query"; MQuery q; if (!asked.empty() && chance(W, 1, 3)) { x = asked.back().x; q = asked.back().q; if (chance(W, 1, 3)) vary_query(q, have[x]); } else q = gen_query(have[x]); asked.push_back({x, q}); query_fault.at = at; query_fault.n = n; std::string e = check_query(db, x, have[x], q); query_fault.at = 0; failures += alloc_fault_fired; if (!e.empty()) violation("wrong-answer", "a query that met a failing allocation neither failed nor gave the right answer: %s; query: %s", e.c_str(), describe(q).c_str()); break; }
        case 4: { what = "inspection"; int w = (int)choose(W, 3); if (w) at = 1; if (!try_inspect(have[x], trace_of(db, (uint32_t)x), at, n, w)) { if (!alloc_fault_fired && (w == 1 ? have[x].names.size() : w == 2 ? have[x].types.size() : have[x].points.size())) violation("refused", "inspecting a trace failed without a fault"); failures++; } break; }
        case 5: { what = "snapshot"; std::string want = snapshot(db), got; if (chance(F, 1, 3)) { arm_alloc(0, 0); snapshot(db); uint64_t c = alloc_cfg.count; if (c > 3) at = c - choose(F, 3); } if (try_snapshot(db, at, n, got)) { if (got != want) violation("wrong-answer", "a snapshot that met a failing allocation reported success but its text differs (%zu bytes instead of %zu)", got.size(), want.size()); } else { failures++; if (!alloc_fault_fired) violation("refused", "a snapshot failed without a fault"); } break; }
        case 6: { what = "restore"; std::string s = snapshot(db); void* d = try_restore(s, at, n); if (d) { must_equal_db("wrong-answer", have, d, "database restored while memory ran out"); free_db_(d); } else { failures++; if (!alloc_fault_fired) violation("refused", "a restore failed without a fault"); } break; }
        case 7: { what = "adding points"; bool failed = false; MTrace m = add_points_model(db, at, n, &failed); if (!failed) have.push_back(m); else { failures++; if (!alloc_fault_fired) violation("refused", "adding points failed without a fault"); } break; }
        }
        log_event("%s, fault %d", what, alloc_fault_fired); checked(); if (r == 0) sample("%s with allocation %llu failing (%s)", what, (unsigned long long)at, n == 1 ? "once" : "from then on");
        must_equal_db("db-changed", have, db, "database after memory ran out");
        for (size_t i = asked.size() > 2 ? asked.size() - 2 : 0; i < asked.size(); i++) { std::string e = check_query(db, asked[i].x, have[asked[i].x], asked[i].q); checked(); if (!e.empty()) violation("wrong-answer-later", "after a %s that met a failing allocation, a query with enough memory gives a wrong answer: %s; query: %s; trace: %s", what, e.c_str(), describe(asked[i].q).c_str(), describe(have[asked[i].x], 2).substr(0, 1200).c_str()); }
    }
    MTrace m = gen_trace(g); make_file("/t/last", encode(m).bytes); if (!do_add(db, "/t/last", 0, 0)) violation("good-refused", "a well-formed trace was refused after memory had run out"); have.push_back(m); must_equal_db("db-changed", have, db, "database after memory ran out");
    if (failures) probe("operation failed under fault"); free_db_(db);
}
static Reg r22("C22", false, c22);
