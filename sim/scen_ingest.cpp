// Ingest properties: C01 C02 C03 C04 C06 C07 C11 C13
#include "scen.hpp"

void __attribute__((noinline)) dirty_stack(unsigned char c) { volatile unsigned char b[96 * 1024]; for (size_t i = 0; i < sizeof b; i++) b[i] = c; }

// ---------------------------------------------------------------- C01
static void c01() {
    GenCfg g = draw_gencfg(60); g.free_order = g.odd_floats = true; draw_latency(); draw_rand();
    unsigned n = g.huge ? 1 : 1 + (unsigned)choose(W, 3); void* db = chance(W, 1, 2) ? new_db() : nullptr; std::vector<MTrace> models;
    for (unsigned i = 0; i < n; i++) {
        MTrace m = gen_trace(g); Encoded e = encode(m); hash_trace(m);
        static const uint32_t tm[] = {0, 35, 5, 100000}; uint32_t tmo = tm[choose(W, 4)];
        DelCfg c; if (tmo) c.first_max = (uint64_t)(tmo - 2) * SEC;
        std::string path = "/t/" + std::to_string(i); Delivery d = deliver(path, e.bytes, c);
        if (i == 0) sample("%s, %zu bytes via %s, timeout %u: %s", db ? "add_trace" : "read_trace", e.bytes.size(), d.fifo ? "FIFO" : "file", tmo, describe(m, 1).substr(0, 600).c_str());
        if (db) {
            if (!do_add(db, path.c_str(), tmo, 0)) violation("ingest-failed", "a well-formed trace of %zu bytes was refused", e.bytes.size());
            models.push_back(m); must_equal_db("ingest-differs", models, db, "added trace");
        } else {
            void* t = do_read(path.c_str(), tmo, 0); if (!t) violation("ingest-failed", "a well-formed trace of %zu bytes was refused", e.bytes.size());
            must_equal("ingest-differs", m, t, "trace read"); free_trace_(t);
        }
        if (open_fds()) violation("fd-leak", "%d descriptors are open after a completed ingest", open_fds());
        log_event("trace %u ok", i);
    }
    if (db) free_db_(db);
}
static Reg r01("C01", false, c01);

// ---------------------------------------------------------------- C02
static void c02() {
    GenCfg g = draw_gencfg(150); g.free_order = g.odd_floats = true; if (chance(W, 1, 3)) { g.max_points = 4; g.max_vars = 2; } draw_latency();
    MTrace m = gen_trace(g); Encoded e = encode(m); hash_trace(m);
    unsigned rounds = 1 + (unsigned)choose(W, 4); void* db = chance(W, 1, 2) ? new_db() : nullptr; std::vector<MTrace> have;
    for (unsigned r = 0; r < rounds; r++) {
        size_t cut;
        switch (choose(F, 5)) {
        case 0: cut = e.bytes.size(); break;
        case 1: cut = e.ends.empty() ? e.header : e.ends[choose(F, e.ends.size())]; break;
        case 2: cut = choose(F, e.header + 1); break;
        case 3: { size_t b = chance(F, 1, 3) || e.ends.empty() ? e.header : e.ends[choose(F, e.ends.size())]; int64_t x = (int64_t)b + (int64_t)choose(F, 20) - 6; cut = x < 0 ? 0 : std::min<size_t>((size_t)x, e.bytes.size()); break; }
        default: cut = choose(F, e.bytes.size() + 1);
        }
        if (cut < e.bytes.size()) fault(F_TRUNCATE);
        std::string path = "/t/" + std::to_string(r); DelCfg c; Delivery d = deliver(path, e.bytes.substr(0, cut), c);
        if (d.fifo && cut < e.bytes.size()) fault(F_WRITER_CRASH);
        size_t complete = 0; while (complete < e.ends.size() && e.ends[complete] <= cut) complete++;
        bool boundary = cut == e.header || (complete && e.ends[complete - 1] == cut);
        if (r == 0) sample("%zu of %zu bytes (header %zu, %zu complete points, %s) via %s", cut, e.bytes.size(), e.header, complete, boundary ? "at a boundary" : "mid-record", d.fifo ? "FIFO" : "file");
        void* t = nullptr; bool ok; const void* tp = nullptr; uint64_t lim = chance(W, 1, 4) ? 1 + choose(W, m.points.size() + 2) : 0;
        static const uint32_t tms[] = {0, 100000, 4000000}; uint32_t tmo = tms[choose(W, 3)]; if (cut == 0) tmo = 0;
        if (lim) { if (complete >= lim) { complete = lim; boundary = true; } }
        if (db) { ok = do_add(db, path.c_str(), tmo, lim); if (ntraces(db) != have.size() + (ok ? 1 : 0)) violation("db-size", "add_trace returned %d but the database went from %zu to %u traces", ok, have.size(), ntraces(db)); if (ok) tp = trace_of(db, (uint32_t)have.size()); }
        else { t = do_read(path.c_str(), tmo, lim); ok = t != nullptr; tp = t; }
        log_event("cut %zu limit %llu -> %d", cut, (unsigned long long)lim, ok); checked();
        if (cut < e.header && ok) violation("header-accepted", "a trace cut inside its header (%zu of %zu bytes) was accepted", cut, e.header);
        if (boundary && !ok) violation("boundary-refused", "a trace ending exactly after %zu complete points was refused", complete);
        if (ok) {
            MTrace got = dump_trace(tp); size_t np = got.points.size();
            if (np > complete) violation("invented-points", "%zu points were returned but only %zu had been written completely", np, complete);
            if (boundary && np != complete) violation("lost-points", "%zu of %zu complete points returned", np, complete);
            MTrace want = prefix(m, np);
            must_equal("altered", want, tp, "points of a truncated trace"); if (db) have.push_back(want);
        }
        if (t) free_trace_(t);
        if (open_fds()) violation("fd-leak", "descriptor left open");
    }
    if (db) { must_equal_db("db-changed", have, db, "database"); free_db_(db); }
}
static Reg r02("C02", false, c02);

// an output stream that fills up or fails
struct Out { std::string s; uint64_t full_at, err_at; uint64_t max; bool failed; bool transient = false; };
static long sink(void* c, const char* p, long n) {
    Sim g; Out* o = (Out*)c; if (n <= 0) return 0; if (o->failed) { if (!o->transient) return 0; o->s.append(p, n); return n; }     // a full disk may have room again later
    long m = n; uint64_t lim = std::min(o->full_at, o->err_at);
    if (o->s.size() + m > lim) m = (long)(lim - o->s.size());
    o->s.append(p, m); if (m < n) { o->failed = true; fault(o->full_at < o->err_at ? F_WRITE_ENOSPC : F_WRITE_EIO); }
    return m;
}

// ---------------------------------------------------------------- C03
static std::string corrupt(const std::string& in, const Encoded& e) {
    std::string b = in; unsigned n = 1 + (unsigned)choose(F, 4);
    static const uint64_t sp[] = {0, 1, 0xffffffffull, 0x7fffffff, 0x80000000ull, UINT64_MAX, 0x100, 9, 16, 5, 0x7fffffffffffffffull, 1ull << 40, 1ull << 62};
    for (unsigned i = 0; i < n; i++) {
        fault(F_CORRUPT); if (b.empty()) b += (char)choose(F, 256);
        size_t p = chance(F, 1, 3) ? choose(F, std::min<size_t>(b.size(), e.header + 1)) : choose(F, b.size());
        if (p >= b.size()) p = b.size() - 1;
        switch (choose(F, 9)) {
        case 0: b[p] ^= 1 << choose(F, 8); break;
        case 1: b[p] = (char)choose(F, 256); break;
        case 2: { uint64_t v = sp[choose(F, 13)]; size_t l = std::min<size_t>(8, b.size() - p); memcpy(&b[p], &v, l); break; }
        case 3: { uint64_t v = sp[choose(F, 13)]; size_t l = std::min<size_t>(4, b.size() - p); memcpy(&b[p], &v, l); break; }
        case 4: b.erase(p, 1 + choose(F, 12)); break;
        case 5: b.insert(p, std::string(1 + choose(F, 12), (char)choose(F, 256))); break;
        case 6: b.resize(p); break;
        case 7: { size_t l = 1 + choose(F, std::min<size_t>(64, b.size() - p)); b.insert(choose(F, b.size() + 1), b.substr(p, l)); break; }
        case 8: { // aim at a structured field: name/type counts, type descriptions, entry fields
            size_t q; uint64_t names = 0; if (in.size() >= 8) memcpy(&names, in.data(), 8);
            size_t ty = 8 + (size_t)names + 4;
            if (chance(F, 1, 2) && ty + 12 <= b.size() && e.header > ty) { q = ty + 4 * choose(F, (e.header - ty) / 4); if (q + 4 <= b.size()) { uint32_t v = chance(F, 1, 2) ? (uint32_t)choose(F, 12) : (uint32_t)sp[choose(F, 13)]; memcpy(&b[q], &v, 4); } }
            else if (!e.ends.empty()) { size_t pi = choose(F, e.ends.size()); size_t s = pi ? e.ends[pi - 1] : e.header; q = s + choose(F, e.ends[pi] - s); if (q < b.size()) { if (chance(F, 1, 2)) b[q] = (char)choose(F, 7); else { uint64_t v = sp[choose(F, 13)]; memcpy(&b[q], &v, std::min<size_t>(8, b.size() - q)); } } }
            break; }
        }
    }
    return b;
}
// touch everything a client can reach; returns a digest of the decoded contents
static std::string exercise(const MTrace& d, const void* t, void* db, uint32_t idx, bool use_db) {
    for (auto& y : d.types) if (y.name >= d.names.size()) violation("bad-index", "type name index %u of %zu", y.name, d.names.size());
    for (auto& p : d.points) for (auto& v : p.vars) {
        if (v.name >= d.names.size() || v.type >= d.types.size()) violation("bad-index", "variable name %u/%zu type %u/%zu", v.name, d.names.size(), v.type, d.types.size());
        if (v.fmt != d.types[v.type].fmt) violation("bad-format", "variable format differs from its type's");
    }
    std::string e = diff_capi(d, t); if (!e.empty()) violation("interfaces-differ", "%s", e.c_str());
    if (use_db && d.points.size() < 200) for (int i = 0; i < 2; i++) {
        MQuery q;
        if (i) q = gen_query(d, false);
        else if (!d.types.empty()) { std::vector<uint32_t> ts; for (uint32_t j = 0; j < d.types.size() && j < 100; j++) ts.push_back(j); q.vars.push_back(ts); MPred p; p.kind = 11; MPred v; v.kind = 3; MPred r; r.kind = 1; v.ch = {r}; MPred z; z.kind = 7; z.f = 0.5; p.ch = {v, z}; q.hard = p; }
        bool sane = true; for (auto& p : d.points) { size_t c = 1; for (size_t x = 0; x < q.vars.size(); x++) c *= p.vars.size() + 1; if (c > 2000) sane = false; }
        if (!sane) continue;
        std::string err; run_query(db, idx, d, q, err); if (!err.empty()) violation("query", "%s", err.c_str());
    }
    std::string dig = describe(d, 1000); 
    for (auto& p : d.points) { for (auto& v : p.vars) dig += v.blob; for (auto& a : p.aux) dig += "," + std::to_string(a); for (auto& z : p.sizes) dig += ";" + std::to_string(z.first) + ":" + std::to_string(z.second); }
    for (auto& n : d.names) dig += n;
    return dig;
}
static std::string hex(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s.substr(0, 120)) { snprintf(b, 4, "%02x", c); r += b; } return r; }
static void c03() {
    GenCfg g = draw_gencfg(); g.free_order = true; if (g.max_points > 12) g.max_points = 12; draw_latency(); draw_rand();
    MTrace good = gen_trace(g), m = gen_trace(g); Encoded ge = encode(good), e = encode(m);
    std::string bad;
    if (chance(F, 1, 12)) { size_t n = choose(F, 80); for (size_t i = 0; i < n; i++) bad += (char)choose(F, chance(F, 1, 2) ? 256 : 6); fault(F_CORRUPT); } else bad = corrupt(e.bytes, e);
    hash_bytes(bad.data(), bad.size());
    make_file("/t/good", ge.bytes); alloc_cfg.limit = 32ull << 20;
    void* db = new_db(); if (!do_add(db, "/t/good", 0, 0)) violation("good-refused", "a well-formed trace was refused");
    uint64_t mx = chance(W, 1, 4) ? 1 + choose(W, 4) : 0;
    sample("%zu corrupted bytes, limit %llu", bad.size(), (unsigned long long)mx);
    std::string dig[2]; int res[2]; std::vector<MTrace> want{good};
    // what the bytes mean: up to the first invalid entry they encode exactly these points
    MTrace mean; size_t hdr; bool partial; bool valid = decode_independent(bad, mean, hdr, partial); bool reach = !mx || mean.points.size() < mx;       // an invalid entry or the end is reached
    if (mx && mean.points.size() > mx) mean.points.resize(mx);
    for (int pass = 0; pass < 2; pass++) {
        alloc_cfg.fill = pass ? 0x00 : 0xA5; dirty_stack(pass ? 0x01 : 0xEE); fault(F_DIRTY_MEM);
        std::string path = "/t/bad" + std::to_string(pass);
        if (pass == 0) deliver(path, bad, DelCfg()); else make_file(path, bad);
        bool ok = do_add(db, path.c_str(), 0, mx); res[pass] = ok;
        if (ntraces(db) != want.size() + ok) violation("db-size", "database size does not match the reported outcome");
        if (ok) {
            const void* t = trace_of(db, (uint32_t)want.size()); MTrace d = dump_trace(t);
            if (!hdr || (!valid && reach)) violation("invalid-accepted", "a trace with %s was accepted (%s)", !hdr ? "an invalid or incomplete header" : "an invalid entry", hex(bad).c_str());
            { std::string df = diff(mean, d); if (!df.empty()) violation("misread", "accepted bytes were not decoded as what they encode: %s", df.c_str()); }
            dig[pass] = exercise(d, t, db, (uint32_t)want.size(), pass == 0);
            { Out o; o.full_at = o.err_at = UINT64_MAX; o.failed = false; { App a; shim_write(t, sink, &o); } dig[pass] += o.s; }         // written out again
            want.push_back(d); probe("corrupted trace accepted");
        }
        else if (hdr && (!reach || (valid && !partial))) violation("valid-refused", "bytes which encode a well-formed trace were refused");
        log_event("pass %d -> %d", pass, ok);
    }
    checked();
    if (res[0] != res[1] || dig[0] != dig[1]) violation("not-a-function-of-bytes", "the same bytes gave different outcomes (%d/%d) depending on earlier memory contents%s", res[0], res[1], res[0] == res[1] ? ": decoded contents differ" : "");
    if (res[0] && res[1]) { int eq; uint64_t h1, h2; { App a; const void *t1 = api_get_trace(db, 1), *t2 = api_get_trace(db, 2); eq = shim_trace_eq(t1, t2); h1 = shim_trace_hash(t1); h2 = shim_trace_hash(t2); } if (!eq || h1 != h2) violation("not-a-function-of-bytes", "two traces read from the same corrupted bytes %s", eq ? "hash differently" : "do not compare equal"); }
    { std::string s = snapshot(db); hash_bytes(s.data(), s.size()); void* d2 = restore(s); if (!d2) violation("snapshot-unreadable", "the snapshot of a database with an accepted corrupted trace cannot be restored"); must_equal_db("snapshot-differs", want, d2, "restored database with an accepted corrupted trace"); free_db_(d2); }
    if (!do_add(db, "/t/good", 0, 0)) violation("good-refused", "a well-formed trace was refused after a corrupted one");
    want.push_back(good); must_equal_db("db-changed", want, db, "database after a corrupted ingest");
    void* t = do_read("/t/bad1", 0, mx); if ((t != nullptr) != (res[0] != 0)) violation("read-add-differ", "read_trace and add_trace disagree about the same bytes"); if (t) free_trace_(t);
    free_db_(db);
    if (open_fds()) violation("fd-leak", "descriptor left open");
}
static Reg r03("C03", false, c03);

// ---------------------------------------------------------------- C04
static void c04() {
    GenCfg g = draw_gencfg(); g.max_points = std::min(g.max_points, 15u); draw_latency(); draw_rand();
    void* db = new_db(); std::vector<MTrace> have;
    unsigned pre = (unsigned)choose(W, 3);
    for (unsigned i = 0; i < pre; i++) { MTrace m = gen_trace(g); std::string p = "/t/p" + std::to_string(i); make_file(p, encode(m).bytes); if (!do_add(db, p.c_str(), 0, 0)) violation("good-refused", "well-formed trace refused"); have.push_back(m); }
    unsigned rounds = 1 + (unsigned)choose(W, 3);
    for (unsigned r = 0; r < rounds; r++) {
        MTrace m = gen_trace(g); Encoded e = encode(m); hash_trace(m); std::string path = "/t/f" + std::to_string(r);
        bool via_db = chance(W, 2, 3); unsigned kind = (unsigned)choose(F, 9); uint32_t tmo = chance(W, 1, 2) ? 10 : 0; const char* what = "";
        DelCfg dc; if (tmo) dc.first_max = 8 * SEC; std::shared_ptr<Node> node;
        if (kind == 8) tmo = 1 + (uint32_t)choose(W, 20);
        if (kind == 8) { node = make_fifo(path); std::vector<Act> a; if (chance(F, 1, 2)) { a.push_back({Act::OPEN, choose(F, 30) * SEC, ""}); if (chance(F, 1, 2)) { a.push_back({Act::WRITE, (tmo + 1 + choose(F, 30)) * SEC, e.bytes}); a.push_back({Act::CLOSE, 0, ""}); } } if (!a.empty()) make_feeder(node, a)->start(); fault(F_STALL); }
        else if (kind != 0) { Delivery d = deliver(path, e.bytes, dc); node = d.node; }
        bool must_fail = false;
        switch (kind) {
        case 0: what = "missing file"; must_fail = true; break;
        case 1: { static const int es[] = {EMFILE, EACCES, ENFILE}; k->open_errno = es[choose(F, 3)]; what = "open fails"; must_fail = true; break; }
        case 2: { // read error
            switch (choose(F, 3)) { case 0: node->err_at = choose(F, e.bytes.size() + 1); break; case 1: node->err_at = e.ends.empty() ? e.header : e.ends[choose(F, e.ends.size())]; break; default: node->err_at = choose(F, e.header + 1); }
            node->err_no = chance(F, 1, 3) ? EIO : EISDIR; what = "read error"; break; }
        case 3: node->eintr_at = chance(F, 1, 2) ? choose(F, e.bytes.size() + 1) : (e.ends.empty() ? 0 : e.ends[choose(F, e.ends.size())]); what = "read interrupted"; break;
        case 4: k->n_waits = 0; if (chance(F, 1, 2)) k->eintr_waits = {0}; else k->eintr_time = now() + choose(F, 9) * SEC; what = "wait interrupted"; break;
        case 5: case 6: alloc_cfg.count = 0; alloc_cfg.fail_at = 1 + choose(F, chance(F, 1, 3) ? 600 : 60); alloc_cfg.fail_count = chance(F, 1, 3) ? 1000000 : 1; alloc_fault_fired = false; what = "allocation failure"; break;
        case 8: what = "timeout"; must_fail = true; break;
        case 7: k->fd_base = chance(F, 1, 2) ? 1024 + (int)choose(F, 200) : 1000 + (int)choose(F, 23); what = "high descriptor"; break;
        }
        if (r == 0) sample("%s with %s (%zu bytes)", via_db ? "add_trace" : "read_trace", what, e.bytes.size());
        bool ok; void* t = nullptr;
        if (via_db) ok = do_add(db, path.c_str(), tmo, 0); else { t = do_read(path.c_str(), tmo, 0); ok = t != nullptr; }
        k->open_errno = 0; alloc_cfg.fail_at = 0; k->fd_base = 3; k->eintr_waits.clear(); k->eintr_time = UINT64_MAX; if (node) { node->err_at = node->eintr_at = UINT64_MAX; }
        log_event("%s -> %d", what, ok); checked();
        if (must_fail && ok) violation("failure-not-reported", "ingest reported success although: %s", what);
        if (ok) {
            if (via_db) { have.push_back(m); if (ntraces(db) != have.size()) violation("db-size", "success reported but the database holds %u traces instead of %zu", ntraces(db), have.size()); }
            std::string d = diff(m, dump_trace(via_db ? trace_of(db, (uint32_t)have.size() - 1) : t));
            if (!d.empty()) violation("partial-success", "%s: success reported with incomplete data: %s", what, d.c_str());
            if (t) free_trace_(t);
        } else probe("ingest failed under fault");
        if (open_fds()) violation("fd-leak", "%s: %d descriptor(s) leaked", what, open_fds());
        must_equal_db("db-changed", have, db, what);
    }
    MTrace m = gen_trace(g); make_file("/t/last", encode(m).bytes); if (!do_add(db, "/t/last", 0, 0)) violation("good-refused", "a well-formed trace was refused after an earlier failure");
    have.push_back(m); must_equal_db("db-changed", have, db, "database after failures");
    MQuery q = gen_query(m); std::string e = check_query(db, have.size() - 1, m, q); if (!e.empty()) violation("query-after-failure", "%s", e.c_str());
    free_db_(db);
}
static Reg r04("C04", false, c04);

// ---------------------------------------------------------------- C06
static void c06() {
    GenCfg g; g.max_points = 6; draw_latency(); if (k->latency_max > MS) k->latency_max = MS;
    unsigned rounds = 1 + (unsigned)choose(W, 3); void* db = new_db(); std::vector<MTrace> have;
    for (unsigned r = 0; r < rounds; r++) {
        MTrace m = gen_trace(g); Encoded e = encode(m); hash_trace(m); std::string path = "/t/" + std::to_string(r);
        static const uint32_t ts[] = {5, 1, 35, 2, 3600, 100000, 4000000, 0x7fffffff, 4294967295u}; uint32_t T = chance(W, 1, 4) ? 0 : ts[choose(W, 9)]; if ((double)now() + 3.2 * 1e9 * T > 1.6e19) T = 5;     // the simulated clock has 64 bits of nanoseconds
        unsigned kind = (unsigned)choose(W, 4);     // 0 data in time, 1 never, 2 too late, 3 regular file
        if (T == 0 && (kind == 1 || kind == 2)) kind = 0;
        uint64_t Tn = (uint64_t)T * SEC, start = now(), first = 0; bool expect_ok = true; std::shared_ptr<Node> node; std::shared_ptr<Feeder> fd;
        auto frac = [&](uint64_t lim) { return (uint64_t)((double)choose(D, 1000) / 1000.0 * (double)lim); };
        auto pieces = [&](std::vector<Act>& a, uint64_t d0) {
            size_t o = 0; unsigned n = 1 + (unsigned)choose(D, 4);
            for (unsigned i = 0; i < n && o < e.bytes.size(); i++) { size_t l = i + 1 == n ? e.bytes.size() - o : 1 + choose(D, e.bytes.size() - o); a.push_back({Act::WRITE, i ? (chance(D, 1, 2) ? (1 + choose(D, 1000)) * 100 * SEC : 0) : d0, e.bytes.substr(o, l)}); if (i && a.back().delay) fault(F_STALL); o += l; } };
        if (kind == 3) { node = make_file(path, e.bytes); }
        else {
            node = make_fifo(path); std::vector<Act> a;
            if (kind == 0) {
                uint64_t lim = T ? Tn - std::min<uint64_t>(Tn / 4, SEC) : 1000000 * SEC; uint64_t d0 = frac(lim), d1 = chance(D, 1, 3) ? frac(lim - d0) : 0; if (chance(D, 1, 5)) { d0 = lim; d1 = 0; }
                first = d0 + d1; a.push_back({Act::OPEN, d0, ""}); pieces(a, d1); a.push_back({Act::CLOSE, choose(D, 3) * 50 * SEC, ""}); if (first) fault(F_LATE_OPEN);
            } else if (kind == 1) { if (chance(D, 1, 2)) { a.push_back({Act::OPEN, frac(2 * Tn), ""}); } expect_ok = false; fault(F_STALL); }
            else { uint64_t d0 = frac(Tn); if (chance(D, 1, 2)) d0 = Tn + SEC + frac(Tn); a.push_back({Act::OPEN, d0, ""}); uint64_t left = d0 >= Tn ? 0 : Tn - d0; pieces(a, left + SEC / 2 + Tn / 1000 + frac(10 * SEC)); a.push_back({Act::CLOSE, 0, ""}); expect_ok = false; fault(F_STALL); }
            if (!a.empty()) { fd = make_feeder(node, a); fd->start(); }
        }
        if (r == 0) sample("timeout %u s, %s, first data after %.3f s", T, kind == 3 ? "regular file" : kind == 0 ? "data in time" : kind == 1 ? "no data" : "data too late", first / 1e9);
        int fds0 = open_fds(); bool via_db = chance(W, 1, 2), ok; void* t = nullptr; int tid;
        tid = spawn([&] { if (via_db) ok = do_add(db, path.c_str(), T, 0); else { t = do_read(path.c_str(), T, 0); ok = t != nullptr; } });
        uint64_t done = 0; after(0, [] {});
        bool intr = kind != 3 && chance(F, 1, 6); k->n_waits = 0; k->eintr_waits.clear(); if (intr) { if (chance(F, 1, 2)) k->eintr_waits = {0}; else k->eintr_time = now() + 1 + frac(T ? Tn : 100 * SEC); }
        JoinResult j = join_all(); done = now(); (void)tid; k->eintr_waits.clear(); k->eintr_time = UINT64_MAX;
        if (j != JOIN_DONE) violation("waits-forever", "timeout %u s: ingest never returned (%s)", T, kind == 1 ? "no data" : "data arrived");
        uint64_t el = done - start; checked(); log_event("T %u kind %u ok %d", T, kind, ok);
        uint64_t slack = 2 * SEC / 10 + Tn / 1000;
        if (intr && !ok) {                          // giving up on an interrupted wait is allowed, waiting on without a limit is not
            if (T && el > 2 * Tn + slack) violation("too-late", "timeout %u s, wait interrupted: ingest gave up only after %.3f s", T, el / 1e9);
            probe("interrupted wait"); expect_ok = false;
        } else if (expect_ok) {
            if (!ok) violation("refused", "timeout %u s: ingest failed after %.3f s although data appeared after %.3f s", T, el / 1e9, first / 1e9);
            if (kind == 3 && el > slack) violation("file-waits", "reading a regular file took %.3f s of waiting", el / 1e9);
            std::string d = diff(m, dump_trace(via_db ? trace_of(db, (uint32_t)have.size()) : t)); if (!d.empty()) violation("altered", "%s", d.c_str());
            if (via_db) have.push_back(m); else free_trace_(t);
        } else {
            if (ok) violation("no-timeout", "timeout %u s: ingest succeeded although no data appeared in time", T);
            if (el + 1000 < Tn) violation("too-early", "timeout %u s: ingest gave up after %.3f s", T, el / 1e9);
            if (el > Tn + slack) violation("too-late", "timeout %u s: ingest gave up only after %.3f s", T, el / 1e9);
            if (node->total_read) violation("data-consumed", "a timed-out ingest consumed %llu bytes", (unsigned long long)node->total_read);
        }
        if (open_fds() != fds0) violation("fd-leak", "descriptor leaked");
        must_equal_db("db-changed", have, db, "database after a timed wait");
        if (!expect_ok && kind == 2 && fd && !fd->open && fd->pos == 0) {       // the blocked writer is served by the next ingest
            void* t2 = nullptr; spawn([&] { t2 = do_read(path.c_str(), 0, 0); });
            if (join_all() != JOIN_DONE) violation("waits-forever", "the ingest after a timed-out one never returned");
            if (!t2) violation("refused", "the ingest after a timed-out one failed");
            std::string d = diff(m, dump_trace(t2)); if (!d.empty()) violation("altered", "after a timed-out ingest: %s", d.c_str()); free_trace_(t2); probe("served after a timeout");
        }
    }
    free_db_(db);
}
static Reg r06("C06", false, c06);

// ---------------------------------------------------------------- C07
static void c07() {
    GenCfg g = draw_gencfg(150); g.free_order = true; draw_latency(); if (k->latency_max > MS) k->latency_max = MS;
    MTrace m = gen_trace(g); Encoded e = encode(m); hash_trace(m); size_t np = m.points.size();
    void* db = new_db(); std::vector<MTrace> have;
    unsigned rounds = 1 + (unsigned)choose(W, 2);
    for (unsigned r = 0; r < rounds; r++) {
        uint64_t N = chance(W, 1, 6) ? 0 : np && !chance(W, 1, 4) ? 1 + choose(W, np) : np + choose(W, 3);
        if (N > np && chance(W, 1, 3)) { static const uint64_t far[] = {1ull << 8, 1ull << 16, 1ull << 31, 1ull << 32, 1ull << 40, 1ull << 63}; uint64_t o = far[choose(W, 6)]; N = o + choose(W, np + 2); if (chance(W, 1, 5)) N = UINT64_MAX - choose(W, 3); }
        
        size_t avail = N == 0 ? np : (size_t)std::min<uint64_t>(N, np); bool limited = N != 0 && N <= np; std::string path = "/t/" + std::to_string(r);
        std::string bytes = e.bytes; uint64_t needed = UINT64_MAX; const char* after_what = "end of file"; std::shared_ptr<Feeder> fd; std::shared_ptr<Node> node; size_t need_bytes = limited ? e.ends[N - 1] : bytes.size(); unsigned tail = 0;
        if (limited) { bytes.resize(need_bytes); tail = (unsigned)choose(F, 6);
            switch (tail) { case 0: bytes = e.bytes; break; case 1: after_what = "crash"; fault(F_WRITER_CRASH); break; case 2: after_what = "garbage"; { size_t n = 1 + choose(F, 40); for (size_t i = 0; i < n; i++) bytes += (char)choose(F, i || chance(F, 1, 2) ? 256 : 8); fault(F_CORRUPT); } break;
            case 3: after_what = "stall"; fault(F_STALL); break; case 4: bytes = e.bytes; if (bytes.size() > need_bytes) bytes.resize(need_bytes + choose(F, bytes.size() - need_bytes + 1)); after_what = "cut"; fault(F_TRUNCATE); break; case 5: bytes = e.bytes; after_what = "read error"; break; } }
        bool fifo = tail == 3 || choose(D, 3) != 0;
        if (!fifo) { node = make_file(path, bytes); }
        else {
            node = make_fifo(path); static const size_t caps[] = {65536, 4096, 64}; node->capacity = caps[choose(D, 3)]; if (bytes.size() > 50000) node->capacity = 65536; std::vector<Act> a; a.push_back({Act::OPEN, choose(D, 3) * SEC, ""});
            size_t o = 0; unsigned n = 1 + (unsigned)choose(D, 4);
            for (unsigned i = 0; i < n && o < bytes.size(); i++) {
                size_t l = i + 1 == n ? bytes.size() - o : 1 + choose(D, bytes.size() - o); if (o < need_bytes && o + l > need_bytes && chance(D, 1, 2)) l = need_bytes - o;
                a.push_back({Act::WRITE, chance(D, 1, 2) ? (1 + choose(D, 100)) * SEC : 0, bytes.substr(o, l)}); if (a.back().delay) fault(F_STALL); o += l; }
            if (o < bytes.size()) a.push_back({Act::WRITE, 1000 * SEC, bytes.substr(o)});
            if (tail != 3) a.push_back({Act::CLOSE, limited ? (1 + choose(D, 100)) * 3600 * SEC : SEC, ""});
            fd = make_feeder(node, a); fd->start();
        }
        static const uint64_t cm[] = {0, 1, 7, 100}; node->chunk_max = cm[choose(D, 4)]; if (bytes.size() > 50000) node->chunk_max = 0;
        if (tail == 5) { node->err_at = need_bytes + choose(F, 3); node->err_no = EIO; }
        if (r == 0) sample("limit %llu of %zu points, then %s", (unsigned long long)N, np, after_what);
        bool via_db = chance(W, 1, 2), ok = false; void* t = nullptr; uint64_t start = now();
        spawn([&] { if (via_db) ok = do_add(db, path.c_str(), 0, N); else { t = do_read(path.c_str(), 0, N); ok = t != nullptr; } });
        JoinResult j = join_all(); uint64_t done = now(); checked(); log_event("N %llu tail %u ok %d", (unsigned long long)N, tail, ok);
        if (j != JOIN_DONE) violation("waits-for-more", "limit %llu: ingest blocks although the %zu points it needs were delivered", (unsigned long long)N, avail);
        if (!ok) violation("refused", "limit %llu: ingest failed although the %zu points it needs were delivered (then %s)", (unsigned long long)N, avail, after_what);
        if (limited) {
            uint64_t lim = start + SEC / 4;
            if (fd) { size_t o = 0; for (size_t i = 0; i < fd->acts.size(); i++) { if (fd->acts[i].k == Act::WRITE) o += fd->acts[i].bytes.size(); if (o >= need_bytes) { if (fd->write_time[i] != UINT64_MAX) lim = std::max(lim, fd->write_time[i]) + SEC / 4; else lim = UINT64_MAX; break; } } }
            // each system call may take up to 1 ms of simulated time
            lim = lim == UINT64_MAX ? lim : lim + k->latency_max * 2 * (need_bytes + 64);
            if (done > lim) violation("waits-for-more", "limit %llu: ingest returned %.3f s after its points had been delivered", (unsigned long long)N, (done - lim) / 1e9 + 0.25);
        }
        const void* tp = via_db ? trace_of(db, (uint32_t)have.size()) : t; MTrace want = prefix(m, avail);
        MTrace got = dump_trace(tp); if (got.points.size() != avail) violation("wrong-count", "limit %llu of %zu points gave %zu points", (unsigned long long)N, np, got.points.size());
        must_equal("altered", want, tp, "limited read"); (void)needed;
        if (via_db) have.push_back(want); else free_trace_(t);
        if (open_fds()) violation("fd-leak", "descriptor leaked");
    }
    must_equal_db("db-changed", have, db, "database after limited reads"); free_db_(db);
}
static Reg r07("C07", false, c07);

// ---------------------------------------------------------------- C11
static void c11() {
    draw_rand(); GenCfg g; g.heavy_sizes = true; g.ptr8 = chance(W, 4, 5); 
    MTrace t; t.names = {"p", "void*", "n"}; t.types = {{1, FP, 8}, {2, FU, 4}}; if (!g.ptr8) t.types.push_back({1, FP, chance(W, 1, 2) ? 4u : 1 + (uint32_t)choose(W, 7)});
    unsigned np = 1 + (unsigned)choose(W, chance(W, 1, 4) ? 120 : 25); static const uint64_t strides[] = {16, 1, 8, 4096, 0x100000000ull}; uint64_t stride = strides[choose(W, 5)]; static const uint64_t bases[] = {0x1000, 0, 0x7f0000000000ull, 0xffffffffffff0000ull};
    uint64_t base = bases[choose(W, 4)]; unsigned pool = 2 + (unsigned)choose(W, chance(W, 1, 3) ? 60 : 10); if (base > 0xff00000000000000ull && stride > 8) stride = 8; bool many = chance(W, 1, 6); if (many) { pool = 40 + (unsigned)choose(W, 60); np = 30 + (unsigned)choose(W, 60); }
    if (!is_ts() && chance(W, 1, 60)) { static const unsigned lens[] = {300, 1100, 4200, 66000}; np = lens[choose(W, 4)]; pool = chance(W, 1, 2) ? pool : 300 + (unsigned)choose(W, 3000); many = chance(W, 1, 2); probe("long allocation history"); }
    std::vector<uint64_t> live; bool wide = chance(W, 1, 5);
    for (unsigned i = 0; i < np; i++) {
        MPoint p; MEntry s; s.tag = 1; s.a = i; p.entries.push_back(s); unsigned n = np > 5000 && i % 16 ? 0 : (unsigned)choose(W, 7);
        for (unsigned j = 0; j < n; j++) {
            MEntry e; uint64_t a = base + stride * choose(W, pool);
            if (choose(W, 5) < 3) {
                e.tag = 3; if (!live.empty() && chance(W, 1, 3)) a = live[choose(W, live.size())]; else if (chance(W, 1, 30)) a = UINT64_MAX - choose(W, 3);
                static const uint64_t sz[] = {16, 0, 1, 8, 15, 17, 64, 0, 4096, 0x10000}; e.a = a; e.b = chance(W, 1, many ? 30 : 3) ? 0 : sz[choose(W, many ? 7 : 10)]; if (stride == 1 && e.b > 16) e.b &= 15; if (wide && e.b && chance(W, 1, 3)) { static const uint64_t hu[] = {0x100000000ull, 0x180000001ull, 0x80000000ull, 0xffffffffull, 1ull << 40, 1ull << 62, 1ull << 63, 0x12345678}; e.b = hu[choose(W, 8)]; } if (e.a + e.b < e.a) e.b = 0; if (live.size() < 5000) live.push_back(a); else live[choose(W, 5000)] = a;
            } else { e.tag = 2; e.v.name = 0; e.v.type = t.types.size() > 2 && chance(W, 1, 4) ? 2 : 0; e.v.fmt = FP; e.v.size = t.types[e.v.type].size; e.v.value = (!live.empty() && chance(W, 1, 2) ? live[choose(W, live.size())] : a) + (chance(W, 1, 2) ? choose(W, 20) - 2 : 0); if (wide && chance(W, 1, 3)) { static const uint64_t off[] = {0x80000001ull, 0x100000000ull, 0x100000001ull, 0x17fffffffull, 0xfffffffeull, 1ull << 39, 1ull << 61}; e.v.value += off[choose(W, 7)]; } if (chance(W, 1, 20)) e.v.value = UINT64_MAX; if (e.v.size < 8) e.v.value &= (1ull << (8 * e.v.size)) - 1; }
            p.entries.push_back(e);
        }
        t.points.push_back(p);
    }
    finish_model(t); Encoded e = encode(t); hash_trace(t); size_t nptr = 0, nhas = 0; for (auto& p : t.points) for (auto& v : p.vars) { nptr++; nhas += v.has_bs; }
    sample("%u points, %zu pointers (%zu inside live regions), stride %llx, rand mode %d", np, nptr, nhas, (unsigned long long)stride, g_rand_mode);
    static const uint64_t cm[] = {0, 13, 300}; bool via_db = chance(W, 1, 2); void* db = new_db();
    unsigned rounds = 1 + (unsigned)choose(W, 2);
    for (unsigned r = 0; r < rounds; r++) {                       // the second read makes different random choices
        auto nd = make_file("/t/x", e.bytes); nd->chunk_max = cm[choose(D, 3)]; fault(F_RAND_SKEW);
        if (via_db) { if (!do_add(db, "/t/x", 0, 0)) violation("ingest-failed", "a well-formed trace was refused"); must_equal("wrong-buffer-size", t, trace_of(db, r), "buffer sizes"); }
        else { void* p = do_read("/t/x", 0, 0); if (!p) violation("ingest-failed", "a well-formed trace was refused"); must_equal("wrong-buffer-size", t, p, "buffer sizes"); free_trace_(p); }
        g_rand_mode = (int)choose(R, 6); log_event("round %u", r);
    }
    free_db_(db);
}
static Reg r11("C11", false, c11);

// ---------------------------------------------------------------- C13
static void c13() {
    GenCfg g = draw_gencfg(100); g.canonical = g.odd_floats = true; draw_rand();
    MTrace m = gen_trace(g); Encoded e = encode(m); hash_trace(m); make_file("/t/in", e.bytes);
    void* t = do_read("/t/in", 0, 0); if (!t) violation("ingest-failed", "a well-formed trace was refused");
    unsigned rounds = 1 + (unsigned)choose(W, 4); if (g.huge && rounds > 2) rounds = 2;
    for (unsigned r = 0; r < rounds; r++) {
        Out o; o.full_at = o.err_at = UINT64_MAX; o.failed = false;
        if (r > 0 || chance(F, 1, 2)) {
            uint64_t at; switch (choose(F, 3)) { case 0: at = choose(F, e.bytes.size() + 1); break; case 1: at = e.ends.empty() ? e.header : e.ends[choose(F, e.ends.size())]; break; default: { int64_t x = (int64_t)(e.ends.empty() ? e.header : e.ends[choose(F, e.ends.size())]) + (int64_t)choose(F, 9) - 5; at = x < 0 ? 0 : (uint64_t)x; } }
            if (chance(F, 1, 2)) o.full_at = at; else o.err_at = at; o.transient = chance(F, 1, 3);
        }
        int rc; { App a; rc = shim_write(t, sink, &o); } op(); log_event("write -> %d, %zu bytes%s", rc, o.s.size(), o.failed ? " (failed)" : ""); checked();
        if (r == 0) sample("%zu bytes, %s at %zu", e.bytes.size(), o.failed ? "output fails" : "no failure", o.s.size());
        if (o.failed && rc == 0) violation("failure-hidden", "the output failed after %zu bytes but the stream is still good", o.s.size());
        if (!o.failed && rc) violation("spurious-failure", "writing a trace reported an error although every byte was accepted");
        make_file("/t/out", o.s); void* u = do_read("/t/out", 0, 0);
        if (!o.failed) {
            if (!u) violation("not-readable", "a rewritten trace cannot be read back");
            must_equal("rewrite-differs", m, u, "rewritten trace"); int eq; { App a; eq = shim_trace_eq(t, u); } if (!eq) violation("rewrite-unequal", "a rewritten trace does not compare equal to the original");
        } else if (u) { MTrace got = dump_trace(u); if (got.points.size() > m.points.size()) violation("rewrite-differs", "more points than written"); must_equal("rewrite-differs", prefix(m, got.points.size()), u, "prefix of a rewritten trace"); probe("prefix of a failed rewrite was readable"); }
        if (u) free_trace_(u);
    }
    must_equal("source-changed", m, t, "trace after rewriting"); free_trace_(t);
}
static Reg r13("C13", false, c13);
