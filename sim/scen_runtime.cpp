// Runtime of instrumented programs: C15 C16 C17 (built only for these properties)
#include "scen.hpp"
extern "C" {
typedef struct { uint32_t name, type, size; int fmt; uint64_t i; double d; } rt_var;
typedef struct { uint32_t name, type, size; const void* p; } rt_blob;
void rt_id(unsigned long long); void rt_end(void); void rt_bufsize(void*, unsigned long long); void rt_vars(unsigned, const rt_var*); void rt_blobs(unsigned, const rt_blob*); const char* rt_env(void);
unsigned rt_vars_many(void); const char* rt_names[512]; unsigned rt_types[3 * 512]; unsigned long rt_n_names, rt_n_types;
typedef void (*rt_fn)(void);
extern rt_fn __start_sim_rt_init[], __stop_sim_rt_init[];
}
static void rt_start() { App a; for (rt_fn* f = __start_sim_rt_init; f < __stop_sim_rt_init; f++) if (*f) (*f)(); }

static MTrace gen_header() {
    MTrace m; unsigned nn = (unsigned)choose(W, 6); bool wide = chance(W, 1, 30); if (wide) nn = 250 + (unsigned)choose(W, 200); for (unsigned i = 0; i < nn; i++) { std::string s; unsigned l = (unsigned)choose(W, chance(W, 1, 8) ? 300 : 9); for (unsigned j = 0; j < l; j++) s += (char)('a' + (i * 3 + j) % 26); m.names.push_back(s); }
    unsigned nt = nn ? (unsigned)choose(W, 7) : 0; if (wide && chance(W, 1, 2)) nt = 250 + (unsigned)choose(W, 200);
    for (unsigned i = 0; i < nt; i++) { MType t; t.name = (uint32_t)choose(W, nn); t.fmt = (uint32_t)choose(W, 5); static const uint32_t s4[] = {4, 8, 1, 2}; t.size = t.fmt <= FS ? s4[choose(W, 4)] : t.fmt == FF ? s4[choose(W, 2)] : t.fmt == FP ? 8 : 0; m.types.push_back(t); }
    return m;
}
static void install(const MTrace& h) {
    static std::vector<std::string> keep; keep = h.names; rt_n_names = h.names.size(); rt_n_types = h.types.size();
    for (size_t i = 0; i < keep.size(); i++) rt_names[i] = keep[i].c_str();
    for (size_t i = 0; i < h.types.size(); i++) { rt_types[3 * i] = h.types[i].name; rt_types[3 * i + 1] = h.types[i].fmt; rt_types[3 * i + 2] = h.types[i].size; }
}
static MPoint gen_rt_point(const MTrace& h, uint64_t id) {
    MPoint p; MEntry s; s.tag = 1; s.a = id; p.entries.push_back(s); unsigned nb = (unsigned)choose(W, 3), nv = h.types.empty() ? 0 : (unsigned)choose(W, 4); if (nv == 3 && chance(W, 1, 3)) nv = 3 + (unsigned)choose(W, 6);
    bool many = !h.types.empty() && chance(W, 1, 20); if (many) nv = 7 + (unsigned)choose(W, rt_vars_many() - 7);
    for (unsigned i = 0; i < nb; i++) { MEntry e; e.tag = 3; e.a = 0x1000 + 16 * choose(W, 6); e.b = chance(W, 1, 6) ? bits64(W) >> 1 : choose(W, 3) * 8; if (chance(W, 1, 6)) e.a = bits64(W) >> 1; p.entries.push_back(e); }
    std::vector<MEntry> vs, bs;
    for (unsigned i = 0; i < nv; i++) {
        MEntry e; e.tag = 2; e.v.name = (uint32_t)choose(W, h.names.size()); e.v.type = (uint32_t)choose(W, h.types.size()); const MType& t = h.types[e.v.type]; e.v.fmt = t.fmt; e.v.size = t.size;
        if (many && (t.fmt == FB || t.fmt == FF)) continue;
        if (t.fmt == FB) { if (bs.size() >= 8) continue; e.v.size = (uint32_t)choose(W, chance(W, 1, 6) ? 3000 : 9); for (uint32_t j = 0; j < e.v.size; j++) e.v.blob += (char)(id * 7 + j * 3); bs.push_back(e); continue; }
        if (t.fmt == FF) { static const double ds[] = {0, 1.5, -2.25, 1e9, 0.125}; double d = ds[choose(W, 5)]; if (t.size == 4) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); e.v.value = u; } else memcpy(&e.v.value, &d, 8); }
        else { uint64_t v = chance(W, 1, 2) ? choose(W, 300) : bits64(W); if (t.fmt == FP && chance(W, 3, 4)) v = 0x1000 + choose(W, 120); if (t.size < 8) { v &= (1ull << (8 * t.size)) - 1; if (t.fmt == FS && (v >> (8 * t.size - 1))) v |= ~((1ull << (8 * t.size)) - 1); } e.v.value = v; }
        if (!many && vs.size() >= 6) continue;
        vs.push_back(e);
    }
    p.entries.insert(p.entries.end(), vs.begin(), vs.end()); p.entries.insert(p.entries.end(), bs.begin(), bs.end());
    return p;
}
// what the instrumented program executes at a trace point
static void emit(const MPoint& p) {
    App a; rt_id(p.entries[0].a);
    rt_var v[64]; rt_blob b[8]; unsigned nv = 0, nb = 0;
    for (auto& e : p.entries) {
        if (e.tag == 3) rt_bufsize((void*)e.a, e.b);
        else if (e.tag == 2 && e.v.fmt == FB) { b[nb++] = {e.v.name, e.v.type, e.v.size, e.v.blob.data()}; }
        else if (e.tag == 2) { rt_var x; x.name = e.v.name; x.type = e.v.type; x.size = e.v.size; x.fmt = (int)e.v.fmt; x.i = e.v.value; x.d = 0; if (e.v.fmt == FF) { if (e.v.size == 4) { float f; uint32_t u = (uint32_t)e.v.value; memcpy(&f, &u, 4); x.d = f; } else memcpy(&x.d, &e.v.value, 8); } v[nv++] = x; }
    }
    if (nv) rt_vars(nv, v);
    if (nb) rt_blobs(nb, b);
    rt_end();
}
static bool same_entries(const MPoint& a, const MPoint& b) {
    if (a.entries.size() != b.entries.size()) return false;
    for (size_t i = 0; i < a.entries.size(); i++) { const MEntry &x = a.entries[i], &y = b.entries[i]; if (x.tag != y.tag || x.a != y.a || x.b != y.b) return false; if (x.tag == 2 && !(x.v.name == y.v.name && x.v.type == y.v.type && x.v.size == y.v.size && x.v.value == y.v.value && x.v.blob == y.v.blob)) return false; }
    return true;
}
struct Prog { MTrace h; std::vector<std::vector<MPoint>> pts; std::vector<size_t> begun, done; bool fifo; std::string path = "/out/trace"; std::shared_ptr<Node> node; std::string drained; };
static std::string output(const Prog& p) { auto it = k->fs.find(p.path); return it == k->fs.end() ? std::string() : it->second->durable_log; }
static void prepare(Prog& p) {
    p.h = gen_header(); install(p.h); static const size_t bufs[] = {4096, 16, 64, 512}; k->stdio_buf = bufs[choose(D, 4)];
    unsigned nt = 1 + (unsigned)choose(W, 3); p.pts.resize(nt); p.begun.assign(nt, 0); p.done.assign(nt, 0);
    for (unsigned t = 0; t < nt; t++) { unsigned n = 1 + (unsigned)choose(W, 5); for (unsigned i = 0; i < n; i++) p.pts[t].push_back(gen_rt_point(p.h, ((uint64_t)(t + 1) << 32) | i)); }
    for (auto& v : p.pts) for (auto& q : v) hash_bytes(&q.entries[0].a, 8);
    p.fifo = choose(D, 3) == 1;
    k->env[rt_env()] = "/out/hs"; make_file("/out/hs", p.path);
    if (p.fifo) { p.node = make_fifo(p.path); p.node->capacity = chance(D, 1, 2) ? 64 : 65536; p.node->readers = 1; p.node->r_counter = 1; } else p.node = make_file(p.path, "");
    if (chance(D, 1, 2)) p.node->wmax = 1 + choose(D, 20);
}
static void drain_loop(Prog& p) {       // a slow collector emptying the FIFO
    if (!p.fifo) return; auto nd = p.node; static std::function<void()> step; step = [nd] { if (!nd->data.empty()) { size_t c = 1 + choose(D, nd->data.size()); nd->data.erase(0, c); nd->total_read += c; } static int left; if (++left < 4000) after((1 + choose(D, 5)) * MS, step); else { nd->data.clear(); nd->capacity = SIZE_MAX / 2; } }; after(MS, step);
}
// a kill placed shortly after the program has begun its n-th point
struct Kill { size_t after_points = SIZE_MAX; uint64_t steps = 0; size_t begun = 0; };
static void begin_point(Prog& p, size_t t, Kill* kl) { p.begun[t]++; if (kl && ++kl->begun == kl->after_points) crash_at_step(sh->steps + kl->steps); }
static void threads(Prog& p, Kill* kl = nullptr) { for (size_t t = 0; t < p.pts.size(); t++) spawn([&p, t, kl] { for (auto& q : p.pts[t]) { begin_point(p, t, kl); emit(q); p.done[t]++; op(); } }); }

// split what was written into points; checks everything about order and content; returns number of points per thread
static void check_output(const Prog& p, const std::string& bytes, bool crashed) {
    MTrace d; size_t hdr; bool partial; size_t all_done = 0; for (auto x : p.done) all_done += x;
    bool wf = decode_independent(bytes, d, hdr, partial); checked();
    if (!wf) violation("malformed", "the emitted bytes are not a well-formed trace");
    if (!hdr) { if (!crashed || all_done) violation("header-missing", "%zu points were completed but the header is incomplete in the trace", all_done); 
        MTrace hh = p.h; Encoded he = encode(hh); if (he.bytes.compare(0, bytes.size(), bytes) != 0) violation("malformed", "the partial header differs from what the program passed"); return; }
    if (d.names != p.h.names || !(d.types == p.h.types)) violation("header-differs", "the header differs from what the program passed");
    if (!crashed && partial) violation("partial-point", "the trace ends in an incomplete point");
    std::vector<size_t> seen(p.pts.size(), 0);
    for (auto& q : d.points) {
        uint64_t id = q.entries.empty() ? 0 : q.entries[0].a; size_t t = (size_t)(id >> 32) - 1, i = (size_t)(id & 0xffffffff);
        if (q.entries.empty() || q.entries[0].tag != 1 || t >= p.pts.size() || i >= p.pts[t].size()) violation("mixed", "a trace point is not one the program emitted (statement %llx)", (unsigned long long)id);
        if (i != seen[t]) violation("order", "point %zu of thread %zu appears where point %zu was due (lost, duplicated or reordered)", i, t, seen[t]);
        if (!same_entries(p.pts[t][i], q)) violation("mixed", "point %zu of thread %zu is not what the program passed", i, t);
        if (i >= p.begun[t]) violation("invented", "point %zu of thread %zu was never emitted", i, t);
        seen[t]++;
    }
    for (size_t t = 0; t < p.pts.size(); t++) if (seen[t] < p.done[t]) violation("lost", "thread %zu completed %zu points but only %zu are in the trace", t, p.done[t], seen[t]);
    // and through the real reader
    make_file("/in/trace", bytes); void* tr = do_read("/in/trace", 0, 0);
    if (!tr) { if (!partial) violation("unreadable", "the reader refuses a trace of %zu complete points", d.points.size()); probe("reader refused a partial trace"); return; }
    MTrace got = dump_trace(tr);
    if (!partial && got.points.size() != d.points.size()) violation("reader-differs", "the reader returned %zu of %zu points", got.points.size(), d.points.size());
    std::string e = diff(prefix(d, got.points.size()), got); if (!e.empty()) violation("reader-differs", "%s", e.c_str());
    free_trace_(tr);
}
static void c15() {
    draw_sched(); Prog p; prepare(p); drain_loop(p); 
    rt_start(); log_event("started"); threads(p);
    JoinResult j = join_all(); if (j != JOIN_DONE) violation("deadlock", "the instrumented program's threads never finished");
    sample("%zu threads, stdio buffer %zu, %s", p.pts.size(), k->stdio_buf, p.fifo ? "FIFO" : "file");
    std::string out = output(p); hash_bytes(out.data(), out.size()); check_output(p, out, false);
}
static Reg r15("C15", true, c15);

static void c16() {
    draw_sched(); Prog p; prepare(p); drain_loop(p); 
    bool early = chance(F, 1, 8); static const uint64_t hz[] = {1500, 300, 6000, 20000}, hza[] = {100, 30, 300, 600}; uint64_t at = 1 + choose(F, (is_ts() ? hz : hza)[choose(F, 4)]); Kill kl;
    if (chance(F, 1, 2)) { size_t tot = 0; for (auto& v : p.pts) tot += v.size(); kl.after_points = 1 + choose(F, tot); kl.steps = 1 + choose(F, is_ts() ? 600 : 30); }
    JoinResult j;
    if (early) { spawn([&] { rt_start(); for (size_t t = 0; t < p.pts.size(); t++) for (auto& q : p.pts[t]) { begin_point(p, t, &kl); emit(q); p.done[t]++; op(); } }); }
    else { rt_start(); threads(p, &kl); }
    if (kl.after_points == SIZE_MAX) crash_at_step(sh->steps + at); j = join_all();
    size_t done = 0; for (auto x : p.done) done += x;
    sample("%zu threads, killed after step %llu with %zu points completed (%s)", p.pts.size(), (unsigned long long)at, done, j == JOIN_CRASHED ? "crashed" : "finished first");
    if (j == JOIN_STUCK) violation("deadlock", "the instrumented program's threads never finished");
    std::string out = output(p); hash_bytes(out.data(), out.size()); log_event("crash %d done %zu bytes %zu", j == JOIN_CRASHED, done, out.size());
    if (j == JOIN_CRASHED && done) probe("crash after completed points");
    check_output(p, out, j == JOIN_CRASHED);
}
static Reg r16("C16", true, c16);

static void c17() {
    draw_sched(); MTrace h = gen_header(); install(h); static const size_t bufs[] = {4096, 16, 64, 512}; k->stdio_buf = bufs[choose(D, 4)];
    bool hs = !chance(W, 1, 6); std::string target = "/out/tr"; unsigned l = (unsigned)choose(W, chance(W, 1, 5) ? (chance(W, 1, 2) ? 4080 : 900) : 20); for (unsigned i = 0; i < l; i++) target += (char)('a' + (i * 7 + l) % 26); if (chance(W, 1, 6)) target += " x";
    uint64_t created = 0, written = 0; bool line_there = false; static const char* ends[] = {"", "\n", "\nrest\n"}; std::string line = target + ends[choose(W, 3)];
    if (hs) {
        k->env[rt_env()] = "/out/hs"; unsigned kind = (unsigned)choose(D, 4);    // 0: everything there already
        if (kind >= 1) created = choose(D, 20) * SEC / 3;
        written = created; if (kind >= 2) written = created + (chance(D, 1, 2) ? choose(D, 5 * 1000) * MS : choose(D, 60) * SEC);
        if (written) fault(F_HANDSHAKE_DELAY);
        auto create = [] { make_file("/out/hs", ""); log_event("collector creates the handshake file"); }; auto wr = [&line, &line_there] { auto it = k->fs.find("/out/hs"); if (it == k->fs.end()) { make_file("/out/hs", line); } else it->second->data = line; line_there = true; log_event("collector writes the line"); };
        if (created == 0) create(); else at(created, create);
        if (written == 0) wr(); else at(written, wr);
    }
    uint64_t t_done = 0; bool early_open = false; 
    MPoint pt = gen_rt_point(h, (1ull << 32));
    spawn([&] { rt_start(); t_done = now(); early_open = hs && !line_there; log_event("setup done"); emit(pt); op(); });
    JoinResult j = join_all(); checked(); sample("handshake %d, file created at %.3f s, line written at %.3f s, set-up finished at %.3f s", hs, created / 1e9, written / 1e9, t_done / 1e9);
    if (j != JOIN_DONE) violation("waits-forever", "set-up never finished (file created at %.3f s, line written at %.3f s)", created / 1e9, written / 1e9);
    if (!hs) {
        if (t_done > SEC / 2) violation("waits", "set-up without a handshake path took %.3f s", t_done / 1e9);
        for (auto& p : k->opened) if (p != "/dev/null") violation("wrong-file", "opened %s without a handshake", p.c_str());
        return;
    }
    if (early_open) violation("proceeds-early", "set-up finished before the handshake line was written");
    if (t_done > written + 10 * SEC) violation("waits-too-long", "set-up finished %.3f s after the line was written", (t_done - written) / 1e9);
    if (k->fs.count("/out/hs")) violation("not-removed", "the handshake file was not removed");
    bool opened = false; for (auto& p : k->opened) { if (p == target) opened = true; else if (p != "/out/hs") violation("wrong-file", "opened '%s' instead of '%s'", p.c_str(), target.c_str()); }
    if (!opened) violation("wrong-file", "the trace named in the handshake was never opened");
    auto it = k->fs.find(target); std::string out = it == k->fs.end() ? "" : it->second->durable_log; hash_bytes(out.data(), out.size());
    MTrace d; size_t hdr; bool partial; if (!decode_independent(out, d, hdr, partial) || !hdr || partial) violation("no-header", "no complete header in the trace");
    if (d.names != h.names || !(d.types == h.types)) violation("no-header", "the header differs from what the program passed");
    if (d.points.size() != 1 || !same_entries(pt, d.points[0])) violation("no-header", "the first trace point is wrong");
}
static Reg r17("C17", true, c17);
