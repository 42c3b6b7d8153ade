#include <cmath>
#include "model.hpp"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <set>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/multiprecision/cpp_dec_float.hpp>
using namespace sim;

// ------------------------------------------------------------------ generation
GenCfg draw_gencfg(unsigned huge_in) {
    GenCfg c;
    switch (choose(W, 6)) {
    case 0: break;
    case 1: c.max_points = 3; c.max_vars = 2; break;
    case 2: c.max_points = 40; break;
    case 3: c.big = true; break;
    case 4: c.few_values = true; c.max_points = 20; c.max_aux = 5; break;
    case 5: c.heavy_sizes = true; c.max_sizes = 6; break;
    }
    if (huge_in) c.huge = chance(W, 1, huge_in);
    return c;
}
static uint64_t wide64() { static const uint64_t e[] = {UINT64_MAX, 1ull << 63, (1ull << 63) - 1, 0xffffffffull, 0x80000000ull, 0x7fffffffull, 1ull << 32, UINT64_MAX - 1}; return chance(W, 1, 2) ? e[choose(W, 8)] : bits64(W); }
static std::string gen_name(const GenCfg& c) {
    unsigned len = (unsigned)choose(W, 9);
    if (c.big && chance(W, 1, 6)) len = (unsigned)range(W, 100, 6000);
    std::string s;
    uint64_t seed = choose(W, 1u << 16);
    for (unsigned i = 0; i < len; i++) { unsigned char ch = (unsigned char)(1 + (seed * 31 + i * 7 + (seed >> 3)) % 255); s += (char)ch; }
    return s;
}
static uint64_t addr(const GenCfg& c) {
    static const uint64_t bases[] = {0x1000, 0x2000, 0x1010, 0x7ffe00000000ull, 0x0, 0x1008, 0x3000, 0x1001, 0xffffffff00000000ull, 0x10000, 0x1ff8, 0x2008};
    uint64_t b = bases[choose(W, std::min<uint64_t>(c.addr_pool, 12))];
    return b;
}
static uint64_t gen_value(const GenCfg& c, const MType& t, const std::vector<uint64_t>& addrs) {
    if (t.fmt == FP) {
        switch (choose(W, 4)) {
        case 0: return addr(c) + choose(W, 40);
        case 1: return addrs.empty() ? addr(c) : addrs[choose(W, addrs.size())];
        case 2: { uint64_t b = addrs.empty() ? addr(c) : addrs[choose(W, addrs.size())]; return b + choose(W, 48) - 4; }
        default: return chance(W, 1, 4) ? UINT64_MAX - choose(W, 3) : bits64(W);
        }
    }
    if (t.fmt == FF) {
        static const double vals[] = {0, 1, -1, 0.5, 3.25, 1e10, -2.75, 100, 1e-3, 123456.789};
        double d = vals[choose(W, 10)];
        if (!c.finite_floats && chance(W, 1, 6)) {
            static const uint64_t s8[] = {0x7ff8000000000000ull, 0xfff8000000000001ull, 0x7ff0000000000001ull, 0x7ff0000000000000ull, 0xfff0000000000000ull}; static const uint32_t s4[] = {0x7fc00000u, 0xffc00001u, 0x7f800001u, 0x7f800000u, 0xff800000u};
            if (chance(W, 1, 2)) return t.size == 4 ? s4[choose(W, 5)] : s8[choose(W, 5)]; return bits64(W); }
        if (chance(W, 1, 12)) { static const uint64_t z8[] = {0x8000000000000000ull, 1, 0x7fefffffffffffffull, 0x10000000000000ull}; static const uint32_t z4[] = {0x80000000u, 1, 0x7f7fffffu, 0x800000u}; return t.size == 4 ? z4[choose(W, 4)] : z8[choose(W, 4)]; }
        if (t.size == 4) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; }
        uint64_t u; memcpy(&u, &d, 8); return u;
    }
    switch (choose(W, c.few_values ? 2 : 5)) {
    case 0: return choose(W, 3);
    case 1: return (uint64_t)-(int64_t)choose(W, 3);
    case 2: return 1ull << choose(W, 64);
    case 3: return (1ull << choose(W, 64)) - 1;
    default: return wide64();
    }
}
static uint64_t trunc_val(const MType& t, uint64_t v) {
    unsigned s = t.size;
    if (s >= 8) return v;
    uint64_t m = (1ull << (8 * s)) - 1;
    v &= m;
    if (t.fmt == FS && (v >> (8 * s - 1) & 1)) v |= ~m;
    return v;
}
static MType gen_type(const GenCfg& c, unsigned nnames) {
    MType t; t.name = (uint32_t)choose(W, nnames); t.fmt = (uint32_t)choose(W, 5); if (c.no_blobs && t.fmt == FB) t.fmt = FU;
    static const uint32_t s4[] = {4, 8, 1, 2};
    switch (t.fmt) {
    case FU: case FS: t.size = s4[choose(W, 4)]; if (t.fmt == FU && c.odd_sizes && chance(W, 1, 12)) { static const uint32_t odd[] = {3, 5, 6, 7}; t.size = odd[choose(W, 4)]; } break;
    case FF: t.size = s4[choose(W, 2)]; if (c.odd_floats && chance(W, 1, 8)) t.size = 1 + (uint32_t)choose(W, 7); break;
    case FP: t.size = c.ptr8 || !chance(W, 1, 5) ? 8 : 4; if (t.size == 4 && c.odd_sizes && chance(W, 1, 3)) t.size = 1 + (uint32_t)choose(W, 7); break;
    case FB: t.size = chance(W, 1, 2) ? (uint32_t)range(W, 1, c.blob_max ? c.blob_max : 20) : 0; break;
    }
    return t;
}
// traces whose counts exceed 8- and 16-bit ranges, built from few decisions
static MTrace gen_huge(const GenCfg& c) {
    MTrace t; static const uint32_t cnt[] = {300, 66000, 5000, 40000}, cnts[] = {300, 9000, 5000, 2000}; uint32_t n = (is_ts() ? cnts : cnt)[choose(W, 4)]; unsigned kind = (unsigned)choose(W, 8); probe("huge trace"); if ((kind == 2 || kind == 3) && n > 10000 && chance(W, 1, 2)) n = 1050000 + (uint32_t)choose(W, 1200000);
    t.names = {"a", "b", "c"}; t.types = {{0, FU, 4}, {1, FP, 8}, {2, FB, 0}, {1, FS, 2}};
    if (kind == 0) for (uint32_t i = 0; i < n; i++) t.names.push_back("n" + std::to_string(i));
    if (kind == 1) for (uint32_t i = 0; i < n; i++) t.types.push_back({i % 3, i % 3 == 2 ? (uint32_t)FP : i % 2, i % 3 == 2 ? 8u : 4u});
    if (kind == 2) t.names.push_back(std::string(n, 'x') + "y");
    if (kind == 3) t.types.push_back({0, FB, n});
    auto var = [&](uint32_t name, uint32_t type, uint64_t v) { MEntry e; e.tag = 2; e.v.name = name; e.v.type = type; e.v.fmt = t.types[type].fmt; e.v.size = t.types[type].size; if (e.v.fmt == FB) { if (!e.v.size) e.v.size = (uint32_t)v; for (uint32_t i = 0; i < e.v.size; i++) e.v.blob += (char)(i * 7 + (i >> 8)); } else e.v.value = trunc_val(t.types[type], v); return e; };
    unsigned np = kind == 4 ? std::min(n, c.huge_points) : 1 + (unsigned)choose(W, 3), big = (unsigned)choose(W, np);
    for (unsigned i = 0; i < np; i++) {
        MPoint p; MEntry s; s.tag = 1; s.a = i * 0x100000001ull; p.entries.push_back(s);
        if (kind == 5 && i == big) for (uint32_t j = 0; j < n; j++) { MEntry e; e.tag = 3; e.a = 0x1000 + 16 * (uint64_t)(j % 1000); e.b = j % 17; p.entries.push_back(e); }
        p.entries.push_back(var(0, 0, i)); p.entries.push_back(var((uint32_t)t.names.size() - 1, (uint32_t)t.types.size() - 1, 5)); p.entries.push_back(var((uint32_t)(t.names.size() / 2), 1, 0x1004));
        if (kind == 6 && i == big) for (uint32_t j = 0; j < n; j++) p.entries.push_back(var(j % 3, j % 2 ? 0 : 3, j));
        if (kind == 2 || kind == 3) p.entries.push_back(var(1, 2, i == big ? n : 3));
        MEntry a; a.tag = 4; a.a = i; p.entries.push_back(a);
        if (kind == 7 && i == big) for (uint32_t j = 0; j < n; j++) { MEntry e; e.tag = 4; e.a = j; p.entries.push_back(e); }
        t.points.push_back(p);
    }
    finish_model(t); return t;
}
MTrace gen_trace(const GenCfg& c) {
    if (c.huge) return gen_huge(c);
    MTrace t;
    unsigned nn = (unsigned)choose(W, c.max_names + 1);
    if (c.big && chance(W, 1, 10)) nn = (unsigned)range(W, 200, 700);
    for (unsigned i = 0; i < nn; i++) t.names.push_back(gen_name(c));
    unsigned nt = nn ? (unsigned)choose(W, c.max_types + 1) : 0;
    if (nn && c.big && chance(W, 1, 10)) nt = (unsigned)range(W, 100, 500);
    for (unsigned i = 0; i < nt; i++) t.types.push_back(gen_type(c, nn));
    unsigned np = (unsigned)choose(W, c.max_points + 1);
    std::vector<uint64_t> addrs; std::vector<std::string> blobs;
    for (unsigned i = 0; i < np; i++) {
        MPoint p; MEntry e; e.tag = 1;
        e.a = chance(W, 1, 5) ? wide64() : (choose(W, 3) << 32 | choose(W, 4));
        p.entries.push_back(e);
        std::vector<MEntry> rest;
        unsigned ns = (unsigned)choose(W, c.max_sizes + 1), nv = nt ? (unsigned)choose(W, c.max_vars + 1) : 0, na = (unsigned)choose(W, c.max_aux + 1);
        std::vector<int> kinds;
        for (unsigned j = 0; j < ns; j++) kinds.push_back(3);
        for (unsigned j = 0; j < nv; j++) kinds.push_back(2);
        for (unsigned j = 0; j < na; j++) kinds.push_back(4);
        if (!c.canonical && chance(W, 1, 3)) for (size_t j = kinds.size(); j > 1; j--) std::swap(kinds[j - 1], kinds[choose(W, j)]);
        for (int kd : kinds) {
            MEntry x; x.tag = kd;
            if (kd == 3) {
                x.a = (!addrs.empty() && chance(W, 1, 2)) ? addrs[choose(W, addrs.size())] : addr(c) + (chance(W, 1, 3) ? choose(W, 40) : 0);
                static const uint64_t szs[] = {16, 0, 1, 8, 32, 4096, 0, 15};
                x.b = szs[choose(W, 8)]; if (chance(W, 1, 16)) { static const uint64_t hu[] = {0x100000000ull, 0x180000001ull, 1ull << 62, 1ull << 63, 0xffffffffull, UINT64_MAX - 1, 3ull << 61}; x.b = hu[choose(W, 7)]; }
                if (chance(W, 1, 40)) x.a = UINT64_MAX - choose(W, 2);
                if (x.a + x.b < x.a) x.b = 0;
                if (std::find(addrs.begin(), addrs.end(), x.a) == addrs.end()) addrs.push_back(x.a);
            } else if (kd == 4) x.a = c.few_values ? choose(W, 2) : chance(W, 1, 2) ? choose(W, 4) : wide64();
            else {
                x.v.name = (uint32_t)choose(W, nn); x.v.type = (uint32_t)choose(W, nt);
                const MType& ty = t.types[x.v.type];
                x.v.fmt = ty.fmt; x.v.size = ty.size;
                if (ty.fmt == FB) {
                    if (ty.size == 0) { x.v.size = (uint32_t)choose(W, c.blob_max ? c.blob_max : 12); if (c.big && chance(W, 1, 6)) x.v.size = (uint32_t)range(W, 1000, 20000); }
                    uint64_t sd = choose(W, c.few_values ? 2 : 64);
                    if (ty.size == 0 && c.big && chance(W, 1, 25)) x.v.size = 65536 + (uint32_t)choose(W, 3000);
                    for (uint32_t b = 0; b < x.v.size; b++) x.v.blob += (char)((sd * 37 + b * (sd & 3)) & 255);
                    // much like an earlier one: contents which differ in one byte only, often the last
                    if (!blobs.empty() && chance(W, 1, 4)) { const std::string& y = blobs[choose(W, blobs.size())]; if (!y.empty() && (ty.size == 0 || ty.size == y.size())) { x.v.blob = y; x.v.size = (uint32_t)y.size(); x.v.blob[chance(W, 1, 2) ? y.size() - 1 : choose(W, y.size())] ^= (char)(1 << choose(W, 8)); } }
                    if (blobs.size() < 6) blobs.push_back(x.v.blob);
                } else x.v.value = trunc_val(ty, gen_value(c, ty, addrs));
            }
            rest.push_back(x); if (c.few_values && chance(W, 1, 8)) for (unsigned r = 1 + (unsigned)choose(W, 3); r; r--) rest.push_back(x);      // repeated entries
        }
        p.entries.insert(p.entries.end(), rest.begin(), rest.end());
        if (c.free_order && chance(W, 1, 6)) std::rotate(p.entries.begin(), p.entries.begin() + 1, p.entries.begin() + 1 + choose(W, p.entries.size()));
        t.points.push_back(p); if (c.few_values && chance(W, 1, 12)) t.points.push_back(p);
    }
    finish_model(t);
    return t;
}
struct BufMap { std::map<uint64_t, uint64_t> m;
    void upd(uint64_t a, uint64_t s) { if (a == UINT64_MAX) return; if (s == 0) m.erase(a); else m[a] = s; }
    bool look(uint64_t a, uint64_t& out) const {
        if (a == UINT64_MAX) return false;
        auto i = m.upper_bound(a); if (i == m.begin()) return false; --i;
        uint64_t end = i->first + i->second; if (a > end) return false; out = end - a; return true; } };
void finish_model(MTrace& t) {
    BufMap bm;
    for (auto& p : t.points) {
        p.stmt = 0; p.sizes.clear(); p.vars.clear(); p.aux.clear();
        for (auto& e : p.entries) {
            if (e.tag == 1) p.stmt = e.a;
            else if (e.tag == 3) { p.sizes.push_back({e.a, e.b}); bm.upd(e.a, e.b); }
            else if (e.tag == 4) p.aux.push_back(e.a);
            else {
                MVar v = e.v; v.has_bs = false; v.bs = 0;
                if (v.fmt == FP) { uint64_t o; if (bm.look(v.value, o)) { v.has_bs = true; v.bs = o; } }
                p.vars.push_back(v);
            }
        }
    }
}
static void put(std::string& s, uint64_t v, int n) { s.append((const char*)&v, n); }
Encoded encode(const MTrace& t) {
    Encoded e; std::string& s = e.bytes;
    uint64_t nc = 0; for (auto& n : t.names) nc += n.size() + 1;
    put(s, nc, 8); for (auto& n : t.names) { s += n; s += '\0'; }
    put(s, t.types.size(), 4); for (auto& y : t.types) { put(s, y.name, 4); put(s, y.fmt, 4); put(s, y.size, 4); }
    e.header = s.size();
    for (auto& p : t.points) {
        for (auto& x : p.entries) {
            s += (char)x.tag;
            if (x.tag == 1 || x.tag == 4) put(s, x.a, 8);
            else if (x.tag == 3) { put(s, x.a, 8); put(s, x.b, 8); }
            else {
                put(s, x.v.name, 4); put(s, x.v.type, 4);
                if (x.v.fmt == FB) { if (t.types[x.v.type].size == 0) put(s, x.v.size, 4); s += x.v.blob; }
                else put(s, x.v.value, x.v.size);
            }
        }
        s += '\0'; e.ends.push_back(s.size());
    }
    return e;
}
MTrace prefix(const MTrace& t, size_t n) { MTrace r = t; if (r.points.size() > n) r.points.resize(n); return r; }

bool decode_independent(const std::string& b, MTrace& t, size_t& done, bool& partial) {
    size_t o = 0; t = MTrace(); done = 0; partial = false;
    auto get = [&](void* p, size_t n) { if (o + n > b.size()) return false; memcpy(p, b.data() + o, n); o += n; return true; };
    uint64_t nc; uint32_t nt; if (!get(&nc, 8)) { partial = true; return !b.empty() || true; }
    if (nc > b.size() - o) { partial = true; return true; }
    std::string cur; for (uint64_t i = 0; i < nc; i++) { char ch = b[o++]; if (ch) cur += ch; else { t.names.push_back(cur); cur.clear(); } }
    if (nc && b[o - 1]) return false;
    if (!get(&nt, 4)) { partial = true; return true; }
    for (uint32_t i = 0; i < nt; i++) { MType y; if (!get(&y.name, 4) || !get(&y.fmt, 4) || !get(&y.size, 4)) { partial = true; return true; } if (y.fmt > 4 || y.name >= t.names.size()) return false; t.types.push_back(y); }
    done = 1;                                          // header complete
    for (;;) {
        if (o == b.size()) break;
        MPoint p; bool complete = false;
        for (;;) {
            unsigned char tag; if (!get(&tag, 1)) break;
            if (tag == 0) { complete = true; break; }
            MEntry e; e.tag = tag;
            if (tag == 1 || tag == 4) { if (!get(&e.a, 8)) break; }
            else if (tag == 3) { if (!get(&e.a, 8) || !get(&e.b, 8)) break; }
            else if (tag == 2) {
                if (!get(&e.v.name, 4) || !get(&e.v.type, 4)) break;
                if (e.v.type >= t.types.size() || e.v.name >= t.names.size()) { finish_model(t); return false; }
                const MType& y = t.types[e.v.type]; e.v.fmt = y.fmt; e.v.size = y.size;
                if (y.fmt == FB) { if (!y.size) { if (!get(&e.v.size, 4)) break; } if (o + e.v.size > b.size()) { o = b.size(); break; } e.v.blob.assign(b, o, e.v.size); o += e.v.size; }
                else { if (y.size > 8 || (y.fmt == FS && (!y.size || (y.size & (y.size - 1))))) { finish_model(t); return false; } if (!get(&e.v.value, y.size)) break; e.v.value = trunc_val(y, e.v.value); }
            } else { finish_model(t); return false; }
            p.entries.push_back(e);
        }
        if (!complete) { partial = true; break; }
        t.points.push_back(p);
    }
    finish_model(t);
    return true;
}

// ------------------------------------------------------------------ inspection
static MTrace* dst_; 
static void cb_name(void* c, const char* s, size_t n) { Sim g; ((MTrace*)c)->names.emplace_back(s, n); }
static void cb_type(void* c, uint32_t n, uint32_t f, uint32_t s) { Sim g; ((MTrace*)c)->types.push_back({n, f, s}); }
static void cb_point(void* c, uint64_t st, uint64_t number) { Sim g; ((MTrace*)c)->points.emplace_back(); ((MTrace*)c)->points.back().stmt = st; ((MTrace*)c)->points.back().number = number; }
static void cb_size(void* c, uint64_t a, uint64_t s) { Sim g; ((MTrace*)c)->points.back().sizes.push_back({a, s}); }
static void cb_var(void* c, uint64_t v, uint32_t n, uint32_t ty, uint32_t f, uint32_t s, uint64_t bs, int has) {
    Sim g; MVar x; x.name = n; x.type = ty; x.fmt = f; x.size = s; x.bs = bs; x.has_bs = has != 0;
    if (f == FB) { if (s) { if (!v) violation("null-blob", "blob of size %u has no data", s); x.blob.assign((const char*)v, s); } } else x.value = v;
    ((MTrace*)c)->points.back().vars.push_back(x);
}
static void cb_aux(void* c, uint64_t v) { Sim g; ((MTrace*)c)->points.back().aux.push_back(v); }
MTrace dump_trace(const void* t) {
    MTrace m; shim_cb cb = {cb_name, cb_type, cb_point, cb_size, cb_var, cb_aux};
    { App a; shim_dump(t, &cb, &m); }
    return m;
}
static std::string sf(const char* f, ...) { char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static std::string dvar(const MVar& v) { return sf("{name %u type %u fmt %u size %u value %llx blob[%zu] bs %d:%llu}", v.name, v.type, v.fmt, v.size, (unsigned long long)v.value, v.blob.size(), v.has_bs, (unsigned long long)v.bs); }
std::string diff(const MTrace& w, const MTrace& g) {
    if (w.names != g.names) { if (w.names.size() != g.names.size()) return sf("%zu names instead of %zu", g.names.size(), w.names.size()); for (size_t i = 0; i < w.names.size(); i++) if (w.names[i] != g.names[i]) return sf("name %zu differs", i); }
    if (w.types.size() != g.types.size()) return sf("%zu types instead of %zu", g.types.size(), w.types.size());
    for (size_t i = 0; i < w.types.size(); i++) if (!(w.types[i] == g.types[i])) return sf("type %zu is (%u,%u,%u) instead of (%u,%u,%u)", i, g.types[i].name, g.types[i].fmt, g.types[i].size, w.types[i].name, w.types[i].fmt, w.types[i].size);
    if (w.points.size() != g.points.size()) return sf("%zu points instead of %zu", g.points.size(), w.points.size());
    for (size_t i = 0; i < w.points.size(); i++) {
        const MPoint &a = w.points[i], &b = g.points[i];
        if (b.number != UINT64_MAX && b.number != i) return sf("point %zu is numbered %llu", i, (unsigned long long)b.number);
        if (a.stmt != b.stmt) return sf("point %zu: statement %llx instead of %llx", i, (unsigned long long)b.stmt, (unsigned long long)a.stmt);
        if (a.sizes != b.sizes) return sf("point %zu: buffer size records differ (%zu instead of %zu)", i, b.sizes.size(), a.sizes.size());
        if (a.aux != b.aux) return sf("point %zu: auxiliary values differ (%zu instead of %zu)", i, b.aux.size(), a.aux.size());
        if (a.vars.size() != b.vars.size()) return sf("point %zu: %zu variables instead of %zu", i, b.vars.size(), a.vars.size());
        for (size_t j = 0; j < a.vars.size(); j++) if (!(a.vars[j] == b.vars[j])) return sf("point %zu variable %zu: ", i, j) + dvar(b.vars[j]) + " instead of " + dvar(a.vars[j]);
    }
    return "";
}
// the same comparison through the C interface
std::string diff_capi(const MTrace& w, const void* t, bool deep) {
    uint64_t n; uint32_t nt, nn; api_point* ps; const char **ty, **nm;
    { App a; n = api_trace_size(t); nt = api_n_types(t); nn = api_n_names(t); }
    if (n != w.points.size()) return sf("C interface: %llu points instead of %zu", (unsigned long long)n, w.points.size());
    if (nt != w.types.size() || nn != w.names.size()) return sf("C interface: %u types / %u names instead of %zu / %zu", nt, nn, w.types.size(), w.names.size());
    { App a; ty = api_get_types(t); nm = api_get_names(t); ps = api_get_points(t); }
    std::string e;
    for (uint32_t i = 0; i < nt && e.empty(); i++) if (w.names[w.types[i].name] != ty[i]) e = sf("C interface: type name %u differs", i);
    for (uint32_t i = 0; i < nn && e.empty(); i++) if (w.names[i] != nm[i]) e = sf("C interface: name %u differs", i);
    if (n && !ps) return "C interface: no points array";
    for (uint64_t i = 0; i < n && e.empty(); i++) {
        const MPoint& a = w.points[i]; const api_point& b = ps[i];
        if (a.stmt != b.statement || a.vars.size() != b.n_vars || a.aux.size() != b.n_aux) { e = sf("C interface: point %llu differs", (unsigned long long)i); break; }
        for (uint32_t j = 0; j < b.n_aux; j++) if (b.aux[j] != a.aux[j]) e = sf("C interface: point %llu aux %u differs", (unsigned long long)i, j);
        for (uint32_t j = 0; j < b.n_vars && e.empty(); j++) {
            const MVar& x = a.vars[j]; const api_var& y = b.vars[j];
            bool ok = y.format == x.fmt && y.var_name_index == x.name && y.type_name_index == w.types[x.type].name && y.size == x.size && (y.has_buffer_size != 0) == x.has_bs && y.buffer_size == x.bs;
            if (ok) { if (x.fmt == FB) ok = x.size == 0 || !memcmp((void*)y.value, x.blob.data(), x.size); else ok = y.value == x.value; }
            if (!ok) e = sf("C interface: point %llu variable %u differs from ", (unsigned long long)i, j) + dvar(x);
        }
    }
    { App a; api_free(ty); api_free(nm); api_free_points(ps, n); }
    return e;
}
std::string describe(const MTrace& t, size_t max) {
    std::string s = sf("%zu names, %zu types, %zu points", t.names.size(), t.types.size(), t.points.size());
    for (size_t i = 0; i < t.points.size() && i < max; i++) {
        s += sf("; point %zu stmt %llx sizes %zu aux %zu vars [", i, (unsigned long long)t.points[i].stmt, t.points[i].sizes.size(), t.points[i].aux.size());
        for (auto& v : t.points[i].vars) s += dvar(v); s += "]";
    }
    return s;
}
void mutate_one(MTrace& t, std::string& what) {
    // change one encoded thing so that the decoded contents differ
    for (int tries = 0; tries < 60; tries++) {
        MTrace o = t;
        unsigned kind = (unsigned)choose(W, 20);
        size_t pi = o.points.empty() ? 0 : choose(W, o.points.size());
        auto pick_entry = [&](int tag) -> long { std::vector<long> v; if (!o.points.empty()) for (size_t j = 1; j < o.points[pi].entries.size(); j++) if (o.points[pi].entries[j].tag == tag) v.push_back((long)j); return v.empty() ? -1 : v[choose(W, v.size())]; };
        switch (kind) {
        case 0: if (o.points.empty()) continue; o.points[pi].entries[0].a ^= 1ull << choose(W, 64); what = "statement"; break;
        case 1: case 2: case 3: case 4: {
            if (o.points.empty() || o.points[pi].entries.size() < 2) continue;
            MEntry& e = o.points[pi].entries[1 + choose(W, o.points[pi].entries.size() - 1)];
            if (e.tag == 4) { e.a ^= 1ull << choose(W, 64); what = "aux value"; }
            else if (e.tag == 3) { if (chance(W, 1, 2)) e.b ^= 1; else e.a ^= 8; if (e.a + e.b < e.a) continue; what = "buffer size record"; }
            else if (kind == 1 && o.names.size() > 1) { e.v.name = (e.v.name + 1) % o.names.size(); what = "variable name"; }
            else if (e.v.fmt == FB) { if (e.v.blob.empty()) continue; e.v.blob[chance(W, 1, 3) ? e.v.blob.size() - 1 : choose(W, e.v.blob.size())] ^= 1 << choose(W, 8); what = "blob byte"; }
            else { uint64_t nv = e.v.value ^ (1ull << choose(W, 8 * e.v.size)); e.v.value = trunc_val(o.types[e.v.type], nv); what = "variable value"; }
            break; }
        case 5: { if (o.names.empty()) continue; std::string& y = o.names[choose(W, o.names.size())]; what = "name text"; unsigned how = (unsigned)choose(W, 4);
            if (how == 0 || y.empty()) y += "x"; else if (how == 1) { size_t at = chance(W, 1, 2) ? y.size() - 1 : choose(W, y.size()); y[at] ^= 0x20; if (!y[at]) continue; } else if (how == 2) y.pop_back(); else { size_t at = choose(W, y.size()); y[at] ^= 1 << choose(W, 8); if (!y[at]) continue; } break; }
        case 6: if (o.points.empty()) continue; o.points.erase(o.points.begin() + (chance(W, 1, 2) ? o.points.size() - 1 : pi)); what = "point removed"; break;
        case 7: { if (o.types.empty() || o.names.size() < 2) continue; MType& y = o.types[choose(W, o.types.size())]; y.name = (y.name + 1) % o.names.size(); what = "type name"; break; }
        case 8: { if (o.points.size() < 2) continue; size_t a = choose(W, o.points.size() - 1); std::swap(o.points[a], o.points[a + 1]); what = "order of points"; break; }
        case 9: o.names.push_back(chance(W, 1, 2) ? "" : "extra"); what = "name added"; break;
        case 10: if (o.names.empty()) continue; o.types.push_back(!o.types.empty() && chance(W, 1, 2) ? o.types.back() : MType{0, FU, 4}); what = "type added"; break;
        case 11: { if (o.types.empty()) continue; size_t ti = choose(W, o.types.size()); MType& y = o.types[ti]; if (y.fmt > FS || (y.size & (y.size - 1))) continue; y.fmt = y.fmt == FU ? FS : FU;
            for (auto& p : o.points) for (auto& e : p.entries) if (e.tag == 2 && e.v.type == ti) { e.v.fmt = y.fmt; uint64_t raw = y.size < 8 ? e.v.value & ((1ull << (8 * y.size)) - 1) : e.v.value; e.v.value = trunc_val(y, raw); } what = "type format"; break; }
        case 12: { if (o.types.empty()) continue; size_t ti = choose(W, o.types.size()); bool used = false; for (auto& p : o.points) for (auto& e : p.entries) if (e.tag == 2 && e.v.type == ti) used = true; if (used) continue; MType& y = o.types[ti];
            if (y.fmt == FB) y.size++; else if (y.fmt <= FS) y.size = y.size > 4 || (y.size & (y.size - 1)) ? 1 : y.size * 2; else y.size = y.size == 8 ? 4 : 8; what = "type size"; break; }
        case 13: { long j = pick_entry(2); if (j < 0) continue; MVar& v = o.points[pi].entries[j].v; bool done = false; for (uint32_t x = 0; x < o.types.size() && !done; x++) if (x != v.type && o.types[x].fmt == o.types[v.type].fmt && o.types[x].size == o.types[v.type].size) { v.type = x; done = true; } if (!done) continue; what = "variable type"; break; }
        case 14: { int tag = 2 + (int)choose(W, 3); std::vector<size_t> v; if (!o.points.empty()) for (size_t j = 1; j < o.points[pi].entries.size(); j++) if (o.points[pi].entries[j].tag == tag) v.push_back(j); if (v.size() < 2) continue; size_t x = choose(W, v.size() - 1); std::swap(o.points[pi].entries[v[x]], o.points[pi].entries[v[x + 1]]); what = tag == 2 ? "order of variables" : tag == 3 ? "order of buffer size records" : "order of auxiliary values"; break; }
        case 15: { long j = pick_entry(2 + (int)choose(W, 3)); if (j < 0) continue; if (chance(W, 1, 2)) { o.points[pi].entries.erase(o.points[pi].entries.begin() + j); what = "entry removed"; } else { o.points[pi].entries.insert(o.points[pi].entries.begin() + j, o.points[pi].entries[j]); what = "entry repeated"; } break; }
        case 16: { long j = pick_entry(2); if (j < 0) continue; MVar& v = o.points[pi].entries[j].v; if (v.fmt != FB || o.types[v.type].size) continue; if (chance(W, 1, 2) || v.blob.empty()) v.blob += '\0'; else v.blob.pop_back(); v.size = (uint32_t)v.blob.size(); what = "blob length"; break; }
        case 17: { if (o.names.size() < 2) continue; size_t x = choose(W, o.names.size() - 1); std::swap(o.names[x], o.names[x + 1]); what = "order of names"; break; }
        case 18: { if (o.points.empty()) continue; o.points.push_back(o.points.back()); what = "last point repeated"; break; }
        case 19: { long j = pick_entry(4); if (j < 0 || o.points.size() < 2) continue; MEntry e = o.points[pi].entries[j]; o.points[pi].entries.erase(o.points[pi].entries.begin() + j); auto& q = o.points[pi ? pi - 1 : 1].entries; q.insert(pi ? q.end() : q.begin() + 1, e); what = "point of an auxiliary value"; break; }
        }
        finish_model(o);
        if (!(o == t)) { t = o; return; }
    }
    t.names.push_back("extra"); finish_model(t); what = "name added";
}

// ------------------------------------------------------------------ queries
enum { K_NULL, K_REF, K_SIZE, K_VALUE, K_DISTINCT, K_SIGNED, K_UNSIGNED, K_FLOAT, K_AND, K_OR, K_NOT, K_GT, K_GE, K_LT, K_LE, K_EQ, K_ADD, K_SUB, K_MUL, K_DIV };
static uint64_t some_value(const MTrace& t) {
    if (t.points.empty()) return 0; const MPoint& p = t.points[choose(W, t.points.size())]; if (p.vars.empty()) return 0; const MVar& v = p.vars[choose(W, p.vars.size())];
    return v.fmt == FB ? v.size : v.has_bs && chance(W, 1, 2) ? v.bs : v.value;
}
static MPred gen_num(unsigned nv, unsigned depth, const MTrace& t) {
    MPred p;
    switch (choose(W, depth ? 9 : 6)) {
    case 0: case 1: p.kind = K_VALUE; { MPred r; r.kind = K_REF; r.u = choose(W, nv); p.ch.push_back(r); } break;
    case 2: p.kind = K_SIZE; { MPred r; r.kind = K_REF; r.u = choose(W, nv); p.ch.push_back(r); } break;
    case 3: p.kind = K_UNSIGNED; p.u = chance(W, 1, 4) ? bits64(W) : choose(W, 40); if (chance(W, 1, 4)) p.u = some_value(t) + choose(W, 3) - 1; break;
    case 4: p.kind = K_SIGNED; p.s = chance(W, 1, 4) ? (int64_t)bits64(W) : (int64_t)choose(W, 5) - 2; if (chance(W, 1, 4)) p.s = (int64_t)(some_value(t) + choose(W, 3) - 1); break;
    case 5: { static const double v[] = {0, 1, -1, 0.5, 3.25, 1e10, -2.75, 1e-3}; p.kind = K_FLOAT; p.f = v[choose(W, 8)]; if (chance(W, 1, 5)) { static const double x[] = {-0.0, 1e300, -1e300, 5e-324, 2.2250738585072014e-308, 0.1, 18446744073709551616.0, -9223372036854775808.0, 1.0000000000000002, 16777217}; p.f = x[choose(W, 10)]; } break; }
    default: p.kind = K_ADD + (int)choose(W, 4); p.ch.push_back(gen_num(nv, depth - 1, t)); p.ch.push_back(gen_num(nv, depth - 1, t)); break;
    }
    return p;
}
static MPred gen_bool(unsigned nv, unsigned depth, const MTrace& t) {
    MPred p; unsigned c = (unsigned)choose(W, depth ? 9 : 6);
    if (c < 5 && chance(W, 1, 20)) {        // two sides so close that rounding one of them would change the outcome
        auto uns = [](uint64_t u) { MPred x; x.kind = K_UNSIGNED; x.u = u; return x; }; auto flt = [](double f) { MPred x; x.kind = K_FLOAT; x.f = f; return x; }; auto op2 = [](int k2, const MPred& a, const MPred& b) { MPred x; x.kind = k2; x.ch = {a, b}; return x; };
        static const uint64_t den[] = {3, 7, 10, 9, 1000003}; uint64_t a = chance(W, 1, 2) ? 1 + choose(W, 20) : some_value(t), b = den[choose(W, 5)]; MPred l, r; double q = (double)a / (double)b;
        switch (choose(W, 5)) {
        case 0: l = op2(K_DIV, uns(a), uns(b)); r = flt(q); break;
        case 1: { MPred v, ref; ref.kind = K_REF; ref.u = choose(W, nv); v.kind = K_VALUE; v.ch = {ref}; l = op2(K_DIV, v, uns(b)); r = flt(q); break; }
        case 2: l = op2(K_ADD, flt(q), flt(1e-30)); r = flt(q); break;
        case 3: l = op2(K_MUL, flt(0.1), flt(3)); r = flt(0.30000000000000004); break;
        default: l = op2(K_SUB, uns(a | 1ull << 63), flt(0.5)); r = chance(W, 1, 2) ? uns(a | 1ull << 63) : flt((double)(a | 1ull << 63)); break;
        }
        if (chance(W, 1, 2)) std::swap(l, r); p.kind = K_GT + (int)c; p.ch = {l, r}; probe("comparison of nearly equal values");
    }
    else if (c < 5) { p.kind = K_GT + (int)c; p.ch.push_back(gen_num(nv, depth ? 1 : 0, t)); p.ch.push_back(gen_num(nv, depth ? 1 : 0, t)); }
    else if (c == 5) { p.kind = K_DISTINCT; MPred a, b; a.kind = b.kind = K_REF; a.u = choose(W, nv); b.u = choose(W, nv); p.ch = {a, b}; }
    else if (c == 6) { p.kind = K_NOT; p.ch.push_back(gen_bool(nv, depth - 1, t)); }
    else { p.kind = c == 7 ? K_AND : K_OR; unsigned n = chance(W, 1, 24) ? 0 : 1 + (unsigned)choose(W, chance(W, 1, 8) ? 8 : 3); for (unsigned i = 0; i < n; i++) p.ch.push_back(gen_bool(nv, n > 3 ? 0 : depth - 1, t)); }
    return p;
}
static size_t nodes(const MPred& p) { size_t n = p.kind >= K_ADD ? 4 : 1; for (auto& c : p.ch) n += nodes(c); return n; }
MQuery gen_query(const MTrace& t, bool allow_seed) {
    MQuery q; unsigned nv = (unsigned)choose(W, 4); if (nv == 3 && !chance(W, 1, 3)) nv = 1;
    size_t mv = 0; for (auto& p : t.points) mv = std::max(mv, p.vars.size()); bool wide = false; if (mv <= 3 && t.points.size() <= 8 && chance(W, 1, 16)) { nv = 4 + (unsigned)choose(W, 4); size_t c = t.points.size(); for (unsigned i = 0; i < nv; i++) { c *= mv; if (c > 1500 && i >= 4) nv = i; } wide = chance(W, 1, 2); }
    // keep the work of one query (bindings times nodes of the predicates) within bounds
    const double budget = is_ts() ? 5e4 : 4e5; auto bindings = [&](unsigned n) { double b = 0; for (auto& p : t.points) b += std::pow((double)p.vars.size(), n); return b; };
    while (nv > 1 && bindings(nv) > budget / 8) nv--;
    for (unsigned i = 0; i < nv; i++) {
        std::vector<uint32_t> ts; unsigned n = 1 + (unsigned)choose(W, 4);
        if (chance(W, 1, 3)) for (uint32_t j = 0; j < t.types.size() && j < 700; j++) ts.push_back(j);
        else if (!chance(W, 1, 25)) for (unsigned j = 0; j < n; j++) ts.push_back((uint32_t)choose(W, t.types.size() + 1));
        if (chance(W, 1, 30)) { unsigned n = 5 + (unsigned)choose(W, chance(W, 1, 4) ? 300 : 40); std::vector<uint32_t> pre(n, (uint32_t)t.types.size() + (uint32_t)choose(W, 3)); if (!ts.empty() && chance(W, 1, 2)) pre.assign(n, ts[0]); ts.insert(ts.begin(), pre.begin(), pre.end()); probe("long list of allowed types"); }
        q.vars.push_back(ts);
    }
    if (nv && !wide && chance(W, 3, 4)) q.hard = gen_bool(nv, chance(W, 1, 20) ? 4 : (unsigned)choose(W, 3), t);
    if (q.hard.kind && chance(W, 1, 60)) { unsigned d = 1 + (unsigned)choose(W, 40); for (unsigned i = 0; i < d; i++) { MPred x; x.kind = i % 3 == 0 ? K_NOT : i % 3 == 1 ? K_AND : K_OR; x.ch.push_back(q.hard); q.hard = x; } probe("deeply nested predicate"); }
    else if (nv && chance(W, 1, 60)) { MPred x; x.kind = chance(W, 1, 2) ? K_AND : K_OR; unsigned n = 20 + (unsigned)choose(W, 280); for (unsigned i = 0; i < 3; i++) x.ch.push_back(gen_bool(nv, 0, t)); while (x.ch.size() < n) x.ch.push_back(x.ch[choose(W, 3)]); x.ch.push_back(gen_bool(nv, 0, t)); q.hard = x; probe("predicate with many children"); }
    if (nv && chance(W, 1, 3)) { unsigned n = 1 + (unsigned)choose(W, 3); if (chance(W, 1, 25)) { static const unsigned many[] = {9, 17, 33, 65, 130, 257, 260}; n = many[choose(W, 7)]; unsigned d = (unsigned)choose(W, 3) + 1; for (unsigned i = 0; i < n; i++) q.soft.push_back(i < d ? gen_bool(nv, 0, t) : q.soft[choose(W, 8) ? i % d : choose(W, d)]); probe("many soft predicates"); } else { for (unsigned i = 0; i < n; i++) q.soft.push_back(gen_bool(nv, (unsigned)choose(W, 2), t)); if (chance(W, 1, 4)) { unsigned r = 1 + (unsigned)choose(W, 2); MPred c = q.soft[choose(W, q.soft.size())]; size_t at = choose(W, q.soft.size() + 1); q.soft.insert(q.soft.begin() + at, r, c); } } }
    { double b = bindings(nv); auto work = [&] { size_t n = nodes(q.hard); for (auto& x : q.soft) n += nodes(x); return b * (double)n; };
      while (work() > budget) { if (q.soft.size() > 2) q.soft.resize(q.soft.size() / 2); else if ((q.hard.kind == K_AND || q.hard.kind == K_OR) && q.hard.ch.size() > 2) q.hard.ch.resize(q.hard.ch.size() / 2); else break; } }
    if (allow_seed && chance(W, 1, 5)) { q.seed = 1 + (uint32_t)choose(W, 1000); if (chance(W, 1, 4)) q.seed = 0xffffffffu - (uint32_t)choose(W, 1u << 31); }
    q.keep = !chance(W, 1, 3); if (wide && chance(W, 1, 2)) q.keep = false;
    if (chance(W, 1, 2)) {
        static const uint64_t ms[] = {0xffffffffffffffffull, 0xffffffff00000000ull, 3, 0x300000000ull, 1, 0};
        q.mask = ms[choose(W, 6)]; if (chance(W, 1, 8)) q.mask = bits64(W);
        q.stmt = t.points.empty() || chance(W, 1, 5) ? choose(W, 3) : (t.points[choose(W, t.points.size())].stmt & q.mask);
        if (chance(W, 1, 12)) q.stmt ^= 1ull << choose(W, 64);
    }
    return q;
}
static void collect(MPred& p, std::vector<MPred*>& o) { if (p.kind == K_NULL) return; o.push_back(&p); for (auto& c : p.ch) collect(c, o); }
// A query that differs from q in one detail, so that answers remembered for one of them must not be given for the other
void vary_query(MQuery& q, const MTrace& t) {
    unsigned nv = (unsigned)q.vars.size();
    for (int tries = 0; tries < 6; tries++) {
        std::vector<MPred*> v; collect(q.hard, v); for (auto& s : q.soft) collect(s, v);
        unsigned c = (unsigned)choose(W, 10);
        if (c < 6) {
            if (v.empty()) continue; MPred& p = *v[choose(W, v.size())];
            switch (p.kind) {
            case K_UNSIGNED: if (chance(W, 1, 4)) { p.kind = K_SIGNED; p.s = (int64_t)p.u; p.u = 0; } else p.u ^= 1ull << choose(W, 64); return;
            case K_SIGNED: if (chance(W, 1, 4)) { p.kind = K_UNSIGNED; p.u = (uint64_t)p.s; p.s = 0; } else p.s = (int64_t)((uint64_t)p.s ^ 1ull << choose(W, 64)); return;
            case K_FLOAT: { uint64_t b; memcpy(&b, &p.f, 8); uint64_t n = b ^ 1ull << choose(W, 64); double d; memcpy(&d, &n, 8); if (!(d - d == 0)) continue; p.f = d; return; }
            case K_REF: if (nv < 2) continue; p.u = (p.u + 1 + choose(W, nv - 1)) % nv; return;
            case K_SIZE: p.kind = K_VALUE; return; case K_VALUE: p.kind = K_SIZE; return;
            case K_DISTINCT: std::swap(p.ch[0], p.ch[1]); return;
            case K_NOT: { MPred x = p.ch[0]; p = x; return; }
            case K_AND: case K_OR: if (chance(W, 1, 2)) p.kind = K_AND + K_OR - p.kind; else if (p.ch.size() > 1) p.ch.pop_back(); else p.ch.push_back(gen_bool(nv, 0, t)); return;
            default: if (chance(W, 1, 2)) std::swap(p.ch[0], p.ch[1]); else if (p.kind >= K_ADD) p.kind = K_ADD + (p.kind - K_ADD + 1 + (int)choose(W, 3)) % 4; else p.kind = K_GT + (p.kind - K_GT + 1 + (int)choose(W, 4)) % 5; return;
            }
        } else if (c == 6) { if (!nv) continue; auto& a = q.vars[choose(W, nv)]; if (!a.empty() && chance(W, 1, 2)) a.erase(a.begin() + choose(W, a.size())); else a.push_back((uint32_t)choose(W, t.types.size() + 1)); return; }
        else if (c == 7) { if (chance(W, 1, 2)) q.mask ^= 1ull << choose(W, 64); else q.stmt ^= 1ull << choose(W, 64); return; }
        else if (c == 8) { if (q.soft.empty()) { if (!nv) continue; q.soft.push_back(gen_bool(nv, 0, t)); } else if (chance(W, 1, 2)) q.soft.pop_back(); else { if (q.hard.kind == K_NULL) { q.hard = q.soft.back(); q.soft.pop_back(); } else std::swap(q.hard, q.soft[0]); } return; }
        else { if (q.seed && chance(W, 1, 2)) q.seed ^= 1u << choose(W, 32); else q.keep = !q.keep; return; }
    }
}
using Int = boost::multiprecision::cpp_int; using Flt = boost::multiprecision::cpp_dec_float_50;
struct Val { bool ok = false, flt = false; Int i; Flt f; Flt asf() const { return flt ? f : i.convert_to<Flt>(); } };
static Val mk(uint64_t u) { Val v; v.ok = true; v.i = u; return v; }
static Val mks(int64_t s) { Val v; v.ok = true; v.i = s; return v; }
static Val mkf(double d) { Val v; v.ok = v.flt = true; v.f = Flt(d); return v; }
static Val mkff(float d) { Val v; v.ok = v.flt = true; v.f = Flt(d); return v; }
static Val ev(const MPred& p, const std::vector<MVar>& b) {
    switch (p.kind) {
    case K_SIZE: { const MVar& v = b[p.ch[0].u]; return v.has_bs ? mk(v.bs) : Val(); }
    case K_VALUE: { const MVar& v = b[p.ch[0].u];
        if (v.fmt == FU || v.fmt == FP) return mk(v.value);
        if (v.fmt == FS) return mks((int64_t)v.value);
        if (v.fmt == FF) { if (v.size == 4) { float f; uint32_t u = (uint32_t)v.value; memcpy(&f, &u, 4); return mkff(f); } double d; memcpy(&d, &v.value, 8); return mkf(d); }
        return Val(); }
    case K_UNSIGNED: return mk(p.u); case K_SIGNED: return mks(p.s); case K_FLOAT: return mkf(p.f);
    default: {
        Val x = ev(p.ch[0], b), y = ev(p.ch[1], b), r; if (!x.ok || !y.ok) return r;
        if (p.kind == K_DIV) { if (y.flt ? y.f == 0 : y.i == 0) return r; r.ok = r.flt = true; r.f = x.asf() / y.asf(); return r; }
        r.ok = true;
        if (!x.flt && !y.flt) { r.i = p.kind == K_ADD ? Int(x.i + y.i) : p.kind == K_SUB ? Int(x.i - y.i) : Int(x.i * y.i); }
        else { r.flt = true; Flt a = x.asf(), c = y.asf(); r.f = p.kind == K_ADD ? Flt(a + c) : p.kind == K_SUB ? Flt(a - c) : Flt(a * c); }
        return r; }
    }
}
static bool sat(const MPred& p, const std::vector<MVar>& b) {
    switch (p.kind) {
    case K_NULL: return true;
    case K_AND: for (auto& c : p.ch) if (!sat(c, b)) return false; return true;
    case K_OR: for (auto& c : p.ch) if (sat(c, b)) return true; return false;
    case K_NOT: return !sat(p.ch[0], b);
    case K_DISTINCT: return !(b[p.ch[0].u] == b[p.ch[1].u]);
    default: {
        Val x = ev(p.ch[0], b), y = ev(p.ch[1], b); if (!x.ok || !y.ok) return false;
        // every comparison with a NaN is false, as in IEEE arithmetic
        if (!x.flt && !y.flt) switch (p.kind) { case K_GT: return x.i > y.i; case K_GE: return x.i >= y.i; case K_LT: return x.i < y.i; case K_LE: return x.i <= y.i; default: return x.i == y.i; }
        Flt a = x.asf(), d = y.asf(); if ((boost::multiprecision::isnan)(a) || (boost::multiprecision::isnan)(d)) return false;
        switch (p.kind) { case K_GT: return a > d; case K_GE: return a >= d; case K_LT: return a < d; case K_LE: return a <= d; default: return a == d; } }
    }
}
std::vector<std::vector<QResult>> ref_query_per_point(const MTrace& t, const MQuery& q) {
    std::vector<std::vector<QResult>> out;
    for (auto& p : t.points) {
        if ((p.stmt & q.mask) != q.stmt) continue;
        std::vector<QResult> rs;
        if (q.vars.empty()) rs.push_back({p.stmt, {}, p.aux});
        else {
            std::vector<std::vector<const MVar*>> cand(q.vars.size()); size_t n = 1;
            for (size_t i = 0; i < q.vars.size(); i++) { for (auto& v : p.vars) if (std::find(q.vars[i].begin(), q.vars[i].end(), v.type) != q.vars[i].end()) cand[i].push_back(&v); n *= cand[i].size(); }
            std::vector<unsigned> score; unsigned best = 0;
            for (size_t x = 0; x < n; x++) {
                std::vector<MVar> b; size_t y = x; for (auto& c : cand) { b.push_back(*c[y % c.size()]); y /= c.size(); }
                if (!sat(q.hard, b)) continue;
                unsigned s = 0; for (auto& sp : q.soft) if (sat(sp, b)) s++;
                rs.push_back({p.stmt, b, p.aux}); score.push_back(s); best = std::max(best, s);
            }
            std::vector<QResult> f; for (size_t i = 0; i < rs.size(); i++) if (score[i] == best) f.push_back(rs[i]);
            rs = f;
        }
        out.push_back(rs);
    }
    return out;
}
std::vector<QResult> ref_query(const MTrace& t, const MQuery& q) { std::vector<QResult> o; for (auto& v : ref_query_per_point(t, q)) o.insert(o.end(), v.begin(), v.end()); return o; }

static void fill_pred(api_pred* o, const MPred& p) {
    memset(o, 0, sizeof *o); o->kind = p.kind; o->n_children = p.ch.size();
    o->var_index = p.u; o->unsigned_value = p.u; o->signed_value = p.s; o->float_value = p.f;
    if (!p.ch.empty()) { o->children = (api_pred*)app_malloc(sizeof(api_pred) * p.ch.size()); for (size_t i = 0; i < p.ch.size(); i++) fill_pred(o->children + i, p.ch[i]); }
}
api_pred* build_pred(const MPred& p) { if (p.kind == K_NULL) return nullptr; api_pred* r = (api_pred*)app_malloc(sizeof *r); fill_pred(r, p); return r; }
QueryFault query_fault;
void arm_alloc(uint64_t at, uint64_t n) { alloc_cfg.count = 0; alloc_cfg.fail_at = at; alloc_cfg.fail_count = n; alloc_fault_fired = false; }
bool query_cpp;
std::vector<QResult> run_query(const void* db, uint64_t index, const MTrace& t, const MQuery& q, std::string& err) {
    Sim sg; bool armed = query_fault.at != 0; query_fault.failed = false;
    std::vector<api_freevar> fv(q.vars.size()); for (size_t i = 0; i < fv.size(); i++) { fv[i].n_allowed_types = (uint32_t)q.vars[i].size(); fv[i].allowed_types = (uint32_t*)q.vars[i].data(); }
    api_pred* hard = build_pred(q.hard); std::vector<api_pred*> soft; for (auto& s : q.soft) soft.push_back(build_pred(s));
    api_point* out = nullptr; uint64_t n = 0;
    if (armed) arm_alloc(query_fault.at, query_fault.n);
    try { App a; if (query_cpp && q.keep) shim_query(db, index, fv.data(), (uint32_t)fv.size(), hard, (const api_pred**)soft.data(), (uint32_t)soft.size(), q.seed, q.mask, q.stmt, &out, &n); else api_query(db, index, fv.data(), (uint32_t)fv.size(), hard, (const api_pred**)soft.data(), (uint32_t)soft.size(), q.seed, q.keep, q.mask, q.stmt, &out, &n); }
    catch (...) { if (!armed || !alloc_fault_fired) violation("query-threw", "query_trace threw an exception"); query_fault.failed = true; n = 0; out = nullptr; }
    std::vector<QResult> rs; if (armed) { alloc_cfg.fail_at = 0; if (n && !out && alloc_fault_fired) { query_fault.failed = true; n = 0; } }
    if (n && !out) { err = "results missing"; return rs; }
    for (uint64_t i = 0; i < n; i++) {
        QResult r; r.stmt = out[i].statement; for (uint32_t j = 0; j < out[i].n_aux; j++) r.aux.push_back(out[i].aux[j]);
        for (uint32_t j = 0; j < out[i].n_vars; j++) {
            const api_var& y = out[i].vars[j]; MVar v; v.name = y.var_name_index; v.type = y.type_name_index; v.fmt = y.format; v.size = y.size; v.has_bs = y.has_buffer_size != 0; v.bs = y.buffer_size;
            if (v.fmt == FB) { if (v.size) v.blob.assign((const char*)y.value, v.size); } else v.value = y.value;
            r.vars.push_back(v);
        }
        rs.push_back(r);
    }
    { App a; api_free_points(out, n); api_free_pred(hard); for (auto s : soft) api_free_pred(s); }
    return rs;
}
static std::string full_key(const QResult& r) {
    std::string s; auto u = [&](uint64_t x) { s.append((const char*)&x, 8); }; u(r.stmt); u(r.vars.size()); u(r.aux.size());
    for (auto& v : r.vars) { u(v.name); u(v.type); u(v.fmt); u(v.size); u(v.fmt == FB ? 0 : v.value); u(v.has_bs); u(v.bs); u(v.blob.size()); s += v.blob; } for (auto a : r.aux) u(a); return s; }
static std::string key(const QResult& r) { std::string s((const char*)&r.stmt, 8); for (auto& v : r.vars) { s.append((const char*)&v.name, 4); s.append((const char*)&v.type, 4); } return s; }
// bindings to try times nodes to evaluate; a query drawn for one trace may be hopelessly large on another
bool query_too_large(const MTrace& t, const MQuery& q) {
    size_t n = 1 + nodes(q.hard); for (auto& x : q.soft) n += nodes(x); double w = 0; const double most = is_ts() ? 2e5 : 2e6; if (q.vars.empty()) return false;
    for (auto& p : t.points) { double b = 1; for (auto& f : q.vars) { size_t c = 0; for (auto& v : p.vars) c += std::find(f.begin(), f.end(), v.type) != f.end(); b *= (double)c; } w += b; if (w * (double)n > most) return true; }
    return false;
}
std::string check_query(const void* db, uint64_t index, const MTrace& t, const MQuery& q) {
    if (query_too_large(t, q)) { query_fault.at = 0; query_fault.failed = false; probe("query too large for this trace, skipped"); return ""; }
    std::string err; std::vector<QResult> got = run_query(db, index, t, q, err);
    query_fault.at = 0; if (query_fault.failed) { query_fault.failed = false; log_event("query failed for lack of memory"); probe("query failed under fault"); return ""; }
    if (!err.empty()) return err;
    log_event("query -> %zu results", got.size());
    auto pp = ref_query_per_point(t, q);
    bool novars = q.vars.empty();
    // dedup keys are computed on type *indices*; map to what the C interface shows (type name index) afterwards
    auto present = [&](QResult r) { for (auto& v : r.vars) v.type = t.types[v.type].name; if (novars) r.aux.clear(); return r; };
    for (auto& r : got) if (novars) r.aux.clear();
    auto eq_multi = [](std::vector<QResult> a, std::vector<QResult> b) {
        if (a.size() != b.size()) return false; std::vector<std::string> x, y; for (auto& r : a) x.push_back(full_key(r)); for (auto& r : b) y.push_back(full_key(r)); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); return x == y; };
    auto match = [&](const std::vector<std::vector<QResult>>& sel) -> std::string {
        if (q.keep) {
            size_t o = 0;
            for (size_t p = 0; p < sel.size(); p++) {
                std::vector<QResult> want; for (auto& r : sel[p]) want.push_back(present(r));
                if (o + want.size() > got.size()) return sf("%zu results, at least %zu expected", got.size(), o + want.size());
                std::vector<QResult> have(got.begin() + o, got.begin() + o + want.size());
                if (!(have == want) && !eq_multi(have, want)) return sf("results of selected point %zu are wrong", p);
                o += want.size();
            }
            if (o != got.size()) return sf("%zu results instead of %zu", got.size(), o);
            return "";
        }
        std::map<std::string, std::vector<QResult>> groups; for (auto& v : sel) for (auto& r : v) groups[key(r)].push_back(present(r));
        if (groups.size() != got.size()) return sf("%zu results without duplicates instead of %zu", got.size(), groups.size());
        std::set<std::string> have, any; for (auto& r : got) have.insert(full_key(r));
        for (auto& gv : groups) {
            bool m = false; for (auto& w : gv.second) { std::string k = full_key(w); if (have.count(k)) m = true; any.insert(k); }
            // two groups may look alike through the C interface (types sharing a name); require at least one representative
            if (!m) return "a distinct binding is missing from the results";
        }
        for (auto& k : have) if (!any.count(k)) return "a result is not an answer to the query";
        std::map<std::string, std::vector<size_t>> at; for (size_t p = 0; p < sel.size(); p++) for (auto& r : sel[p]) { auto& l = at[full_key(present(r))]; if (l.empty() || l.back() != p) l.push_back(p); }
        size_t cur = 0; for (auto& r : got) { auto& l = at[full_key(r)]; auto i = std::lower_bound(l.begin(), l.end(), cur); if (i == l.end()) return "results are not in the order of the points"; cur = *i; }
        return ""; };
    if (!q.seed) return match(pp);
    if (pp.empty()) return got.empty() ? "" : "results although no point is selected";
    std::string last; for (auto& one : pp) { last = match({one}); if (last.empty()) { 
        std::string e2; auto again = run_query(db, index, t, q, e2); for (auto& r : again) if (novars) r.aux.clear();
        if (!(again == got)) return "the same seeded query gave two different answers"; return ""; } }
    return "seeded query: results do not come from exactly one selected point (" + last + ")";
}
static std::string dpred(const MPred& p) {
    static const char* nm[] = {"null", "ref", "size", "value", "distinct", "s", "u", "f", "and", "or", "not", ">", ">=", "<", "<=", "=", "+", "-", "*", "/"};
    if (p.kind == K_REF) return sf("v%llu", (unsigned long long)p.u); if (p.kind == K_UNSIGNED) return sf("%lluu", (unsigned long long)p.u);
    if (p.kind == K_SIGNED) return sf("%lld", (long long)p.s); if (p.kind == K_FLOAT) return sf("%g", p.f);
    std::string s = std::string("(") + nm[p.kind]; for (auto& c : p.ch) s += " " + dpred(c); return s + ")";
}
std::string describe(const MQuery& q) {
    std::string s = "vars"; for (auto& v : q.vars) { s += " ["; for (auto x : v) s += sf("%u ", x); s += "]"; }
    s += " hard " + dpred(q.hard); for (auto& x : q.soft) s += " soft " + dpred(x);
    return s + sf(" seed %u keep %d mask %llx stmt %llx", q.seed, q.keep, (unsigned long long)q.mask, (unsigned long long)q.stmt);
}

// ------------------------------------------------------------------ delivery
Delivery deliver(const std::string& path, const std::string& bytes, const DelCfg& c) {
    Delivery d; bool large = bytes.size() > 50000;
    d.fifo = c.allow_fifo && (!c.allow_file || choose(D, 3) != 0);
    static const uint64_t cm[] = {0, 1, 3, 7, 64, 1000, 4096};
    if (!d.fifo) { d.node = make_file(path, bytes); d.node->chunk_max = cm[choose(D, 7)]; if (large && d.node->chunk_max < 1000) d.node->chunk_max = 0; return d; }
    d.node = make_fifo(path); d.node->chunk_max = cm[choose(D, 7)]; if (large && d.node->chunk_max < 1000) d.node->chunk_max = 0;
    static const size_t caps[] = {65536, 4096, 16, 512}; d.node->capacity = caps[choose(D, 4)]; if (large && d.node->capacity < 4096) d.node->capacity = 4096;
    std::vector<Act> a;
    uint64_t d0 = 0;
    if (c.late_open && chance(D, 1, 2)) { d0 = 1 + choose(D, c.first_max ? c.first_max / 2 : 20 * SEC); fault(F_LATE_OPEN); }
    a.push_back({Act::OPEN, d0, ""}); d.first_data = d0;
    unsigned pieces = 1 + (unsigned)choose(D, 6); size_t o = 0; bool first = true;
    for (unsigned i = 0; i < pieces && o < bytes.size(); i++) {
        size_t n = i + 1 == pieces ? bytes.size() - o : 1 + choose(D, bytes.size() - o);
        uint64_t dl = 0;
        if (c.stalls && chance(D, 1, 3)) {
            dl = first ? (c.first_max ? choose(D, c.first_max / 2) : choose(D, 30 * SEC)) : (chance(D, 1, 4) ? (1 + choose(D, 100)) * 3600 * SEC : 1 + choose(D, 5 * SEC));
            if (dl) fault(F_STALL);
        }
        if (first) d.first_data += dl;
        first = false;
        a.push_back({Act::WRITE, dl, bytes.substr(o, n)}); o += n;
    }
    if (c.close_at_end) a.push_back({Act::CLOSE, c.stalls && chance(D, 1, 4) ? choose(D, 100 * SEC) : 0, ""});
    d.feeder = make_feeder(d.node, a);
    d.feeder->start();
    return d;
}
