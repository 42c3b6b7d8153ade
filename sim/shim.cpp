// Compiled together with /repo's sources (C++11, instrumented): exports the code under test under stable names.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <streambuf>
#include <ostream>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include "TraceDB.hpp"
#include "trace.h"
#include "trace-db.h"
#include "api.h"

static_assert(sizeof(api_var) == sizeof(c_trace_var_info_struct), "var layout");
static_assert(sizeof(api_point) == sizeof(c_trace_point_struct), "point layout");
static_assert(sizeof(api_pred) == sizeof(c_predicate), "predicate layout");
static_assert(sizeof(api_freevar) == sizeof(c_free_variable), "free variable layout");
static_assert(offsetof(api_var, buffer_size) == offsetof(c_trace_var_info_struct, buffer_size), "layout");
static_assert(offsetof(api_pred, children) == offsetof(c_predicate, children), "layout");

namespace {
struct SinkBuf : std::streambuf {
    long (*sink)(void*, const char*, long); void* ctx;
    std::streamsize xsputn(const char* s, std::streamsize n) override { return sink(ctx, s, n); }
    int overflow(int c) override { if (c == -1) return 0; char ch = (char)c; return sink(ctx, &ch, 1) == 1 ? (unsigned char)c : -1; }
};
Predicate to_predicate(const api_pred* p) {
    if (!p) return Predicate();
    Predicates ch; predicate_data d; d.unsigned_value = 0;
    if (p->children) for (uint64_t i = 0; i < p->n_children; i++) { Predicate c(to_predicate(p->children + i)); if (c.getKind() != NULL_PREDICATE) ch.push_back(c); }
    switch (p->kind) { case VAR_REFERENCE: d.var_index = p->var_index; break; case UNSIGNED_VALUE: d.unsigned_value = p->unsigned_value; break; case SIGNED_VALUE: d.signed_value = p->signed_value; break; case FLOAT_VALUE: d.float_value = p->float_value; break; default: d.n_children = p->n_children; }
    return Predicate((predicate_kind)p->kind, d, ch);
}
}
extern "C" {
void* api_read_trace(const char* f, uint32_t t, uint64_t m) { return read_trace(f, t, m); }
uint64_t api_trace_size(const void* t) { return trace_size(t); }
api_point* api_get_points(const void* t) { return (api_point*)get_points(t); }
uint32_t api_n_types(const void* t) { return n_types(t); }
const char** api_get_types(const void* t) { return get_types(t); }
uint32_t api_n_names(const void* t) { return n_names(t); }
const char** api_get_names(const void* t) { return get_names(t); }
void api_free_trace(void* t) { free_trace(t); }
void api_free_points(api_point* p, uint64_t n) { free_trace_points((c_trace_point_struct*)p, n); }
void* api_create_db(void) { return create_db(); }
int api_add_trace(void* db, const char* f, uint32_t t, uint64_t m) { return add_trace(db, f, t, m); }
int api_add_points(void* db, api_point* p, uint64_t n, char** names, uint32_t nn) { return add_trace_points(db, (c_trace_point_struct*)p, n, names, nn); }
const void* api_get_trace(const void* db, uint32_t i) { return get_trace(db, i); }
uint32_t api_n_traces(const void* db) { return n_traces(db); }
char* api_serialize(const void* db) { return serialize_trace_db(db); }
void* api_deserialize(const char* s) { try { return deserialize_trace_db(s); } catch (std::exception&) { return NULL; } }
void api_free_db(void* db) { free_db(db); }
void api_free_pred(api_pred* p) { free_c_predicate((c_predicate*)p); }
void api_query(const void* db, uint64_t index, const api_freevar* v, uint32_t nv, const api_pred* hard, const api_pred** soft, uint32_t nsoft,
               uint32_t seed, uint8_t keep, uint64_t mask, uint64_t stmt, api_point** out, uint64_t* nout) {
    query_trace(db, index, (const c_free_variable*)v, nv, (const c_predicate*)hard, (const c_predicate**)soft, nsoft, seed, keep, mask, stmt,
                (c_trace_point_struct**)out, nout);
}
void api_free(void* p) { free(p); }
void shim_query(const void* db, uint64_t index, const api_freevar* v, uint32_t nv, const api_pred* hard, const api_pred** soft, uint32_t nsoft,
                uint32_t seed, uint64_t mask, uint64_t stmt, api_point** out, uint64_t* nout) {
    FreeVariables vars; Predicates sp;
    for (uint32_t i = 0; i < nv; i++) vars.push_back(FreeVariable(std::vector<uint32_t>(v[i].allowed_types, v[i].allowed_types + v[i].n_allowed_types)));
    for (uint32_t i = 0; i < nsoft; i++) sp.push_back(to_predicate(soft[i]));
    TracePoints r = ((const TraceDB*)db)->query((uint32_t)index, vars, to_predicate(hard), sp, seed, mask, stmt);
    *nout = r.size();
    *out = (api_point*)points_to_array(((const TraceDB*)db)->getTraces()[index], r);
}
void shim_dump(const void* tp, const shim_cb* cb, void* c) {
    const Trace& t = *(const Trace*)tp;
    for (auto& n : t.getNames()) cb->name(c, n.data(), n.size());
    for (auto& y : t.getTypes()) cb->type(c, y.getNameIndex(), y.getTypeFormat(), y.getSize());
    for (auto& p : t.getPoints()) {
        cb->point(c, p.getStatement(), p.getCounter());
        for (auto& s : p.getBufferSizes()) cb->size(c, s.getAddress(), s.getSize());
        for (auto& fv : p.getVars()) {
            const TraceVarInfo& v = fv;
            cb->var(c, v.getValue().u, v.getNameIndex(), v.getTypeIndex(), v.getTypeFormat(), v.getSize(), v.getBufferSize(), v.hasBufferSize());
        }
        for (auto& a : p.getAux()) cb->aux(c, a);
    }
}
int shim_trace_eq(const void* a, const void* b) { return *(const Trace*)a == *(const Trace*)b; }
uint64_t shim_trace_hash(const void* a) { return std::hash<Trace>()(*(const Trace*)a); }
int shim_db_eq(const void* a, const void* b) { return *(const TraceDB*)a == *(const TraceDB*)b; }
uint64_t shim_db_hash(const void* a) { return std::hash<TraceDB>()(*(const TraceDB*)a); }
void* shim_db_copy(const void* a) { return new TraceDB(*(const TraceDB*)a); }
void* shim_trace_copy(const void* a) { return new Trace(*(const Trace*)a); }
int shim_cmp(const void* ta, const void* tb, int what, uint32_t i, uint32_t x, uint32_t j, uint32_t y) {   /* bit 0: less, bit 1: equal */
    const Trace &a = *(const Trace*)ta, &b = *(const Trace*)tb;
    switch (what) {
    case 0: { const TracePoint &p = a.getPoints()[i], &q = b.getPoints()[j]; return (p < q) | (p == q) << 1; }
    case 1: { const TraceVarInfo &p = a.getPoints()[i].getVars()[x], &q = b.getPoints()[j].getVars()[y]; return (p < q) | (p == q) << 1; }
    case 2: { const TypeDescription &p = a.getTypes()[i], &q = b.getTypes()[j]; return (p < q) | (p == q) << 1; }
    default: { const TraceBufferSize &p = a.getPoints()[i].getBufferSizes()[x], &q = b.getPoints()[j].getBufferSizes()[y]; return (p < q) | (p == q) << 1; }
    }
}
int shim_write(const void* t, long (*sink)(void*, const char*, long), void* ctx) {
    SinkBuf b; b.sink = sink; b.ctx = ctx;
    std::ostream os(&b);
    os << *(const Trace*)t;
    os.flush();
    return os.good() ? 0 : 1;
}
}
