// Independent reference model: traces, encoder, expected decoding, queries.
#pragma once
#include "sim.hpp"
#include "api.h"
#include <map>
#include <string>
#include <vector>

enum { FU = 0, FS = 1, FF = 2, FP = 3, FB = 4 };
struct MType { uint32_t name, fmt, size; bool operator==(const MType& o) const { return name == o.name && fmt == o.fmt && size == o.size; } };
struct MVar {
    uint32_t name = 0, type = 0, fmt = 0, size = 0; uint64_t value = 0; std::string blob; bool has_bs = false; uint64_t bs = 0;
    bool operator==(const MVar& o) const { return name == o.name && type == o.type && fmt == o.fmt && size == o.size && (fmt == FB || value == o.value) && blob == o.blob && has_bs == o.has_bs && bs == o.bs; }
};
struct MEntry { int tag; uint64_t a = 0, b = 0; MVar v; };     // 1 statement, 2 variable, 3 buffer size, 4 aux
struct MPoint {
    uint64_t stmt = 0, number = UINT64_MAX; std::vector<std::pair<uint64_t, uint64_t>> sizes; std::vector<MVar> vars; std::vector<uint64_t> aux;
    std::vector<MEntry> entries;      // encoding order (not part of the value)
    bool operator==(const MPoint& o) const { return stmt == o.stmt && sizes == o.sizes && vars == o.vars && aux == o.aux; }
};
struct MTrace {
    std::vector<std::string> names; std::vector<MType> types; std::vector<MPoint> points;
    bool operator==(const MTrace& o) const { return names == o.names && types == o.types && points == o.points; }
};
struct Encoded { std::string bytes; size_t header = 0; std::vector<size_t> ends; };   // ends[i]: offset after point i

struct GenCfg {
    unsigned max_points = 12, max_names = 6, max_types = 6, max_vars = 4, max_sizes = 2, max_aux = 2;
    bool big = false;          // occasional large names/blobs/dictionaries
    bool free_order = false;   // the statement may come anywhere in a point
    bool canonical = false;    // statement, sizes, variables, aux (what the writer side of the library produces)
    bool finite_floats = false;
    bool ptr8 = false;         // pointers are 8 bytes
    uint32_t huge_points = 66000; // most points a huge trace has
    bool odd_floats = false;   // FLOAT types of other than 4 and 8 bytes: carried as raw bytes
    bool odd_sizes = true;     // unsigned and pointer types of 3, 5, 6, 7 (1, 2) bytes too
    unsigned addr_pool = 6;
    bool few_values = false;   // high sharing
    bool heavy_sizes = false;
    unsigned blob_max = 0;     // 0: small blobs
    bool no_blobs = false;
    bool huge = false;         // counts beyond 16 bits
};
GenCfg draw_gencfg(unsigned huge_in = 0);   // one run in huge_in uses huge traces
MTrace gen_trace(const GenCfg& c);
void finish_model(MTrace& t);                 // compute values/buffer sizes/point contents from entries
Encoded encode(const MTrace& t);
MTrace prefix(const MTrace& t, size_t n);
MTrace dump_trace(const void* trace);         // through the C++ getters
std::string diff(const MTrace& want, const MTrace& got);   // "" when equal
std::string diff_capi(const MTrace& want, const void* trace, bool deep = true);
std::string describe(const MTrace& t, size_t max = 3);
bool decode_independent(const std::string& bytes, MTrace& out, size_t& consumed_points, bool& partial); // reference reader
void mutate_one(MTrace& t, std::string& what);  // change exactly one observable thing
void fix_buffer_sizes(MTrace& t);

// queries
struct MPred { int kind = 0; uint64_t u = 0; int64_t s = 0; double f = 0; std::vector<MPred> ch; };
struct MQuery {
    std::vector<std::vector<uint32_t>> vars; MPred hard; std::vector<MPred> soft; uint32_t seed = 0; bool keep = true; uint64_t mask = 0, stmt = 0;
};
struct QResult { uint64_t stmt; std::vector<MVar> vars; std::vector<uint64_t> aux; bool operator==(const QResult& o) const { return stmt == o.stmt && vars == o.vars && aux == o.aux; } };
MQuery gen_query(const MTrace& t, bool allow_seed = true);
void vary_query(MQuery& q, const MTrace& t);
std::vector<QResult> ref_query(const MTrace& t, const MQuery& q);
std::vector<std::vector<QResult>> ref_query_per_point(const MTrace& t, const MQuery& q);  // results of each selected point
struct QueryFault { uint64_t at = 0, n = 0; bool failed = false; };   // the at-th allocation inside query_trace fails (0: none)
extern bool query_cpp;   // ask through TraceDB::query instead of query_trace (where duplicates are kept)
extern QueryFault query_fault; void arm_alloc(uint64_t at, uint64_t n);
std::vector<QResult> run_query(const void* db, uint64_t index, const MTrace& t, const MQuery& q, std::string& err);
bool query_too_large(const MTrace& t, const MQuery& q);
std::string check_query(const void* db, uint64_t index, const MTrace& t, const MQuery& q);  // "" when right
std::string describe(const MQuery& q);
api_pred* build_pred(const MPred& p);         // memory owned by the code under test's allocator

// simulated delivery
struct Delivery { bool fifo = false; std::shared_ptr<sim::Feeder> feeder; std::shared_ptr<sim::Node> node; uint64_t first_data = 0; };
struct DelCfg { bool stalls = true; bool late_open = true; uint64_t first_max = 0; bool allow_file = true, allow_fifo = true; bool close_at_end = true; bool hold_open = false; };
Delivery deliver(const std::string& path, const std::string& bytes, const DelCfg& c);
