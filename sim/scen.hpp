#pragma once
#include "model.hpp"
#include <cerrno>
#include <cstring>
#include <algorithm>
extern "C" int g_rand_mode;
using namespace sim;
inline void* do_read(const char* p, uint32_t t, uint64_t m) { op(); try { App a; return api_read_trace(p, t, m); } catch (...) { violation("exception-escaped", "read_trace let an exception escape"); } }
inline bool do_add(void* db, const char* p, uint32_t t, uint64_t m) { op(); try { App a; return api_add_trace(db, p, t, m) != 0; } catch (...) { violation("exception-escaped", "add_trace let an exception escape"); } }
inline void* new_db() { App a; return api_create_db(); }
inline void free_db_(void* d) { App a; api_free_db(d); }
inline void free_trace_(void* t) { App a; api_free_trace(t); }
inline uint32_t ntraces(void* d) { App a; return api_n_traces(d); }
inline const void* trace_of(void* d, uint32_t i) { App a; return api_get_trace(d, i); }
inline std::string snapshot(void* d) { char* s; { App a; s = api_serialize(d); } if (!s) violation("snapshot-failed", "serialize_trace_db returned NULL"); std::string r(s); { App a; api_free(s); } return r; }
inline void* restore(const std::string& s) { void* d; try { App a; d = api_deserialize(s.c_str()); } catch (...) { violation("restore-threw", "deserialize_trace_db threw"); } return d; }
// compare a loaded trace with the model through both interfaces
inline void must_equal(const char* cls, const MTrace& want, const void* t, const char* what) {
    std::string d = diff(want, dump_trace(t)); if (d.empty()) d = diff_capi(want, t);
    checked();
    if (!d.empty()) violation(cls, "%s: %s", what, d.c_str());
}
inline void must_equal_db(const char* cls, const std::vector<MTrace>& want, void* db, const char* what) {
    uint32_t n = ntraces(db); if (n != want.size()) violation(cls, "%s: the database holds %u traces instead of %zu", what, n, want.size());
    for (uint32_t i = 0; i < n; i++) must_equal(cls, want[i], trace_of(db, i), what);
}
inline void draw_latency() { static const uint64_t l[] = {0, 1000, 1 * MS, 50 * MS}; k->latency_max = l[choose(D, 4)]; }
inline void draw_rand() { g_rand_mode = (int)choose(R, 6); }
inline void hash_trace(const MTrace& t) { Encoded e = encode(t); hash_bytes(e.bytes.data(), e.bytes.size()); }
void dirty_stack(unsigned char c);
MTrace add_points_model(void* db, uint64_t fail_at = 0, uint64_t fail_n = 0, bool* failed = nullptr);
