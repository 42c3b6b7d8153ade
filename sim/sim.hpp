// Deterministic simulator core: decision streams, threads, clock, kernel, allocator.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- decisions
enum Stream { W = 0, S, F, D, R, NSTREAM };   // workload, schedule, faults, delivery, rand()
static const uint32_t MAXDEC = 1u << 16;

uint64_t choose(Stream s, uint64_t n);            // [0,n); 0 is always the simplest choice
bool chance(Stream s, unsigned num, unsigned den); // true with num/den; decision 0 -> false
uint64_t range(Stream s, uint64_t lo, uint64_t hi); // inclusive
uint64_t bits64(Stream s);
template <class T> const T& pick(Stream s, const std::vector<T>& v) { return v[choose(s, v.size())]; }

// ---------------------------------------------------------------- statistics
enum Fault {
    F_SHORT_READ, F_SHORT_WRITE, F_READ_EIO, F_READ_EINTR, F_WAIT_EINTR, F_OPEN_ENOENT, F_OPEN_EMFILE, F_OPEN_EACCES,
    F_ALLOC_FAIL, F_STALL, F_WRITER_CRASH, F_TRUNCATE, F_CORRUPT, F_HIGH_FD, F_WRITE_ENOSPC, F_WRITE_EIO,
    F_PREEMPT, F_PROC_CRASH, F_RESTART, F_TIMEOUT, F_CLOCK_JUMP, F_BACKPRESSURE, F_ADDR_REUSE, F_RAND_SKEW,
    F_HANDSHAKE_DELAY, F_LOST_WRITE, F_LATE_OPEN, F_DIRTY_MEM, NFAULT
};
extern const char* fault_names[NFAULT];
void fault(Fault f);                 // count one injected fault
void probe(const char* name);        // count "this rare condition was reached"

struct Probe { char name[48]; uint64_t n; };
struct Shared {
    volatile uint32_t status;        // 0 not finished, 1 ok, 2 violation, 3 harness error
    char cls[64];
    char msg[6000];
    char sample[3000];
    uint64_t hash;                   // hash of the event log
    uint64_t sched_hash;             // hash of the schedule / fault trace
    uint64_t steps, switches, sim_ns, ops, checks;
    uint32_t dec_overflow;
    uint64_t faults[NFAULT];
    uint32_t nprobes;
    Probe probes[64];
    uint32_t n[NSTREAM];
    uint32_t dec[NSTREAM][MAXDEC];
    uint32_t blob_len;               // scenario-defined data handed from one process image to the next
    char blob[48 << 20];
};
extern Shared* sh;

// ---------------------------------------------------------------- outcome
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish_ok();
void log_event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // hashed; printed when verbose
void hash_bytes(const void* p, size_t n);
void note_schedule(uint64_t x);
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool verbose;
inline void checked(uint64_t n = 1) { sh->checks += n; }
inline void op() { sh->ops++; }

// ---------------------------------------------------------------- time and threads
uint64_t now();                                   // ns
static const uint64_t SEC = 1000000000ull, MS = 1000000ull;
void at(uint64_t when, std::function<void()> fn); // event on the simulated clock
void after(uint64_t dt, std::function<void()> fn);

enum JoinResult { JOIN_DONE, JOIN_STUCK, JOIN_CRASHED };
int spawn(std::function<void()> fn);              // client thread (starts blocked until join/yield)
JoinResult join_all();                            // run until all clients finished / stuck / crashed
bool thread_done(int tid);
bool thread_blocked(int tid);
void yield_point();                               // possible preemption
void block_until(const std::function<bool()>& ready, uint64_t deadline = UINT64_MAX); // returns when ready or deadline
bool block_until_t(const std::function<bool()>& ready, uint64_t deadline);            // false: deadline passed
void crash_at_step(uint64_t step);                // crash all client threads at this scheduler step
void crash_now();
uint64_t event_seq();                             // global event sequence number
struct SchedCfg { int mode = 0; uint64_t mean = 50; uint64_t horizon = 1000; };
void set_sched(const SchedCfg& c);
void draw_sched();                                // random strategy
void set_step_limit(uint64_t n);

// ---------------------------------------------------------------- calling the code under test
struct App { App(); ~App(); };                    // marks "executing code under test"
struct Sim { int saved; Sim(); ~Sim(); };         // marks "executing simulator code"
void* app_malloc(size_t n);                       // never fails; memory the code under test may free
uint64_t app_live_bytes();
uint64_t app_live_blocks();
void track_allocs(); uint64_t alloc_mark(); std::string held_since(uint64_t mark); std::vector<size_t> held_sizes(uint64_t mark);

struct AllocCfg {
    uint64_t limit = 64ull << 20;                 // larger requests fail (bad_alloc / NULL)
    uint64_t fail_at = 0;                         // fail the k-th allocation from arming (0: never)
    uint64_t fail_count = 1;                      // how many consecutive ones fail
    bool fail_large_only = false;
    uint64_t count = 0;                           // allocations since arming
    unsigned char fill = 0xA5;
    bool reuse = true;                            // scheduling build: recycle freed blocks at once
};
extern AllocCfg alloc_cfg;
extern bool alloc_fault_fired;

// ---------------------------------------------------------------- simulated kernel
struct Node {
    std::string path;
    bool fifo = false;
    std::string data;            // regular: contents; fifo: bytes in flight
    size_t capacity = 65536;     // fifo
    int readers = 0, writers = 0;
    uint64_t w_counter = 0, r_counter = 0;
    uint64_t total_read = 0, total_written = 0;
    // fault plan (reader side)
    uint64_t err_at = UINT64_MAX; // read error once this many bytes have been consumed
    int err_no = 0;
    uint64_t eintr_at = UINT64_MAX;
    uint64_t chunk_max = 0;      // 0: unlimited; else reads return 1..chunk_max bytes
    bool eof_then_error = false;
    // fault plan (writer side)
    uint64_t wmax = 0;           // 0: unlimited; else short writes
    uint64_t full_at = UINT64_MAX;
    std::function<void()> on_drain;
    std::function<void()> on_read_open;
    std::string durable_log;     // everything ever written (for fifos, after reads too)
};
struct Kernel {
    std::map<std::string, std::shared_ptr<Node>> fs;
    int fd_base = 3;
    int open_errno = 0;          // next opens fail with this
    uint64_t eintr_time = UINT64_MAX; // the wait in progress at this time is interrupted
    std::vector<int> eintr_waits;// indexes of waits (select/poll) that are interrupted
    int n_waits = 0;
    uint64_t latency_max = 0;    // extra time each system call may take
    std::vector<std::string> opened;  // paths opened, in order
    std::map<std::string, std::string> env;
    size_t stdio_buf = 4096;
};
extern Kernel* k;
std::shared_ptr<Node> make_file(const std::string& path, const std::string& data);
std::shared_ptr<Node> make_fifo(const std::string& path);
int open_fds();                  // descriptors currently open in the code under test
uint64_t mark_syscalls();
extern uint64_t n_syscalls;

// A simulated writer process feeding a fifo.
struct Act { enum K { OPEN, WRITE, CLOSE } k; uint64_t delay; std::string bytes; };
struct Feeder : std::enable_shared_from_this<Feeder> {
    std::shared_ptr<Node> node;
    std::vector<Act> acts;
    size_t pos = 0, off = 0;
    bool open = false, started = false;
    std::vector<uint64_t> write_time;   // time at which each act completed
    void start();
    void step();
    void schedule();
};
std::shared_ptr<Feeder> make_feeder(std::shared_ptr<Node> n, std::vector<Act> acts);

// stdio on the simulated kernel for the harness itself
bool is_ts();                    // scheduling build?

// ---------------------------------------------------------------- entry
struct Scenario { const char* id; bool ts; void (*run)(); };
extern std::vector<Scenario>& scenarios();
struct Reg { Reg(const char* id, bool ts, void (*f)()) { scenarios().push_back({id, ts, f}); } };
extern int g_param;              // scenario parameter (process image number for restarts)
extern int g_tier;               // 0 quick 1 thorough
void next_image();               // restart: run the scenario again in a fresh process with g_param+1, keeping sh->blob

// race / lifetime detector interface (scheduling build)
void ts_range(uintptr_t a, size_t n, bool write, void* pc);
void ts_sync(uintptr_t addr, bool acquire, bool release);
void ts_alloc(uintptr_t a, size_t n);
void ts_free(uintptr_t a, size_t n, void* pc);
int cur_tid();
void stack_bounds(int tid, uintptr_t& lo, uintptr_t& hi);

} // namespace sim
