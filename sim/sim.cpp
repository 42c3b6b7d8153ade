// Simulator core.
#include "sim.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <deque>
#include <new>
#include <set>
#include <unordered_map>
#include <execinfo.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#ifndef SIM_TS
#define SIM_TS 0
#endif

namespace sim {

Shared* sh = nullptr;
bool verbose = false;
int g_param = 0, g_tier = 0;
uint64_t g_seed = 0;
bool g_replay = false;
std::vector<uint32_t> g_rep[NSTREAM];
static uint64_t prng[NSTREAM];

const char* fault_names[NFAULT] = {
    "short_read", "short_write", "read_EIO", "read_EINTR", "wait_EINTR", "open_ENOENT", "open_EMFILE", "open_EACCES",
    "alloc_failure", "writer_stall", "writer_crash", "truncated_trace", "corrupted_bytes", "descriptor_above_1023",
    "write_ENOSPC", "write_EIO", "preemption", "process_crash", "process_restart", "timeout_expired", "clock_jump",
    "pipe_backpressure", "address_reuse", "rand_skew", "handshake_delay", "lost_write", "late_writer_open",
    "dirty_memory"};

bool is_ts() { return SIM_TS; }
std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }

// ------------------------------------------------------------------ in-app marker
static thread_local int tl_in_app = 0;
App::App() { tl_in_app = 1; }
App::~App() { tl_in_app = 0; }
Sim::Sim() : saved(tl_in_app) { tl_in_app = 0; }
Sim::~Sim() { tl_in_app = saved; }

// ------------------------------------------------------------------ decisions
static inline uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
void init_streams(uint64_t seed) {
    for (int i = 0; i < NSTREAM; i++) { uint64_t x = seed * 0x2545F4914F6CDD1Dull + i * 0x9E3779B97F4A7C15ull + 77; splitmix(x); prng[i] = splitmix(x); }
}
uint64_t choose(Stream s, uint64_t n) {
    if (n <= 1) return 0;
    uint32_t idx = sh->n[s];
    if (idx >= MAXDEC) { sh->dec_overflow = 1; return 0; }
    uint64_t v;
    if (g_replay) v = idx < g_rep[s].size() ? g_rep[s][idx] % n : 0;
    else { v = splitmix(prng[s]) % n; if (v > 0xffffffffull) v = 0xffffffffull; }
    sh->dec[s][idx] = (uint32_t)v;
    sh->n[s] = idx + 1;
    return v;
}
bool chance(Stream s, unsigned num, unsigned den) { return choose(s, den) >= den - num && num > 0; }
uint64_t range(Stream s, uint64_t lo, uint64_t hi) { return lo + choose(s, hi - lo + 1); }
uint64_t bits64(Stream s) { uint64_t a = choose(s, 1ull << 32), b = choose(s, 1ull << 32); return (b << 32) | a; }

// ------------------------------------------------------------------ statistics / outcome
void fault(Fault f) { sh->faults[f]++; }
void probe(const char* name) {
    for (uint32_t i = 0; i < sh->nprobes; i++) if (!strcmp(sh->probes[i].name, name)) { sh->probes[i].n++; return; }
    if (sh->nprobes < 64) { strncpy(sh->probes[sh->nprobes].name, name, 47); sh->probes[sh->nprobes++].n = 1; }
}
static inline void mix(uint64_t& h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; }
void hash_bytes(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; uint64_t h = sh->hash; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } sh->hash = h; }
void note_schedule(uint64_t x) { mix(sh->sched_hash, x); }
static uint64_t seq_ = 0;
uint64_t event_seq() { return ++seq_; }
static uint64_t now_ = 0;
uint64_t now() { return now_; }

void log_event(const char* fmt, ...) {
    Sim g;
    char b[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    hash_bytes(b, n); hash_bytes(&now_, sizeof now_);
    if (verbose) { fprintf(stderr, "[%12.6f #%llu T%d] %s\n", now_ / 1e9, (unsigned long long)sh->steps, cur_tid(), b); }
}
void sample(const char* fmt, ...) {
    Sim g;
    size_t l = strlen(sh->sample); if (l + 2 >= sizeof sh->sample) return;
    va_list ap; va_start(ap, fmt); vsnprintf(sh->sample + l, sizeof sh->sample - l - 1, fmt, ap); va_end(ap);
}
static void fin(uint32_t st) { sh->sim_ns += now_; sh->status = st; fflush(stderr); _exit(0); }
void violation(const char* cls, const char* fmt, ...) {
    tl_in_app = 0;
    snprintf(sh->cls, sizeof sh->cls, "%s", cls);
    va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
    hash_bytes(cls, strlen(cls));
    if (verbose) fprintf(stderr, "VIOLATION class=%s: %s\n", cls, sh->msg);
    fin(2); _exit(0);
}
void harness_error(const char* fmt, ...) {
    tl_in_app = 0;
    va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
    fin(3); _exit(0);
}
void finish_ok() { tl_in_app = 0; fin(1); _exit(0); }
void next_image() { tl_in_app = 0; fault(F_RESTART); fin(4); _exit(0); }

// ------------------------------------------------------------------ threads
enum TState { T_FREE, T_RUN, T_BLOCKED, T_DONE, T_CRASHED };
struct Thread {
    int tid; pthread_t th; sem_t sem; TState st = T_FREE;
    std::function<void()> fn;
    std::function<bool()> ready; uint64_t deadline = UINT64_MAX; bool timedout = false;
    uintptr_t lo = 0, hi = 0;
};
static const int MAXT = 8;
static Thread th_[MAXT];
static int nth_ = 0;
static Thread* cur_ = nullptr;
static thread_local Thread* self_ = nullptr;
static bool running_ = false;
bool sched_on() { return running_; }
int cur_tid() { return cur_ ? cur_->tid : -1; }
void stack_bounds(int tid, uintptr_t& lo, uintptr_t& hi) { lo = th_[tid].lo; hi = th_[tid].hi; }
static JoinResult join_res_; static bool join_ready_ = false, joining_ = false, crashed_ = false;
static uint64_t crash_step_ = UINT64_MAX, step_limit_ = 600000000ull;
static SchedCfg scfg_; static int64_t gap_ = INT64_MAX; static int changes_left_ = 0;

struct Ev { uint64_t t, s; std::function<void()> fn; };
static std::vector<Ev> evq_; static uint64_t evs_ = 0;
static bool evless(const Ev& a, const Ev& b) { return a.t != b.t ? a.t > b.t : a.s > b.s; }
void at(uint64_t when, std::function<void()> fn) { if (when < now_) when = now_; evq_.push_back({when, evs_++, std::move(fn)}); std::push_heap(evq_.begin(), evq_.end(), evless); }
void after(uint64_t dt, std::function<void()> fn) { at(now_ + dt < now_ ? UINT64_MAX - 1 : now_ + dt, std::move(fn)); }
static void fire_due() {
    while (!evq_.empty() && evq_.front().t <= now_) {
        std::pop_heap(evq_.begin(), evq_.end(), evless); Ev e = std::move(evq_.back()); evq_.pop_back();
        e.fn();
    }
}

static void draw_gap() {
    if (scfg_.mode == 0) { gap_ = INT64_MAX; return; }
    if (scfg_.mode == 2 && changes_left_-- <= 0) { gap_ = INT64_MAX; return; }
    uint64_t v = choose(S, 65536);
    if (v == 0) { gap_ = INT64_MAX; return; }
    uint64_t span = scfg_.mode == 1 ? 2 * scfg_.mean : scfg_.horizon;
    gap_ = 1 + (int64_t)((v - 1) * span / 65535);
}
void set_sched(const SchedCfg& c) { scfg_ = c; changes_left_ = 4; draw_gap(); }
void draw_sched() {
    SchedCfg c;
    static const uint64_t means[] = {1000, 5, 20, 60, 200, 3000};
    c.mode = (int)choose(S, 5); 
    if (c.mode >= 3) c.mode = 1;
    c.mean = means[choose(S, 6)];
    static const uint64_t hz[] = {20000, 500, 2000, 8000, 60000, 200000};
    c.horizon = hz[choose(S, 6)];
    set_sched(c);
}
void set_step_limit(uint64_t n) { step_limit_ = n; }

static bool is_ready(Thread* t) {
    if (t->st == T_RUN) return true;
    if (t->st != T_BLOCKED) return false;
    if (t->ready && t->ready()) { t->timedout = false; return true; }
    if (t->deadline <= now_) { t->timedout = true; return true; }
    return false;
}
static void resume(Thread* n) {
    n->st = T_RUN;
    Thread* me = self_;
    if (n == me) { cur_ = me; return; }
    sh->switches++;
    note_schedule(sh->steps * 8 + n->tid);
    hash_bytes(&sh->steps, 8);
    cur_ = n;
    sem_post(&n->sem);
    while (sem_wait(&me->sem) != 0) {}
}
// Give up the processor; the current thread's state is already set.
static void dispatch() {
    for (;;) {
        fire_due();
        Thread* cand[MAXT]; int nc = 0;
        int base = cur_->tid;
        for (int i = 0; i < nth_; i++) { Thread* t = &th_[(base + i) % nth_]; if (t->tid == 0 && joining_ && !join_ready_) { continue; } if (is_ready(t)) cand[nc++] = t; }
        if (joining_ && !join_ready_) {
            bool all = true; for (int i = 1; i < nth_; i++) if (th_[i].st != T_DONE && th_[i].st != T_CRASHED) all = false;
            if (all) { join_ready_ = true; join_res_ = crashed_ ? JOIN_CRASHED : JOIN_DONE; continue; }
        }
        if (nc) {
            Thread* n = cand[nc > 1 ? choose(S, nc) : 0];
            if (n != self_ && self_->st == T_RUN) fault(F_PREEMPT);
            resume(n);
            return;
        }
        uint64_t t = UINT64_MAX;
        if (!evq_.empty()) t = evq_.front().t;
        for (int i = 0; i < nth_; i++) if (th_[i].st == T_BLOCKED && !(i == 0 && joining_)) t = std::min(t, th_[i].deadline);
        if (t != UINT64_MAX) { if (t > now_) { now_ = t; } fire_due(); continue; }
        if (joining_) { join_ready_ = true; join_res_ = JOIN_STUCK; continue; }
        violation("stuck", "all threads are blocked and no event is pending");
    }
}
bool block_until_t(const std::function<bool()>& ready, uint64_t deadline) {
    Sim g;
    fire_due();
    if (ready()) return true;
    if (deadline <= now_) return false;
    if (!self_) harness_error("blocking outside the simulation");
    self_->ready = ready; self_->deadline = deadline; self_->timedout = false; self_->st = T_BLOCKED;
    dispatch();
    bool ok = !self_->timedout;
    self_->ready = nullptr; self_->deadline = UINT64_MAX;
    return ok;
}
void block_until(const std::function<bool()>& ready, uint64_t deadline) { block_until_t(ready, deadline); }

void crash_at_step(uint64_t s) { crash_step_ = s; }
static void do_crash() {
    Sim g;
    crash_step_ = UINT64_MAX;
    if (!joining_ || !self_ || self_->tid == 0) return;
    fault(F_PROC_CRASH); crashed_ = true;
    log_event("process crash");
    for (int i = 1; i < nth_; i++) if (th_[i].st != T_DONE) th_[i].st = T_CRASHED;
    join_ready_ = true; join_res_ = JOIN_CRASHED;
    dispatch();                     // never comes back
    for (;;) pause();
}
void crash_now() { do_crash(); }
static void slow_preempt() {
    Sim g;
    if (sh->steps > step_limit_) violation("no-progress", "step limit of %llu exceeded", (unsigned long long)step_limit_);
    if (sh->steps >= crash_step_) do_crash();
    if (gap_ <= 0) { draw_gap(); if (nth_ > 1) dispatch(); }
}
static uint64_t next_slow_ = 0;
// one simulated step (memory access or call)
void step() {
    if (!running_) return;
    ++sh->steps;
    if (gap_ != INT64_MAX) --gap_;
    if (gap_ <= 0 || sh->steps >= crash_step_ || sh->steps > step_limit_) slow_preempt();
}
// synchronisation point
void yield_point() {
    if (!running_ || !self_) return;
    step();
    if (nth_ > 1 && scfg_.mode == 0) { Sim g; if (choose(S, 3) == 1) dispatch(); }
}
static void* tmain(void* p) {
    Thread* t = (Thread*)p;
    self_ = t;
    while (sem_wait(&t->sem) != 0) {}
    ts_sync((uintptr_t)&th_[t->tid], true, false);
    t->fn();
    tl_in_app = 0;
    t->fn = nullptr;
    ts_sync((uintptr_t)&th_[0], false, true);
    t->st = T_DONE;
    dispatch();
    for (;;) pause();
}
static const uintptr_t TS_BASE = 0x10000000000ull;
static const size_t STACK_SZ = 1 << 20, STACKS = MAXT * STACK_SZ, REGION = 256ull << 20;
void region_init();
static Thread* new_thread(std::function<void()> fn) {
    if (nth_ >= MAXT) harness_error("too many threads");
    Thread* t = &th_[nth_]; t->tid = nth_++; t->fn = std::move(fn); t->st = T_RUN;
    sem_init(&t->sem, 0, 0);
    pthread_attr_t a; pthread_attr_init(&a);
#if SIM_TS
    region_init();
    t->lo = TS_BASE + t->tid * STACK_SZ; t->hi = t->lo + STACK_SZ;
    pthread_attr_setstack(&a, (void*)(t->lo), STACK_SZ);
#else
    pthread_attr_setstacksize(&a, 4 << 20);
#endif
    if (pthread_create(&t->th, &a, tmain, t)) harness_error("pthread_create");
    return t;
}
int spawn(std::function<void()> fn) { Sim g; Thread* t = new_thread(std::move(fn)); ts_sync((uintptr_t)&th_[t->tid], false, true); return t->tid; }
JoinResult join_all() {
    Sim g;
    joining_ = true; join_ready_ = false;
    self_->st = T_BLOCKED; self_->ready = [] { return join_ready_; };
    dispatch();
    joining_ = false; join_ready_ = false; self_->st = T_RUN;
    ts_sync((uintptr_t)&th_[0], true, false);
    return join_res_;
}
bool thread_done(int tid) { return th_[tid].st == T_DONE; }
bool thread_blocked(int tid) { return th_[tid].st == T_BLOCKED; }

// run the scenario on thread 0
void run_scenario(void (*f)()) {
    cur_ = nullptr;
    Thread* t = new_thread([f] { f(); finish_ok(); });
    running_ = true; cur_ = t;
    sem_post(&t->sem);
    for (;;) pause();
}

// ------------------------------------------------------------------ allocator
AllocCfg alloc_cfg; bool alloc_fault_fired = false;
static uint64_t live_bytes_ = 0, live_blocks_ = 0;
uint64_t app_live_bytes() { return live_bytes_; }
uint64_t app_live_blocks() { return live_blocks_; }
// optional record of where live blocks were allocated (resource accounting)
struct Origin { uint64_t seq; size_t n; void* pc[12]; int depth; };
static std::map<uintptr_t, Origin>* origins_ = nullptr; static uint64_t alloc_seq_ = 0; static bool tracking_ = false;
void track_allocs() { if (!origins_) origins_ = new std::map<uintptr_t, Origin>; }
uint64_t alloc_mark() { return alloc_seq_; }
static void track_alloc(void* p, size_t n) {
    alloc_seq_++; if (!origins_ || !p || tracking_) return;
    tracking_ = true; Origin o; o.seq = alloc_seq_; o.n = n; o.depth = backtrace(o.pc, 12); (*origins_)[(uintptr_t)p] = o; tracking_ = false;
}
static void track_free(void* p) { if (origins_ && p && !tracking_) { tracking_ = true; origins_->erase((uintptr_t)p); tracking_ = false; } }
std::vector<size_t> held_sizes(uint64_t mark) { std::vector<size_t> r; if (origins_) for (auto& o : *origins_) if (o.second.seq > mark) r.push_back(o.second.n); return r; }
std::string held_since(uint64_t mark) {       // allocation sites of blocks allocated after mark and still held
    std::string r; unsigned n = 0; char b[64];
    if (origins_) for (auto& o : *origins_) if (o.second.seq > mark && n < 4) { n++; snprintf(b, sizeof b, "\n  %zu bytes allocated at", o.second.n); r += b; for (int i = 2; i < o.second.depth && i < 9; i++) { snprintf(b, sizeof b, " pc %p", (char*)o.second.pc[i] - 1); r += b; } }
    return r;
}
#if SIM_TS
static bool region_ok = false; static uintptr_t bump_ = 0, bump_end_ = 0;
static const int NCLASS = 96; static uintptr_t freel_[NCLASS];
struct Hdr { uint64_t size; uint64_t cls; };
void region_init() {
    if (region_ok) return; region_ok = true;
    void* p = mmap((void*)TS_BASE, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)TS_BASE) { fprintf(stderr, "cannot map the simulation arena\n"); _exit(70); }
    bump_ = TS_BASE + STACKS; bump_end_ = TS_BASE + REGION;
}
bool in_region(uintptr_t a) { return a >= TS_BASE && a < TS_BASE + REGION; }
static int size_class(size_t n, size_t& rounded) {
    if (n <= 1024) { int c = (int)((n + 15) / 16); if (c == 0) c = 1; rounded = c * 16; return c; }
    int c = 65; size_t s = 2048; while (s < n) { s <<= 1; c++; } rounded = s; return c;
}
static void* raw_alloc(size_t n) {
    region_init();
    size_t r; int c = size_class(n, r); uintptr_t p;
    if (freel_[c]) { p = freel_[c]; freel_[c] = *(uintptr_t*)(p); if (sh) sh->faults[F_ADDR_REUSE]++; }
    else { if (bump_ + r + 16 > bump_end_) return nullptr; p = bump_ + 16; bump_ += r + 16; }
    Hdr* h = (Hdr*)(p - 16); h->size = n; h->cls = c | 0xA110C00000000000ull;
    memset((void*)p, alloc_cfg.fill, r);
    ts_alloc(p, r);
    live_bytes_ += n; live_blocks_++; track_alloc((void*)p, n);
    return (void*)p;
}
static void raw_free(void* q, void* pc) {
    if (!q) return;
    if (!in_region((uintptr_t)q)) { free(q); return; }
    Hdr* h = (Hdr*)((uintptr_t)q - 16);
    if ((h->cls >> 44) != 0xA110C) violation("bad-free", "free of a block that is not allocated (pc %p)", pc);
    size_t r; int c = size_class(h->size, r);
    ts_free((uintptr_t)q, r, pc);
    h->cls = 0xF4EE;
    live_bytes_ -= h->size; live_blocks_--; track_free(q);
    memset(q, (unsigned char)(alloc_cfg.fill ^ 0x5f), r);
    if (alloc_cfg.reuse) { *(uintptr_t*)q = freel_[c]; freel_[c] = (uintptr_t)q; }
}
static size_t raw_size(void* q) { return ((Hdr*)((uintptr_t)q - 16))->size; }
#else
void region_init() {}
bool in_region(uintptr_t) { return false; }
extern "C" size_t malloc_usable_size(void*);
static void* raw_alloc(size_t n) { void* p = malloc(n); if (p) { memset(p, alloc_cfg.fill, n < 8192 ? n : 8192); live_bytes_ += n; live_blocks_++; track_alloc(p, n); } return p; }
static void raw_free(void* p, void*) { if (p) { live_blocks_--; track_free(p); } free(p); }
static size_t raw_size(void* q) { return malloc_usable_size(q); }
#endif
static bool should_fail(size_t n) {
    if (!running_) return false;
    if (n > alloc_cfg.limit) { fault(F_ALLOC_FAIL); probe("allocation beyond memory limit"); return true; }
    alloc_cfg.count++;
    if (alloc_cfg.fail_at && alloc_cfg.count >= alloc_cfg.fail_at && alloc_cfg.count < alloc_cfg.fail_at + alloc_cfg.fail_count) {
        fault(F_ALLOC_FAIL); alloc_fault_fired = true; return true;
    }
    return false;
}
void* app_malloc(size_t n) { void* p = raw_alloc(n); if (!p) harness_error("out of arena"); return p; }
static void* app_alloc(size_t n) { Sim g; step(); if (should_fail(n)) { return nullptr; } void* p = raw_alloc(n); if (!p) { probe("arena exhausted"); } return p; }

// ------------------------------------------------------------------ kernel
Kernel* k = nullptr; uint64_t n_syscalls = 0;
struct FD { std::shared_ptr<Node> n; uint64_t off = 0; int flags = 0; uint64_t ver = 0; bool r = false, w = false; bool shared_dup = false; };
static std::map<int, FD>* fds_ = nullptr;
void kernel_reset() { k = new Kernel; fds_ = new std::map<int, FD>; }
std::shared_ptr<Node> make_file(const std::string& p, const std::string& d) { auto n = std::make_shared<Node>(); n->path = p; n->data = d; k->fs[p] = n; return n; }
std::shared_ptr<Node> make_fifo(const std::string& p) { auto n = std::make_shared<Node>(); n->path = p; n->fifo = true; k->fs[p] = n; return n; }
int open_fds() { return (int)fds_->size(); }
static void sys_enter() {
    n_syscalls++;
    if (k->latency_max) { uint64_t v = choose(D, 8); if (v) now_ += k->latency_max * v / 8; }
    fire_due();
    yield_point();
}
static int sys_open(const char* path, int flags) {
    sys_enter();
    if (!path) { errno = EFAULT; return -1; }
    if (k->open_errno) { errno = k->open_errno; fault(errno == EMFILE ? F_OPEN_EMFILE : errno == ENOENT ? F_OPEN_ENOENT : F_OPEN_EACCES); log_event("open(%s) = -1 errno %d (injected)", path, errno); return -1; }
    auto it = k->fs.find(path);
    if (it == k->fs.end()) {
        if (flags & O_CREAT) { make_file(path, ""); it = k->fs.find(path); }
        else { errno = ENOENT; fault(F_OPEN_ENOENT); log_event("open(%s) = -1 ENOENT", path); return -1; }
    }
    auto n = it->second; int acc = flags & O_ACCMODE;
    FD f; f.n = n; f.flags = flags; f.r = acc != O_WRONLY; f.w = acc != O_RDONLY;
    if (n->fifo) {
        if (f.r && !f.w) {
            n->readers++; n->r_counter++;
            if (n->on_read_open) { auto fn = n->on_read_open; fn(); }
            if (n->writers == 0) {
                if (flags & O_NONBLOCK) f.ver = n->w_counter;
                else { uint64_t c = n->w_counter; block_until([n, c] { return n->w_counter != c || n->writers; }); }
            }
        } else if (f.w && !f.r) {
            if ((flags & O_NONBLOCK) && n->readers == 0) { errno = ENXIO; return -1; }
            n->writers++; n->w_counter++;
            if (n->readers == 0) { uint64_t c = n->r_counter; block_until([n, c] { return n->r_counter != c || n->readers; }); }
        } else { n->readers++; n->writers++; n->r_counter++; n->w_counter++; }
    } else if ((flags & O_TRUNC) && f.w) { n->data.clear(); n->durable_log.clear(); }
    int fd = k->fd_base; while (fds_->count(fd)) fd++;
    if (fd > 1023) fault(F_HIGH_FD);
    (*fds_)[fd] = f; k->opened.push_back(path);
    log_event("open(%s,%x) = %d", path, flags, fd);
    return fd;
}
static FD* getfd(int fd) { auto it = fds_->find(fd); if (it == fds_->end()) { errno = EBADF; return nullptr; } return &it->second; }
static int sys_close(int fd) {
    n_syscalls++; yield_point();
    FD* f = getfd(fd); if (!f) { log_event("close(%d) = -1 EBADF", fd); return -1; }
    auto n = f->n; if (n->fifo) { if (f->r) n->readers--; if (f->w) n->writers--; }
    fds_->erase(fd); log_event("close(%d)", fd);
    if (n->on_drain) { auto fn = n->on_drain; fn(); }
    return 0;
}
static ssize_t sys_read(int fd, void* buf, size_t cnt, int64_t pos) {
    sys_enter();
    FD* f = getfd(fd); if (!f || !f->r) { errno = EBADF; return -1; }
    auto n = f->n;
    if (n->eintr_at != UINT64_MAX && n->total_read >= n->eintr_at) { n->eintr_at = UINT64_MAX; fault(F_READ_EINTR); errno = EINTR; log_event("read(%d) = -1 EINTR", fd); return -1; }
    if (n->total_read >= n->err_at) { fault(F_READ_EIO); errno = n->err_no; log_event("read(%d) = -1 errno %d", fd, errno); return -1; }
    size_t avail;
    if (n->fifo) {
        if (n->data.empty()) {
            if (n->writers == 0) { log_event("read(%d) = 0", fd); return 0; }
            if (f->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
            probe("blocking read on an empty pipe");
            block_until([n] { return !n->data.empty() || n->writers == 0 || (n->eintr_at != UINT64_MAX && n->total_read >= n->eintr_at); });
            if (n->data.empty() && n->writers != 0) { n->eintr_at = UINT64_MAX; fault(F_READ_EINTR); errno = EINTR; log_event("read(%d) = -1 EINTR", fd); return -1; }
            if (n->data.empty()) { log_event("read(%d) = 0 (eof)", fd); return 0; }
            f = getfd(fd); if (!f) return -1;
        }
        avail = n->data.size();
    } else {
        uint64_t o = pos >= 0 ? (uint64_t)pos : f->off;
        avail = o < n->data.size() ? n->data.size() - o : 0;
        if (avail == 0) { log_event("read(%d) = 0", fd); return 0; }
    }
    size_t c = std::min(cnt, avail);
    if (n->chunk_max) { size_t m = (size_t)range(D, 1, n->chunk_max); if (m < c) { c = m; fault(F_SHORT_READ); } }
    if (n->err_at != UINT64_MAX && n->total_read + c > n->err_at) c = (size_t)(n->err_at - n->total_read);
    if (n->eintr_at != UINT64_MAX && n->total_read + c > n->eintr_at && n->eintr_at > n->total_read) c = (size_t)(n->eintr_at - n->total_read);
    if (c == 0 && cnt) { return sys_read(fd, buf, cnt, pos); }
    if (n->fifo) { memcpy(buf, n->data.data(), c); n->data.erase(0, c); }
    else { uint64_t o = pos >= 0 ? (uint64_t)pos : f->off; memcpy(buf, n->data.data() + o, c); if (pos < 0) f->off += c; }
    n->total_read += c;
    if (n->on_drain) { auto fn = n->on_drain; fn(); }
    log_event("read(%d,%zu) = %zu", fd, cnt, c);
    return (ssize_t)c;
}
static ssize_t sys_write(int fd, const void* buf, size_t cnt) {
    sys_enter();
    FD* f = getfd(fd); if (!f || !f->w) { errno = EBADF; return -1; }
    auto n = f->n; const char* p = (const char*)buf;
    if (cnt == 0) return 0;
    size_t c = cnt;
    if (n->wmax) { size_t m = (size_t)range(D, 1, n->wmax); if (m < c) { c = m; fault(F_SHORT_WRITE); } }
    if (n->fifo) {
        if (n->readers == 0) { errno = EPIPE; log_event("write(%d) = -1 EPIPE", fd); return -1; }
        if (n->data.size() >= n->capacity) { fault(F_BACKPRESSURE); block_until([n] { return n->data.size() < n->capacity || n->readers == 0; }); if (n->readers == 0) { errno = EPIPE; return -1; } }
        c = std::min(c, n->capacity - n->data.size());
        n->data.append(p, c);
    } else {
        if (n->data.size() >= n->full_at) { fault(F_WRITE_ENOSPC); errno = ENOSPC; log_event("write(%d) = -1 ENOSPC", fd); return -1; }
        if (n->full_at != UINT64_MAX) c = std::min<uint64_t>(c, n->full_at - n->data.size());
        if (f->off < n->data.size() && !(f->flags & O_APPEND)) { size_t ov = std::min<size_t>(c, n->data.size() - f->off); n->data.replace(f->off, ov, p, c); }
        else n->data.append(p, c);
        f->off += c;
    }
    n->total_written += c; n->durable_log.append(p, c);
    log_event("write(%d,%zu) = %zu", fd, cnt, c); hash_bytes(p, c);
    return (ssize_t)c;
}
static bool fd_readable(FD* f) {
    Node* n = f->n.get();
    if (!n->fifo) return true;
    if (!f->r) return false;
    return !n->data.empty() || (n->writers == 0 && f->ver != n->w_counter);
}
static bool fd_hup(FD* f) { Node* n = f->n.get(); return n->fifo && f->r && n->writers == 0 && f->ver != n->w_counter; }
static bool fd_writable(FD* f) { Node* n = f->n.get(); return f->w && (!n->fifo || n->data.size() < n->capacity || n->readers == 0); }
static bool wait_eintr_ = false;
static bool wait_interrupted() {
    int i = k->n_waits++;
    for (int x : k->eintr_waits) if (x == i) { fault(F_WAIT_EINTR); return true; }
    return false;
}
// wait until pred or timeout (ns, UINT64_MAX = forever); returns false on timeout
static bool sys_wait(const std::function<bool()>& pred, uint64_t tmo) {
    uint64_t dl = tmo == UINT64_MAX || now_ + tmo < now_ ? UINT64_MAX : now_ + tmo;
    if (k->eintr_time < dl) { uint64_t et = k->eintr_time; bool r = block_until_t(pred, et); if (r) return true; k->eintr_time = UINT64_MAX; fault(F_WAIT_EINTR); wait_eintr_ = true; return false; }
    bool r = block_until_t(pred, dl);
    if (!r) { fault(F_TIMEOUT); probe("wait timed out"); }
    return r;
}

std::shared_ptr<Feeder> make_feeder(std::shared_ptr<Node> n, std::vector<Act> acts) {
    auto f = std::make_shared<Feeder>(); f->node = n; f->acts = std::move(acts); f->write_time.assign(f->acts.size(), UINT64_MAX);
    return f;
}
void Feeder::start() {
    auto me = shared_from_this();
    node->on_drain = [me] { if (me->started && me->pos < me->acts.size() && me->acts[me->pos].k == Act::WRITE && me->off > 0) { me->off--; me->step(); } };
    schedule();
}
void Feeder::schedule() { if (pos < acts.size()) { auto me = shared_from_this(); started = false; after(acts[pos].delay, [me] { me->started = true; me->off = 0; me->step(); }); } }
void Feeder::step() {       // off: bytes already written + 1 while blocked on a full pipe
    Act& a = acts[pos];
    switch (a.k) {
    case Act::OPEN:                     // opening a FIFO for writing blocks until there is a reader
        if (node->readers == 0) { auto me = shared_from_this(); node->on_read_open = [me] { me->node->on_read_open = nullptr; after(0, [me] { me->step(); }); }; return; }
        node->writers++; node->w_counter++; open = true; break;
    case Act::CLOSE: if (open) node->writers--; open = false; break;
    case Act::WRITE: {
        size_t done = off;
        if (node->readers == 0 && done < a.bytes.size()) {      // SIGPIPE: the writer dies
            log_event("writer: killed by SIGPIPE"); if (open) node->writers--; open = false; started = false; pos = acts.size(); return; }
        size_t room = node->capacity > node->data.size() ? node->capacity - node->data.size() : 0;
        size_t c = std::min(room, a.bytes.size() - done);
        node->data.append(a.bytes, done, c); node->total_written += c; done += c;
        if (done < a.bytes.size()) { off = done + 1; fault(F_BACKPRESSURE); return; }
        off = 0;
        break; }
    }
    started = false;
    write_time[pos] = now_;
    log_event("writer: %s %zu", a.k == Act::OPEN ? "open" : a.k == Act::CLOSE ? "close" : "write", a.bytes.size());
    pos++;
    schedule();
}

// ------------------------------------------------------------------ synchronisation objects
struct Mtx { int owner = -1; int count = 0; bool once_running = false; int readers = 0; int waiters_gen = 0; };
static std::map<uintptr_t, Mtx>* mtx_ = nullptr;
static Mtx& mtx(const void* p) { if (!mtx_) mtx_ = new std::map<uintptr_t, Mtx>; return (*mtx_)[(uintptr_t)p]; }
void forget_sync(uintptr_t a, size_t n) { if (!mtx_) return; auto i = mtx_->lower_bound(a); while (i != mtx_->end() && i->first < a + n) { i = mtx_->erase(i); } }

// ------------------------------------------------------------------ simulated stdio
struct SFILE { uint32_t magic = 0x51F11E; int fd = -1; bool r = false, w = false; std::string wbuf; std::string rbuf; size_t rpos = 0; bool eof = false, err = false; size_t cap = 4096; int mode = 0; int owner = -1; int depth = 0; int unget = -1; };
static SFILE* sf(void* f) { SFILE* s = (SFILE*)f; if (!s) violation("null-file", "stdio call on a NULL stream"); if (s->magic != 0x51F11E) violation("bad-file", "stdio call on an invalid or closed stream"); return s; }
struct FLock { SFILE* s; FLock(SFILE* f) : s(f) { int t = cur_tid(); if (s->owner != t) { SFILE* q = s; block_until([q] { return q->owner == -1; }); s->owner = t; ts_sync((uintptr_t)s, true, false); } s->depth++; }
    ~FLock() { if (--s->depth == 0) { ts_sync((uintptr_t)s, false, true); s->owner = -1; } } };
static int f_flush(SFILE* s) {
    while (!s->wbuf.empty()) {
        ssize_t c = sys_write(s->fd, s->wbuf.data(), s->wbuf.size());
        if (c < 0) { if (errno == EINTR) continue; s->err = true; return -1; }
        s->wbuf.erase(0, c);
    }
    return 0;
}
static size_t f_put(SFILE* s, const char* p, size_t n) {
    if (!s->w) { s->err = true; errno = EBADF; return 0; }
    size_t i = 0;
    while (i < n) {
        size_t room = s->cap > s->wbuf.size() ? s->cap - s->wbuf.size() : 0;
        if (room == 0) { if (f_flush(s)) return i; room = s->cap; }
        size_t c = std::min(room, n - i); s->wbuf.append(p + i, c);
        bool nl = s->mode == _IOLBF && memchr(p + i, '\n', c);
        i += c;
        if (s->mode == _IONBF || nl) if (f_flush(s)) return i;
    }
    return n;
}
static int f_get(SFILE* s) {
    if (s->unget >= 0) { int c = s->unget; s->unget = -1; return c; }
    if (s->rpos >= s->rbuf.size()) {
        if (s->eof) return -1;                       // glibc: end-of-file is sticky
        s->rbuf.resize(4096); s->rpos = 0;
        ssize_t c = sys_read(s->fd, &s->rbuf[0], 4096, -1);
        if (c <= 0) { s->rbuf.clear(); if (c == 0) s->eof = true; else s->err = true; return -1; }
        s->rbuf.resize(c);
    }
    return (unsigned char)s->rbuf[s->rpos++];
}
static SFILE* f_open(int fd, const char* mode) {
    SFILE* s = new SFILE; s->fd = fd; s->r = strchr(mode, 'r') || strchr(mode, '+'); s->w = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+');
    s->cap = k->stdio_buf ? k->stdio_buf : 4096; return s;
}
} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)

// ==================================================================== redirected entry points
extern "C" {

// --- memory
void* sim_malloc(size_t n) { return app_alloc(n); }
void sim_free(void* p) { if (!p) return; Sim g; step(); raw_free(p, PC); }
void* sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void* p = app_alloc(n); if (p) memset(p, 0, n); return p; }
void* sim_realloc(void* q, size_t n) {
    if (!q) return app_alloc(n);
    void* p = app_alloc(n); if (!p) return nullptr;
    Sim g; memcpy(p, q, std::min(n, raw_size(q))); raw_free(q, PC); return p;
}
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)app_alloc(n); if (p) memcpy(p, s, n); return p; }
char* sim_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)app_alloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void* sim_reallocarray(void* q, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return sim_realloc(q, n); }
void* sim_new(size_t n) { void* p = app_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* sim_new_nt(size_t n, const void*) { return app_alloc(n); }
void* sim_new_al(size_t n, size_t) { return sim_new(n); }
void sim_delete(void* p) { sim_free(p); }
void sim_delete_sz(void* p, size_t) { sim_free(p); }
void sim_delete_nt(void* p, const void*) { sim_free(p); }

// --- descriptors
int sim_open(const char* p, int fl, ...) { Sim g; return sys_open(p, fl); }
int sim_openat(int, const char* p, int fl, ...) { Sim g; return sys_open(p, fl); }
int sim_creat(const char* p, mode_t) { Sim g; return sys_open(p, O_CREAT | O_WRONLY | O_TRUNC); }
int sim_close(int fd) { Sim g; return sys_close(fd); }
ssize_t sim_read(int fd, void* b, size_t n) { ssize_t r; { Sim g; r = sys_read(fd, b, n, -1); } if (r > 0) ts_range((uintptr_t)b, r, true, PC); return r; }
ssize_t sim_pread(int fd, void* b, size_t n, off_t o) { ssize_t r; { Sim g; r = sys_read(fd, b, n, o); } if (r > 0) ts_range((uintptr_t)b, r, true, PC); return r; }
ssize_t sim_readv(int fd, const struct iovec* v, int c) { for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len); return 0; }
ssize_t sim_write(int fd, const void* b, size_t n) { Sim g; ts_range((uintptr_t)b, n, false, PC); return sys_write(fd, b, n); }
ssize_t sim_writev(int fd, const struct iovec* v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
off_t sim_lseek(int fd, off_t o, int wh) {
    Sim g; n_syscalls++; FD* f = getfd(fd); if (!f) return -1; if (f->n->fifo) { errno = ESPIPE; return -1; }
    int64_t nb = wh == SEEK_SET ? o : wh == SEEK_CUR ? (int64_t)f->off + o : (int64_t)f->n->data.size() + o;
    if (nb < 0) { errno = EINVAL; return -1; } f->off = nb; return nb;
}
int sim_fcntl(int fd, int cmd, ...) {
    Sim g; n_syscalls++; yield_point();
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    FD* f = getfd(fd); if (!f) return -1;
    switch (cmd) {
    case F_GETFL: return f->flags;
    case F_SETFL: f->flags = (f->flags & O_ACCMODE) | (int)(arg & ~O_ACCMODE); return 0;
    case F_GETFD: return 0; case F_SETFD: return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int nfd = std::max<int>((int)arg, k->fd_base); while (fds_->count(nfd)) nfd++; FD c = *f; if (c.n->fifo) { if (c.r) c.n->readers++; if (c.w) c.n->writers++; } (*fds_)[nfd] = c; return nfd; }
    default: return 0; }
}
int sim_dup(int fd) { return sim_fcntl(fd, F_DUPFD, 0L); }
int sim_ioctl(int fd, unsigned long req, ...) {
    Sim g; n_syscalls++; va_list ap; va_start(ap, req); void* p = va_arg(ap, void*); va_end(ap);
    FD* f = getfd(fd); if (!f) return -1;
    if (req == 0x541B) { *(int*)p = (int)(f->n->fifo ? f->n->data.size() : f->n->data.size() - std::min<uint64_t>(f->off, f->n->data.size())); return 0; }
    if (req == 0x5421) { if (*(int*)p) f->flags |= O_NONBLOCK; else f->flags &= ~O_NONBLOCK; return 0; }
    errno = ENOTTY; return -1;
}
static void fillstat(Node* n, struct stat* st) { memset(st, 0, sizeof *st); st->st_mode = n->fifo ? S_IFIFO | 0600 : S_IFREG | 0600; st->st_size = n->fifo ? 0 : (off_t)n->data.size(); st->st_blksize = 4096; st->st_nlink = 1; }
int sim_fstat(int fd, struct stat* st) { Sim g; n_syscalls++; FD* f = getfd(fd); if (!f) return -1; fillstat(f->n.get(), st); return 0; }
int sim_stat(const char* p, struct stat* st) { Sim g; sys_enter(); auto it = k->fs.find(p ? p : ""); if (it == k->fs.end()) { errno = ENOENT; return -1; } fillstat(it->second.get(), st); return 0; }
int sim_access(const char* p, int) { Sim g; sys_enter(); bool e = k->fs.count(p ? p : "") != 0; log_event("access(%s) = %d", p ? p : "(null)", e ? 0 : -1); if (!e) { errno = ENOENT; return -1; } return 0; }
int sim_unlink(const char* p) { Sim g; sys_enter(); log_event("unlink(%s)", p ? p : "(null)"); if (!k->fs.erase(p ? p : "")) { errno = ENOENT; return -1; } return 0; }
int sim_isatty(int) { errno = ENOTTY; return 0; }
int sim_fsync(int) { Sim g; sys_enter(); return 0; }
int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }

static uint64_t tv_ns(const struct timeval* t) { return (uint64_t)t->tv_sec * SEC + (uint64_t)t->tv_usec * 1000; }
static uint64_t ts_ns(const struct timespec* t) { return (uint64_t)t->tv_sec * SEC + (uint64_t)t->tv_nsec; }
static int do_select(int nfds, fd_set* r, fd_set* w, fd_set* e, uint64_t tmo) {
    sys_enter();
    std::vector<int> rs, ws;
    int words = (nfds + 63) / 64;
    if (nfds < 0) { errno = EINVAL; return -1; }
    const unsigned long* rb = (const unsigned long*)r; const unsigned long* wb = (const unsigned long*)w;
    for (int i = 0; i < nfds; i++) {
        if (r && (rb[i / 64] >> (i % 64) & 1)) rs.push_back(i);
        if (w && (wb[i / 64] >> (i % 64) & 1)) ws.push_back(i);
    }
    for (int x : rs) if (!getfd(x)) { log_event("select = -1 EBADF"); return -1; }
    for (int x : ws) if (!getfd(x)) { log_event("select = -1 EBADF"); return -1; }
    if (wait_interrupted()) { errno = EINTR; log_event("select = -1 EINTR"); return -1; }
    auto pred = [&] { for (int x : rs) { FD* f = getfd(x); if (f && fd_readable(f)) return true; } for (int x : ws) { FD* f = getfd(x); if (f && fd_writable(f)) return true; } return false; };
    wait_eintr_ = false; sys_wait(pred, tmo); if (wait_eintr_) { errno = EINTR; log_event("wait = -1 EINTR"); return -1; }
    int c = 0;
    if (r) memset(r, 0, words * 8); if (w) memset(w, 0, words * 8); if (e) memset(e, 0, words * 8);
    for (int x : rs) { FD* f = getfd(x); if (f && fd_readable(f)) { ((unsigned long*)r)[x / 64] |= 1ul << (x % 64); c++; } }
    for (int x : ws) { FD* f = getfd(x); if (f && fd_writable(f)) { ((unsigned long*)w)[x / 64] |= 1ul << (x % 64); c++; } }
    log_event("select = %d", c);
    return c;
}
int sim_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) {
    Sim g; uint64_t t0 = now(); int rc = do_select(n, r, w, e, t ? tv_ns(t) : UINT64_MAX);
    if (t) { uint64_t used = now() - t0, all = tv_ns(t), left = all > used ? all - used : 0; t->tv_sec = left / SEC; t->tv_usec = (left % SEC) / 1000; }
    return rc;
}
int sim_pselect(int n, fd_set* r, fd_set* w, fd_set* e, const struct timespec* t, const sigset_t*) { Sim g; return do_select(n, r, w, e, t ? ts_ns(t) : UINT64_MAX); }
static int do_poll(struct pollfd* p, nfds_t n, uint64_t tmo) {
    sys_enter();
    if (wait_interrupted()) { errno = EINTR; log_event("poll = -1 EINTR"); return -1; }
    auto ev = [&](struct pollfd& q) -> short {
        if (q.fd < 0) return 0;
        FD* f = getfd(q.fd); if (!f) return POLLNVAL; short s = 0;
        Node* nd = f->n.get();
        if (nd->fifo ? !nd->data.empty() && f->r : true) s |= (POLLIN | POLLRDNORM) & q.events;
        if (fd_hup(f)) s |= POLLHUP;
        if (fd_writable(f)) s |= (POLLOUT | POLLWRNORM) & q.events;
        return s; };
    auto pred = [&] { for (nfds_t i = 0; i < n; i++) if (ev(p[i])) return true; return false; };
    wait_eintr_ = false; sys_wait(pred, tmo); if (wait_eintr_) { errno = EINTR; log_event("wait = -1 EINTR"); return -1; }
    int c = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = ev(p[i]); if (p[i].revents) c++; }
    log_event("poll = %d", c);
    return c;
}
int sim_poll(struct pollfd* p, nfds_t n, int ms) { Sim g; return do_poll(p, n, ms < 0 ? UINT64_MAX : (uint64_t)ms * MS); }
int sim_ppoll(struct pollfd* p, nfds_t n, const struct timespec* t, const sigset_t*) { Sim g; return do_poll(p, n, t ? ts_ns(t) : UINT64_MAX); }

// --- time, randomness, environment
static void do_sleep(uint64_t ns) { Sim g; sys_enter(); uint64_t dl = now_ + ns; block_until([] { return false; }, dl); }
unsigned sim_sleep(unsigned s) { do_sleep(s * SEC); return 0; }
int sim_usleep(unsigned us) { do_sleep(us * 1000ull); return 0; }
int sim_nanosleep(const struct timespec* t, struct timespec*) { do_sleep(ts_ns(t)); return 0; }
int sim_clock_nanosleep(clockid_t, int fl, const struct timespec* t, struct timespec*) { uint64_t n = ts_ns(t); if (fl & TIMER_ABSTIME) n = n > now_ ? n - now_ : 0; do_sleep(n); return 0; }
int sim_sched_yield() { Sim g; yield_point(); return 0; }
int sim_clock_gettime(clockid_t, struct timespec* t) { Sim g; sys_enter(); t->tv_sec = now_ / SEC + 1000000; t->tv_nsec = now_ % SEC; return 0; }
int sim_gettimeofday(struct timeval* t, void*) { Sim g; sys_enter(); t->tv_sec = now_ / SEC + 1000000; t->tv_usec = (now_ % SEC) / 1000; return 0; }
time_t sim_time(time_t* p) { Sim g; sys_enter(); time_t v = now_ / SEC + 1000000; if (p) *p = v; return v; }
int64_t sim_steady_now() { Sim g; sys_enter(); return (int64_t)(now_ + 1000000ull * SEC); }
int64_t sim_system_now() { Sim g; sys_enter(); return (int64_t)(now_ + 1000000ull * SEC); }
int g_rand_mode = 0; static int low_run_ = 0;
int sim_rand() {
    Sim g; step();
    if (!sh) return RAND_MAX;
    uint64_t v = choose(R, 1ull << 31);            // decision 0 -> RAND_MAX
    int r;
    if (g_rand_mode == 1) { r = (int)(v % 8 ? v >> 3 : RAND_MAX - (v >> 3)); fault(F_RAND_SKEW); }      // mostly small
    else if (g_rand_mode == 2) { r = (int)(v % 8 ? RAND_MAX - (v >> 3) : v >> 3); fault(F_RAND_SKEW); } // mostly large
    else if (g_rand_mode == 3) { r = (v & 1) ? (int)(v % 3) : RAND_MAX - (int)(v % 3); fault(F_RAND_SKEW); }
    else if (g_rand_mode == 4) { r = (v & 3) ? RAND_MAX / 2 + (int)(v % 5) - 2 : (int)v; fault(F_RAND_SKEW); }
    else if (g_rand_mode == 5) { r = (int)(v % 64 ? v >> 8 : RAND_MAX); fault(F_RAND_SKEW); }          // runs of small values
    else r = (int)(RAND_MAX - v);
    if (r < RAND_MAX / 2) { if (++low_run_ > 40) { low_run_ = 0; r = RAND_MAX; } } else low_run_ = 0;
    return r;
}
long sim_random() { return sim_rand(); }
int sim_rand_r(unsigned*) { return sim_rand(); }
void sim_srand(unsigned) {}
char* sim_getenv(const char* n) { Sim g; auto it = k->env.find(n); return it == k->env.end() ? nullptr : (char*)it->second.c_str(); }

// --- fatal exits of the code under test
void sim_abort() { violation("abort", "the code under test called abort()"); }
void sim_exit(int c) { violation("exit", "the code under test called exit(%d)", c); }
void sim_assert_fail(const char* e, const char* f, unsigned l, const char*) { violation("assertion", "assertion failed in the code under test: %s (%s:%u)", e, f, l); }
void sim_terminate() { violation("terminate", "uncaught exception or std::terminate in the code under test"); }

// --- pthread
int sim_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { Sim g; if (mtx_) mtx_->erase((uintptr_t)m); int kind = 0; if (a) pthread_mutexattr_gettype(a, &kind); memset((void*)m, 0, sizeof *m); m->__data.__kind = kind; return 0; }
int sim_mutex_destroy(pthread_mutex_t* m) { Sim g; if (mtx_) mtx_->erase((uintptr_t)m); return 0; }
static int do_lock(const void* m, int kind, bool tr, uint64_t dl = UINT64_MAX) {
    if (!running_ || !self_) return 0;
    Sim g; yield_point();
    int t = cur_tid(); Mtx* x = &mtx(m);
    if (x->owner == t) {
        if (kind == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
        if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        if (tr) return EBUSY;
        probe("self-deadlock on a mutex");
    }
    if (x->owner != -1 || x->readers) {
        if (tr) return EBUSY;
        probe("blocked on a lock");
        if (!block_until_t([m] { Mtx& y = mtx(m); return y.owner == -1 && y.readers == 0; }, dl)) return ETIMEDOUT;
        x = &mtx(m);
    }
    x->owner = t; x->count = 1;
    ts_sync((uintptr_t)m, true, false);
    return 0;
}
int sim_mutex_lock(pthread_mutex_t* m) { return do_lock(m, m->__data.__kind & 3, false); }
int sim_mutex_trylock(pthread_mutex_t* m) { return do_lock(m, m->__data.__kind & 3, true); }
static uint64_t abs_dl(const struct timespec* t) { uint64_t n = ts_ns(t), b = 1000000ull * SEC; return n > b ? n - b : 0; }
int sim_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { return do_lock(m, m->__data.__kind & 3, false, abs_dl(t)); }
int sim_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* t) { return do_lock(m, m->__data.__kind & 3, false, abs_dl(t)); }
int sim_mutex_unlock(pthread_mutex_t* m) {
    if (!running_ || !self_) return 0;
    Sim g; Mtx& x = mtx(m);
    if (x.owner != cur_tid()) violation("bad-unlock", "a mutex is unlocked by a thread that does not hold it");
    if (--x.count > 0) return 0;
    ts_sync((uintptr_t)m, false, true);
    x.owner = -1;
    yield_point();
    return 0;
}
int sim_rw_init(pthread_rwlock_t* m, const void*) { Sim g; if (mtx_) mtx_->erase((uintptr_t)m); memset((void*)m, 0, sizeof *m); return 0; }
int sim_rw_destroy(pthread_rwlock_t* m) { Sim g; if (mtx_) mtx_->erase((uintptr_t)m); return 0; }
int sim_rw_wrlock(pthread_rwlock_t* m) { return do_lock(m, 0, false); }
int sim_rw_trywrlock(pthread_rwlock_t* m) { return do_lock(m, 0, true); }
static int do_rd(pthread_rwlock_t* m, bool tr) {
    if (!running_ || !self_) return 0;
    Sim g; yield_point();
    if (mtx(m).owner != -1) { if (tr) return EBUSY; block_until([m] { return mtx(m).owner == -1; }); }
    mtx(m).readers++; ts_sync((uintptr_t)m, true, false); return 0;
}
int sim_rw_rdlock(pthread_rwlock_t* m) { return do_rd(m, false); }
int sim_rw_tryrdlock(pthread_rwlock_t* m) { return do_rd(m, true); }
int sim_rw_unlock(pthread_rwlock_t* m) {
    if (!running_ || !self_) return 0;
    Sim g; Mtx& x = mtx(m); 
    if (x.owner == cur_tid()) { ts_sync((uintptr_t)m, false, true); x.owner = -1; x.count = 0; }
    else if (x.readers > 0) { ts_sync((uintptr_t)m, true, true); x.readers--; }   // over-approximates reader ordering: no false alarms
    yield_point(); return 0;
}
int sim_spin_init(pthread_spinlock_t* m, int) { Sim g; if (mtx_) mtx_->erase((uintptr_t)m); *m = 0; return 0; }
int sim_spin_destroy(pthread_spinlock_t*) { return 0; }
int sim_spin_lock(pthread_spinlock_t* m) { return do_lock((const void*)m, 0, false); }
int sim_spin_trylock(pthread_spinlock_t* m) { return do_lock((const void*)m, 0, true); }
int sim_spin_unlock(pthread_spinlock_t* m) { return sim_mutex_unlock((pthread_mutex_t*)m); }
static int do_cond(pthread_cond_t* c, pthread_mutex_t* m, uint64_t dl) {
    Sim g; int gen = mtx(c).waiters_gen;
    sim_mutex_unlock(m);
    bool ok = block_until_t([c, gen] { return mtx(c).waiters_gen != gen; }, dl);
    ts_sync((uintptr_t)c, true, false);
    do_lock(m, 0, false);
    return ok ? 0 : ETIMEDOUT;
}
int sim_cond_init(pthread_cond_t* c, const void*) { Sim g; if (mtx_) mtx_->erase((uintptr_t)c); memset((void*)c, 0, sizeof *c); return 0; }
int sim_cond_destroy(pthread_cond_t*) { return 0; }
int sim_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return do_cond(c, m, UINT64_MAX); }
int sim_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return do_cond(c, m, abs_dl(t)); }
int sim_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return do_cond(c, m, abs_dl(t)); }
int sim_cond_signal(pthread_cond_t* c) { Sim g; ts_sync((uintptr_t)c, false, true); mtx(c).waiters_gen++; yield_point(); return 0; }   // spurious wake-ups are legal
int sim_cond_broadcast(pthread_cond_t* c) { return sim_cond_signal(c); }
int sim_once(pthread_once_t* o, void (*fn)()) {
    if (*o == 2) { ts_sync((uintptr_t)o, true, false); return 0; }
    if (running_ && self_) { Sim g; yield_point(); block_until([o] { return !mtx(o).once_running; }); if (*o == 2) { ts_sync((uintptr_t)o, true, false); return 0; } mtx(o).once_running = true; }
    try { fn(); } catch (...) { Sim g; mtx(o).once_running = false; throw; }
    Sim g; *o = 2; mtx(o).once_running = false; ts_sync((uintptr_t)o, false, true);
    return 0;
}
int sim_guard_acquire(uint64_t* gd) {
    unsigned char* b = (unsigned char*)gd;
    if (*b) { ts_sync((uintptr_t)gd, true, false); return 0; }
    if (!running_ || !self_) return 1;
    Sim g; yield_point();
    block_until([gd] { return !mtx(gd).once_running; });
    if (*b) { ts_sync((uintptr_t)gd, true, false); return 0; }
    mtx(gd).once_running = true;
    return 1;
}
void sim_guard_release(uint64_t* gd) { Sim g; *(unsigned char*)gd = 1; if (running_ && self_) { mtx(gd).once_running = false; ts_sync((uintptr_t)gd, false, true); yield_point(); } }
void sim_guard_abort(uint64_t* gd) { Sim g; if (running_ && self_) { mtx(gd).once_running = false; } }

// --- stdio
void* sim_fopen(const char* p, const char* m) {
    Sim g;
    if (!p) { violation("null-path", "fopen(NULL)"); }
    int fl = strchr(m, 'r') ? O_RDONLY : strchr(m, 'a') ? O_WRONLY | O_CREAT | O_APPEND : O_WRONLY | O_CREAT | O_TRUNC;
    if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    int fd = sys_open(p, fl); if (fd < 0) return nullptr;
    return f_open(fd, m);
}
void* sim_fdopen(int fd, const char* m) { Sim g; if (!getfd(fd)) return nullptr; return f_open(fd, m); }
int sim_fclose(void* f) { Sim g; SFILE* s = sf(f); int r; { FLock l(s); r = f_flush(s); } if (sys_close(s->fd)) r = -1; s->magic = 0; return r; }
int sim_fflush(void* f) { Sim g; yield_point(); if (!f) return 0; SFILE* s = sf(f); FLock l(s); return f_flush(s); }
size_t sim_fwrite(const void* p, size_t sz, size_t n, void* f) {
    Sim g; yield_point(); SFILE* s = sf(f); size_t tot; if (!sz || !n) return 0; if (__builtin_mul_overflow(sz, n, &tot)) return 0;
    FLock l(s); ts_range((uintptr_t)p, tot, false, PC); std::string tmp((const char*)p, tot); size_t w = f_put(s, tmp.data(), tot); return w == tot ? n : w / sz; }
int sim_fputc(int c, void* f) { Sim g; yield_point(); SFILE* s = sf(f); FLock l(s); char ch = (char)c; return f_put(s, &ch, 1) == 1 ? (unsigned char)c : -1; }
int sim_fputs(const char* p, void* f) { Sim g; yield_point(); SFILE* s = sf(f); FLock l(s); size_t n = strlen(p); std::string tmp(p, n); return f_put(s, tmp.data(), n) == n ? 1 : -1; }
int sim_fgetc(void* f) { Sim g; yield_point(); SFILE* s = sf(f); FLock l(s); return f_get(s); }
int sim_ungetc(int c, void* f) { Sim g; SFILE* s = sf(f); s->unget = c; s->eof = false; return c; }
char* sim_fgets(char* b, int n, void* f) {
    Sim g; yield_point(); SFILE* s = sf(f); FLock l(s); int i = 0;
    while (i < n - 1) { int c = f_get(s); if (c < 0) { if (s->err) return nullptr; break; } b[i++] = (char)c; if (c == '\n') break; }
    if (i == 0) return nullptr;
    b[i] = 0; return b;
}
ssize_t sim_getline(char** lp, size_t* np, void* f) {
    Sim g; SFILE* s = sf(f); FLock l(s); std::string o; for (;;) { int c = f_get(s); if (c < 0) break; o += (char)c; if (c == '\n') break; }
    if (o.empty()) return -1;
    if (!*lp || *np < o.size() + 1) { if (*lp) raw_free(*lp, PC); *np = o.size() + 1; *lp = (char*)raw_alloc(*np); }
    memcpy(*lp, o.c_str(), o.size() + 1); return (ssize_t)o.size();
}
size_t sim_fread(void* p, size_t sz, size_t n, void* f) {
    Sim g; yield_point(); SFILE* s = sf(f); FLock l(s); size_t tot = sz * n, i = 0; char* q = (char*)p;
    while (i < tot) { int c = f_get(s); if (c < 0) break; q[i++] = (char)c; }
    return sz ? i / sz : 0;
}
int sim_feof(void* f) { return sf(f)->eof; }
int sim_ferror(void* f) { return sf(f)->err; }
void sim_clearerr(void* f) { SFILE* s = sf(f); s->eof = s->err = false; }
void sim_rewind(void* f) { Sim g; SFILE* s = sf(f); f_flush(s); s->rbuf.clear(); s->rpos = 0; s->eof = s->err = false; sim_lseek(s->fd, 0, SEEK_SET); }
int sim_fseek(void* f, long o, int wh) { Sim g; SFILE* s = sf(f); f_flush(s); if (wh == SEEK_CUR) o -= (long)(s->rbuf.size() - s->rpos); s->rbuf.clear(); s->rpos = 0; s->eof = false; return sim_lseek(s->fd, o, wh) < 0 ? -1 : 0; }
long sim_ftell(void* f) { Sim g; SFILE* s = sf(f); return (long)sim_lseek(s->fd, 0, SEEK_CUR) - (long)(s->rbuf.size() - s->rpos) + (long)s->wbuf.size(); }
int sim_setvbuf(void* f, char*, int mode, size_t n) { SFILE* s = sf(f); s->mode = mode; if (n) s->cap = n; return 0; }
void sim_setbuf(void* f, char* b) { SFILE* s = sf(f); if (!b) s->mode = _IONBF; }
void sim_setlinebuf(void* f) { sf(f)->mode = _IOLBF; }
int sim_fileno(void* f) { return sf(f)->fd; }
void sim_flockfile(void* f) { Sim g; SFILE* s = sf(f); new FLock(s); }
void sim_funlockfile(void* f) { Sim g; SFILE* s = sf(f); if (--s->depth == 0) { ts_sync((uintptr_t)s, false, true); s->owner = -1; } }
int sim_fprintf(void* f, const char* fmt, ...) {
    Sim g; char b[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n < 0 || n >= (int)sizeof b) return -1; SFILE* s = sf(f); FLock l(s); return f_put(s, b, n) == (size_t)n ? n : -1;
}

// --- memory functions the compiler emits (scheduling build: feed the race detector)
void* sim_memcpy(void* d, const void* s, size_t n) { ts_range((uintptr_t)s, n, false, PC); ts_range((uintptr_t)d, n, true, PC); return memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { ts_range((uintptr_t)s, n, false, PC); ts_range((uintptr_t)d, n, true, PC); return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { ts_range((uintptr_t)d, n, true, PC); return memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { ts_range((uintptr_t)a, n, false, PC); ts_range((uintptr_t)b, n, false, PC); return memcmp(a, b, n); }
size_t sim_strlen(const char* a) { size_t n = strlen(a); ts_range((uintptr_t)a, n + 1, false, PC); return n; }

} // extern "C"

// libstdc++'s own allocations made on behalf of the code under test
void* operator new(size_t n) { if (tl_in_app) return sim_new(n); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (!p) return; if (in_region((uintptr_t)p)) { Sim g; raw_free(p, PC); } else if (tl_in_app) sim_free(p); else free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

#if !SIM_TS
namespace sim {
void ts_range(uintptr_t, size_t, bool, void*) {}
void ts_sync(uintptr_t, bool, bool) {}
void ts_alloc(uintptr_t, size_t) {}
void ts_free(uintptr_t, size_t, void*) {}
}
#endif
