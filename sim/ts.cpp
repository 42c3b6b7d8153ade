// Scheduling build: our own implementation of the compiler's __tsan_* callbacks.
// Every memory access of the code under test is a preemption point and is fed to a vector-clock race detector
// and a lifetime (use-after-free) detector.
#include "sim.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_map>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {
bool sched_on();
void step();
bool in_region(uintptr_t a);
void forget_sync(uintptr_t a, size_t n);
static const int NT = 8;
struct VC { uint32_t c[NT]; };
static VC vc[NT];
struct Cell { uint32_t wclk; uint32_t wpc; uint8_t wtid, wmask, freed, pad; uint8_t rmask[NT]; uint32_t rclk[NT]; uint32_t rpc; };
static const uintptr_t BASE = 0x10000000000ull; static const size_t REGION = 256ull << 20;
static Cell* shr = nullptr;          // region shadow
static Cell* shg = nullptr;          // globals shadow
extern "C" { extern char __data_start[]; extern char _end[]; }
static uintptr_t glo, ghi;
static std::unordered_map<uintptr_t, VC>* syncs = nullptr;
static bool inited = false;
static void init() {
    if (inited) return; inited = true;
    shr = (Cell*)mmap(nullptr, REGION / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    glo = (uintptr_t)__data_start & ~7ull; ghi = (uintptr_t)_end;
    shg = (Cell*)mmap(nullptr, ((ghi - glo) / 8 + 2) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    syncs = new std::unordered_map<uintptr_t, VC>;
    for (int t = 0; t < NT; t++) vc[t].c[t] = 1;
}
static inline Cell* cell(uintptr_t a) {
    if (a - BASE < REGION) return &shr[(a - BASE) >> 3];
    if (a >= glo && a < ghi) return &shg[(a - glo) >> 3];
    return nullptr;
}
[[noreturn]] static void race(uintptr_t a, bool w, int t, void* pc, bool ow, int u, uint32_t opc) {
    violation("data-race", "data race: %s of %s by thread %d at pc %p conflicts with an unordered earlier %s by thread %d at pc 0x%x",
              w ? "write" : "read", a - BASE < REGION ? "heap memory" : "a global/static variable", t, pc, ow ? "write" : "read", u, opc);
}
static inline void acc8(uintptr_t a, unsigned mask, bool w, void* pc, int t) {
    Cell* c = cell(a); if (!c) return;
    if (c->freed) violation("use-after-free", "%s of freed memory by thread %d at pc %p (freed at pc 0x%x)", w ? "write" : "read", t, pc, c->rpc);
    const VC& v = vc[t];
    if (c->wclk && c->wtid != t && (c->wmask & mask) && c->wclk > v.c[c->wtid]) race(a, w, t, pc, true, c->wtid, c->wpc);
    if (w) {
        for (int u = 0; u < NT; u++) if (u != t && (c->rmask[u] & mask) && c->rclk[u] > v.c[u]) race(a, w, t, pc, false, u, c->rpc);
        c->wclk = v.c[t]; c->wtid = t; c->wmask = mask; c->wpc = (uint32_t)(uintptr_t)pc;
    } else {
        if (c->rclk[t] == v.c[t]) c->rmask[t] |= mask; else { c->rclk[t] = v.c[t]; c->rmask[t] = mask; }
        c->rpc = (uint32_t)(uintptr_t)pc;
    }
}
static inline void range_check(uintptr_t a, size_t n, bool w, void* pc, int t) {
    uintptr_t lo, hi; stack_bounds(t, lo, hi);
    if (a >= lo && a < hi) return;
    while (n) { unsigned off = a & 7; size_t c = 8 - off; if (c > n) c = n; acc8(a & ~7ull, ((1u << c) - 1) << off, w, pc, t); a += c; n -= c; }
}
void ts_range(uintptr_t a, size_t n, bool w, void* pc) {
    if (!sched_on() || !n) return;
    int t = cur_tid(); if (t < 0) return;
    step();
    range_check(a, n, w, pc, t);
}
static inline void access(uintptr_t a, size_t n, bool w, void* pc) {
    if (!sched_on()) return;
    int t = cur_tid();
    step();
    range_check(a, n, w, pc, t);
}
void ts_sync(uintptr_t addr, bool acq, bool rel) {
    if (!sched_on()) return;
    Sim g; init();
    int t = cur_tid(); if (t < 0) return;
    VC& s = (*syncs)[addr]; VC& v = vc[t];
    if (acq) for (int i = 0; i < NT; i++) if (s.c[i] > v.c[i]) v.c[i] = s.c[i];
    if (rel) { for (int i = 0; i < NT; i++) if (v.c[i] > s.c[i]) s.c[i] = v.c[i]; v.c[t]++; }
}
static VC pend[NT], fence[NT];       // relaxed loads awaiting an acquire fence; clock at the last release fence
static void atomic_cell(uintptr_t a, void* pc, int t) {
    Cell* c = cell(a & ~7ull); if (!c) return;
    if (c->freed) violation("use-after-free", "atomic access to freed memory by thread %d at pc %p (freed at pc 0x%x)", t, pc, c->rpc);
    if (c->wclk && c->wtid != t && (c->wmask >> (a & 7) & 1) && c->wclk > vc[t].c[c->wtid]) race(a, false, t, pc, true, c->wtid, c->wpc);
}
void ts_alloc(uintptr_t a, size_t n) { init(); memset(&shr[(a - BASE) >> 3], 0, ((n + 7) / 8) * sizeof(Cell)); }
void ts_free(uintptr_t a, size_t n, void* pc) {
    init();
    if (sched_on() && cur_tid() >= 0) { range_check(a, n, true, pc, cur_tid()); forget_sync(a, n);  }
    Cell* c = &shr[(a - BASE) >> 3];
    for (size_t i = 0; i < (n + 7) / 8; i++) { memset(&c[i], 0, sizeof(Cell)); c[i].freed = 1; c[i].rpc = (uint32_t)(uintptr_t)pc; }
}
// the sync object "th_[i]" (spawn) is acquired by the new thread on its first step
}
using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() { init(); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
 void __tsan_read##n(void* a) { access((uintptr_t)a, n, false, PC); } \
 void __tsan_write##n(void* a) { access((uintptr_t)a, n, true, PC); } \
 void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, n, false, PC); } \
 void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, true, PC); } \
 void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, false, PC); } \
 void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) { if (!sched_on()) return; step(); if (*a != v) range_check((uintptr_t)a, 8, true, PC, cur_tid()); }   // the step must not depend on what the memory held before
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, PC); }
// Atomics follow the C++ memory model: relaxed operations create no ordering (but a relaxed read-modify-write continues a
// release sequence), so publishing through a relaxed store is reported as a race at the data it publishes.
static inline void pre() { if (sched_on()) step(); }
static inline void atom(const volatile void* p, int mo, bool rd, bool wr, void* pc, bool stepped = false) {
    if (!sched_on()) return;
    if (!stepped) step();
    Sim g; init(); int t = cur_tid(); if (t < 0) return;
    atomic_cell((uintptr_t)p, pc, t);
    VC& s = (*syncs)[(uintptr_t)p]; VC& v = vc[t];
    bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST, rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    if (rd) { VC& d = acq ? v : pend[t]; for (int i = 0; i < NT; i++) if (s.c[i] > d.c[i]) d.c[i] = s.c[i]; }
    if (wr) {
        if (!rd) s = VC();                                     // a plain store starts a new release sequence
        const VC& o = rel ? v : fence[t]; for (int i = 0; i < NT; i++) if (o.c[i] > s.c[i]) s.c[i] = o.c[i];
        if (rel) v.c[t]++;
    }
}
#define AT(N, T) \
 T __tsan_atomic##N##_load(const volatile T* a, int mo) { atom(a, mo, true, false, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
 void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { atom(a, mo, false, true, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { atom(a, mo, true, true, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { atom(a, mo, true, true, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { atom(a, mo, true, true, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { atom(a, mo, true, true, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { atom(a, mo, true, true, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { atom(a, mo, true, true, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { atom(a, mo, true, true, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fo) { pre(); bool ok = *a == *c; atom(a, ok ? mo : fo, true, ok, PC, true); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fo) { pre(); bool ok = *a == *c; atom(a, ok ? mo : fo, true, ok, PC, true); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fo) { pre(); bool ok = *a == c; atom(a, ok ? mo : fo, true, ok, PC, true); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (!sched_on()) return;
    step(); Sim g; init(); int t = cur_tid(); if (t < 0) return;
    if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) for (int i = 0; i < NT; i++) if (pend[t].c[i] > vc[t].c[i]) vc[t].c[i] = pend[t].c[i];
    if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) { fence[t] = vc[t]; vc[t].c[t]++; }
}
void __tsan_atomic_signal_fence(int) {}
}
