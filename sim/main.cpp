// Driver: seeded batches of simulated runs, replay, minimisation.  One simulated run = one forked child.
#include "sim.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {
extern uint64_t g_seed; extern bool g_replay; extern std::vector<uint32_t> g_rep[NSTREAM];
void init_streams(uint64_t seed);
void kernel_reset();
void run_scenario(void (*f)());
}
using namespace sim;

static std::string scratch; static int errfd = -1;
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static const Scenario* find(const std::string& id) { for (auto& s : scenarios()) if (id == s.id) return &s; return nullptr; }

struct Outcome { int kind; std::string cls, msg; uint64_t hash; };   // kind 1 ok, 2 violation, 3 harness error
struct Dec { std::vector<uint32_t> s[NSTREAM]; };

static std::string read_err() {
    char b[6000]; lseek(errfd, 0, SEEK_SET); ssize_t n = read(errfd, b, sizeof b - 1); if (n < 0) n = 0; b[n] = 0;
    std::string r(b, n); if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET); return r;
}
static std::string asan_class(const std::string& e) {
    size_t p = e.find("AddressSanitizer: "); if (p == std::string::npos) return "";
    p += 18; size_t q = e.find_first_of(" \n", p); std::string k = e.substr(p, q - p);
    if (k == "SEGV" || k == "BUS") return "invalid-access";
    return k;
}
static Outcome run_once(const Scenario* sc, uint64_t seed, const Dec* rep, bool v) {
    memset((void*)sh, 0, offsetof(Shared, dec)); sh->blob_len = 0;
    for (int image = 0;; image++) {
        sh->status = 0;
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(70); }
        if (pid == 0) {
            if (!v) { dup2(errfd, 2); }
            int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1);
            struct rlimit rl = {60, 65}; setrlimit(RLIMIT_CPU, &rl);
            struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
            struct itimerval it = {{0, 0}, {300, 0}}; setitimer(ITIMER_REAL, &it, nullptr);
            verbose = v; g_param = image; g_seed = seed; g_replay = rep != nullptr;
            if (rep) for (int i = 0; i < NSTREAM; i++) g_rep[i] = rep->s[i];
            init_streams(seed + 0x9E3779B97F4A7C15ull * image);
            kernel_reset();
            run_scenario(sc->run);
            _exit(71);
        }
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        uint32_t s = sh->status;
        Outcome o; o.hash = sh->hash;
        if (s == 4 && WIFEXITED(st)) { if (image > 8) { o.kind = 3; o.msg = "too many images"; return o; } continue; }
        if (s == 1) { o.kind = 1; return o; }
        if (s == 2) { o.kind = 2; o.cls = sh->cls; o.msg = sh->msg; return o; }
        if (s == 3) { o.kind = 3; o.msg = sh->msg; return o; }
        std::string e = read_err();
        o.hash = 0;                       // position of the death is part of the class, not of the event log
        if (WIFSIGNALED(st)) {
            int g = WTERMSIG(st);
            if (g == SIGXCPU || g == SIGKILL) { o.kind = 2; o.cls = "hang"; o.msg = "the run did not terminate (CPU limit)"; return o; }
            if (g == SIGALRM) { o.kind = 3; o.msg = "run blocked outside the simulation"; return o; }
            o.kind = 2; o.cls = "crash"; o.msg = std::string("the run died with signal ") + strsignal(g); return o;
        }
        std::string k = asan_class(e);
        if (!k.empty()) { o.kind = 2; o.cls = "memory:" + k; o.msg = e.substr(0, 4000); return o; }
        o.kind = 3; o.msg = "child exited with " + std::to_string(WEXITSTATUS(st)) + " " + e.substr(0, 1500); return o;
    }
}
static Dec recorded() { Dec d; for (int i = 0; i < NSTREAM; i++) d.s[i].assign(sh->dec[i], sh->dec[i] + sh->n[i]); return d; }
static void trim(Dec& d) { for (auto& v : d.s) while (!v.empty() && v.back() == 0) v.pop_back(); }
static bool same(const Scenario* sc, const Dec& d, const std::string& cls, Outcome* out = nullptr) {
    Outcome o = run_once(sc, 0, &d, false); if (out) *out = o; return o.kind == 2 && o.cls == cls;
}
static uint64_t minimise(const Scenario* sc, Dec& d, const std::string& cls, double deadline) {
    uint64_t tries = 0; trim(d);
    for (bool progress = true; progress && wall() < deadline;) {
        progress = false;
        for (int s = 0; s < NSTREAM; s++) {
            for (size_t len = std::max<size_t>(1, d.s[s].size()); len >= 1; len /= 2) {       // delete or zero chunks
                for (size_t i = 0; i < d.s[s].size() && wall() < deadline;) {
                    size_t n = std::min(len, d.s[s].size() - i);
                    Dec c = d; c.s[s].erase(c.s[s].begin() + i, c.s[s].begin() + i + n); trim(c); tries++;
                    if (same(sc, c, cls)) { d = recorded(); trim(d); progress = true; if (i >= d.s[s].size()) break; continue; }
                    bool nz = false; for (size_t j = i; j < i + n; j++) if (d.s[s][j]) nz = true;
                    if (nz) { c = d; std::fill(c.s[s].begin() + i, c.s[s].begin() + i + n, 0); trim(c); tries++; if (same(sc, c, cls)) { d = recorded(); trim(d); progress = true; } }
                    i += n;
                }
                if (len == 1) break;
            }
            for (size_t i = 0; i < d.s[s].size() && wall() < deadline; i++) {                 // lower values
                uint32_t lo = 0, hi = d.s[s][i];
                while (lo + 1 < hi && wall() < deadline) {
                    uint32_t m = lo + (hi - lo) / 2; Dec c = d; c.s[s][i] = m; tries++;
                    if (same(sc, c, cls)) { d = c; hi = m; progress = true; } else lo = m;
                }
            }
        }
    }
    return tries;
}
static void write_replay(const std::string& path, const Scenario* sc, const Dec& d, const Outcome& o, uint64_t seed, const std::string& log) {
    FILE* f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); exit(70); }
    fprintf(f, "trace-db-simulation-replay 1\nproperty %s\nbuild %s\nseed %llu\ntier %d\nclass %s\nhash %llu\n", sc->id, is_ts() ? "ts" : "as", (unsigned long long)seed, g_tier, o.cls.c_str(), (unsigned long long)o.hash);
    static const char* nm[] = {"workload", "schedule", "faults", "delivery", "rand"};
    for (int i = 0; i < NSTREAM; i++) { fprintf(f, "stream %d %s %zu", i, nm[i], d.s[i].size()); for (auto x : d.s[i]) fprintf(f, " %u", x); fprintf(f, "\n"); }
    fprintf(f, "---\nviolation: %s\n", o.msg.c_str());
    if (!log.empty()) fprintf(f, "--- simulated execution\n%s", log.c_str());
    fclose(f);
}
static bool read_replay(const char* path, std::string& prop, std::string& cls, uint64_t& hash, Dec& d) {
    FILE* f = fopen(path, "r"); if (!f) return false;
    char key[64], val[256]; int i; size_t n; bool head = false;
    while (fscanf(f, "%63s", key) == 1) {
        if (!strcmp(key, "---")) break;
        if (!strcmp(key, "trace-db-simulation-replay")) { head = true; if (fscanf(f, "%255s", val) != 1) return false; }
        else if (!strcmp(key, "stream")) { if (fscanf(f, "%d %63s %zu", &i, val, &n) != 3 || i < 0 || i >= NSTREAM) return false; d.s[i].resize(n); for (auto& x : d.s[i]) if (fscanf(f, "%u", &x) != 1) return false; }
        else { if (fscanf(f, "%255s", val) != 1) return false; if (!strcmp(key, "property")) prop = val; else if (!strcmp(key, "class")) cls = val; else if (!strcmp(key, "hash")) hash = strtoull(val, 0, 10); else if (!strcmp(key, "tier")) g_tier = atoi(val); }
    }
    fclose(f); return head;
}
static std::string verbose_log(const Scenario* sc, const Dec& d) {
    std::string p = scratch + ".log"; int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    int save = dup(2); dup2(fd, 2); run_once(sc, 0, &d, true); dup2(save, 2); close(save);
    std::string s; lseek(fd, 0, SEEK_SET); char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0 && s.size() < 60000) s.append(b, n);
    close(fd); unlink(p.c_str()); return s;
}
static void jstr(FILE* f, const std::string& s) { fputc('"', f); for (unsigned char c : s) { if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

int main(int argc, char** argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) { setenv("SIM_REEXEC", "1", 1); if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
    std::string mode = argc > 1 ? argv[1] : "", prop, out, replay; uint64_t base = 1, start = 0, stride = 1, maxn = UINT64_MAX; double secs = 10, minsecs = 20; bool v = false; 
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--prop") prop = nx(); else if (a == "--seed") base = strtoull(nx(), 0, 10); else if (a == "--start") start = strtoull(nx(), 0, 10); else if (a == "--stride") stride = strtoull(nx(), 0, 10);
        else if (a == "--max") maxn = strtoull(nx(), 0, 10); else if (a == "--secs") secs = atof(nx()); else if (a == "--minimise-secs") minsecs = atof(nx()); else if (a == "--out") out = nx(); else if (a == "--tier") g_tier = atoi(nx()); else if (a == "-v") v = true; else replay = a;
    }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    scratch = out.empty() ? "/tmp/tdbsim." + std::to_string(getpid()) : out + ".scratch";
    errfd = open((scratch + ".err").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC | O_APPEND, 0600); unlink((scratch + ".err").c_str());
    if (mode == "list") { for (auto& s : scenarios()) printf("%s\n", s.id); return 0; }
    if (mode == "replay") {
        Dec d; std::string cls; uint64_t hash = 0; if (!read_replay(replay.c_str(), prop, cls, hash, d)) { fprintf(stderr, "bad replay file\n"); return 2; }
        const Scenario* sc = find(prop); if (!sc) { fprintf(stderr, "no scenario %s\n", prop.c_str()); return 2; }
        Outcome o = run_once(sc, 0, &d, v);
        printf("kind %d class %s hash %llu\n%s\n", o.kind, o.cls.c_str(), (unsigned long long)o.hash, o.msg.c_str());
        if (o.kind == 2 && o.cls == cls && o.hash == hash) { printf("REPRODUCED\n"); return 1; }
        return o.kind == 1 ? 0 : 3;
    }
    const Scenario* sc = find(prop); if (!sc) { fprintf(stderr, "no scenario '%s'\n", prop.c_str()); return 2; }
    if (mode == "one") {     // one seed, twice: must be identical
        Outcome a = run_once(sc, base, nullptr, v); Dec d = recorded(); uint64_t steps = sh->steps; printf("kind %d class %s hash %llx steps %llu switches %llu simtime %.3f\n%s\n%s\n", a.kind, a.cls.c_str(), (unsigned long long)a.hash, (unsigned long long)steps, (unsigned long long)sh->switches, sh->sim_ns / 1e9, a.msg.c_str(), sh->sample);
        Outcome b = run_once(sc, base, nullptr, false); Outcome c = run_once(sc, 0, &d, false);
        printf("again: %llx replayed: %llx (%d)\n", (unsigned long long)b.hash, (unsigned long long)c.hash, c.kind);
        return a.kind == 1 ? 0 : 1;
    }
    if (mode != "batch") { fprintf(stderr, "usage\n"); return 2; }

    double t0 = wall(), end = t0 + secs;
    uint64_t det_bad = 0; std::string det_err; uint64_t runs = 0, nontriv = 0, steps = 0, switches = 0, ops = 0, checks = 0, det_checked = 0, maxsteps = 0; double maxrun = 0; double simt = 0; uint64_t faults[NFAULT] = {0}, ovf = 0;
    std::vector<std::pair<std::string, uint64_t>> probes; std::unordered_set<uint64_t> hs, sch; std::vector<std::string> samples;
    std::string verr; unsigned unstable = 0; Outcome vo; bool have = false; uint64_t vseed = 0; size_t orig = 0, mind = 0; uint64_t tries = 0; std::string rpath;
    for (uint64_t i = start; runs < maxn && wall() < end; i += stride) {
        uint64_t seed = (base * 1000003ull + i) * 0x9E3779B97F4A7C15ull ^ (i << 17);
        double r0 = wall(); Outcome o = run_once(sc, seed, nullptr, false); runs++; maxrun = std::max(maxrun, wall() - r0);
        steps += sh->steps; maxsteps = std::max<uint64_t>(maxsteps, sh->steps); switches += sh->switches; ops += sh->ops; checks += sh->checks; simt += sh->sim_ns / 1e9; ovf += sh->dec_overflow;
        uint64_t nf = 0; for (int k = 0; k < NFAULT; k++) { faults[k] += sh->faults[k]; nf += sh->faults[k]; }
        for (uint32_t k = 0; k < sh->nprobes; k++) { bool f = false; for (auto& p : probes) if (p.first == sh->probes[k].name) { p.second += sh->probes[k].n; f = true; } if (!f) probes.push_back({sh->probes[k].name, sh->probes[k].n}); }
        sch.insert(sh->sched_hash);
        if (sh->checks && (nf || sh->switches)) { if (hs.insert(sh->hash).second) nontriv++; }
        if (samples.size() < 3 && sh->sample[0] && (i / stride) % 7 == 3) samples.push_back(std::string("seed ") + std::to_string(seed) + ": " + sh->sample);
        if (o.kind == 3) { if (verr.empty()) verr = o.msg + " (seed " + std::to_string(seed) + ")"; break; }
        if (o.kind == 1 && runs % 64 == 1 && !sh->dec_overflow) {            // determinism self-check
            Dec d = recorded(); Outcome p = run_once(sc, 0, &d, false); det_checked++;
            if (p.kind == 1 && p.hash != o.hash) { det_bad++; if (det_err.empty()) det_err = "replaying the decisions of seed " + std::to_string(seed) + " gave a different execution"; continue; }
            if (p.kind != 1) { det_bad++; if (det_err.empty()) det_err = "replaying the decisions of the passing seed " + std::to_string(seed) + " failed: " + p.cls + " " + p.msg.substr(0, 300); continue; }
        }
        if (o.kind == 2) {
            Dec d = recorded(); Outcome p = run_once(sc, 0, &d, false);
            if (p.kind == 2 && p.cls == o.cls && p.hash != o.hash) { Outcome p2 = run_once(sc, 0, &d, false); if (p2.kind == 2 && p2.cls == p.cls && p2.hash == p.hash) o = p; }
            if (p.kind != 2 || p.cls != o.cls || p.hash != o.hash) { if (verr.empty()) verr = "violation '" + o.cls + "' of seed " + std::to_string(seed) + " did not replay exactly: " + o.msg.substr(0, 500) + " | " + p.cls + " " + p.msg.substr(0, 300); if (++unstable > 20) break; continue; }
            for (auto& s : d.s) orig += s.size();
            tries = minimise(sc, d, o.cls, wall() + minsecs);
            Outcome q; if (!same(sc, d, o.cls, &q)) { if (verr.empty()) verr = "minimised trace does not reproduce"; orig = 0; if (++unstable > 20) break; continue; }
            Dec dd = recorded(); trim(dd); for (auto& s : dd.s) mind += s.size();
            rpath = out + ".replay"; std::string lg = verbose_log(sc, dd);
            write_replay(rpath, sc, dd, q, seed, lg); have = true; vo = q; vseed = seed;
            break;
        }
    }
    if (verr.empty() && det_bad > 1 && det_bad * 20 > det_checked) verr = det_err;      // not a simulation any more
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"prop\":\"%s\",\"build\":\"%s\",\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,\"ops\":%llu,\"checks\":%llu,\"sim_seconds\":%.3f,\"wall\":%.3f,\"determinism_checks\":%llu,\"determinism_failures\":%llu,\"truncated_runs\":%llu,\"max_steps\":%llu,\"longest_run_seconds\":%.3f", prop.c_str(), is_ts() ? "ts" : "as", (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)steps, (unsigned long long)switches, (unsigned long long)ops, (unsigned long long)checks, simt, wall() - t0, (unsigned long long)det_checked, (unsigned long long)det_bad, (unsigned long long)ovf, (unsigned long long)maxsteps, maxrun);
    fprintf(f, ",\"faults\":{"); for (int k = 0, c = 0; k < NFAULT; k++) if (faults[k]) fprintf(f, "%s\"%s\":%llu", c++ ? "," : "", fault_names[k], (unsigned long long)faults[k]);
    fprintf(f, "},\"probes\":{"); for (size_t k = 0; k < probes.size(); k++) { if (k) fputc(',', f); jstr(f, probes[k].first); fprintf(f, ":%llu", (unsigned long long)probes[k].second); }
    fprintf(f, "},\"samples\":["); for (size_t k = 0; k < samples.size(); k++) { if (k) fputc(',', f); jstr(f, samples[k]); }
    fprintf(f, "],\"error\":"); jstr(f, verr);
    if (have) { fprintf(f, ",\"violation\":{\"class\":"); jstr(f, vo.cls); fprintf(f, ",\"msg\":"); jstr(f, vo.msg); fprintf(f, ",\"seed\":\"%llu\",\"replay\":", (unsigned long long)vseed); jstr(f, rpath); fprintf(f, ",\"decisions\":%zu,\"minimised_decisions\":%zu,\"minimisation_runs\":%llu}", orig, mind, (unsigned long long)tries); }
    fprintf(f, "}\n"); if (f != stdout) fclose(f);
    if (!out.empty()) { FILE* h = fopen((out + ".hashes").c_str(), "w"); for (auto x : hs) fwrite(&x, 8, 1, h); fclose(h); h = fopen((out + ".sched").c_str(), "w"); for (auto x : sch) fwrite(&x, 8, 1, h); fclose(h); }
    return have ? 1 : verr.empty() ? 0 : 2;
}
