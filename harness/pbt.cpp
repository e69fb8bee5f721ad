#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <ftw.h>
#include <mutex>
#include <random>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() { return "detect_leaks=0:detect_container_overflow=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=99:detect_odr_violation=0:allocator_may_return_null=1:max_allocation_size_mb=2048:handle_segv=1"; }
#endif

namespace pbt {
static char* g_mirror = nullptr; static const size_t MIRROR = 60000;
void LogBuf::mirror() { if (!g_mirror) return; size_t n = std::min(m_s.size(), MIRROR); memcpy(g_mirror, m_s.data(), n); g_mirror[n] = 0; }

static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- deterministic RNG for the code under test
static uint64_t g_rng = 1;
void seedRng(uint64_t s) { g_rng = s; }
static std::mutex g_rngMutex;
static void rngFill(void* p, size_t n) { std::lock_guard<std::mutex> l(g_rngMutex); uint8_t* b = (uint8_t*)p; while (n) { uint64_t v = splitmix(g_rng); size_t m = n < 8 ? n : 8; memcpy(b, &v, m); b += m; n -= m; } }
}
// std::random_device and /dev/urandom as seen by objects linked into this binary
unsigned int std::random_device::_M_getval() { unsigned v; pbt::rngFill(&v, sizeof v); return v; }
extern "C" {
int __real_open(const char* path, int flags, ...);
ssize_t __real_read(int fd, void* buf, size_t n);
int __real_close(int fd);
static const int FAKE_RANDOM_FD = 1 << 28;
int __wrap_open(const char* path, int flags, ...) {
    if (path && strcmp(path, "/dev/urandom") == 0) return FAKE_RANDOM_FD;
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    return __real_open(path, flags, mode);
}
ssize_t __wrap_read(int fd, void* buf, size_t n) { if (fd == FAKE_RANDOM_FD) { pbt::rngFill(buf, n); return (ssize_t)n; } return __real_read(fd, buf, n); }
int __wrap_close(int fd) { if (fd == FAKE_RANDOM_FD) return 0; return __real_close(fd); }
}

namespace pbt {
uint64_t hash64(const void* p, size_t n, uint64_t seed) { uint64_t h = 0xcbf29ce484222325ULL ^ (seed * 0x9E3779B97F4A7C15ULL); const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; } uint64_t x = h; return splitmix(x); }
std::string hex(const uint8_t* p, size_t n) { static const char* d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; } return s; }
void fail(const std::string& msg) { throw Failure(msg); }
std::string verifDir() { const char* v = getenv("VERIF_DIR"); return v ? v : "/verif"; }

// ---------------------------------------------------------------- choice source
Src::Src(uint64_t seed, uint64_t* rec, size_t cap, volatile uint64_t* count) : m_replay(false), m_rec(rec), m_cap(cap), m_count(count) { for (auto& s : m_s) s = splitmix(seed); *m_count = 0; }
Src::Src(const std::vector<uint64_t>& c, uint64_t* rec, size_t cap, volatile uint64_t* count) : m_replay(true), m_in(c), m_rec(rec), m_cap(cap), m_count(count) { *m_count = 0; }
uint64_t Src::next() { auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }; const uint64_t r = rotl(m_s[1] * 5, 7) * 9, t = m_s[1] << 17; m_s[2] ^= m_s[0]; m_s[3] ^= m_s[1]; m_s[1] ^= m_s[2]; m_s[0] ^= m_s[3]; m_s[2] ^= t; m_s[3] = rotl(m_s[3], 45); return r; }
uint64_t Src::raw(uint64_t bound) {
    uint64_t v;
    if (m_n >= m_cap) throw OutOfChoices();
    if (m_replay) { v = m_n < m_in.size() ? m_in[m_n] : 0; if (bound && v >= bound) v = v % bound; }
    else { v = next(); if (bound) v = (uint64_t)(((unsigned __int128)v * bound) >> 64); }
    m_rec[m_n++] = v; *m_count = m_n;
    return v;
}
size_t Src::size(size_t max) {
    if (max == 0) return 0;
    // half the time up to 4, a quarter up to 16, otherwise anything
    uint64_t k = below(4); size_t m = k < 2 ? 4 : k == 2 ? 16 : max; if (m > max) m = max;
    return (size_t)below(m + 1);
}
uint64_t Src::edgy64() {
    switch (below(8)) {
    case 0: return below(4);
    case 1: return below(256);
    case 2: { uint64_t b = 1ULL << below(64); return b - 1; }
    case 3: return 1ULL << below(64);
    case 4: return UINT64_MAX - below(4);
    case 5: return below(1ULL << 32);
    case 6: { unsigned sh = (unsigned)below(64); return raw(0) >> sh; }
    default: return raw(0);
    }
}
void Src::fill(uint8_t* p, size_t n) { while (n) { size_t m = n < 8 ? n : 8; uint64_t v = raw(m == 8 ? 0 : (1ULL << (8 * m))); for (size_t i = 0; i < m; i++) p[i] = (uint8_t)(v >> (8 * (m - 1 - i))); p += m; n -= m; } }
std::vector<uint8_t> Src::bytes(size_t n) { std::vector<uint8_t> v(n); fill(v.data(), n); return v; }
size_t Src::weighted(std::initializer_list<unsigned> w) { uint64_t t = 0; for (auto x : w) t += x; uint64_t r = below(t); size_t i = 0; for (auto x : w) { if (r < x) return i; r -= x; i++; } return w.size() - 1; }
std::string Src::text(const std::string& a, size_t max) { size_t n = size(max); std::string s; for (size_t i = 0; i < n; i++) s += a[below(a.size())]; return s; }

// ---------------------------------------------------------------- scratch
static std::string g_scratchRoot, g_workerDir;
static uint64_t g_scratchNo = 0;
static int rmCb(const char* p, const struct stat*, int, struct FTW*) { ::remove(p); return 0; }
static void rmTree(const std::string& d) { if (d.size() > 8 && d.compare(0, 5, "/tmp/") == 0) nftw(d.c_str(), rmCb, 32, FTW_DEPTH | FTW_PHYS); else if (d.compare(0, 9, "/dev/shm/") == 0 && d.size() > 12) nftw(d.c_str(), rmCb, 32, FTW_DEPTH | FTW_PHYS); }
const std::string& Ctx::scratch() { if (dir.empty()) { dir = g_workerDir + "/c" + std::to_string(g_scratchNo++); mkdir(dir.c_str(), 0700); } return dir; }

// ---------------------------------------------------------------- known findings
static std::set<std::string> g_known;
static void loadKnown(const std::string& prop) {
    std::ifstream f(verifDir() + "/known_findings.txt"); std::string l;
    while (std::getline(f, l)) { // finding: property=<id> key=<key> <text>
        if (l.compare(0, 9, "finding: ") != 0) continue;
        auto grab = [&](const char* k) { size_t p = l.find(k); if (p == std::string::npos) return std::string(); p += strlen(k); return l.substr(p, l.find(' ', p) - p); };
        if (grab("property=") == prop) g_known.insert(grab("key="));
    }
}

Check& check() { static Check c; return c; }

// ---------------------------------------------------------------- shared state with workers
struct Shared {
    volatile uint64_t count;         // choices recorded in the current case
    volatile uint64_t caseNo;
    volatile double started;
    volatile uint64_t partIdx;
    volatile uint64_t done;          // cases completed
    volatile uint64_t stop;
};
static uint64_t caseSeed(uint64_t seed, const std::string& id, uint64_t n) { uint64_t h = hash64(id.data(), id.size(), seed + 1); h ^= n * 0xD1B54A32D192ED03ULL; uint64_t x = h; splitmix(x); return splitmix(x); }

static std::string oneLine(std::string s, size_t max) { for (auto& c : s) if (c == '\n' || c == '\r' || c == '\t') c = ' '; if (s.size() > max) s = s.substr(0, max) + "..."; return s; }
static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o; }

enum Outcome { OK = 0, FAIL = 1, KNOWN = 2, SKIP = 3 };
struct Result { Outcome o = OK; std::string msg, log; std::map<std::string, uint64_t> labels; bool nontrivial = false; std::string knownId; };

static Result runCase(const Part& p, Src& src, uint64_t caseNo, uint64_t rngSeed, bool thorough) {
    Result r;
    Ctx c(src); c.caseNo = caseNo; c.thorough = thorough;
    seedRng(rngSeed);
    try { p.fn(c); }
    catch (const Failure& f) { r.o = FAIL; r.msg = f.what(); }
    catch (const KnownHit& k) { if (g_known.count(k.id)) { r.o = KNOWN; r.knownId = k.id; r.msg = k.what; } else { r.o = FAIL; r.msg = k.what; } }
    catch (const OutOfChoices&) { r.o = SKIP; }
    catch (const std::exception& e) { r.o = FAIL; r.msg = std::string("unexpected exception: ") + e.what(); }
    catch (...) { r.o = FAIL; r.msg = "unexpected non-standard exception"; }
    r.log = c.log.str(); r.labels = c.labels; r.nontrivial = c.is_nontrivial;
    if (!c.dir.empty()) rmTree(c.dir);
    return r;
}

static void childSetup(const std::string& dir, const std::string& errFile) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_workerDir = dir; mkdir(dir.c_str(), 0700);
    int fd = ::creat(errFile.c_str(), 0600); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); ::close(fd); }
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    setenv("TMPDIR", dir.c_str(), 1); setenv("HOME", dir.c_str(), 1);
    if (chdir(dir.c_str()) != 0) {}
    signal(SIGPIPE, SIG_IGN);
#if !defined(__SANITIZE_ADDRESS__)
    struct rlimit as = { 6ULL << 30, 6ULL << 30 }; setrlimit(RLIMIT_AS, &as);
#endif
    if (check().workerInit) check().workerInit();
}
static std::string tailOf(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); std::string t = s.str(); size_t p = t.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = t.find("terminate called"); if (p == std::string::npos) p = t.find("Assertion"); if (p == std::string::npos) p = t.size() > 600 ? t.size() - 600 : 0; return t.substr(p, 900); }

struct Exec { Outcome o; std::string msg, log; std::vector<uint64_t> used; };
// run one choice list in a fresh child
static Exec execIsolated(size_t part, const std::vector<uint64_t>& choices, uint64_t rngSeed, double timeout, bool thorough) {
    Check& C = check();
    size_t bytes = sizeof(Shared) + C.maxChoices * 8 + 65536;
    char* m = (char*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Shared* sh = (Shared*)m; uint64_t* rec = (uint64_t*)(m + sizeof(Shared)); char* text = m + sizeof(Shared) + C.maxChoices * 8;
    static int serial = 0; int sid = serial++;
    std::string dir = g_scratchRoot + "/x" + std::to_string(sid), err = dir + ".err";
    pid_t pid = fork();
    if (pid == 0) {
        childSetup(dir, err); g_mirror = text;
        Src src(choices, rec, C.maxChoices, &sh->count);
        Result r = runCase(C.parts[part], src, 0, rngSeed, thorough);
        std::string t = std::to_string((int)r.o) + "\n" + oneLine(r.msg, 4000) + "\n" + r.log.substr(0, 50000);
        g_mirror = nullptr; strncpy(text, t.c_str(), 65535);
        sh->done = 1;
        _exit(0);
    }
    double t0 = now(); int st = 0; bool timedOut = false;
    for (;;) { pid_t w = waitpid(pid, &st, WNOHANG); if (w == pid) break; if (now() - t0 > timeout) { timedOut = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; } usleep(300); }
    Exec e; e.o = OK;
    if (timedOut) { e.o = FAIL; e.msg = "case did not terminate within " + std::to_string((int)timeout) + " s"; e.log = std::string(text); }
    else if (sh->done) { std::string t(text); size_t a = t.find('\n'), b = t.find('\n', a + 1); e.o = (Outcome)atoi(t.c_str()); e.msg = t.substr(a + 1, b - a - 1); e.log = t.substr(b + 1); }
    else { e.o = FAIL; std::string how = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exited with code " + std::to_string(WEXITSTATUS(st)); e.msg = "process " + how + " inside the case: " + oneLine(tailOf(err), 700); e.log = std::string(text); }
    e.used.assign(rec, rec + sh->count);
    munmap(m, bytes); rmTree(dir); unlink(err.c_str());
    return e;
}

// re-run the cases a worker ran, in order and in one fresh process, up to and including case n
static size_t pickPart(uint64_t seed, uint64_t n) { Check& C = check(); unsigned tot = 0; for (auto& p : C.parts) tot += p.weight; unsigned r = (unsigned)(hash64(&n, 8, seed ^ 77) % tot); size_t part = 0; while (r >= C.parts[part].weight) { r -= C.parts[part].weight; part++; } return part; }
static Exec execHistory(uint64_t seed, uint64_t first, uint64_t W, uint64_t n, double timeout, bool thorough) {
    Check& C = check();
    size_t bytes = sizeof(Shared) + C.maxChoices * 8 + 65536;
    char* m = (char*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Shared* sh = (Shared*)m; uint64_t* rec = (uint64_t*)(m + sizeof(Shared)); char* text = m + sizeof(Shared) + C.maxChoices * 8;
    static int serial = 0; std::string dir = g_scratchRoot + "/h" + std::to_string(serial++), err = dir + ".err";
    pid_t pid = fork();
    if (pid == 0) {
        childSetup(dir, err);
        for (uint64_t k = first; k <= n; k += W) {
            uint64_t cs = caseSeed(seed, C.id, k); Src src(cs, rec, C.maxChoices, &sh->count);
            Result r = runCase(C.parts[pickPart(seed, k)], src, k, cs, thorough);
            if (r.o == FAIL) { std::string t = std::to_string((int)r.o) + "\n" + oneLine(r.msg, 4000) + "\n" + r.log.substr(0, 50000); strncpy(text, t.c_str(), 65535); sh->caseNo = k; sh->done = 2; _exit(0); }
        }
        sh->done = 1; _exit(0);
    }
    double t0 = now(); int st = 0; bool timedOut = false;
    for (;;) { pid_t w = waitpid(pid, &st, WNOHANG); if (w == pid) break; if (now() - t0 > timeout) { timedOut = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; } usleep(300); }
    Exec e; e.o = OK;
    if (timedOut) {}
    else if (sh->done == 2) { std::string t(text); size_t a = t.find('\n'), b = t.find('\n', a + 1); e.o = FAIL; e.msg = t.substr(a + 1, b - a - 1); e.log = t.substr(b + 1); }
    else if (sh->done == 0) { e.o = FAIL; e.msg = "process died in a sequence of cases: " + oneLine(tailOf(err), 700); }
    munmap(m, bytes); rmTree(dir); unlink(err.c_str());
    return e;
}

static std::vector<uint64_t> shrink(size_t part, std::vector<uint64_t> best, uint64_t rngSeed, double caseTimeout, double budget, bool thorough, std::string& msg, std::string& log, unsigned& tries) {
    double end = now() + budget;
    auto attempt = [&](const std::vector<uint64_t>& c) { tries++; Exec e = execIsolated(part, c, rngSeed, caseTimeout, thorough); if (e.o != FAIL) return false; std::vector<uint64_t> u = e.used; while (!u.empty() && u.back() == 0) u.pop_back(); std::vector<uint64_t> cc = c; while (!cc.empty() && cc.back() == 0) cc.pop_back(); best = u.size() <= cc.size() ? u : cc; msg = e.msg; log = e.log; return true; };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t chunk = best.size() / 2 + 1; chunk >= 1 && now() < end; chunk /= 2) {   // delete
            for (size_t i = 0; i + chunk <= best.size() && now() < end;) { auto c = best; c.erase(c.begin() + i, c.begin() + i + chunk); if (attempt(c)) progress = true; else i += chunk; }
            if (chunk == 1) break;
        }
        for (size_t chunk = best.size() / 2 + 1; chunk >= 1 && now() < end; chunk /= 2) {   // zero
            for (size_t i = 0; i < best.size() && now() < end; i += chunk) { auto c = best; bool any = false; for (size_t k = i; k < i + chunk && k < c.size(); k++) { if (c[k]) any = true; c[k] = 0; } if (any && attempt(c)) progress = true; }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() < end; i++) {                             // lower
            uint64_t lo = 0; int guard = 0;
            while (i < best.size() && best[i] > lo && guard++ < 24 && now() < end) { uint64_t mid = lo + (best[i] - lo) / 2; auto c = best; c[i] = mid; if (attempt(c)) progress = true; else { if (mid == lo) break; lo = mid + 1; if (lo >= best[i]) break; } }
        }
    }
    return best;
}

struct Agg { uint64_t cases = 0, nontrivial = 0, skipped = 0; std::unordered_set<uint64_t> distinct; std::map<std::string, uint64_t> labels, parts, known; std::vector<std::string> samples; std::map<std::string, std::string> knownText; };

// worker result file: text lines
static void workerLoop(unsigned w, unsigned W, uint64_t seed, uint64_t maxCases, double start, double minS, double cap, Shared* sh, uint64_t* rec, const std::string& out, bool thorough) {
    Check& C = check();
    Agg a;
    std::ofstream o(out, std::ios::app);
    auto flush = [&]() {
        o << "cases " << a.cases << "\nnontrivial " << a.nontrivial << "\nskipped " << a.skipped << "\n";
        for (auto& l : a.labels) o << "label " << l.second << " " << l.first << "\n";
        for (auto& l : a.parts) o << "part " << l.second << " " << l.first << "\n";
        for (auto& l : a.known) o << "known " << l.second << " " << l.first << " " << a.knownText[l.first] << "\n";
        for (auto& s : a.samples) o << "sample " << s << "\n";
        for (auto h : a.distinct) o << "d " << h << "\n";
        o.flush();
    };
    for (uint64_t n = w;; n += W) {
        double el = now() - start;
        if (sh->stop || el > cap || (n >= maxCases && el > minS)) break;
        uint64_t cs = caseSeed(seed, C.id, n);
        unsigned part = (unsigned)pickPart(seed, n);
        sh->caseNo = n; sh->partIdx = part; sh->started = now();
        Src src(cs, rec, C.maxChoices, &sh->count);
        Result res = runCase(C.parts[part], src, n, cs, thorough);
        if (res.o == FAIL) { o << "fail " << part << " " << cs << " " << n << " " << oneLine(res.msg, 1500) << "\n"; flush(); fprintf(stderr, "\ncase message: %s | %s\n", oneLine(res.msg, 600).c_str(), oneLine(res.log, 900).c_str()); fflush(stderr); sh->done++; sh->started = 0; _exit(3); }
        a.cases++; a.parts[C.parts[part].name]++;
        if (res.o == SKIP) a.skipped++;
        if (res.o == KNOWN) { a.known[res.knownId]++; a.knownText[res.knownId] = oneLine(res.msg, 300); }
        for (auto& l : res.labels) a.labels[l.first] += l.second;
        if (res.nontrivial && res.o != SKIP) { a.nontrivial++; a.distinct.insert(hash64(rec, sh->count * 8, part)); if (a.samples.size() < 2 && !res.log.empty()) a.samples.push_back("[" + C.parts[part].name + "] " + oneLine(res.log, 700)); }
        sh->done++;
    }
    sh->started = 0;
    flush();
    _exit(0);
}

static int mainImpl(int argc, char** argv) {
    Check& C = check();
    setup(C);
    loadKnown(C.id);
    bool thorough = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough";
    uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1;
    std::string replay; int only = -1; double capOverride = 0; bool verbose = false; uint64_t casesOverride = 0;
    for (int i = 1; i < argc; i++) { std::string s = argv[i]; if (s == "--replay" && i + 1 < argc) replay = argv[++i]; else if (s == "--thorough") thorough = true; else if (s == "--seed" && i + 1 < argc) seed = strtoull(argv[++i], 0, 10); else if (s == "--cap" && i + 1 < argc) capOverride = atof(argv[++i]); else if (s == "--cases" && i + 1 < argc) casesOverride = strtoull(argv[++i], 0, 10); else if (s == "-v") verbose = true; else if (s == "--part" && i + 1 < argc) { std::string p = argv[++i]; for (size_t k = 0; k < C.parts.size(); k++) if (C.parts[k].name == p) only = (int)k; } }
    if (only >= 0) { Part p = C.parts[only]; C.parts.clear(); C.parts.push_back(p); }
    char tmpl[64]; snprintf(tmpl, sizeof tmpl, "%s/grinppv-%s-XXXXXX", access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp", C.id.c_str());
    if (!mkdtemp(tmpl)) { strcpy(tmpl, ("/tmp/grinppv-" + C.id + "-XXXXXX").c_str()); if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; } }
    g_scratchRoot = tmpl;
    struct Clean { ~Clean() { rmTree(g_scratchRoot); } } clean;

    if (!replay.empty()) {
        for (auto& pr : C.probes) C.parts.push_back(Part{ "probe-" + pr.key, 0, pr.fn });
        std::ifstream f(replay); std::stringstream s; s << f.rdbuf(); std::string t = s.str();
        auto field = [&](const std::string& k) { size_t p = t.find("\"" + k + "\": "); if (p == std::string::npos) return std::string(); p += k.size() + 4; size_t e = t[p] == '"' ? t.find('"', p + 1) : t.find_first_of(",\n}", p); return t[p] == '"' ? t.substr(p + 1, e - p - 1) : t.substr(p, e - p); };
        if (field("history") == "true") {
            Exec e = execHistory(strtoull(field("verif_seed").c_str(), 0, 10), strtoull(field("first").c_str(), 0, 10), strtoull(field("step").c_str(), 0, 10), strtoull(field("last").c_str(), 0, 10), 600, thorough);
            printf("history: %s\n%s\n%s\n", e.o == FAIL ? "FAILS" : "passes", e.msg.c_str(), e.log.c_str());
            if (e.o == FAIL) { printf("VIOLATION property=%s replay=%s\n", C.id.c_str(), replay.c_str()); return 1; }
            return 0;
        }
        std::string pn = field("part"); uint64_t rs = strtoull(field("rng_seed").c_str(), 0, 10); size_t part = 0; for (size_t k = 0; k < C.parts.size(); k++) if (C.parts[k].name == pn) part = k;
        std::vector<uint64_t> ch; size_t p = t.find("\"choices\": ["); if (p != std::string::npos) { p += 12; while (t[p] != ']') { char* e; ch.push_back(strtoull(t.c_str() + p, &e, 10)); p = e - t.c_str(); while (t[p] == ',' || t[p] == ' ' || t[p] == '\n') p++; } }
        Exec e = execIsolated(part, ch, rs, C.caseTimeout, thorough);
        printf("part %s: %s\n%s\n%s\n", pn.c_str(), e.o == FAIL ? "FAILS" : e.o == KNOWN ? "known finding" : "passes", e.msg.c_str(), e.log.c_str());
        if (e.o == FAIL) { printf("VIOLATION property=%s replay=%s\n", C.id.c_str(), replay.c_str()); return 1; }
        return 0;
    }

    std::map<std::string, std::string> probed;
    uint64_t violations = 0; int rc = 0; std::string replayPath;
    for (auto& pr : C.probes) {
        C.parts.push_back(Part{ "probe-" + pr.key, 0, pr.fn });
        Exec e = execIsolated(C.parts.size() - 1, {}, 1, C.caseTimeout, thorough);
        if (e.o == FAIL || e.o == KNOWN) {
            if (g_known.count(pr.key)) probed[pr.key] = pr.text + (e.msg.empty() ? "" : " [" + oneLine(e.msg, 200) + "]");
            else { violations++; rc = 1; std::string rd = verifDir() + "/replays"; mkdir(rd.c_str(), 0755); replayPath = rd + "/" + C.id + "-probe-" + pr.key + ".json"; std::ofstream o(replayPath); o << "{\n \"property\": \"" << C.id << "\",\n \"part\": \"probe-" << pr.key << "\",\n \"rng_seed\": 1,\n \"message\": \"" << jesc(e.msg) << "\",\n \"choices\": []\n}\n"; printf("%s\nVIOLATION property=%s replay=%s\n", e.msg.c_str(), C.id.c_str(), replayPath.c_str()); }
        }
        if (replay.empty() || true) C.parts.pop_back();
    }
    double start = now();
    double cap = thorough ? C.thoroughCap : C.quickCap, minS = thorough ? 30 : C.quickMin; if (capOverride > 0) { cap = capOverride; if (minS > cap) minS = cap; }
    uint64_t maxCases = thorough ? C.thoroughCases : C.quickCases; if (casesOverride) { maxCases = casesOverride; minS = 0; }
    unsigned W = C.workers;
    struct Wk { pid_t pid; Shared* sh; uint64_t* rec; std::string out, err; bool alive; };
    std::vector<Wk> ws;
    auto spawn = [&](unsigned w, uint64_t firstFrom) {
        Wk k; size_t bytes = sizeof(Shared) + C.maxChoices * 8; char* m = (char*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        k.sh = (Shared*)m; k.rec = (uint64_t*)(m + sizeof(Shared)); k.out = g_scratchRoot + "/w" + std::to_string(w) + ".out"; k.err = g_scratchRoot + "/w" + std::to_string(w) + ".err"; k.alive = true;
        fflush(stdout);
        k.pid = fork();
        if (k.pid == 0) { childSetup(g_scratchRoot + "/w" + std::to_string(w), k.err); workerLoop(w, W, seed, maxCases, start, minS, cap, k.sh, k.rec, k.out, thorough); }
        ws.push_back(k); (void)firstFrom;
    };
    for (unsigned w = 0; w < W; w++) spawn(w, 0);
    struct Fail { bool set = false; size_t part; uint64_t rng; uint64_t n; std::vector<uint64_t> ch; std::string msg; }; 
    std::vector<Fail> fails;
    bool stopping = false; double stopAt = 0;
    for (;;) {
        bool any = false;
        for (auto& k : ws) {
            if (!k.alive) continue; any = true;
            int st; pid_t r = waitpid(k.pid, &st, WNOHANG);
            if (r == k.pid) {
                k.alive = false;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && stopping) continue;
                Fail f; f.part = k.sh->partIdx; f.n = k.sh->caseNo; f.rng = caseSeed(seed, C.id, f.n); f.ch.assign(k.rec, k.rec + k.sh->count);
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 3)) f.msg = "worker died: " + oneLine(tailOf(k.err), 500);
                fails.push_back(f);
                if (!stopping) { stopping = true; stopAt = now(); for (auto& q : ws) q.sh->stop = 1; }
            } else if (!stopping && k.sh->started > 0 && now() - k.sh->started > C.caseTimeout) {
                Fail f; f.part = k.sh->partIdx; f.n = k.sh->caseNo; f.rng = caseSeed(seed, C.id, f.n); f.ch.assign(k.rec, k.rec + k.sh->count); f.msg = "timeout"; fails.push_back(f);
                kill(k.pid, SIGKILL); waitpid(k.pid, &st, 0); k.alive = false;
                stopping = true; stopAt = now(); for (auto& q : ws) q.sh->stop = 1;
            } else if (stopping && now() - stopAt > 5) { kill(k.pid, SIGKILL); }
        }
        if (!any) break;
        usleep(2000);
    }
    Agg A; uint64_t unrepro = 0;
    for (auto& k : ws) {
        std::ifstream f(k.out); std::string l;
        while (std::getline(f, l)) { std::istringstream s(l); std::string kw; s >> kw; if (kw == "cases") { uint64_t x; s >> x; A.cases += x; } else if (kw == "nontrivial") { uint64_t x; s >> x; A.nontrivial += x; } else if (kw == "skipped") { uint64_t x; s >> x; A.skipped += x; } else if (kw == "label" || kw == "part") { uint64_t x; s >> x; std::string nme; std::getline(s, nme); (kw == "label" ? A.labels : A.parts)[nme.substr(1)] += x; } else if (kw == "known") { uint64_t x; std::string id, t; s >> x >> id; std::getline(s, t); A.known[id] += x; A.knownText[id] = t; } else if (kw == "sample") { if (A.samples.size() < 10) A.samples.push_back(l.substr(7)); } else if (kw == "d") { uint64_t x; s >> x; A.distinct.insert(x); } }
    }
    std::string vioMsg;
    std::sort(fails.begin(), fails.end(), [](const Fail& a, const Fail& b) { return a.n < b.n; });
    for (auto& f : fails) {
        if (rc) break;
        double to = C.caseTimeout; bool ok = true; Exec e;
        for (int i = 0; i < 3 && ok; i++) { e = execIsolated(f.part, f.ch, f.rng, to, thorough); if (e.o != FAIL) ok = false; if (f.msg == "timeout") break; }
        if (!ok) {   // the case alone passes: does the same sequence of cases in one process fail, twice?
            Exec h; bool hok = true;
            for (int i = 0; i < 2 && hok; i++) { h = execHistory(seed, f.n % W, W, f.n, cap * 2 + 60, thorough); if (h.o != FAIL) hok = false; }
            if (hok) {
                uint64_t first = f.n % W; for (uint64_t back = 1; first + back * W <= f.n && back < 64; back *= 2) { Exec q = execHistory(seed, f.n - back * W, W, f.n, cap * 2 + 60, thorough); if (q.o == FAIL) { first = f.n - back * W; h = q; break; } }
                violations++; rc = 1; std::string rd = verifDir() + "/replays"; mkdir(rd.c_str(), 0755); replayPath = rd + "/" + C.id + "-history.json";
                std::ofstream o(replayPath); o << "{\n \"property\": \"" << C.id << "\",\n \"history\": true,\n \"verif_seed\": " << seed << ",\n \"first\": " << first << ",\n \"step\": " << W << ",\n \"last\": " << f.n << ",\n \"message\": \"" << jesc(h.msg) << "\",\n \"case\": \"" << jesc(h.log.substr(0, 20000)) << "\"\n}\n";
                printf("property %s violated by a sequence of cases in one process (%llu..%llu)\n  %s\n  case: %s\nVIOLATION property=%s replay=%s\n", C.id.c_str(), (unsigned long long)first, (unsigned long long)f.n, h.msg.c_str(), oneLine(h.log, 1500).c_str(), C.id.c_str(), replayPath.c_str());
                continue;
            }
            unrepro++; printf("note: case %llu failed once but did not reproduce (%s)\n", (unsigned long long)f.n, oneLine(f.msg.empty() ? tailOf(ws[f.n % W].err) : f.msg, 1500).c_str()); continue; }
        std::string msg = e.msg, log = e.log; unsigned tries = 0; std::vector<uint64_t> best = f.ch;
        if (f.msg != "timeout") best = shrink(f.part, f.ch, f.rng, to, thorough ? 90 : 30, thorough, msg, log, tries);
        violations++; rc = 1;
        std::string rd = verifDir() + "/replays"; mkdir(rd.c_str(), 0755);
        replayPath = rd + "/" + C.id + "-" + C.parts[f.part].name + ".json"; vioMsg = msg;
        std::ofstream o(replayPath); o << "{\n \"property\": \"" << C.id << "\",\n \"part\": \"" << C.parts[f.part].name << "\",\n \"rng_seed\": " << f.rng << ",\n \"verif_seed\": " << seed << ",\n \"message\": \"" << jesc(msg) << "\",\n \"case\": \"" << jesc(log.substr(0, 20000)) << "\",\n \"shrink_attempts\": " << tries << ",\n \"original_choices\": " << f.ch.size() << ",\n \"choices\": ["; for (size_t i = 0; i < best.size(); i++) o << (i ? "," : "") << best[i]; o << "]\n}\n";
        printf("property %s violated (part %s, case %llu; %zu choices after shrinking from %zu)\n  %s\n  case: %s\n", C.id.c_str(), C.parts[f.part].name.c_str(), (unsigned long long)f.n, best.size(), f.ch.size(), msg.c_str(), oneLine(log, 1500).c_str());
        printf("VIOLATION property=%s replay=%s\n", C.id.c_str(), replayPath.c_str());
    }
    for (auto& k : probed) printf("KNOWN-FINDING: property=%s %s: %s\n", C.id.c_str(), k.first.c_str(), k.second.c_str());
    for (auto& k : g_known) if (!probed.count(k) && !A.known.count(k)) printf("KNOWN-FINDING: property=%s %s: listed; not met by this run's cases\n", C.id.c_str(), k.c_str());
    for (auto& k : A.known) if (!probed.count(k.first)) printf("KNOWN-FINDING: property=%s %s (%llu occurrences):%s\n", C.id.c_str(), k.first.c_str(), (unsigned long long)k.second, A.knownText[k.first].c_str());
    double wall = now() - start;
    std::string ed = verifDir() + "/evidence"; mkdir(ed.c_str(), 0755);
    std::ofstream o(ed + "/" + C.id + ".json");
    o << "{\n \"property\": \"" << C.id << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << A.cases << ",\n  \"distinct_nontrivial\": " << A.distinct.size() << ",\n  \"rule\": \"" << jesc(C.rule) << "\",\n  \"nontrivial_total\": " << A.nontrivial << ",\n  \"skipped\": " << A.skipped << ",\n  \"unreproduced_failures\": " << unrepro << ",\n  \"parts\": {";
    bool first = true; for (auto& l : A.parts) { o << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; first = false; }
    o << "},\n  \"labels\": {"; first = true; for (auto& l : A.labels) { o << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; first = false; }
    o << "},\n  \"known_findings\": {"; first = true; for (auto& l : A.known) { o << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; first = false; }
    o << "},\n  \"samples\": ["; for (size_t i = 0; i < A.samples.size(); i++) o << (i ? ",\n   " : "\n   ") << "\"" << jesc(A.samples[i].substr(0, 900)) << "\""; o << "]\n },\n \"assumptions\": ["; for (size_t i = 0; i < C.assumptions.size(); i++) o << (i ? ", " : "") << "\"" << jesc(C.assumptions[i]) << "\""; o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    o.close();
    printf("%s %s: %llu cases, %zu distinct non-trivial, %.1f s, %s\n", C.id.c_str(), thorough ? "thorough" : "quick", (unsigned long long)A.cases, A.distinct.size(), wall, rc ? "VIOLATED" : "held");
    if (verbose) { for (auto& l : A.parts) printf("  part %s: %llu\n", l.first.c_str(), (unsigned long long)l.second); for (auto& l : A.labels) printf("  label %s: %llu\n", l.first.c_str(), (unsigned long long)l.second); for (auto& s : A.samples) printf("  sample %s\n", s.c_str()); }
    fflush(stdout);
    return rc;
}
}  // namespace pbt

int main(int argc, char** argv) { int rc = pbt::mainImpl(argc, argv); fflush(stdout); _exit(rc); }
