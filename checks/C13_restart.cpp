// C13: a stopped or killed node restarts in a consistent chain state
#include "chainbase.h"
#include "badblock.h"
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <dlfcn.h>
#include <stdarg.h>
#include <thread>
// ---- every call that changes a file of the data directory is counted; at the chosen one the process ends
struct Shared { volatile long count; volatile long op; volatile int tips[64]; volatile int cands[64]; char site[200], prev[200]; char msg[900]; volatile int ok; volatile long opEnd[64]; volatile int traceLen; volatile char trace[8192]; };
static Shared* sh; static volatile long fatalAt = -1; static volatile int torn = 0; static volatile bool counting = false; static char rootDir[4096];
static const char* rel(const char* p) { static thread_local char b[200]; const char* q = strstr(p, "/case/"); snprintf(b, sizeof b, "%s", q ? q + 6 : p); return b; }
static const char* pathOf(int fd) { static thread_local char l[64], b[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, b, sizeof b - 1); if (n < 0) n = 0; b[n] = 0; return b; }
static bool mine(const char* p) { return counting && rootDir[0] && strncmp(p, rootDir, strlen(rootDir)) == 0; }
// file names without numbers
static void siteName(char* o, const char* what, const char* p) { const char* q = p + strlen(rootDir); char b[160]; size_t n = 0; bool d = false; for (; *q && n < 150; q++) { if (*q >= '0' && *q <= '9') { if (!d) b[n++] = '#'; d = true; } else { b[n++] = *q; d = false; } } b[n] = 0; snprintf(o, 200, "%s %s", what, b); }
// stores in the order of a commit
static int rankOf(const char* p) { if (strstr(p, "/DB/")) return 1; if (strstr(p, "header_mmr")) return 2; if (strstr(p, "/TXHASHSET/")) return 3; return 0; }
static const char* RN[] = { "chain", "db", "header-mmr", "txhashset" };
// 1: perform normally, 0: end here (a write may be cut short first)
// files of the output sets are written by several threads: one at a time here; the others stay held once the process is to end
static volatile char gate = 0; struct Gate { bool keep = false; Gate() { while (__atomic_test_and_set(&gate, __ATOMIC_ACQUIRE)) usleep(20); } ~Gate() { if (!keep) __atomic_clear(&gate, __ATOMIC_RELEASE); } };
static bool step(const char* what, const char* p) { if (!mine(p) || strstr(p, "/LOG") || strstr(p, "/LOGS/")) return true; Gate gt; long n = __atomic_add_fetch(&sh->count, 1, __ATOMIC_SEQ_CST); if (n == fatalAt) { gt.keep = true; siteName(sh->site, what, p); sh->trace[sh->traceLen] = (char)rankOf(p); return false; } if (fatalAt >= 0) siteName(sh->prev, what, p); int l = sh->traceLen; if (l < 8190) { sh->trace[l] = (char)rankOf(p); sh->traceLen = l + 1; } return true; }
#define REAL(name, type) static auto real = (type)dlsym(RTLD_NEXT, name)
extern "C" {
ssize_t write(int fd, const void* b, size_t n) { REAL("write", ssize_t (*)(int, const void*, size_t)); if (counting && !step("write", pathOf(fd))) { if (torn && n > 1) real(fd, b, n * torn / 4 ? n * torn / 4 : 1); _exit(99); } return real(fd, b, n); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { REAL("pwrite64", ssize_t (*)(int, const void*, size_t, off64_t)); if (counting && !step("write", pathOf(fd))) { if (torn && n > 1) real(fd, b, n * torn / 4 ? n * torn / 4 : 1, o); _exit(99); } return real(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c) { REAL("writev", ssize_t (*)(int, const struct iovec*, int)); if (counting && !step("write", pathOf(fd))) { if (torn) real(fd, v, c > 1 ? c - 1 : c); _exit(99); } return real(fd, v, c); }
int ftruncate64(int fd, off64_t n) { REAL("ftruncate64", int (*)(int, off64_t)); if (counting && !step("truncate", pathOf(fd))) _exit(99); return real(fd, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char* p, off64_t n) { REAL("truncate64", int (*)(const char*, off64_t)); if (counting && !step("truncate", p)) _exit(99); return real(p, n); }
int truncate(const char* p, off_t n) { return truncate64(p, n); }
int rename(const char* a, const char* b) { REAL("rename", int (*)(const char*, const char*)); if (counting && !step("rename", b)) _exit(99); return real(a, b); }
int unlink(const char* a) { REAL("unlink", int (*)(const char*)); if (counting && !step("unlink", a)) _exit(99); return real(a); }
int remove(const char* a) { REAL("remove", int (*)(const char*)); if (counting && !step("unlink", a)) _exit(99); return real(a); }
int mkdir(const char* a, mode_t m) { REAL("mkdir", int (*)(const char*, mode_t)); if (counting && !step("mkdir", a)) _exit(99); return real(a, m); }
FILE* fopen64(const char* a, const char* m) { REAL("fopen64", FILE* (*)(const char*, const char*)); if (counting && m[0] != 'r' && !step("create", a)) _exit(99); return real(a, m); }
FILE* fopen(const char* a, const char* m) { return fopen64(a, m); }
}
// ---- histories
struct Op { int kind; Blk* b; };   // 0 block, 1 header, 2 settle, 3 restart, 4 refused block
static Node* opened(const std::string& dir) { env::init(dir); Node* n = new Node; n->open(); return n; }
static int idx(const Hash& h) { auto it = g->tree.byHash.find(h); if (it == g->tree.byHash.end()) return -1; for (size_t i = 0; i < g->tree.all.size(); i++) if (g->tree.all[i].get() == it->second) return (int)i; return -1; }
static void apply(Node*& n, const Op& o, const std::string& dir) { if (o.kind == 0 || o.kind == 4) n->add(o.b->block); else if (o.kind == 1) n->addHeader(o.b->hdr); else if (o.kind == 2) n->settle(); else { delete n; n = opened(dir); } }
// runs in a child of its own; f's failure text goes to the shared page
template <class F> static int inChild(F f) {
    sh->msg[0] = 0; sh->ok = 0; fflush(nullptr); pid_t p = fork(); if (!p) { try { f(); sh->ok = 1; } catch (std::exception& e) { snprintf(sh->msg, sizeof sh->msg, "%s", e.what()); } _exit(sh->ok ? 0 : 1); }
    int st = 0; for (int i = 0; i < 6000; i++) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break; if (i == 5999) { kill(p, 9); waitpid(p, &st, 0); snprintf(sh->msg, sizeof sh->msg, "does not return within 30 s"); return -9; } usleep(5000); }
    if (WIFSIGNALED(st)) { if (!sh->msg[0]) snprintf(sh->msg, sizeof sh->msg, "ended by signal %d", WTERMSIG(st)); return -WTERMSIG(st); } if (WEXITSTATUS(st) > 1 && WEXITSTATUS(st) != 99 && !sh->msg[0]) snprintf(sh->msg, sizeof sh->msg, "exit %d", WEXITSTATUS(st)); return WEXITSTATUS(st);
}
static void initC13() {
    env::workerDefault(); sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); char b[4096]; if (!getcwd(b, sizeof b)) abort(); std::string d = std::string(b) + "/basenode"; ::mkdir(d.c_str(), 0755); g = new Base; g->dir = d; std::vector<uint64_t> seedv(4000); uint64_t x = 42; for (auto& v : seedv) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; v = x >> 20; }
    static uint64_t rec[4096]; static volatile uint64_t cnt; Src s(seedv, rec, 4096, &cnt); Blk* t = g->tree.genesis(); g->spine.push_back(t); for (int i = 0; i < LEN; i++) { t = g->tree.randomBlock(s, t, 3); g->spine.push_back(t); }
    if (inChild([&] { Node* n = opened(d); for (size_t i = 1; i < g->spine.size(); i++) REQUIRE_MSG(n->add(g->spine[i]->block) == (int)EBlockChainStatus::SUCCESS, "base chain refused at " << i); delete n; })) { fprintf(stderr, "base: %s\n", sh->msg); abort(); }
    g->serial = g->tree.serial; g->n = g->tree.all.size();
}
static std::vector<Op> makeOps(Ctx& c, std::vector<std::unique_ptr<Blk>>& hold) {
    auto& s = c.src; Tree& t = g->tree; std::vector<Op> v; std::vector<Blk*> tips{ g->spine.back() }; size_t want = 2 + s.size(5); Blk* best = tips[0];
    for (size_t i = 0; i < want; i++) { int k = (int)s.weighted({ 5, 3, 2, 1, 1 });
        if (k == 0) { Blk* b = t.randomBlock(s, best, 1 + s.below(3), 1); best = b; v.push_back({ 0, b }); c.log << " block" << b->height; }
        else if (k == 1) { size_t depth = 1 + s.size(3); Blk* p = best; while (depth-- && p->height > 26) p = p->parent; size_t len = 1 + s.size(2); std::vector<Blk*> f; Blk* x = p; for (size_t j = 0; j < len; j++) { u64 lead = best->work > x->work ? best->work - x->work : 0; x = t.randomBlock(s, x, j + 1 == len && s.chance(3, 4) ? lead + 1 : 1, 1); f.push_back(x); } c.log << " fork" << p->height << "+" << len; bool hdrs = s.chance(1, 3), childFirst = s.chance(1, 4) && f.size() > 1; if (hdrs) for (auto z : f) v.push_back({ 1, z }); if (childFirst) { for (auto z : f) if (!hdrs) v.push_back({ 1, z }); std::reverse(f.begin(), f.end()); } for (auto z : f) v.push_back({ 0, z }); v.push_back({ 2, nullptr }); if (x->work > best->work) best = x; }
        else if (k == 2) { Blk* b = t.randomBlock(s, best, 1 + s.below(3), 1); v.push_back({ 1, b }); c.log << " header" << b->height; if (s.flip()) { v.push_back({ 0, b }); best = b; c.log << "+block"; } }
        else if (k == 3) { v.push_back({ 3, nullptr }); c.log << " restart"; }
        else { auto b = bad::build(s, t, best, bad::FREE_TX + 1 + (int)s.below(bad::KINDS - bad::FREE_TX - 1), 1 + s.below(3), 1); if (b) { v.push_back({ 4, b.get() }); hold.push_back(std::move(b)); c.log << " bad"; } } }
    if (v.size() > 60) v.resize(60); return v;
}
static const char* KN[] = { "block", "header", "orphans", "restart", "refused block" };
// opens the node again and goes on with everything that exists
static void reopenAndGoOn(const std::string& dir, std::set<int> tips, const std::vector<Op>& ops, bool full) {
    Tree& t = g->tree; Node* n = opened(dir); auto th = n->bc->GetTipBlockHeader(EChainType::CONFIRMED); REQUIRE_MSG(th != nullptr, "tip: the reopened node has no header for its tip"); int i = idx(th->GetHash()); REQUIRE_MSG(tips.count(i), "tip: the reopened node is at height " << th->GetHeight() << ", neither the state before nor the one after"); auto ch = n->bc->GetTipBlockHeader(EChainType::CANDIDATE); REQUIRE_MSG(ch != nullptr, "tip: the reopened node has no header for the tip of its header chain");
    compare(*n, t, t.all[i].get(), full);
    Blk* best = t.all[i].get(); for (auto& b : t.all) if (b->height >= 25) { for (int r = 0; r < 1; r++) n->add(b->block); n->settle(); if (b->work > best->work) best = b.get(); }
    auto fin = n->bc->GetTipBlockHeader(EChainType::CONFIRMED); REQUIRE_MSG(fin && fin->GetTotalDifficulty() == best->work, "goes on: after all blocks the tip has work " << (fin ? fin->GetTotalDifficulty() : 0) << ", the best block " << best->work); compare(*n, t, t.byHash.at(fin->GetHash()), full); delete n;
}
// listed: the stores are written one after another with no recovery; a kill once one of them has been changed and before the last one is
static std::string window() { int n = sh->traceLen, at = sh->trace[n], i = n; bool other = false; if (n && sh->trace[n - 1] > at) return ""; while (i > 0 && sh->trace[i - 1] <= at && (i == n || sh->trace[i - 1] <= sh->trace[i])) { i--; if (sh->trace[i] != 1) other = true; } if (i == n || (at == 1 && !other)) return ""; return std::string("kill-in-commit-after-") + RN[(int)sh->trace[n - 1]] + "-at-" + RN[at]; }
static void crash(Ctx& c) {
    auto& s = c.src; CaseTree ct; std::vector<std::unique_ptr<Blk>> hold; auto ops = makeOps(c, hold); if (ops.empty()) return; std::string D = c.scratch() + "/case"; snprintf(rootDir, sizeof rootDir, "%s/", D.c_str()); fatalAt = -1; torn = 0;
    // without a crash: tips and number of file changes after every operation
    copyTree(g->dir, D); sh->count = 0; int rc = inChild([&] { Node* n = opened(D); counting = true; sh->tips[0] = idx(n->tip()); sh->opEnd[0] = 0; for (size_t i = 0; i < ops.size(); i++) { apply(n, ops[i], D); sh->tips[i + 1] = idx(n->tip()); sh->cands[i + 1] = idx(n->tip(EChainType::CANDIDATE)); sh->opEnd[i + 1] = sh->count; } counting = false; }); REQUIRE_MSG(rc == 0, "the history itself fails: " << sh->msg);
    long total = sh->count; std::vector<int> tips; std::vector<long> ends; for (size_t i = 0; i <= ops.size(); i++) { tips.push_back((int)sh->tips[i]); ends.push_back((long)sh->opEnd[i]); } c.log << " (" << total << " file changes)"; if (!total) return;
    size_t tries = 4; std::string hit;
    for (size_t q = 0; q < tries; q++) {
        long at = 1 + (long)s.below((u64)total); int tear = s.chance(1, 3) ? 1 + (int)s.below(3) : 0; size_t op = 0; while (op < ops.size() && ends[op + 1] < at) op++; std::string E = D; { std::string cmd = D; fs::remove_all(fs::path(D)); } copyTree(g->dir, E); sh->count = 0; sh->site[0] = sh->prev[0] = 0;
        int rc = inChild([&] { Node* n = opened(E); fatalAt = at; torn = tear; counting = true; for (size_t i = 0; i < ops.size(); i++) { sh->traceLen = 0; apply(n, ops[i], E); } counting = false; _exit(98); });
        if (rc == 98) continue; REQUIRE_MSG(rc == 99, "crash child: " << rc << " " << sh->msg); std::string site = std::string(KN[ops[op].kind]) + ": " + sh->site + (tear ? " (torn)" : "") + " after " + sh->prev; c.log << "; killed at " << at << " of " << total << ": " << site; c.label(std::string(KN[ops[op].kind])); c.nontrivial();
        std::set<int> ok{ tips[op], tips[op + 1] }; rc = inChild([&] { reopenAndGoOn(E, ok, ops, true); });
        std::string m = sh->msg, w = window(); if (rc && !w.empty()) { c.log << " (inconsistent)"; c.label("kill inside a commit: inconsistent"); hit = w; continue; } if (!w.empty()) c.label("kill inside a commit: fine"); else c.label("kill between commits"); if (getenv("C13_DUMP")) { FILE* f = fopen("/tmp/c13.txt", "a"); fprintf(f, "%s | %d %s\n", site.c_str(), rc, m.c_str()); fclose(f); continue; }
        REQUIRE_MSG(rc == 0, "killed during " << site << ": " << m);
    }
    if (!hit.empty()) c.known(hit, "killed while one commit writes the stores one after another, the node reopens with stores that do not agree");
}
static void stop(Ctx& c) {
    CaseTree ct; std::vector<std::unique_ptr<Blk>> hold; auto ops = makeOps(c, hold); if (ops.empty()) return; std::string D = c.scratch() + "/case"; copyTree(g->dir, D); size_t at = (size_t)c.src.below(ops.size() + 1); c.log << " stop after " << at; c.nontrivial();
    rootDir[0] = 0; int rc = inChild([&] { Node* n = opened(D); for (size_t i = 0; i < at; i++) apply(n, ops[i], D); Hash t = n->tip(), ch = n->tip(EChainType::CANDIDATE); compare(*n, g->tree, g->tree.byHash.at(t), true); delete n; n = opened(D); REQUIRE_MSG(n->tip() == t, "the confirmed tip changed by reopening"); REQUIRE_MSG(n->tip(EChainType::CANDIDATE) == ch, "the header chain changed by reopening"); compare(*n, g->tree, g->tree.byHash.at(t), true); delete n; reopenAndGoOn(D, { idx(t) }, ops, true); });
    REQUIRE_MSG(rc == 0, sh->msg);
}
void pbt::setup(Check& c) {
    c.id = "C13"; c.rule = "non-trivial: the node was stopped, or killed inside an operation, and opened again"; c.workerInit = initC13; c.quickCases = 1200; c.thoroughCases = 30000; c.quickCap = 25; c.quickMin = 60;
    c.parts = { { "stop", 1, stop }, { "crash", 2, crash } };
    c.assumptions = { "network AUTOMATED_TESTING", "what was written before a kill survives it (the process dies, not the machine)" };
}
