// Small property-based testing engine (choice-sequence style).
// Every random decision of a case is drawn from Src and recorded; a failing case is its choice list,
// which is what gets shrunk and what the replay file holds. Lower choices mean simpler cases.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
struct KnownHit { std::string id; std::string what; };
struct OutOfChoices {};

class Src {
public:
    // generation mode
    Src(uint64_t seed, uint64_t* rec, size_t cap, volatile uint64_t* count);
    // replay mode: missing choices are 0
    Src(const std::vector<uint64_t>& choices, uint64_t* rec, size_t cap, volatile uint64_t* count);

    uint64_t raw(uint64_t bound_exclusive_or_0);                  // 0 = full 64-bit range
    uint64_t below(uint64_t n) { return n <= 1 ? (raw(1), 0) : raw(n); }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + (hi - lo == UINT64_MAX ? raw(0) : below(hi - lo + 1)); }
    int irange(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
    bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }   // 0 -> false
    bool flip() { return below(2) == 1; }
    // geometric-ish small sizes up to max, every size reachable
    size_t size(size_t max);
    uint64_t u64() { return raw(0); }
    // 64-bit values with boundary bias
    uint64_t edgy64();
    uint32_t edgy32() { return (uint32_t)edgy64(); }
    std::vector<uint8_t> bytes(size_t n);
    void fill(uint8_t* p, size_t n);
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    // index by weights
    size_t weighted(std::initializer_list<unsigned> w);
    std::string text(const std::string& alphabet, size_t max);
    uint64_t seedForPrng() { return raw(0); }
    size_t drawn() const { return m_n; }
private:
    uint64_t next();
    uint64_t m_s[4];
    bool m_replay;
    std::vector<uint64_t> m_in;
    uint64_t* m_rec; size_t m_cap; volatile uint64_t* m_count;
    size_t m_n = 0;
};

// case description; mirrored into shared memory so that it survives a crash of the case
class LogBuf : public std::streambuf {
    std::string m_s;
    void mirror();
protected:
    int overflow(int c) override { if (c != EOF) { m_s.push_back((char)c); mirror(); } return c; }
    std::streamsize xsputn(const char* p, std::streamsize n) override { m_s.append(p, (size_t)n); mirror(); return n; }
public:
    const std::string& get() const { return m_s; }
};
class Log : public std::ostream { LogBuf m_b; public: Log() : std::ostream(nullptr) { rdbuf(&m_b); } std::string str() const { return m_b.get(); } };

struct Ctx {
    Src& src;
    std::string dir;                 // private scratch directory of this case (created lazily by scratch())
    Log log;          // human-readable description of the case
    std::map<std::string, uint64_t> labels;
    bool is_nontrivial = false;
    uint64_t caseNo = 0;
    bool thorough = false;
    explicit Ctx(Src& s) : src(s) {}
    void nontrivial(bool b = true) { is_nontrivial = is_nontrivial || b; }
    void label(const std::string& l, uint64_t n = 1) { labels[l] += n; }
    const std::string& scratch();    // mkdir -p + return
    // ends the case, counted as an occurrence of a listed known finding (fails the case if not listed)
    [[noreturn]] void known(const std::string& id, const std::string& what) { throw KnownHit{ id, what }; }
};

struct Part {
    std::string name;
    unsigned weight;
    std::function<void(Ctx&)> fn;
};

// deterministic minimal input of a listed known finding: fails while the defect is there
struct Probe { std::string key, text; std::function<void(Ctx&)> fn; };

struct Check {
    std::string id;                   // property id
    std::string rule;                 // how cases are made; what is non-trivial
    uint64_t quickCases = 2000;
    uint64_t thoroughCases = 40000;
    unsigned quickCap = 45;           // seconds of generation at most
    unsigned quickMin = 10;           // keep generating at least this long
    unsigned thoroughCap = 600;
    unsigned caseTimeout = 120;       // a case longer than this is reported as not terminating
    unsigned workers = 8;
    size_t maxChoices = 1 << 18;
    std::vector<std::string> assumptions;
    std::vector<Part> parts;
    std::vector<Probe> probes;
    std::function<void()> workerInit; // once per forked process
};

Check& check();                       // the single check of this binary, filled by the registration function
void setup(Check& c);                 // defined by the check source

[[noreturn]] void fail(const std::string& msg);
std::string hex(const uint8_t* p, size_t n);
inline std::string hex(const std::vector<uint8_t>& v) { return hex(v.data(), v.size()); }
std::string verifDir();
// deterministic replacement for the OS RNG seen by the code under test
void seedRng(uint64_t s);
uint64_t hash64(const void* p, size_t n, uint64_t seed = 0);

template <class A, class B> std::string two(const char* ea, const A& a, const char* eb, const B& b) {
    std::ostringstream o; o << ea << " = " << a << ", " << eb << " = " << b; return o.str();
}
}  // namespace pbt

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define REQUIRE(cond) do { if (!(cond)) pbt::fail(std::string("check failed: " #cond " (" __FILE__ ":" PBT_STR(__LINE__) ")")); } while (0)
#define REQUIRE_MSG(cond, msg) do { if (!(cond)) { std::ostringstream _o; _o << "check failed: " #cond " (" __FILE__ ":" PBT_STR(__LINE__) "): " << msg; pbt::fail(_o.str()); } } while (0)
#define REQUIRE_EQ(a, b) do { auto&& _a = (a); auto&& _b = (b); if (!(_a == _b)) { pbt::fail(std::string("not equal (" __FILE__ ":" PBT_STR(__LINE__) "): ") + pbt::two(#a, _a, #b, _b)); } } while (0)
