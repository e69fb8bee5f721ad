// C07: proof-of-work verifiers
#include "cuckoo.h"
#include "env.h"
#include "mockdb.h"
#include "powsmall.h"
#include <fstream>
#include <PoW/PoWValidator.h>
#include "PoW/Cuckatoo.h"
#include "PoW/Cuckaroo.h"
#include "PoW/Cuckarood.h"
#include "PoW/Cuckaroom.h"
#include "PoW/Cuckarooz.h"
#include "PoW/Common.h"
#include <Crypto/Hasher.h>
using namespace pbt; using namespace cuckoo;
static ProofOfWork powOf(int bits, const Nonces& n) { return n.size() == 42 ? [&] { Nonces c = n; for (auto x : c) if (x >> bits) return ProofOfWork((uint8_t)bits, Nonces(n), Hash()); return ProofOfWork((uint8_t)bits, std::move(c)); }() : ProofOfWork((uint8_t)bits, Nonces(n), Hash()); }
static bool verify(Variant v, int bits, gen::HeaderFields f, const Nonces& n) {
    f.pow = powOf(v == TOO || v == ROO ? bits : 29, n); auto h = f.make(); powsmall::bits = bits;
    switch (v) { case TOO: return Cuckatoo::Validate(h); case ROO: return Cuckaroo::Validate(h); case ROOD: return bits == 29 ? Cuckarood::Validate(h) : powsmall::cuckarood(h); case ROOM: return bits == 29 ? Cuckaroom::Validate(h) : powsmall::cuckaroom(h); default: return bits == 29 ? Cuckarooz::Validate(h) : powsmall::cuckarooz(h); }
}
static std::string show(const Nonces& n) { std::string s; for (auto x : n) s += std::to_string(x) + " "; return s; }
struct Near { std::string kind; Nonces n; };
static void corrupt(Src& s, const Nonces& p, u64 N, std::vector<Near>& out) {
    Nonces q = p; std::swap(q[s.below(42)], q[s.below(42)]); out.push_back({ "two swapped", q });
    q = p; std::reverse(q.begin(), q.end()); out.push_back({ "reversed", q });
    q = p; { size_t i = s.below(41); q[i] = q[i + 1]; } out.push_back({ "one repeated", q });
    q = p; q[s.below(42)] = s.below(N); std::sort(q.begin(), q.end()); out.push_back({ "one replaced", q });
    q = p; q[s.below(42)] ^= 1ULL << s.below(11); out.push_back({ "one bit flipped", q });
    q = p; q[41] += N; out.push_back({ "one out of range", q });
    q = p; q[41] |= 1ULL << (32 + s.below(32)); out.push_back({ "one with a high bit", q });
    q = p; q.erase(q.begin() + s.below(42)); out.push_back({ "one missing", q }); q = p; q.push_back(N - 1); out.push_back({ "one more", q });
}
static void smallGraphs(Ctx& c) {
    auto& s = c.src; Variant v = (Variant)s.below(5); int bits = 11 + (int)s.below(2); u64 N = 1ULL << bits; gen::HeaderFields f = gen::headerFields(s); f.nonce = s.u64(); int mode = (int)s.weighted({ 6, 2, 2 });
    if (mode == 2 && v != TOO && v != ROOD) mode = 1;
    c.log << NAME[v] << " bits " << bits << (mode == 1 ? " with edges beyond the range" : mode == 2 ? " without the pairing rule" : "");
    f.pow = powOf(29, Nonces(42)); Graph g; std::vector<Near> list; bool found = false; Nonces proof;
    for (int t = 0; t < 60 && !found; t++) {
        f.nonce++; g = Graph(); g.v = v; g.bits = bits; g.k = keysOf(f.make()); if (mode == 2) g.undirected = true; auto cs = cycles(g, mode == 1 ? N + N / 3 : N, 42, 60000); g.undirected = false;
        list.clear(); for (auto& x : cs) if (x.size() == 42) { if (mode == 0) found = true, proof = x; list.push_back({ mode == 0 ? "cycle" : mode == 1 ? "cycle with edges beyond the range" : "cycle against the pairing rule", x }); if (mode && !isProof(g, x)) found = true; }
        for (size_t i = 0; i < cs.size() && mode == 0; i++) for (size_t j = 0; j < i; j++) if (cs[i].size() + cs[j].size() == 42) { Nonces q = cs[i]; q.insert(q.end(), cs[j].begin(), cs[j].end()); std::sort(q.begin(), q.end()); if (!isProof(g, q)) { list.push_back({ "two cycles", q }); } }
        for (auto& x : cs) if (mode == 0 && x.size() < 42 && x.size() > 38) { Nonces q = x; while (q.size() < 42) q.push_back(s.below(N)); std::sort(q.begin(), q.end()); list.push_back({ "a shorter cycle and other edges", q }); }
        if (!list.empty()) found = true;
    }
    if (!found) { c.label("no cycle"); return; }
    if (!proof.empty()) { corrupt(s, proof, N, list); for (int o = 0; o < 5; o++) if (o != v) { Graph h; h.v = (Variant)o; h.bits = bits; h.k = g.k; c.nontrivial(); REQUIRE_EQ(verify((Variant)o, bits, f, proof), isProof(h, proof)); } auto f2 = f; f2.height ^= 1; f2.pow = powOf(29, Nonces(42)); Graph h; h.v = v; h.bits = bits; h.k = keysOf(f2.make()); REQUIRE_MSG(verify(v, bits, f2, proof) == isProof(h, proof), "a proof of one header was accepted for another"); }
    for (auto& n : list) { bool want = isProof(g, n.n); bool got = verify(v, bits, f, n.n); c.label(std::string(NAME[v]) + (want ? " accept" : " refuse")); c.label(n.kind); if (!want || n.kind == "cycle") c.nontrivial(); REQUIRE_MSG(got == want, NAME[v] << " (" << bits << " bits) " << (got ? "accepted" : "refused") << " " << n.kind << ": " << show(n.n)); }
}
// ---- full-size proofs found offline, and corruptions of them, through PoWValidator
struct Real { int ver; u64 nonce; Nonces n; };
static std::vector<Real>& reals() { static std::vector<Real> r = [] { std::vector<Real> v; std::ifstream in(verifDir() + "/data/pow29.txt"); std::string line; while (std::getline(in, line)) { std::istringstream is(line); Real x; size_t len; is >> x.ver >> x.nonce >> len; u64 n; while (is >> n) x.n.push_back(n); if (x.n.size() == len) v.push_back(x); } return v; }(); return r; }
static gen::HeaderFields realHeader(const Real& r) { return gen::HeaderFields{ (uint16_t)r.ver, 1, 1600000000, Hash(), Hash(), Hash(), Hash(), Hash(), BlindingFactor(CBigInteger<32>()), 0, 0, 10000000, 500, r.nonce, powOf(29, r.n) }; }
static Variant ofVersion(int v) { return v == 1 ? ROO : v == 2 ? ROOD : v == 3 ? ROOM : ROOZ; }
static void fullSize(Ctx& c) {
    auto& s = c.src; if (reals().empty()) { c.label("no data"); return; } auto& r = s.pick(reals()); auto f = realHeader(r); Variant v = ofVersion(r.ver); c.log << NAME[v] << " 29 bits header nonce " << r.nonce << " cycle length " << r.n.size(); c.nontrivial();
    Graph g; g.v = v; g.bits = 29; g.k = keysOf(f.make()); std::vector<Near> list; if (r.n.size() == 42) { list.push_back({ "cycle", r.n }); corrupt(s, r.n, 1ULL << 29, list); } else { Nonces q = r.n; if (s.flip()) for (auto& o : reals()) if (&o != &r && o.ver == r.ver && o.nonce == r.nonce && q.size() + o.n.size() <= 42) q.insert(q.end(), o.n.begin(), o.n.end()); while (q.size() < 42) q.push_back(s.below(1ULL << 29)); std::sort(q.begin(), q.end()); list.push_back({ "shorter cycles", q }); }
    for (auto& n : list) { bool want = isProof(g, n.n), got = verify(v, 29, f, n.n); c.label(std::string(NAME[v]) + (want ? " accept" : " refuse")); REQUIRE_MSG(got == want, NAME[v] << " (29 bits) " << (got ? "accepted" : "refused") << " " << n.kind << ": " << show(n.n)); }
}
// the validator: right verifier per version, difficulty reached, edge bits
static void validator(Ctx& c) {
    auto& s = c.src; int ver = 1 + (int)s.below(4); Variant var = ofVersion(ver); int bits = 11 + (int)s.below(2); Real r{ ver, s.u64(), Nonces(42) }; gen::HeaderFields f = realHeader(r);
    Nonces proof; for (int t = 0; t < 60 && proof.empty(); t++) { r.nonce++; r.n = Nonces(42); f = realHeader(r); Graph g; g.v = var; g.bits = bits; g.k = keysOf(f.make()); for (auto& x : cycles(g, 1ULL << bits, 42, 60000)) if (x.size() == 42) proof = x; }
    if (proof.empty()) { c.label("no cycle"); return; } r.n = proof; f = realHeader(r); c.nontrivial(); powsmall::bits = bits; powsmall::cuckaroo = [bits](const BlockHeader& h) { Graph g; g.v = ROO; g.bits = bits; g.k = keysOf(h); return h.GetVersion() == 1 && isProof(g, h.GetProofOfWork().GetProofNonces()); };
    auto h64 = enc::b2b(enc::cycleBits(f.pow)); u64 hv = 0; for (int i = 0; i < 8; i++) hv = hv << 8 | h64[i]; unsigned __int128 q = ((unsigned __int128)500 << 64) / (hv ? hv : 1); u64 maxDiff = q > UINT64_MAX ? UINT64_MAX : (u64)q;
    // a perfectly timed window: the next difficulty is that of the window, the scaling stays at 500 with 54 of 60 secondary
    u64 D = s.chance(1, 2) ? s.pick<u64>({ maxDiff, maxDiff + 1, maxDiff - 1, 3 }) : 3 + s.below(2 * maxDiff); if (D < 3) D = 3; if (D > 100000) D = 100000;
    auto db = std::make_shared<HeaderDB>(); BlockHeaderPtr prev; std::vector<BlockHeaderPtr> hs; for (int i = 0; i < 62; i++) { gen::HeaderFields p = realHeader(r); p.version = 1; p.height = (uint64_t)i; p.timestamp = 1600000000 - 60 * (62 - i); p.td = 10000000 - D * (u64)(62 - i); p.pow = powOf(i % 10 == 0 ? 31 : 29, [i] { Nonces w(42); w[0] = (u64)i + 1; return w; }()); p.nonce = (u64)i; if (prev) p.prev = prev->GetHash(); prev = std::make_shared<BlockHeader>(p.make()); hs.push_back(prev); db->add(prev); }
    // the header names an all-zero parent, which is the last of the window
    db->m[Hash()] = prev; db->m[hs[0]->GetPreviousHash()] = nullptr; db->m[Hash()] = prev;
    struct Stop : HeaderDB { BlockHeaderPtr last; Hash first; }; 
    auto ask = [&](const BlockHeader& h) { try { return powsmall::validator(db, h, *prev); } catch (const std::exception&) { return false; } };
    int w = (int)s.below(6); c.log << NAME[ofVersion(r.ver)] << " header, window difficulty " << D << ", proof reaches " << maxDiff; bool want = D <= maxDiff;
    if (D < 10000000 / 62) {
        if (w == 0) { REQUIRE_MSG(ask(f.make()) == want, "header with a proof reaching " << maxDiff << " for target " << D << (want ? " refused" : " accepted")); c.label(want ? "reached" : "not reached"); return; }
        auto g = f; std::string what;
        if (w == 1) { g.version = (uint16_t)s.pick<u64>({ 1, 2, 3, 4, 5 }); if (g.version == f.version) g.version = (uint16_t)(1 + f.version % 4); what = "version"; }
        if (w == 2) { g.td += 1 + s.below(3); what = "total difficulty"; } if (w == 3) { g.scaling += s.flip() ? 1 : -1; what = "secondary scaling"; }
        if (w == 4) { g.pow = ProofOfWork((uint8_t)s.pick<u64>({ 1, 8, 23, 24, 28, 30, 31, 32, 63 }), Nonces(42)); what = "edge bits"; }
        if (w == 5) { auto n = r.n; n[s.below(42)] ^= 1ULL << s.below(bits); g.pow = powOf(29, n); what = "nonce"; }
        c.log << "; changed " << what; REQUIRE_MSG(!ask(g.make()), "header accepted after its " << what << " was changed"); c.label("changed " + what);
    }
}
// a low edge-bits cuckatoo cycle that reaches the required difficulty must be refused by the validator
static void edgeBits(Ctx& c) {
    auto& s = c.src; int bits = (int)s.pick<u64>({ 11, 12, 13 }); gen::HeaderFields f = gen::headerFields(s); f.version = (uint16_t)(1 + s.below(4)); f.td = 10000000; f.scaling = 500; f.height = 1 + s.below(1000); f.timestamp = 1600000000; f.prev = Hash(); bool found = false; Nonces p;
    for (int t = 0; t < 80 && !found; t++) { f.nonce++; f.pow = powOf(29, Nonces(42)); Graph g; g.v = TOO; g.bits = bits; g.k = keysOf(f.make()); for (auto& x : cycles(g, 1ULL << bits, 42, 60000)) if (x.size() == 42) { found = true; p = x; break; } }
    if (!found) { c.label("no cycle"); return; } f.pow = powOf(bits, p); c.nontrivial(); c.log << "cuckatoo proof of " << bits << " edge bits"; 
    auto db = std::make_shared<HeaderDB>(); BlockHeaderPtr prev; for (int i = 0; i < 62; i++) { gen::HeaderFields q = f; q.version = 1; q.height = (uint64_t)i; q.timestamp = 1600000000 - 60 * (62 - i); q.td = 10000000 - 3 * (u64)(62 - i); q.pow = powOf(i % 10 == 0 ? 31 : 29, [i] { Nonces w(42); w[0] = (u64)i + 1; return w; }()); q.nonce = (u64)i; if (prev) q.prev = prev->GetHash(); prev = std::make_shared<BlockHeader>(q.make()); db->add(prev); } db->m[Hash()] = prev;
    bool ok = false; try { ok = PoWValidator(db).IsPoWValid(f.make(), *prev); } catch (const std::exception&) {} REQUIRE_MSG(!ok, "a proof of only " << bits << " edge bits was accepted");
}
void pbt::setup(Check& c) {
    c.id = "C07"; c.rule = "Headers with random fields; the five graphs they seed are searched at 11-12 edge bits for 42-cycles, unions of cycles, cycles using out-of-range edges and cycles against the pairing rule; these and corruptions of true proofs are judged by an independent definition. Full-size proofs found offline are corrupted and put through the validator with generated windows. Non-trivial: at least one candidate was judged.";
    c.quickCases = 500; c.thoroughCases = 40000; c.quickCap = 40; c.quickMin = 10; c.workerInit = env::workerDefault;
    c.parts = { { "small", 6, smallGraphs }, { "full", 2, fullSize }, { "validator", 3, validator }, { "edgebits", 1, edgeBits } };
    c.assumptions = { "The fixed-size verifiers are exercised at small sizes through the GRINPP_VERIF_EDGEBITS hook and at 29 bits with the proofs in data/pow29.txt; cuckatoo acceptance is exercised below the sizes mainnet allows." };
}
