// C17: pruned output and range-proof sets keep roots, data and positions exact
#include "chain.h"
#include <PMMR/Common/Index.h>
#include <PMMR/Common/LeafIndex.h>
#include "PMMR/Common/PruneList.h"
#include "PMMR/OutputPMMR.h"
#include "PMMR/RangeProofPMMR.h"
#include <fstream>
using namespace pbt; using namespace chain;
static void put(const std::string& p, const Bytes& b) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write((const char*)b.data(), (std::streamsize)b.size()); }
static u64 leafPos(u64 i) { return 2 * i - (u64)__builtin_popcountll(i); }
// ---- which nodes of a range of n nodes are pruned, when the given leaves are
struct Forest {
    std::vector<u64> parent, height; std::vector<int> leafNo; std::vector<std::pair<u64, u64>> kids; u64 leaves = 0;
    void grow(u64 want) { std::vector<std::pair<u64, u64>> pk; parent.clear(); height.clear(); leafNo.clear(); kids.clear(); leaves = 0; while (leaves < want) { u64 p = height.size(); parent.push_back(~0ull); height.push_back(0); leafNo.push_back((int)leaves++); kids.push_back({ 0, 0 }); pk.push_back({ p, 0 }); while (pk.size() > 1 && pk[pk.size() - 2].second == pk.back().second) { auto r = pk.back(); pk.pop_back(); auto l = pk.back(); pk.pop_back(); u64 q = height.size(); parent[l.first] = parent[r.first] = q; parent.push_back(~0ull); height.push_back(l.second + 1); leafNo.push_back(-1); kids.push_back({ l.first, r.first }); pk.push_back({ q, l.second + 1 }); } } }
    std::vector<char> pruned(const std::set<u64>& gone) const { std::vector<char> r(height.size()); for (size_t i = 0; i < r.size(); i++) r[i] = height[i] == 0 ? gone.count((u64)leafNo[i]) > 0 : r[kids[i].first] && r[kids[i].second]; return r; }
    bool root(const std::vector<char>& p, u64 i) const { return p[i] && (parent[i] == ~0ull || !p[parent[i]]); }
};
static void checkList(const PruneList& l, const Forest& f, const std::set<u64>& gone, bool flushed) {
    auto p = f.pruned(gone); u64 shift = 0, leafShift = 0;
    for (u64 i = 0; i < p.size(); i++) { Index x = Index::At(i); bool root = f.root(p, i); REQUIRE_MSG(l.IsPruned(x) == (bool)p[i], "position " << i << " of " << p.size() << (p[i] ? " is pruned" : " is not pruned") << ", the list says otherwise"); REQUIRE_MSG(l.IsPrunedRoot(x) == root, "position " << i << (root ? " is" : " is not") << " the root of a pruned tree"); REQUIRE_EQ(l.IsCompacted(x), p[i] && !root);
        if (flushed) { if (!p[i] || root) { REQUIRE_MSG(l.GetShift(x) == shift || root, "shift before position " << i); if (root) { REQUIRE_MSG(l.GetShift(x) == shift, "shift at the pruned root " << i << ": " << l.GetShift(x) << ", not " << shift); } if (f.height[i] == 0) REQUIRE_MSG(l.GetLeafShift(x) == leafShift, "leaf shift at " << i << ": " << l.GetLeafShift(x) << ", not " << leafShift); } }
        if (p[i] && !root) { shift++; if (f.height[i] == 0) leafShift++; } }
    if (flushed) REQUIRE_MSG(l.GetTotalShift() == shift, "total shift " << l.GetTotalShift() << ", not " << shift);
}
static std::set<u64> pickGone(Src& s, u64 leaves) { std::set<u64> r; int style = (int)s.below(4); if (style == 0) { unsigned den = 1 + (unsigned)s.below(8); for (u64 i = 0; i < leaves; i++) if (!s.chance(1, den + 1)) r.insert(i); } else if (style == 1) { size_t runs = 1 + s.below(5); for (size_t q = 0; q < runs; q++) { u64 a = s.below(leaves), n = 1 + s.below(leaves - a); for (u64 i = a; i < a + n; i++) r.insert(i); } size_t back = s.below(4); for (size_t q = 0; q < back; q++) r.erase(s.below(leaves)); } else if (style == 2) { for (u64 i = 0; i < leaves; i++) if (s.chance(1, 8)) r.insert(i); } else { u64 n = s.below(leaves + 1); for (u64 i = 0; i < n; i++) r.insert(i); if (n && s.flip()) r.erase(s.below(n)); } return r; }
static void list(Ctx& c) {
    auto& s = c.src; u64 leaves = 2 + s.size(s.chance(1, 10) ? 1500 : 120); Forest f; f.grow(leaves); auto path = fs::path(c.scratch() + "/p.bin"); auto l = PruneList::Load(path); std::set<u64> gone, stored; std::vector<u64> order; for (auto x : pickGone(s, leaves)) order.push_back(x); bool shuf = s.flip(); if (shuf) for (size_t i = 1; i < order.size(); i++) std::swap(order[i], order[s.below(i + 1)]); c.log << leaves << " leaves, " << order.size() << " pruned" << (shuf ? ", shuffled" : "");
    size_t flushes = 0; for (size_t i = 0; i < order.size(); i++) { l->Add(LeafIndex::At(order[i]).GetIndex()); gone.insert(order[i]); if (s.chance(1, 12)) { checkList(*l, f, gone, false); l->Flush(); flushes++; stored = gone; checkList(*l, f, gone, true); if (s.chance(1, 3)) { l = PruneList::Load(path); checkList(*l, f, gone, true); } } }
    checkList(*l, f, gone, false); if (s.chance(1, 6)) { l = PruneList::Load(path); checkList(*l, f, stored, true); } else { l->Flush(); checkList(*l, f, gone, true); l = PruneList::Load(path); checkList(*l, f, gone, true); }
    size_t compacted = 0; auto p = f.pruned(gone); for (u64 i = 0; i < p.size(); i++) compacted += p[i] && !f.root(p, i); c.nontrivial(compacted > 0 && gone.size() < leaves);
}
// ---- the sets themselves
struct Kind { static Bytes filler(Src& s, size_t n) { u64 x = s.u64(); Bytes b(n); for (auto& v : b) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; v = (uint8_t)(x >> 40); } return b; } };
struct Outs { typedef OutputPMMR P; typedef OutputIdentifier T; static const char* dir() { return "output"; } static T genesis() { return OutputIdentifier::FromOutput(Global::GetGenesisBlock().GetOutputs().front()); } static T make(Src& s) { Bytes b = Kind::filler(s, 33); b[0] = 8 + (b[0] & 1); EOutputFeatures f = (EOutputFeatures)s.below(2); return OutputIdentifier(f, Commitment(CBigInteger<33>(b.data()))); } };
struct Proofs { typedef RangeProofPMMR P; typedef RangeProof T; static const char* dir() { return "rangeproof"; } static T genesis() { return Global::GetGenesisBlock().GetOutputs().front().GetRangeProof(); } static T make(Src& s) { return RangeProof(Kind::filler(s, 675)); } };
template <class K> static void pruned(Ctx& c) {
    typedef typename K::T T; auto& s = c.src; std::string D = c.scratch() + "/txhs", d = D + "/" + K::dir(); mkdir(D.c_str(), 0755); mkdir(d.c_str(), 0755); static std::string tmp; tmp = c.scratch() + "/tmp"; mkdir(tmp.c_str(), 0755); setenv("TMPDIR", tmp.c_str(), 1);
    struct M { std::vector<T> leaf; std::set<u64> unspent; }; M work, saved; std::set<u64> compacted; u64 base = 1; std::vector<std::set<u64>> spentAt;   // compacted leaves; leaves below base are never rewound
    bool snap = s.chance(3, 4); std::vector<char> pr; Forest pf;
    auto naive = [](const M& m) { Naive n; for (auto& x : m.leaf) n.add(x.Serialized()); return n; };
    if (snap) {   // a set as another node would have sent it: pruned leaves and the nodes above them left out
        base = s.chance(1, 40) ? 1024 * (1 + s.below(2)) - 4 + s.below(9) : 1 + s.size(90); for (u64 i = 0; i < base; i++) work.leaf.push_back(K::make(s)); std::set<u64> spent = pickGone(s, base), gone = spent; for (u64 i = 0; i < base; i++) if (!spent.count(i)) work.unspent.insert(i); if (s.flip()) for (auto i : spent) if (s.chance(1, 4)) gone.erase(i); pf.grow(base); pr = pf.pruned(gone); Naive n = naive(work); Bytes hf, df; size_t out = 0; std::set<u64> keepData;
        auto l = PruneList::Load(fs::path(d + "/pmmr_prun.bin")); for (u64 i : gone) l->Add(LeafIndex::At(i).GetIndex()); l->Flush();
        for (u64 i = 0; i < n.size(); i++) if (!pr[i] || pf.root(pr, i)) { hf.insert(hf.end(), n.nodes[i].begin(), n.nodes[i].end()); if (pf.height[i] == 0) { Bytes b = work.leaf[(size_t)pf.leafNo[i]].Serialized(); df.insert(df.end(), b.begin(), b.end()); } } else if (pf.height[i] == 0) { compacted.insert((u64)pf.leafNo[i]); out++; }
        put(d + "/pmmr_hash.bin", hf); put(d + "/pmmr_data.bin", df); Roaring bm; for (u64 i : work.unspent) bm.add((uint32_t)leafPos(i) + 1); Bytes b(bm.getSizeInBytes()); bm.write((char*)b.data()); bool old = s.chance(1, 6); if (old) { Bytes o((n.size() + 7) / 8 + s.below(3)); for (u64 i : work.unspent) o[leafPos(i) / 8] |= (uint8_t)(0x80 >> (leafPos(i) % 8)); put(d + "/pmmr_leafset.bin", o); c.label("leaf set of an older version"); } else put(d + "/pmmr_leaf.bin", b); c.log << (old ? "older version: " : "") << base << " leaves, " << spent.size() << " spent, " << out << " compacted; "; saved = work;
    } else { work.leaf.push_back(K::genesis()); work.unspent.insert(0); pf.grow(1); pr.assign(1, 0); }
    auto m = K::P::Load(fs::path(D)); bool rew = false, restored = false; std::vector<u64> spentOrder; size_t steps = 3 + s.size(18); if (!snap) { m->Commit(); saved = work; }
    auto check = [&](const char* when) {
        Naive n = naive(work); u64 N = work.leaf.size(); REQUIRE_MSG(m->GetSize() == n.size(), when << ": size " << m->GetSize() << ", not " << n.size()); REQUIRE_MSG(m->Root(n.size()) == H(n.root()), when << ": root of " << N << " leaves differs");
        for (u64 i = 0; i < N + 3; i++) { bool u = work.unspent.count(i) > 0; LeafIndex l = LeafIndex::At(i); REQUIRE_MSG(m->IsUnpruned(l) == u, when << ": leaf " << i << (u ? " is unspent" : " is not unspent") << ", the set says otherwise"); auto g = m->GetAt(l); REQUIRE_MSG((bool)g == u, when << ": leaf " << i << (u ? " has no data" : " still has data")); if (u) REQUIRE_MSG(g->Serialized() == work.leaf[i].Serialized(), when << ": leaf " << i << " returns other data"); }
        for (u64 i = 0; i < n.size(); i++) { bool gone = i < pr.size() && pr[i] && !pf.root(pr, i); REQUIRE_EQ(m->IsCompacted(Index::At(i)), gone); auto h = m->GetHashAt(Index::At(i)); REQUIRE_MSG((bool)h == !gone, when << ": node " << i << (gone ? " should be compacted" : " is missing")); if (h) REQUIRE_MSG(*h == H(n.nodes[i]), when << ": node " << i << " differs"); }
        size_t want = s.below(8); auto ll = m->GetLastLeafHashes(want); size_t k = 0; for (auto it = work.unspent.rbegin(); it != work.unspent.rend() && k < want; ++it, ++k) { REQUIRE_MSG(k < ll.size(), when << ": too few last leaves"); REQUIRE(ll[k] == H(n.nodes[leafPos(*it)])); } REQUIRE_EQ(ll.size(), k);
        { Naive b; for (u64 q = 0; q < (N + 1023) / 1024; q++) { Bytes ch(128); for (u64 i = q * 1024; i < (q + 1) * 1024; i++) if (work.unspent.count(i)) ch[(i % 1024) / 8] |= (uint8_t)(0x80 >> (i % 8)); b.add(ch); } REQUIRE_MSG(m->UBMTRoot(N) == H(b.root()), when << ": root of the unspent bitmap differs"); } };
    check("opened");
    for (size_t q = 0; q < steps; q++) { switch (s.weighted({ 7, 7, 4, 3, 3, 2 })) {
        case 0: { size_t n = 1 + s.size(10); c.log << "+" << n << " "; for (size_t i = 0; i < n; i++) { T t = K::make(s); m->Append(t); work.unspent.insert(work.leaf.size()); work.leaf.push_back(t); } break; }
        case 1: { size_t n = 1 + s.size(8); c.log << "-"; for (size_t i = 0; i < n && !work.unspent.empty(); i++) { auto it = work.unspent.begin(); std::advance(it, (long)s.below(work.unspent.size())); c.log << *it << ","; m->Remove(LeafIndex::At(*it)); work.unspent.erase(it); } u64 no = s.below(work.leaf.size() + 2); if (!work.unspent.count(no)) { bool t = false; try { m->Remove(LeafIndex::At(no)); } catch (std::exception&) { t = true; } REQUIRE_MSG(t, "a leaf that is not unspent was removed"); } c.log << " "; break; }
        case 2: { u64 n = base + s.below(work.leaf.size() - base + 1); std::vector<u64> add; for (u64 i = 0; i < n; i++) if (!work.unspent.count(i) && !compacted.count(i) && !(i < pr.size() && pr.size() && pr[leafPos(i) < pr.size() ? leafPos(i) : 0] && leafPos(i) < pr.size()) && s.chance(1, 2)) add.push_back(i); if (s.chance(1, 4) && n < work.leaf.size()) add.push_back(n + s.below(work.leaf.size() - n)); if (add.size() > 1 && s.flip()) std::swap(add.front(), add.back()); c.log << "rewind " << n << " restoring " << add.size() << " "; m->Rewind(n, add); rew |= n < work.leaf.size(); restored |= !add.empty(); work.leaf.erase(work.leaf.begin() + (long)n, work.leaf.end()); work.unspent.erase(work.unspent.lower_bound(n), work.unspent.end()); for (u64 i : add) if (i < n) work.unspent.insert(i); break; }
        case 3: c.log << "commit "; m->Commit(); saved = work; break;
        case 4: c.log << "rollback "; m->Rollback(); work = saved; break;
        case 5: c.log << "reopen "; m.reset(); m = K::P::Load(fs::path(D)); work = saved; break; } check("after a step"); }
    c.nontrivial((compacted.size() > 0 || !snap) && rew && restored); if (compacted.size()) c.label("compacted");
}
void pbt::setup(Check& c) {
    c.id = "C17"; c.rule = "non-trivial: some nodes compacted and some leaves left (prune list); a rewind dropped leaves and restored spent ones, on a compacted or a fresh set"; c.workerInit = env::workerDefault; c.quickCases = 60000; c.thoroughCases = 150000; c.quickCap = 15; c.quickMin = 0;
    c.parts = { { "list", 2, list }, { "outputs", 3, pruned<Outs> }, { "proofs", 2, pruned<Proofs> } };
    c.assumptions = { "the code has no compaction of its own: pruned sets are written as a peer's snapshot holds them", "leaves below the snapshot's size are not rewound" };
}
