// C16: append-only Merkle mountain ranges equal their naive definition
#include "chain.h"
#include <PMMR/Common/Index.h>
#include <PMMR/Common/LeafIndex.h>
#include <PMMR/HeaderMMR.h>
#include "PMMR/Common/MMRUtil.h"
#include "PMMR/Common/MMRHashUtil.h"
#include "PMMR/KernelMMR.h"
#include "PMMR/HeaderMMRImpl.h"
using namespace pbt; using namespace chain;
// ---- where a position lies, by descending from the root of the smallest perfect tree that holds it and its parent
struct Place { u64 height, parent, sibling, left, right, leaf; };
static Place place(u64 pos) {
    unsigned h = 62; u64 base = 0, leaves = 0, parent = 0, sibling = 0;
    for (;;) { u64 size = ((u64)1 << (h + 1)) - 1, root = base + size - 1, half = ((u64)1 << h) - 1;
        if (pos == root) return { h, parent, sibling, h ? base + half - 1 : 0, h ? root - 1 : 0, leaves };
        parent = root; if (pos < base + half) sibling = root - 1; else { sibling = base + half - 1; base += half; leaves += (u64)1 << (h - 1); } h--; }
}
static void checkIndex(u64 pos) {
    Place p = place(pos); Index i = Index::At(pos); REQUIRE_EQ(i.GetPosition(), pos); REQUIRE_MSG(i.GetHeight() == p.height, "height of position " << pos << ": " << i.GetHeight() << ", not " << p.height); REQUIRE_EQ(i.IsLeaf(), p.height == 0);
    REQUIRE_MSG(i.GetParent().GetPosition() == p.parent && i.GetParent().GetHeight() == p.height + 1, "parent of " << pos << " is " << p.parent << ", not " << i.GetParent().GetPosition()); REQUIRE_MSG(i.GetSibling().GetPosition() == p.sibling && i.GetSibling().GetHeight() == p.height, "sibling of " << pos << " is " << p.sibling << ", not " << i.GetSibling().GetPosition());
    if (p.height) { REQUIRE_EQ(i.GetLeftChild().GetPosition(), p.left); REQUIRE_EQ(i.GetRightChild().GetPosition(), p.right); REQUIRE_EQ(i.GetLeftChild().GetHeight(), p.height - 1); REQUIRE_EQ(i.GetRightChild().GetHeight(), p.height - 1); }
    else { REQUIRE_EQ(i.GetLeafIndex(), p.leaf); LeafIndex l = LeafIndex::AtPos(pos); REQUIRE_EQ(l.Get(), p.leaf); REQUIRE_EQ(l.GetPosition(), pos); LeafIndex m = LeafIndex::At(p.leaf); REQUIRE_MSG(m.GetPosition() == pos, "leaf " << p.leaf << " is at " << pos << ", not " << m.GetPosition()); REQUIRE(m == l); LeafIndex nx = l.Next(); REQUIRE_EQ(place(nx.GetPosition()).leaf, p.leaf + 1); REQUIRE_EQ(place(nx.GetPosition()).height, 0u); REQUIRE(nx.Prev() == l); }
    REQUIRE_EQ(i.GetNext().GetHeight(), place(pos + 1).height);
}
// peaks by construction: the trees whose sizes are taken greedily must have strictly falling heights
static std::vector<u64> peaks(u64 size) { std::vector<u64> r; u64 base = 0; unsigned last = 64; for (int h = 62; h >= 0; h--) { u64 t = ((u64)1 << (h + 1)) - 1; if (size - base >= t && (unsigned)h < last) { base += t; r.push_back(base - 1); last = h; } } return base == size ? r : std::vector<u64>(); }
static void arithmetic(Ctx& c) {
    auto& s = c.src; u64 from; switch (s.below(4)) { case 0: from = s.below(3000); break; case 1: from = ((u64)1 << (1 + s.below(61))) - s.below(40); break; case 2: from = s.edgy64() >> 2; break; default: { u64 a = 0; for (int i = 0; i < 6; i++) a += (u64)1 << s.below(61); from = a - s.below(8); } }
    from &= ((u64)1 << 62) - 1; c.log << "positions from " << from; for (u64 p = from; p < from + 40; p++) { checkIndex(p); auto g = MMRUtil::GetPeakIndices(p); REQUIRE_MSG(g == peaks(p), "peaks of size " << p << " are wrong"); } c.nontrivial(from > 0);
    if (from < 3000) { Naive n; u64 want = 1 + s.below(300); for (u64 i = 0; i < want; i++) n.add({ (uint8_t)i }); std::vector<u64> pk; for (auto& x : n.peaks) pk.push_back(x.first); REQUIRE(MMRUtil::GetPeakIndices(n.size()) == pk); REQUIRE_EQ(LeafIndex::At(want).GetPosition(), n.size()); }
}
// ---- the file below them
template <size_t N> static void file(Ctx& c) {
    auto& s = c.src; std::string p = c.scratch() + "/f.bin"; std::vector<Bytes> work, saved; auto f = DataFile<N>::Load(fs::path(p)); size_t steps = 5 + s.size(40); bool rew = false, both = false;
    auto check = [&](const char* when) { REQUIRE_MSG(f->GetSize() == work.size(), when << ": size " << f->GetSize() << ", not " << work.size()); for (size_t i = 0; i < work.size(); i++) REQUIRE_MSG(f->GetDataAt(i) == work[i], when << ": record " << i << " of " << work.size() << " differs"); };
    for (size_t q = 0; q < steps; q++) { switch (s.weighted({ 8, 4, 3, 2, 2 })) {
        case 0: { size_t n = 1 + s.size(12); c.log << "+" << n << " "; for (size_t i = 0; i < n; i++) { auto b = s.bytes(N); f->AddData(b); work.push_back(b); } break; }
        case 1: { size_t n = s.chance(1, 8) ? work.size() : s.chance(1, 2) && saved.size() <= work.size() ? saved.size() - s.below(std::min<size_t>(saved.size() + 1, 3)) : s.below(work.size() + 1); c.log << "rewind " << n << " "; f->Rewind(n); work.resize(n); rew = true; break; }
        case 2: c.log << "commit "; f->Commit(); saved = work; both |= rew; break;
        case 3: c.log << "rollback "; f->Rollback(); work = saved; break;
        case 4: c.log << "reopen "; f.reset(); f = DataFile<N>::Load(fs::path(p)); work = saved; break; } check("after a step"); }
    c.nontrivial(both);
}
// ---- header range
static void headers(Ctx& c) {
    auto& s = c.src; auto path = fs::path(c.scratch() + "/h.bin"); auto open = [&] { std::shared_ptr<IHeaderMMR> m = HeaderMMR::Load(path); return std::make_shared<Locked<IHeaderMMR>>(m); }; auto L = open(); std::vector<Bytes> work, saved; size_t sessions = 1 + s.size(8); bool rew = false, un = false;
    auto naive = [&](const std::vector<Bytes>& v, size_t n) { Naive m; for (size_t i = 0; i < n; i++) m.add(v[i]); return m; };
    auto check = [&](const IHeaderMMR& m, const std::vector<Bytes>& v) { for (int i = 0; i < 3 && !v.empty(); i++) { u64 h = i == 0 ? v.size() - 1 : s.below(v.size()); REQUIRE_MSG(m.Root(h) == H(naive(v, h + 1).root()), "root at height " << h << " of " << v.size() << " differs"); } };
    for (size_t q = 0; q < sessions; q++) { work = saved; bool commit = s.chance(2, 3), inner = false; {
        auto w = L->BatchWrite(); size_t ops = s.size(8); for (size_t o = 0; o < ops; o++) {
            if (s.chance(3, 4)) { size_t n = 1 + s.size(20); c.log << "+" << n << " "; for (size_t i = 0; i < n; i++) { auto x = gen::headerFields(s); x.height = work.size(); auto hd = x.make(); Serializer ser; hd.GetProofOfWork().SerializeCycle(ser); w->AddHeader(hd); work.push_back(ser.GetBytes()); } }
            else if (s.chance(1, 6)) { c.log << "commit "; w->Commit(); saved = work; } else if (s.chance(1, 8)) { c.log << "rollback "; w->Rollback(); work = saved; }
            else { u64 n = s.below(work.size() + 1); c.log << "rewind " << n << " "; w->Rewind(n); rew |= n < work.size(); work.resize(n); } check(*w, work); }
        if (commit) { w->Commit(); saved = work; } else un = true; c.log << (commit ? "commit; " : "drop; "); }
        if (s.chance(1, 3)) { L.reset(); L = open(); c.log << "reopen; "; } { auto r = L->Read(); check(*r, saved); } }
    c.nontrivial(rew && saved.size() > 3); if (un) c.label("dropped");
}
// ---- kernel range
static void kernels(Ctx& c) {
    auto& s = c.src; auto dir = c.scratch() + "/txhs"; mkdir(dir.c_str(), 0755); mkdir((dir + "/kernel").c_str(), 0755); auto m = KernelMMR::Load(fs::path(dir)); std::vector<TransactionKernel> work{ Global::GetGenesisBlock().GetKernels().front() }, saved; size_t steps = 3 + s.size(25); bool rew = false;
    auto check = [&] { Naive n; std::vector<Bytes> roots; std::vector<u64> sizes; for (auto& k : work) { n.add(k.Serialized()); roots.push_back(n.root()); sizes.push_back(n.size()); } REQUIRE_EQ(m->GetSize(), n.size()); REQUIRE_EQ(m->GetNumKernels(), (u64)work.size()); REQUIRE_MSG(m->Root(m->GetSize()) == H(n.root()), "root of " << work.size() << " kernels differs"); REQUIRE(m->Root(0) == H(Bytes(32, 0)));
        if (work.empty()) return; size_t a = s.below(work.size()); REQUIRE_MSG(m->Root(sizes[a]) == H(roots[a]), "root at " << a + 1 << " of " << work.size() << " kernels differs"); size_t b = s.below(work.size()); auto k = m->GetKernelAt(LeafIndex::At(b)); REQUIRE_MSG(k && *k == work[b] && k->Serialized() == work[b].Serialized() && k->GetHash() == work[b].GetHash(), "kernel " << b << " of " << work.size() << " differs");
        for (int i = 0; i < 3; i++) { u64 p = s.below(n.size()); REQUIRE_MSG(*m->GetHashAt(Index::At(p)) == H(n.nodes[p]), "node " << p << " differs"); } size_t want = s.below(work.size() + 3); auto l = m->GetLastLeafHashes(want); REQUIRE_EQ(l.size(), (want < work.size() ? want : work.size())); for (size_t i = 0; i < l.size(); i++) REQUIRE_MSG(l[i] == H(n.nodes[LeafIndex::At(work.size() - 1 - i).GetPosition()]), "last leaf hash " << i << " differs"); };
    check(); for (size_t q = 0; q < steps; q++) { switch (s.weighted({ 8, 3, 3, 2, 2 })) {
        case 0: { size_t n = 1 + s.size(12); c.log << "+" << n << " "; for (size_t i = 0; i < n; i++) { auto k = gen::kernel(s); m->ApplyKernel(k); work.push_back(k); } break; }
        case 1: { size_t n = s.below(work.size() + 1); if (n == 0) n = std::min<size_t>(1, work.size()); c.log << "rewind " << n << " "; rew |= n < work.size(); m->Rewind(n); work.erase(work.begin() + n, work.end()); break; }
        case 2: c.log << "commit "; m->Commit(); saved = work; break;
        case 3: c.log << "rollback "; m->Rollback(); work = saved; break;
        case 4: c.log << "reopen "; m.reset(); m = KernelMMR::Load(fs::path(dir)); work = saved; if (work.empty()) work.push_back(Global::GetGenesisBlock().GetKernels().front()); break; } check(); }
    c.nontrivial(rew);
}
void pbt::setup(Check& c) {
    c.id = "C16"; c.rule = "non-trivial: a rewind took effect and was followed by a commit (files), a rewind that drops leaves (ranges), a non-zero position (arithmetic)"; c.workerInit = env::workerDefault; c.quickCases = 8000; c.thoroughCases = 200000; c.quickCap = 12; c.quickMin = 0;
    c.parts = { { "arithmetic", 3, arithmetic }, { "file32", 2, file<32> }, { "file5", 1, file<5> }, { "headers", 3, headers }, { "kernels", 3, kernels } };
    c.assumptions = { "positions below 2^62" };
}
