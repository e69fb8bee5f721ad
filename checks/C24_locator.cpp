// C24: header locators always find the common ancestor
#include "chainbase.h"
#include <P2P/Common.h>
#include <P2P/SyncStatus.h>
#include "P2P/BlockLocator.h"
// headers of chains of any length, made when first looked at
struct Headers {
    std::map<std::pair<int, u64>, BlockHeaderPtr> made; gen::HeaderFields f = gen::fieldsOf(*Global::GetGenesisHeader()); u64 serial = 0;
    BlockHeaderPtr get(int chain, u64 height) { auto& p = made[{ chain, height }]; if (p) return p; if (height == 0) return p = Global::GetGenesisHeader(); auto n = Global::GetGenesisHeader()->GetProofNonces(); u64 x = ++serial; for (int i = 0; i < 4; i++) n[i] ^= x >> (12 * i) & 0xFFF; f.height = height; f.pow = ProofOfWork(Global::GetGenesisHeader()->GetEdgeBits(), std::move(n)); return p = std::make_shared<const BlockHeader>(f.make()); }
};
// a node's chain store: a candidate chain (0), and headers of a fork (1) that left it at "fork" and reach "forkTip"; the confirmed chain ends at "confirmed" and may be the fork
struct Fake final : IBlockChain {
    mutable Headers h; u64 tip = 0, fork = 0, forkTip = 0, confirmed = 0; bool confirmedOnFork = false; mutable std::map<Hash, std::pair<int, u64>> byHash; mutable size_t asked = 0;
    BlockHeaderPtr at(int chain, u64 x) const { if (x <= fork) chain = chain == 1 ? 0 : chain; auto p = h.get(chain, x); byHash[p->GetHash()] = { chain, x }; return p; }
    u64 GetHeight(EChainType t) const override { return t == EChainType::CANDIDATE ? tip : confirmed; }
    BlockHeaderPtr GetBlockHeaderByHeight(u64 x, EChainType t) const override { asked++; if (t == EChainType::CANDIDATE) return x <= tip ? at(0, x) : nullptr; return x <= confirmed ? at(confirmedOnFork ? 1 : 0, x) : nullptr; }
    BlockHeaderPtr GetBlockHeaderByHash(const Hash& x) const override { asked++; auto i = byHash.find(x); if (i == byHash.end() || i->second.first > 1) return nullptr; return at(i->second.first, i->second.second); }
    BlockHeaderPtr GetTipBlockHeader(EChainType t) const override { return GetBlockHeaderByHeight(GetHeight(t), t); }
    void UpdateSyncStatus(SyncStatus& s) const override { s.UpdateHeaderStatus(tip, tip); }
    u64 GetTotalDifficulty(EChainType) const override { return 1; } void ResyncChain() override {} EBlockChainStatus AddBlock(const FullBlock&) override { abort(); } EBlockChainStatus AddCompactBlock(const CompactBlock&) override { abort(); } fs::path SnapshotTxHashSet(BlockHeaderPtr) override { abort(); } EBlockChainStatus ProcessTransactionHashSet(const Hash&, const fs::path&, SyncStatus&) override { abort(); }
    EBlockChainStatus AddTransaction(TransactionPtr, const EPoolType) override { abort(); } TransactionPtr GetTransactionByKernelHash(const Hash&) const override { abort(); } EBlockChainStatus AddBlockHeader(BlockHeaderPtr) override { abort(); } EBlockChainStatus AddBlockHeaders(const std::vector<BlockHeaderPtr>&) override { abort(); } BlockHeaderPtr GetBlockHeaderByCommitment(const Commitment&) const override { abort(); }
    std::vector<BlockHeaderPtr> GetBlockHeadersByHash(const std::vector<Hash>& v) const override { std::vector<BlockHeaderPtr> r; for (auto& x : v) if (auto p = GetBlockHeaderByHash(x)) r.push_back(p); return r; } std::unique_ptr<CompactBlock> GetCompactBlockByHash(const Hash&) const override { abort(); } std::unique_ptr<FullBlock> GetBlockByHeight(const uint64_t) const override { abort(); } std::unique_ptr<FullBlock> GetBlockByHash(const Hash&) const override { abort(); } std::unique_ptr<FullBlock> GetBlockByCommitment(const Commitment&) const override { abort(); }
    bool HasBlock(const uint64_t, const Hash&) const override { abort(); } std::vector<BlockWithOutputs> GetOutputsByHeight(const uint64_t, const uint64_t) const override { abort(); } std::vector<std::pair<uint64_t, Hash>> GetBlocksNeeded(const uint64_t) const override { abort(); } bool ProcessNextOrphanBlock() override { abort(); } bool HasOrphan(const Hash&) const override { abort(); }
};
static u64 length(Src& s) { switch (s.below(5)) { case 0: return s.below(40); case 1: { u64 p = 1ULL << s.below(24); u64 d = s.below(7); return p + d > 3 ? p + d - 3 : 0; } case 2: { u64 p = (2ULL << s.below(24)) - 2; return p + s.below(5) - std::min<u64>(p, 2); } case 3: return s.below(3000000); default: return s.below(2000); } }
// the locator of a chain of height n, as heights: what must hold of it
static void checkLocator(const std::vector<u64>& l, u64 n) {
    REQUIRE_MSG(!l.empty() && l.size() <= P2P::MAX_LOCATORS, "a locator of " << l.size() << " entries"); REQUIRE_MSG(l.front() == n, "the newest entry is at " << l.front() << ", the chain at " << n); REQUIRE_MSG(l.back() == 0, "the locator does not end in genesis"); for (size_t i = 1; i < l.size(); i++) REQUIRE_MSG(l[i] < l[i - 1], "entries out of order");
    // exponential: whatever the depth at which a peer left the chain, an entry at most about twice as deep is there
    for (size_t i = 1; i < l.size(); i++) { u64 d = n - l[i - 1] + 1, e = n - l[i]; if (i + 1 == P2P::MAX_LOCATORS) break; REQUIRE_MSG(e <= 2 * d + 2, "no entry between depth " << d << " and " << e); } if (n > 64) { size_t logn = 0; for (u64 x = n; x; x >>= 1) logn++; REQUIRE_MSG(l.size() <= 2 * logn + 4, l.size() << " entries for " << n << " headers"); } }
static void own(Ctx& c) {
    auto& s = c.src; auto f = std::make_shared<Fake>(); f->tip = length(s); f->fork = s.below(f->tip + 1); f->confirmed = s.below(f->tip + 1); f->confirmedOnFork = s.flip(); f->forkTip = f->confirmed; SyncStatus st; f->UpdateSyncStatus(st); c.log << "chain of " << f->tip; BlockLocator bl(f); auto v = bl.GetLocators(st); std::vector<u64> l; for (auto& x : v) { auto i = f->byHash.find(x); REQUIRE_MSG(i != f->byHash.end(), "a hash of no header"); REQUIRE_MSG(i->second.first == 0, "a header of the confirmed chain, which is another one"); l.push_back(i->second.second); } checkLocator(l, f->tip); c.nontrivial(f->tip > 30); if (l.size() == P2P::MAX_LOCATORS) c.label("full locator");
}
static void answer(Ctx& c) {
    auto& s = c.src; auto f = std::make_shared<Fake>(); f->tip = length(s); f->fork = s.chance(1, 2) ? f->tip - std::min<u64>(f->tip, s.below(20)) : s.below(f->tip + 1); f->forkTip = f->fork + s.below(40); f->confirmed = s.chance(1, 2) ? s.below(f->tip + 1) : f->forkTip; f->confirmedOnFork = s.flip();
    // the asking peer: shares our chain, our fork, or a chain unknown here (2) up to some height, or sends anything at all
    std::vector<Hash> loc; std::vector<std::pair<int, u64>> what; auto put = [&](int chain, u64 x) { if (chain < 2) loc.push_back(f->at(chain, x)->GetHash()); else loc.push_back(f->h.get(chain, x)->GetHash()); what.push_back({ chain < 2 && x <= f->fork ? 0 : chain, x }); };
    size_t n = s.below(20); std::vector<std::pair<u64, int>> e; for (size_t i = 0; i < n; i++) { int ch = (int)s.weighted({ 3, 3, 4 }); u64 top = ch == 0 ? f->tip : ch == 1 ? f->forkTip : f->tip + 100; u64 x = s.chance(1, 2) ? top - std::min<u64>(top, s.below(30)) : s.below(top + 1); e.push_back({ x, ch }); } std::sort(e.rbegin(), e.rend()); if (s.chance(3, 4)) e.push_back({ 0, 0 }); for (auto& x : e) { if (x.second == 2 && x.first == 0) x.second = 0; put(x.second, x.first); }
    BlockLocator bl(f); auto r = bl.LocateHeaders(loc); bool any = false; u64 from = 0; bool stale = false; for (auto& w : what) { if (w.first == 0 && w.second <= f->tip) { any = true; from = w.second; break; } if (w.first == 1) stale = true; }
    c.log << "chain of " << f->tip << ", known fork " << f->fork << ".." << f->forkTip << "; locator"; for (auto& w : what) c.log << " " << (w.first == 0 ? "" : w.first == 1 ? "fork:" : "unknown:") << w.second;
    if (!any) { REQUIRE_MSG(r.empty(), "headers for a locator without any entry of the own chain"); c.label("nothing in common"); return; } u64 want = std::min<u64>(f->tip - from, P2P::MAX_BLOCK_HEADERS); REQUIRE_MSG(r.size() == want, r.size() << " headers, expected " << want << " after " << from); for (size_t i = 0; i < r.size(); i++) REQUIRE_MSG(r[i] && r[i]->GetHash() == f->at(0, from + 1 + i)->GetHash(), "header " << i << " is not the one at height " << from + 1 + i); if (stale) c.label("entries of a known fork"); c.nontrivial(want > 0 && what.size() > 2 && what[0] != std::make_pair(0, from));
}
// a real node that has seen forks
static void node(Ctx& c) {
    auto& s = c.src; CaseTree ct; NodeOn on(c); Node& n = on.n; std::vector<Blk*> v; size_t k = 1 + s.size(8); for (size_t i = 0; i < k; i++) { Blk* p = v.empty() || s.chance(1, 4) ? g->spine[LEN - s.size(12)] : s.chance(1, 4) ? v[s.below(v.size())] : v.back(); v.push_back(g->tree.randomBlock(s, p, 1 + s.below(8), 1)); bool full = s.chance(2, 3); if (full) n.add(v.back()->block); else n.addHeader(v.back()->hdr); }
    auto pathTo = [](Blk* b) { std::vector<Blk*> r; for (; b; b = b->parent) r.push_back(b); std::reverse(r.begin(), r.end()); return r; }; Hash t = n.tip(EChainType::CANDIDATE); REQUIRE(g->tree.byHash.count(t)); auto own = pathTo(g->tree.byHash[t]); SyncStatus st; n.bc->UpdateSyncStatus(st); BlockLocator bl(n.bc); auto l = bl.GetLocators(st); std::vector<u64> hs; for (auto& x : l) { REQUIRE(g->tree.byHash.count(x)); Blk* b = g->tree.byHash[x]; REQUIRE_MSG(b->height < own.size() && own[b->height] == b, "an entry that is not on the own chain"); hs.push_back(b->height); } checkLocator(hs, own.size() - 1);
    bool off = false; for (Blk* b : v) { std::vector<Hash> loc; auto p = pathTo(b); size_t h = p.size() - 1, step = 1; while (true) { loc.push_back(p[h]->hdr->GetHash()); if (h == 0) break; h = h > step ? h - step : 0; step *= 2; } u64 from = 0; for (auto& x : loc) { Blk* y = g->tree.byHash[x]; if (y->height < own.size() && own[y->height] == y) { from = y->height; break; } off = true; } auto r = bl.LocateHeaders(loc); c.log << "h" << b->height << " common " << from << "; "; REQUIRE_MSG(r.size() == own.size() - 1 - from, r.size() << " headers, expected " << own.size() - 1 - from << " after " << from); for (size_t i = 0; i < r.size(); i++) REQUIRE_MSG(r[i]->GetHash() == own[from + 1 + i]->hdr->GetHash(), "not the header at height " << from + 1 + i); } c.nontrivial(off); n.close();
}
void pbt::setup(Check& c) {
    c.id = "C24"; c.rule = "non-trivial: a chain of more than 30 headers (own), a locator with several entries whose first is not the common one (answer), an asking peer on a fork (node)"; c.workerInit = init; c.quickCases = 4000; c.thoroughCases = 200000; c.quickCap = 15; c.quickMin = 0; c.parts = { { "own", 4, own }, { "answer", 8, answer }, { "node", 1, node } };
    c.assumptions = { "own and answer use a chain store made by the check, so that heights up to 2^25 are reached", "locators list newer headers first, as the protocol has it" };
}
