// A node under test, a block tree with full model state per block, and a builder of valid and corrupted blocks.
#pragma once
#include "fab.h"
#include "enc.h"
#include "env.h"
#include <BlockChain/BlockChain.h>
#include <Common/Util/FileUtil.h>
#include <Database/BlockDb.h>
#include <Database/Database.h>
#include <PMMR/HeaderMMR.h>
#include <PMMR/TxHashSet.h>
#include <PMMR/TxHashSetManager.h>
#include <TxPool/TransactionPool.h>
#include <functional>
#include <set>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
namespace chain {
using pbt::Src; typedef uint64_t u64; typedef std::vector<uint8_t> Bytes;
// ---- naive Merkle mountain range: every node kept
struct Naive {
    std::vector<Bytes> nodes; std::vector<std::pair<u64, unsigned>> peaks; u64 leaves = 0;   // peaks: position, height
    static Bytes h(u64 pos, const Bytes& a, const Bytes& b = {}) { Bytes v(8); for (int i = 0; i < 8; i++) v[7 - i] = (uint8_t)(pos >> (8 * i)); v.insert(v.end(), a.begin(), a.end()); v.insert(v.end(), b.begin(), b.end()); return enc::b2b(v); }
    void add(const Bytes& leaf) { u64 p = nodes.size(); nodes.push_back(h(p, leaf)); peaks.push_back({ p, 0 }); leaves++; while (peaks.size() > 1 && peaks[peaks.size() - 2].second == peaks.back().second) { auto r = peaks.back(); peaks.pop_back(); auto l = peaks.back(); peaks.pop_back(); u64 q = nodes.size(); nodes.push_back(h(q, nodes[l.first], nodes[r.first])); peaks.push_back({ q, l.second + 1 }); } }
    u64 size() const { return nodes.size(); }
    Bytes root() const { if (peaks.empty()) return Bytes(32, 0); Bytes r = nodes[peaks.back().first]; for (size_t i = peaks.size() - 1; i-- > 0;) r = h(nodes.size(), nodes[peaks[i].first], r); return r; }
};
inline Hash H(const Bytes& b) { return Hash(b); }
struct Utxo { EOutputFeatures f; u64 height, leaf; bool operator==(const Utxo& o) const { return f == o.f && height == o.height && leaf == o.leaf; } };
typedef std::map<Commitment, Utxo> UtxoSet;
struct State { UtxoSet utxo; Naive headers, outputs, proofs, kernels; std::vector<TransactionOutput> allOut; std::vector<TransactionKernel> allKernels; BlockSums sums{ Commitment(CBigInteger<33>()), Commitment(CBigInteger<33>()) }; };
struct Blk { FullBlock block; BlockHeaderPtr hdr; Blk* parent = nullptr; u64 height = 0, work = 0; std::shared_ptr<State> st; std::map<Commitment, fab::Coin> wallet, spent;   // coins with known keys: unspent; spent (may be created again)
     };
inline Bytes leafOut(const TransactionOutput& o) { gen::Enc e; e.be((uint8_t)o.GetFeatures(), 1).v(o.GetCommitment().GetVec()); return e.b; }
inline Bytes leafProof(const RangeProof& p) { gen::Enc e; e.be(p.GetProofBytes().size(), 8).v(p.GetProofBytes()); return e.b; }
inline Bytes leafKernel(const TransactionKernel& k) { gen::Enc e; enc::encKernel(e, k, EProtocolVersion::V1); return e.b; }
inline void applyHeader(State& s, const BlockHeader& h) { s.headers.add(enc::cycleBits(h.GetProofOfWork())); }
inline void applyBody(State& s, const TransactionBody& b, u64 height) {
    for (auto& i : b.GetInputs()) s.utxo.erase(i.GetCommitment());
    for (auto& o : b.GetOutputs()) { s.utxo[o.GetCommitment()] = Utxo{ o.GetFeatures(), height, s.outputs.leaves }; s.outputs.add(leafOut(o)); s.proofs.add(leafProof(o.GetRangeProof())); s.allOut.push_back(o); }
    for (auto& k : b.GetKernels()) { s.kernels.add(leafKernel(k)); s.allKernels.push_back(k); }
}
inline u64 mmrSize(u64 leaves) { u64 n = 0; for (u64 b = 63; b < 64; b--) if (leaves >> b & 1) n += (2ULL << b) - 1; return n; }
// ---- tree of valid blocks
struct Tree {
    std::vector<std::unique_ptr<Blk>> all; std::map<Hash, Blk*> byHash; u64 serial = 1;   // serial: makes proofs and coins distinct
    Tree() {
        auto g = std::make_unique<Blk>(); g->block = Global::GetGenesisBlock(); g->hdr = g->block.GetHeader(); g->work = g->hdr->GetTotalDifficulty(); g->st = std::make_shared<State>(); applyBody(*g->st, g->block.GetTransactionBody(), 0); applyHeader(*g->st, *g->hdr);
        g->st->sums = BlockSums(Crypto::AddCommitments({ g->block.GetOutputs().front().GetCommitment() }, { Crypto::CommitTransparent(Consensus::REWARD) }), g->block.GetKernels().front().GetCommitment()); add(std::move(g));
    }
    Blk* add(std::unique_ptr<Blk> b) { Blk* p = b.get(); byHash[p->hdr->GetHash()] = p; all.push_back(std::move(b)); return p; }
    Blk* genesis() { return all[0].get(); }
    ProofOfWork proof() { auto n = Global::GetGenesisHeader()->GetProofNonces(); u64 x = serial++; for (int i = 0; i < 4; i++) n[i] = (n[i] ^ (x >> (12 * i) & 0xFFF)); return ProofOfWork(Global::GetGenesisHeader()->GetEdgeBits(), std::move(n)); }
    // header fields of a block with this body on top of p
    gen::HeaderFields fields(Blk* p, const TransactionBody& body, const BlindingFactor& txOffset, u64 work, int64_t dt = 60) {
        State s = *p->st; applyBody(s, body, p->height + 1); BlindingFactor total = Crypto::AddBlindingFactors({ p->hdr->GetTotalKernelOffset(), txOffset }, {});
        return gen::HeaderFields{ 1, p->height + 1, p->hdr->GetTimestamp() + dt, p->hdr->GetHash(), H(p->st->headers.root()), H(s.outputs.root()), H(s.proofs.root()), H(s.kernels.root()), total, s.outputs.size(), s.kernels.size(), p->work + work, 10, serial, proof() };
    }
    // a block in pieces, so that callers can alter any of them before it is sealed
    struct Raw { std::vector<TransactionInput> ins; std::vector<TransactionOutput> outs; std::vector<TransactionKernel> kernels; BlindingFactor offset{ CBigInteger<32>() }; fab::Coin reward = fab::coin(1, 1); std::vector<fab::Coin> made; u64 fees = 0; bool asIs = false; };
    Raw assemble(const std::vector<TransactionPtr>& txs, const std::vector<fab::Coin>& made, int64_t rewardDelta = 0) {
        Raw r; for (auto& t : txs) r.fees += t->CalcFee(); u64 amount = Consensus::REWARD + r.fees + rewardDelta; Transaction cb = fab::coinbase(amount, serial); r.reward = fab::coin(amount, serial); r.made = made;
        std::vector<TransactionPtr> v = txs; v.push_back(std::make_shared<Transaction>(cb)); Transaction agg = aggregate(v); r.ins = agg.GetInputs(); r.outs = agg.GetOutputs(); r.kernels = agg.GetKernels(); r.offset = agg.GetOffset(); return r;
    }
    // header computed from the body; mutate may then alter any header field
    std::unique_ptr<Blk> seal(Blk* p, const Raw& r, u64 work, const std::function<void(gen::HeaderFields&)>& mutate = nullptr) {
        auto i = r.ins; auto o = r.outs; auto k = r.kernels; TransactionBody body = r.asIs ? TransactionBody::NoSort(i, o, k) : TransactionBody(std::move(i), std::move(o), std::move(k)); auto b = std::make_unique<Blk>(); b->parent = p; b->height = p->height + 1; auto f = fields(p, body, r.offset, work); if (mutate) mutate(f);
        b->hdr = std::make_shared<const BlockHeader>(f.make()); b->block = FullBlock(b->hdr, TransactionBody(body)); b->work = f.td; b->st = std::make_shared<State>(*p->st); applyBody(*b->st, body, b->height); applyHeader(*b->st, *b->hdr);
        b->wallet = p->wallet; b->spent = p->spent; for (auto& x : body.GetInputs()) { auto w = b->wallet.find(x.GetCommitment()); if (w != b->wallet.end()) { b->spent.insert(*w); b->wallet.erase(w); } }
        b->wallet.insert({ r.reward.commit, r.reward }); for (auto& c : r.made) { b->wallet.insert({ c.commit, c }); b->spent.erase(c.commit); } return b;
    }
    Blk* addValid(std::unique_ptr<Blk> b) { b->st->sums = sumsOf(*b->st, b->height); return add(std::move(b)); }
    Blk* make(Blk* p, const std::vector<TransactionPtr>& txs, u64 work, const std::vector<fab::Coin>& newCoins = {}) { return addValid(seal(p, assemble(txs, newCoins), work)); }
    static BlockSums sumsOf(const State& s, u64 height) { std::vector<Commitment> u, k; for (auto& x : s.utxo) u.push_back(x.first); for (auto& x : s.allKernels) k.push_back(x.GetExcessCommitment()); return BlockSums(Crypto::AddCommitments(u, { Crypto::CommitTransparent(Consensus::REWARD * (height + 1)) }), Crypto::AddCommitments(k, {})); }
    // concatenation without cut-through (callers never make chains of transactions inside a block)
    static Transaction aggregate(const std::vector<TransactionPtr>& v) { std::vector<TransactionInput> i; std::vector<TransactionOutput> o; std::vector<TransactionKernel> k; std::vector<BlindingFactor> off; for (auto& t : v) { i.insert(i.end(), t->GetInputs().begin(), t->GetInputs().end()); o.insert(o.end(), t->GetOutputs().begin(), t->GetOutputs().end()); k.insert(k.end(), t->GetKernels().begin(), t->GetKernels().end()); if (t->GetOffset() != CBigInteger<32>()) off.push_back(t->GetOffset()); } BlindingFactor total = off.empty() ? BlindingFactor(CBigInteger<32>()) : Crypto::AddBlindingFactors(off, {}); return Transaction(std::move(total), TransactionBody(std::move(i), std::move(o), std::move(k))); }
    // coins of the model wallet that the next block may spend
    std::vector<fab::Coin> spendable(Blk* p) { std::vector<fab::Coin> r; for (auto& x : p->wallet) { auto it = p->st->utxo.find(x.first); if (it == p->st->utxo.end()) continue; auto u = it->second; u64 h = p->height + 1, m = h > 25 ? h - 25 : 0; if (u.f == EOutputFeatures::COINBASE_OUTPUT && u.height > m) continue; r.push_back(x.second); } return r; }
    // a random transaction over the given coins (consumed); made: its new coins
    TransactionPtr randomTx(Src& s, Blk* p, std::vector<fab::Coin>& avail, std::vector<fab::Coin>& made, u64 minFee = 1) {
        size_t ni = 1 + s.size(std::min<size_t>(2, avail.size() - 1)), no = 1 + s.size(3); std::vector<fab::Coin> ins; std::vector<EOutputFeatures> f; u64 total = 0; for (size_t i = 0; i < ni; i++) { size_t j = s.below(avail.size()); ins.push_back(avail[j]); avail.erase(avail.begin() + j); auto it = p->st->utxo.find(ins.back().commit); f.push_back(it == p->st->utxo.end() ? EOutputFeatures::DEFAULT : it->second.f); total += ins.back().amount; }
        u64 fee = minFee + s.below(1000); if (fee >= total) fee = total; total -= fee; std::vector<fab::Coin> outs; for (size_t i = 0; i < no; i++) { u64 a = i + 1 == no ? total : s.below(total / 2 + 1); total -= a; outs.push_back(fab::coin(a, 100000 + serial++)); }
        // sometimes an output that was spent before comes back
        if (!p->spent.empty() && s.chance(1, 4)) { auto it = p->spent.begin(); std::advance(it, s.below(std::min<size_t>(p->spent.size(), 40))); const fab::Coin& old = it->second; bool used = false; for (auto& m : made) used |= m.commit == old.commit; for (auto& i : ins) used |= i.commit == old.commit; if (!used && p->st->utxo.find(old.commit) == p->st->utxo.end() && outs.back().amount > old.amount) { outs.back() = fab::coin(outs.back().amount - old.amount, 100000 + serial++); outs.push_back(old); } }
        fab::KernelSpec k{ EKernelFeatures::DEFAULT_KERNEL, Fee::From(fee), 0 }; if (s.chance(1, 4)) { k.f = EKernelFeatures::HEIGHT_LOCKED; k.lock = s.below(p->height + 2); }
        std::vector<fab::KernelSpec> ks{ k }; if (s.chance(1, 4)) ks.push_back({ EKernelFeatures::DEFAULT_KERNEL, Fee::From(0), 0 }); for (auto& o : outs) made.push_back(o);
        return std::make_shared<Transaction>(fab::tx(ins, f, outs, ks, s.chance(1, 6) ? BlindingFactor(CBigInteger<32>()) : fab::blindNo(70000 + serial), serial));
    }
    Blk* randomBlock(Src& s, Blk* p, u64 work, size_t maxTx = 2) { auto av = spendable(p); std::vector<fab::Coin> made; std::vector<TransactionPtr> txs; size_t n = s.size(maxTx); for (size_t i = 0; i < n && !av.empty(); i++) txs.push_back(randomTx(s, p, av, made)); return make(p, txs, work, made); }
};
// ---- node
struct Node {
    std::shared_ptr<IDatabase> db; std::shared_ptr<Locked<TxHashSetManager>> txhs; ITransactionPool::Ptr pool; std::shared_ptr<Locked<IHeaderMMR>> hmmr; IBlockChain::Ptr bc;
    void open() {
        const Config& c = Global::GetConfig(); for (auto& p : { c.GetChainPath(), c.GetDatabasePath(), c.GetTxHashSetPath(), c.GetTxHashSetPath() / "kernel", c.GetTxHashSetPath() / "output", c.GetTxHashSetPath() / "rangeproof" }) FileUtil::CreateDirectories(p);
        db = DatabaseAPI::OpenDatabase(c); txhs = std::make_shared<Locked<TxHashSetManager>>(std::make_shared<TxHashSetManager>(c)); pool = TxPoolAPI::CreateTransactionPool(c); hmmr = HeaderMMRAPI::OpenHeaderMMR(c); bc = BlockChainAPI::OpenBlockChain(c, db->GetBlockDB(), txhs, pool, hmmr);
    }
    void close() { Global::SetCoinView(nullptr); bc.reset(); hmmr.reset(); pool.reset(); txhs.reset(); db.reset(); }
    ~Node() { close(); }
    // status, or -1 for a refusal by exception
    int add(const FullBlock& b) { try { return (int)bc->AddBlock(b); } catch (std::exception&) { return -1; } }
    int addHeader(const BlockHeaderPtr& h) { try { return (int)bc->AddBlockHeader(h); } catch (std::exception&) { return -1; } }
    void settle() { for (int i = 0; i < 200 && bc->ProcessNextOrphanBlock(); i++) {} }
    Hash tip(EChainType t = EChainType::CONFIRMED) { return bc->GetTipBlockHeader(t)->GetHash(); }
};
// a coin view has to exist whenever blocks are read back; copies of data directories
inline void copyTree(const std::string& from, const std::string& to) {
    mkdir(to.c_str(), 0755); DIR* d = opendir(from.c_str()); if (!d) return; while (auto e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string a = from + "/" + n, b = to + "/" + n; struct stat st; if (stat(a.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { copyTree(a, b); continue; } int i = ::open(a.c_str(), O_RDONLY), o = ::open(b.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); char buf[65536]; ssize_t r; while ((r = ::read(i, buf, sizeof buf)) > 0) if (::write(o, buf, (size_t)r) != r) break; ::close(i); ::close(o); } closedir(d);
}
// ---- every query of a node against the model of its tip
inline Bytes bodyBytes(const FullBlock& b) { return gen::ser(b.GetTransactionBody(), EProtocolVersion::V2); }
inline std::string show(const Hash& h) { return h.ToHex().substr(0, 8); }
// bodies: the height above which the node holds full blocks (0: all of them; otherwise the height of the snapshot it started from)
inline void compare(Node& n, Tree& t, Blk* tip, bool deep, u64 bodies = 0) {
    auto& bc = *n.bc; REQUIRE_EQ(bc.GetHeight(EChainType::CONFIRMED), tip->height); REQUIRE_EQ(bc.GetTotalDifficulty(EChainType::CONFIRMED), tip->work); const State& s = *tip->st;
    { auto w = n.txhs->Read(); auto ths = w->GetTxHashSet(); REQUIRE_MSG(ths != nullptr, "no output set"); REQUIRE_MSG(ths->ValidateRoots(*tip->hdr), "roots of the sets differ from those of the tip header"); REQUIRE_MSG(ths->GetFlushedBlockHeader()->GetHash() == tip->hdr->GetHash(), "the flushed header of the sets is not the tip"); }
    std::vector<Blk*> path; for (Blk* b = tip; b; b = b->parent) path.push_back(b); std::reverse(path.begin(), path.end());
    for (Blk* b : path) { if (!deep && b->height + 3 < tip->height && b->height % 7) continue;
        auto h = bc.GetBlockHeaderByHeight(b->height, EChainType::CONFIRMED); REQUIRE_MSG(h && h->GetHash() == b->hdr->GetHash(), "header at height " << b->height << " is not that of the chain"); auto hh = bc.GetBlockHeaderByHash(b->hdr->GetHash()); REQUIRE(hh && gen::ser((const BlockHeader&)*hh, EProtocolVersion::V1) == gen::ser(*b->hdr, EProtocolVersion::V1));
        if (b->height > bodies) { auto k = bc.GetBlockByHeight(b->height); REQUIRE_MSG(k && k->GetHash() == b->hdr->GetHash() && bodyBytes(*k) == bodyBytes(b->block), "block at height " << b->height << " differs"); auto k2 = bc.GetBlockByHash(b->hdr->GetHash()); REQUIRE(k2 && bodyBytes(*k2) == bodyBytes(b->block)); REQUIRE(bc.HasBlock(b->height, b->hdr->GetHash())); }
        if (b->height < bodies) continue; auto sums = n.db->GetBlockDB()->Read()->GetBlockSums(b->hdr->GetHash()); REQUIRE_MSG(sums && sums->GetOutputSum() == b->st->sums.GetOutputSum() && sums->GetKernelSum() == b->st->sums.GetKernelSum(), "block sums at height " << b->height << " differ from a sum over the whole chain"); }
    REQUIRE(bc.GetBlockHeaderByHeight(tip->height + 1, EChainType::CONFIRMED) == nullptr); REQUIRE(bc.GetBlockByHeight(tip->height + 1) == nullptr);
    // outputs: every unspent one by commitment, every other one absent
    { auto r = n.db->GetBlockDB()->Read(); auto ths = n.txhs->Read()->GetTxHashSet(); std::set<Commitment> seen;
      for (auto& b : t.all) for (auto& o : b->block.GetOutputs()) { auto& c = o.GetCommitment(); if (!seen.insert(c).second) continue; auto u = s.utxo.find(c); auto loc = r->GetOutputPosition(c); if (u == s.utxo.end()) REQUIRE_MSG(loc == nullptr, "output " << c.ToHex().substr(0, 12) << " has a position although it is not unspent on the chain"); else { REQUIRE_MSG(loc != nullptr, "unspent output of height " << u->second.height << " has no position"); REQUIRE_EQ(loc->GetBlockHeight(), u->second.height); REQUIRE_EQ(loc->GetLeafIndex().Get(), u->second.leaf); auto d = ths->GetOutput(*loc); REQUIRE(d.GetIdentifier().GetCommitment() == c && d.GetIdentifier().GetFeatures() == u->second.f && d.GetRangeProof() == s.allOut[u->second.leaf].GetRangeProof()); } }
      // ranges
      u64 from = 0; std::vector<u64> got; for (int i = 0; i < 500; i++) { auto rg = ths->GetOutputsByLeafIndex(r.GetShared(), from, 7); REQUIRE_EQ(rg.GetHighestIndex(), s.outputs.leaves - 1); for (auto& d : rg.GetOutputs()) { got.push_back(d.GetLeafIndex().Get()); } if (rg.GetOutputs().empty()) break; REQUIRE_EQ(rg.GetLastRetrievedIndex(), got.back()); from = got.back() + 1; }
      std::set<u64> want; for (auto& u : s.utxo) want.insert(u.second.leaf); REQUIRE_MSG(std::vector<u64>(want.begin(), want.end()) == got, "output ranges by leaf index list " << got.size() << " outputs, the chain has " << want.size() << " unspent");
      auto lk = ths->GetLastKernelHashes(5); for (size_t i = 0; i < lk.size(); i++) {} }
    if (deep && !bodies) { auto outs = bc.GetOutputsByHeight(0, tip->height); std::map<Commitment, u64> m; for (auto& b : outs) for (auto& d : b.GetOutputs()) m[d.GetIdentifier().GetCommitment()] = b.GetBlockIdentifier().GetHeight(); for (auto& u : s.utxo) if (u.second.height) REQUIRE_MSG(m.count(u.first) && m[u.first] == u.second.height, "unspent output missing from the outputs of its height");
        for (auto& u : s.utxo) { auto h = bc.GetBlockHeaderByCommitment(u.first); REQUIRE_MSG(h && h->GetHeight() == u.second.height, "header by commitment"); if (u.second.height) { auto k = bc.GetBlockByCommitment(u.first); REQUIRE(k && k->GetHeight() == u.second.height); } } }
    // candidate chain contains the header history
    u64 ch = bc.GetHeight(EChainType::CANDIDATE); REQUIRE(ch >= 0); REQUIRE_MSG(bc.GetTotalDifficulty(EChainType::CANDIDATE) >= tip->work, "candidate chain has less work than the confirmed one");
    { Bytes root; auto it = t.byHash.find(n.tip(EChainType::CANDIDATE)); if (it != t.byHash.end()) { auto r = n.hmmr->Read(); REQUIRE_MSG(r->Root(ch) == H(it->second->st->headers.root()), "header range root differs from that of the candidate chain"); } }
}
}
