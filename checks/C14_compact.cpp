// C14: compact blocks hydrate to exactly the original block or not at all
#include "chainbase.h"
#include <BlockChain/BlockHydrator.h>
#include <BlockChain/CompactBlockFactory.h>
#include <TxPool/Pool.h>
// ---- short ids from their published definition
static u64 rotl(u64 x, int b) { return x << b | x >> (64 - b); }
static u64 siphash24(u64 k0, u64 k1, const Bytes& m) {
    u64 v[4] = { k0 ^ 0x736f6d6570736575ULL, k1 ^ 0x646f72616e646f6dULL, k0 ^ 0x6c7967656e657261ULL, k1 ^ 0x7465646279746573ULL };
    auto round = [&] { v[0] += v[1]; v[1] = rotl(v[1], 13) ^ v[0]; v[0] = rotl(v[0], 32); v[2] += v[3]; v[3] = rotl(v[3], 16) ^ v[2]; v[0] += v[3]; v[3] = rotl(v[3], 21) ^ v[0]; v[2] += v[1]; v[1] = rotl(v[1], 17) ^ v[2]; v[2] = rotl(v[2], 32); };
    size_t n = m.size(), i = 0; for (; i + 8 <= n; i += 8) { u64 w = 0; for (int j = 7; j >= 0; j--) w = w << 8 | m[i + j]; v[3] ^= w; round(); round(); v[0] ^= w; } u64 w = (u64)(n & 255) << 56; for (size_t j = 0; i + j < n; j++) w |= (u64)m[i + j] << (8 * j); v[3] ^= w; round(); round(); v[0] ^= w; v[2] ^= 255; for (int j = 0; j < 4; j++) round(); return v[0] ^ v[1] ^ v[2] ^ v[3];
}
static Bytes shortId(const Hash& kernel, const Hash& block, u64 nonce) { Bytes b = block.GetData(); for (int i = 7; i >= 0; i--) b.push_back((uint8_t)(nonce >> (8 * i))); auto h = enc::b2b(b); u64 k0 = 0, k1 = 0; for (int i = 7; i >= 0; i--) { k0 = k0 << 8 | h[i]; k1 = k1 << 8 | h[8 + i]; } u64 s = siphash24(k0, k1, kernel.GetData()); Bytes r; for (int i = 0; i < 6; i++) r.push_back((uint8_t)(s >> (8 * i))); return r; }
static void ids(Ctx& c) { Bytes k = c.src.bytes(32), b = c.src.bytes(32); k.resize(32); b.resize(32); u64 n = c.src.edgy64(); auto id = ShortId::Create(CBigInteger<32>(k), CBigInteger<32>(b), n); c.nontrivial(); REQUIRE_MSG(gen::ser(id, EProtocolVersion::V1) == shortId(Hash(k), Hash(b), n), "short id differs from its definition"); }
// a compact block against its block
static void checkCompact(const FullBlock& b, const CompactBlock& cb) {
    REQUIRE(gen::ser(*cb.GetHeader(), EProtocolVersion::V1) == gen::ser(*b.GetHeader(), EProtocolVersion::V1)); std::multiset<Bytes> want, got, wo, go, wk, gk; for (auto& k : b.GetKernels()) if (k.IsCoinbase()) wk.insert(gen::ser(k, EProtocolVersion::V2)); else want.insert(shortId(k.GetHash(), b.GetHash(), cb.GetNonce())); for (auto& o : b.GetOutputs()) if (o.IsCoinbase()) wo.insert(gen::ser(o, EProtocolVersion::V2));
    for (auto& i : cb.GetShortIds()) got.insert(gen::ser(i, EProtocolVersion::V1)); for (auto& k : cb.GetKernels()) gk.insert(gen::ser(k, EProtocolVersion::V2)); for (auto& o : cb.GetOutputs()) go.insert(gen::ser(o, EProtocolVersion::V2)); REQUIRE_MSG(want == got, "short ids: " << got.size() << " for " << want.size() << " kernels, or others"); REQUIRE_MSG(wo == go, "coinbase outputs"); REQUIRE_MSG(wk == gk, "coinbase kernels");
}
// the pool's own search over contents of our choice
struct FakePool : ITransactionPool {
    Pool p; std::vector<TransactionPtr> GetTransactionsByShortId(const Hash& h, const uint64_t n, const std::set<ShortId>& s) const override { return p.GetTransactionsByShortId(h, n, s); }
    EAddTransactionStatus AddTransaction(std::shared_ptr<const IBlockDB>, ITxHashSetConstPtr, TransactionPtr, const EPoolType, const BlockHeader&) override { return EAddTransactionStatus::NOT_ADDED; }
    std::vector<TransactionPtr> FindTransactionsByKernel(const std::set<TransactionKernel>& k) const override { return p.FindTransactionsByKernel(k); } TransactionPtr FindTransactionByKernelHash(const Hash& h) const override { return p.FindTransactionByKernelHash(h); } void ReconcileBlock(std::shared_ptr<const IBlockDB>, ITxHashSetConstPtr, const FullBlock&) override {}
    TransactionPtr GetTransactionToStem(std::shared_ptr<const IBlockDB>, ITxHashSetConstPtr) override { return nullptr; } TransactionPtr GetTransactionToFluff(std::shared_ptr<const IBlockDB>, ITxHashSetConstPtr) override { return nullptr; } std::vector<TransactionPtr> GetExpiredTransactions() const override { return {}; }
};
// sum of transactions with cut-through
static TransactionPtr join(const std::vector<TransactionPtr>& v) { if (v.size() == 1) return v[0]; Transaction a = Tree::aggregate(v); std::set<Commitment> i, o; for (auto& x : a.GetInputs()) i.insert(x.GetCommitment()); for (auto& x : a.GetOutputs()) o.insert(x.GetCommitment()); std::vector<TransactionInput> vi; std::vector<TransactionOutput> vo; for (auto& x : a.GetInputs()) if (!o.count(x.GetCommitment())) vi.push_back(x); for (auto& x : a.GetOutputs()) if (!i.count(x.GetCommitment())) vo.push_back(x); auto k = a.GetKernels(); return std::make_shared<Transaction>(BlindingFactor(a.GetOffset()), TransactionBody(std::move(vi), std::move(vo), std::move(k))); }
static Blk* blockOf(Tree& t, Blk* p, const std::vector<TransactionPtr>& txs, u64 work, const std::vector<fab::Coin>& made) { std::vector<TransactionPtr> v; if (!txs.empty()) v.push_back(join(txs)); return t.addValid(t.seal(p, t.assemble(v, made), work)); }
// independent and chained transactions on top of p
static std::vector<TransactionPtr> someTxs(Src& s, Tree& t, Blk* p, size_t n, bool chained, std::vector<fab::Coin>& made, u64 fee = 1) { auto av = t.spendable(p); std::vector<TransactionPtr> v; std::vector<fab::Coin> tips; for (size_t i = 0; i < n && !av.empty(); i++) { std::vector<fab::Coin> m, from; if (chained && !tips.empty() && s.chance(1, 2)) { size_t j = s.below(tips.size()); if (tips[j].amount > fee + 1000) { from = { tips[j] }; for (size_t q = 0; q < made.size(); q++) if (made[q].commit == from[0].commit) { made.erase(made.begin() + q); break; } tips.erase(tips.begin() + j); } } if (from.empty()) { v.push_back(t.randomTx(s, p, av, m, fee)); } else v.push_back(t.randomTx(s, p, from, m, fee)); for (auto& x : m) { made.push_back(x); tips.push_back(x); } } return v; }
static void hydrate(Ctx& c) {
    auto& s = c.src; CaseTree ct; Tree& t = g->tree; Blk* p = g->spine.back(); std::vector<fab::Coin> made; bool chained = s.chance(1, 3); std::vector<TransactionPtr> txs; try { txs = someTxs(s, t, p, 1 + s.size(5), chained, made); } catch (std::exception&) { return; } if (txs.empty()) return; size_t inBlock = chained ? txs.size() : s.size(txs.size()); std::vector<TransactionPtr> mine(txs.begin(), txs.begin() + (long)inBlock), rest(txs.begin() + (long)inBlock, txs.end());
    { std::set<Commitment> created; for (auto& x : mine) for (auto& o : x->GetOutputs()) created.insert(o.GetCommitment()); std::vector<fab::Coin> m; for (auto& x : made) if (created.count(x.commit)) m.push_back(x); made = m; }
    { std::set<Commitment> seen; for (auto& x : txs) for (auto& o : x->GetOutputs()) if (!seen.insert(o.GetCommitment()).second) return; }
    Blk* b = blockOf(t, p, mine, 1, made); CompactBlock cb = CompactBlockFactory::CreateCompactBlock(b->block); checkCompact(b->block, cb); { auto bytes = gen::ser(cb, EProtocolVersion::V2); ByteBuffer bb(Bytes(bytes), EProtocolVersion::V2); CompactBlock again = CompactBlock::Deserialize(bb); cb = again; }
    // pool contents
    auto pool = std::make_shared<FakePool>(); std::vector<TransactionPtr> in; bool clean = true; size_t present = 0; std::vector<TransactionPtr> left = mine;
    while (!left.empty()) { int k = (int)s.weighted({ 6, 1, 2, 1 }); if (k == 1) { clean = false; left.pop_back(); c.log << " missing"; } else if (k == 2 && left.size() > 1) { size_t n = 2 + s.below(left.size() - 1); std::vector<TransactionPtr> v(left.end() - (long)n, left.end()); left.resize(left.size() - n); in.push_back(join(v)); present += n; c.log << " joined" << n; if (s.chance(1, 5)) { in.push_back(v[0]); clean = false; c.log << "+one of them"; } } else if (k == 3 && !rest.empty()) { in.push_back(join({ left.back(), rest.back() })); clean = false; left.pop_back(); c.log << " joined with another"; if (s.flip()) rest.pop_back(); } else { in.push_back(left.back()); left.pop_back(); present++; c.log << " tx"; if (s.chance(1, 12)) { in.push_back(in.back()); clean = false; c.log << " twice"; } } }
    for (auto& x : rest) if (s.chance(2, 3)) { in.push_back(x); c.log << " other"; } for (size_t i = in.size(); i > 1; i--) std::swap(in[i - 1], in[s.below(i)]); for (auto& x : in) pool->p.AddTransaction(x, EDandelionStatus::FLUFFED);
    c.label(clean ? "pool holds every transaction" : "pool differs"); c.nontrivial(!mine.empty());
    auto r = BlockHydrator(pool).Hydrate(cb); if (clean) REQUIRE_MSG(r != nullptr, "not hydrated although the pool holds all " << mine.size() << " transactions of the block"); if (r) { c.label("hydrated"); REQUIRE_MSG(r->GetHash() == b->hdr->GetHash(), "other header"); REQUIRE_MSG(bodyBytes(*r) == bodyBytes(b->block), "hydrated to a different block: " << r->GetInputs().size() << "/" << r->GetOutputs().size() << "/" << r->GetKernels().size() << " instead of " << b->block.GetInputs().size() << "/" << b->block.GetOutputs().size() << "/" << b->block.GetKernels().size()); }
}
// the same kernel over other outputs
static std::pair<TransactionPtr, TransactionPtr> twins(Tree& t, const fab::Coin& in, EOutputFeatures f, u64 fee, std::vector<fab::Coin>& madeA) {
    auto e = fab::blindNo(0xE0000 + t.serial); auto k = fab::kernel(EKernelFeatures::DEFAULT_KERNEL, Fee::From(fee), 0, e); auto mk = [&](const fab::Coin& o) { auto off = fab::sum({ o.blind }, { in.blind, e }); std::vector<TransactionInput> i{ in.in(f) }; std::vector<TransactionOutput> v{ o.out() }; std::vector<TransactionKernel> ks{ k }; return std::make_shared<Transaction>(std::move(off), TransactionBody(std::move(i), std::move(v), std::move(ks))); };
    fab::Coin a = fab::coin(in.amount - fee, 600000 + t.serial++), b = fab::coin(in.amount - fee, 600000 + t.serial++); madeA.push_back(a); return { mk(a), mk(b) };
}
static void node(Ctx& c) {
    auto& s = c.src; CaseTree ct; Tree& t = g->tree; NodeOn d(c); Node& n = d.n; Blk* tip = g->spine.back(); size_t rounds = 1 + s.size(3);
    for (size_t q = 0; q < rounds; q++) {
        Blk* p = tip; int where = (int)s.weighted({ 4, 2, 1, 1 }); if (where == 1) p = tip->parent; std::vector<fab::Coin> made, mA; const u64 fee = 20000000; auto txs = someTxs(s, t, p, s.size(4), false, made, fee); { std::set<Commitment> seen; bool dup = false; for (auto& x : txs) for (auto& o : x->GetOutputs()) dup |= !seen.insert(o.GetCommitment()).second; if (dup) continue; }
        bool all = true, twin = false; std::vector<TransactionPtr> used; std::set<Commitment> spent; for (auto& x : txs) { for (auto& i : x->GetInputs()) spent.insert(i.GetCommitment()); used.push_back(x); if (s.chance(3, 4) && n.bc->AddTransaction(x, EPoolType::MEMPOOL) == EBlockChainStatus::SUCCESS) c.log << " pooled"; else { all = false; c.log << " unknown"; } }
        if (s.chance(1, 3)) { for (auto& x : t.spendable(p)) if (!spent.count(x.commit) && x.amount > fee * 2) { auto tw = twins(t, x, p->st->utxo.at(x.commit).f, fee, mA); auto r = n.bc->AddTransaction(tw.second, EPoolType::MEMPOOL); used.push_back(tw.first); made.push_back(mA[0]); c.log << " twin" << (int)r; all = false; twin = r == EBlockChainStatus::SUCCESS; break; } }
        u64 lead = tip->work - p->work; Blk* parent = p; if (where == 3) { parent = t.randomBlock(s, p, 1, 0); }   // its parent is not there yet
        Blk* b = blockOf(t, parent, used, where == 1 && s.flip() ? 1 : lead + 1, made); CompactBlock cb = CompactBlockFactory::CreateCompactBlock(b->block); checkCompact(b->block, cb); if (where == 2) n.addHeader(b->hdr); c.log << (where == 1 ? " fork" : where == 3 ? " orphan" : " next"); c.label(twin ? "same kernel, other outputs in the pool" : all ? "all in the pool" : "some missing"); c.nontrivial();
        EBlockChainStatus r; try { r = n.bc->AddCompactBlock(cb); } catch (std::exception& e) { REQUIRE_MSG(false, "compact block: exception " << e.what()); } c.log << " -> " << (int)r << ";";
        if (r == EBlockChainStatus::SUCCESS) { auto k = n.bc->GetBlockByHash(b->hdr->GetHash()); REQUIRE_MSG(k && bodyBytes(*k) == bodyBytes(b->block), "a compact block was accepted as a different block"); }
        else if (all && where != 3) REQUIRE_MSG(r != EBlockChainStatus::TRANSACTIONS_MISSING && r != EBlockChainStatus::INVALID, "not accepted (" << (int)r << ") although the pool holds all of its " << used.size() << " transactions");
        REQUIRE_MSG(r != EBlockChainStatus::INVALID, "a valid compact block is refused as invalid");
        if (where == 3) { int rp = n.add(parent->block); REQUIRE_MSG(rp == (int)EBlockChainStatus::SUCCESS, "parent refused"); n.settle(); }
        if (n.bc->GetBlockByHash(b->hdr->GetHash()) == nullptr || s.flip()) { int rb = n.add(b->block); REQUIRE_MSG(rb == (int)EBlockChainStatus::SUCCESS || rb == (int)EBlockChainStatus::ALREADY_EXISTS, "the full block is refused (" << rb << ") after its compact form was handed over"); n.settle(); }
        auto k = n.bc->GetBlockByHash(b->hdr->GetHash()); REQUIRE_MSG(k && bodyBytes(*k) == bodyBytes(b->block), "the node does not hold the block it was given"); { auto back = n.bc->GetCompactBlockByHash(b->hdr->GetHash()); REQUIRE(back != nullptr); checkCompact(b->block, *back); }
        Blk* best = b->work > tip->work ? b : parent != p && parent->work > tip->work ? parent : tip; tip = best; compare(n, t, tip, false);
    }
}
void pbt::setup(Check& c) {
    c.id = "C14"; c.rule = "non-trivial: a block with transactions was hydrated from a pool, or given to a node as a compact block"; c.workerInit = init; c.quickCases = 4000; c.thoroughCases = 100000; c.quickCap = 25; c.quickMin = 200;
    c.parts = { { "ids", 1, ids }, { "hydrate", 5, hydrate }, { "node", 2, node } };
    c.assumptions = { "network AUTOMATED_TESTING", "the hydrator alone is not expected to tell apart transactions that carry the same kernels; the node is" };
}
