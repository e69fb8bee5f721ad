// C19: the transaction pool holds only transactions that can be mined together
#include "chainbase.h"
#include "badblock.h"
#include <Core/Models/ShortId.h>
#include <Core/Validation/TransactionValidator.h>
#include <TxPool/ValidTransactionFinder.h>
using Txs = std::vector<TransactionPtr>;
// what the next block on tip could take
static bool minable(Blk* tip, const Transaction& x) {
    const State& s = *tip->st; u64 h = tip->height + 1, m = h > 25 ? h - 25 : 0; std::set<Commitment> in;
    for (auto& i : x.GetInputs()) { auto it = s.utxo.find(i.GetCommitment()); if (it == s.utxo.end() || (it->second.f == EOutputFeatures::COINBASE_OUTPUT && it->second.height > m)) return false; }
    for (auto& o : x.GetOutputs()) if (s.utxo.count(o.GetCommitment())) return false; return true;
}
static bool clash(const Transaction& a, const Transaction& b) {
    for (auto& x : a.GetInputs()) for (auto& y : b.GetInputs()) if (x.GetCommitment() == y.GetCommitment()) return true; for (auto& x : a.GetOutputs()) for (auto& y : b.GetOutputs()) if (x.GetCommitment() == y.GetCommitment()) return true; for (auto& x : a.GetKernels()) for (auto& y : b.GetKernels()) if (x.GetExcessCommitment() == y.GetExcessCommitment() && x.GetHash() == y.GetHash()) return true; return false;
}
static u64 minFee(const Transaction& x) { return 500000 * (x.GetInputs().size() * 1 + x.GetOutputs().size() * 21 + x.GetKernels().size() * 3); }
static u64 minFeeV4(const Transaction& x) { int64_t w = 4 * (int64_t)x.GetOutputs().size() + (int64_t)x.GetKernels().size() - (int64_t)x.GetInputs().size(); return 500000 * (u64)std::max<int64_t>(w, 1); }
static void history(Ctx& c) {
    auto& s = c.src; CaseTree ct; Tree& t = g->tree; NodeOn d(c); Node& n = d.n; Blk* tip = g->spine.back(); Txs M, S, ever; std::set<TransactionKernel> kernels; std::set<Hash> broken; size_t steps = 4 + s.size(14); bool any = false; const u64 base = Global::GetConfig().GetFeeBase();
    auto inPool = [&](const Txs& v, const Transaction& x) { for (auto& y : v) if (y->GetHash() == x.GetHash()) return true; return false; };
    auto clashes = [&](const Txs& v, const Transaction& x) { for (auto& y : v) if (clash(*y, x)) return true; return false; };
    auto check = [&](const char* when) {
        std::set<Hash> want, got; for (auto& x : M) want.insert(x->GetHash()); auto f = n.pool->FindTransactionsByKernel(kernels); for (auto& x : f) got.insert(x->GetHash()); REQUIRE_MSG(f.size() == got.size(), when << ": a transaction is in the pool twice");
        for (auto& x : ever) REQUIRE_MSG(want.count(x->GetHash()) == got.count(x->GetHash()), when << ": transaction " << show(x->GetHash()) << (want.count(x->GetHash()) ? " is missing from the pool" : " is still in the pool")); REQUIRE(want == got);
        std::set<Commitment> ins, outs; for (auto& x : f) { REQUIRE_MSG(minable(tip, *x), when << ": the pool holds a transaction that the next block cannot take"); for (auto& i : x->GetInputs()) REQUIRE_MSG(ins.insert(i.GetCommitment()).second, when << ": two pooled transactions spend one output"); for (auto& o : x->GetOutputs()) REQUIRE_MSG(outs.insert(o.GetCommitment()).second, when << ": two pooled transactions create one output"); for (auto& k : x->GetKernels()) { auto y = n.pool->FindTransactionByKernelHash(k.GetHash()); REQUIRE_MSG(y && y->GetHash() == x->GetHash(), when << ": not found by kernel hash"); } }
        if (!f.empty()) { auto& x = f[s.below(f.size())]; auto& k = x->GetKernels()[s.below(x->GetKernels().size())]; u64 nonce = s.edgy64(); Hash bh = tip->hdr->GetHash(); auto r = n.pool->GetTransactionsByShortId(bh, nonce, { ShortId::Create(k.GetHash(), bh, nonce) }); REQUIRE_MSG(r.size() == 1 && r[0]->GetHash() == x->GetHash(), when << ": not found by short id"); }
        // all of them together
        if (f.size() > 1 && s.chance(1, 3)) { auto ths = n.txhs->Read()->GetTxHashSet(); auto r = n.db->GetBlockDB()->Read(); auto v = ValidTransactionFinder::FindValidTransactions(r.GetShared(), ths, f, nullptr); REQUIRE_MSG(v.size() == f.size(), when << ": only " << v.size() << " of " << f.size() << " pooled transactions are valid together"); auto agg = TransactionUtil::Aggregate(f); REQUIRE(agg->GetKernels().size() >= f.size()); }
    };
    auto reconcile = [&](const std::vector<Blk*>& blocks) { auto one = [&](Txs& v, bool stem) { Txs keep; for (auto& x : v) { bool drop = !minable(tip, *x); for (auto b : blocks) { for (auto& k : x->GetKernels()) for (auto& bk : b->block.GetKernels()) drop |= k.GetHash() == bk.GetHash(); for (auto& i : x->GetInputs()) for (auto& bi : b->block.GetInputs()) drop |= i.GetCommitment() == bi.GetCommitment() && i.GetFeatures() == bi.GetFeatures(); } if (stem && !drop) drop = clashes(M, *x); if (!drop) keep.push_back(x); } v = keep; }; one(M, false); one(S, true); };
    for (size_t q = 0; q < steps; q++) {
        int what = (int)s.weighted({ 10, 3, 2 }); c.log << (q ? "; " : "");
        if (what == 0) {
            auto all = t.spendable(tip), av = all; { std::set<Commitment> used; for (auto& x : M) for (auto& i : x->GetInputs()) used.insert(i.GetCommitment()); for (auto& x : S) for (auto& i : x->GetInputs()) used.insert(i.GetCommitment()); std::vector<fab::Coin> f; for (auto& x : av) if (!used.count(x.commit)) f.push_back(x); av = f; }
            if (all.empty()) continue; int kind = (int)s.weighted({ 6, 2, 3, 2, 2, 3, 2, 2, 2, 2, 1 }); static const char* nm[] = { "new", "again", "double spend", "output of a pooled one", "existing output", "fee at the limit", "locked", "immature", "unknown input", "same kernel", "invalid sum" };
            TransactionPtr x; auto feat = [&](const fab::Coin& y) { return tip->st->utxo.at(y.commit).f; }; auto pick = [&](std::vector<fab::Coin>& v) { return v[s.below(v.size())]; }; auto fresh = [&](u64 a) { return fab::coin(a, 800000 + t.serial++); }; bool invalid = false; u64 lock = 0; std::vector<fab::Coin> made;
            if (kind == 0 && !av.empty()) x = t.randomTx(s, tip, av, made, 60000000);
            else if (kind == 1 && !ever.empty()) x = ever[s.below(ever.size())];
            else if (kind == 2 && !M.empty()) { auto& y = s.chance(2, 3) || S.empty() ? M : S; auto& z = *y[s.below(y.size())]; auto cm = z.GetInputs()[s.below(z.GetInputs().size())].GetCommitment(); for (auto& k : all) if (k.commit == cm && k.amount > 90000000) x = bad::simpleTx(t, { k }, { feat(k) }, { fresh(k.amount - 60000000) }, 60000000); }
            else if (kind == 3 && !M.empty() && !av.empty()) { auto& z = *M[s.below(M.size())]; fab::Coin k = pick(av); for (auto& o : z.GetOutputs()) { auto f = bad::known().find(o.GetCommitment()); if (f != bad::known().end() && f->second.amount + 90000000 < k.amount) { x = bad::simpleTx(t, { k }, { feat(k) }, { f->second, fresh(k.amount - f->second.amount - 60000000) }, 60000000); break; } } }
            else if (kind == 4 && !av.empty()) { fab::Coin k = pick(av); std::vector<fab::Coin> v; for (auto& w : tip->wallet) if (w.second.amount + 90000000 < k.amount && w.first != k.commit) v.push_back(w.second); if (!v.empty()) { auto e = pick(v); x = bad::simpleTx(t, { k }, { feat(k) }, { e, fresh(k.amount - e.amount - 60000000) }, 60000000); } }
            else if (kind == 5 && !av.empty()) { fab::Coin k = pick(av); size_t no = 1 + s.below(3); u64 w = Consensus::GetHeaderVersion(Global::GetEnv(), tip->height + 1) < 5 ? (u64)std::max<int64_t>(4 * (int64_t)no + 1 - 1, 1) : no * 21 + 3 + 1; u64 fee = base * w - (s.flip() ? 1 : 0) + s.below(2) * s.below(3); if (k.amount > fee + no * 10) { std::vector<fab::Coin> o; u64 left = k.amount - fee; for (size_t i = 0; i + 1 < no; i++) { o.push_back(fresh(left / 4)); left -= left / 4; } o.push_back(fresh(left)); x = bad::simpleTx(t, { k }, { feat(k) }, o, fee); } }
            else if (kind == 6 && !av.empty()) { fab::Coin k = pick(av); lock = tip->height + s.below(4); if (k.amount > 90000000) x = bad::simpleTx(t, { k }, { feat(k) }, { fresh(k.amount - 60000000) }, 60000000, EKernelFeatures::HEIGHT_LOCKED, lock); }
            else if (kind == 7) { std::vector<fab::Coin> v; for (auto& w : tip->wallet) { auto it = tip->st->utxo.find(w.first); if (it != tip->st->utxo.end() && it->second.f == EOutputFeatures::COINBASE_OUTPUT && it->second.height + 25 > tip->height && it->second.height + 25 < tip->height + 4) v.push_back(w.second); } if (!v.empty()) { auto k = pick(v); x = bad::simpleTx(t, { k }, { feat(k) }, { fresh(k.amount - 60000000) }, 60000000); } }
            else if (kind == 8) { auto k = fresh(100000000 + s.below(100)); x = bad::simpleTx(t, { k }, {}, { fresh(k.amount - 60000000) }, 60000000); }
            else if (kind == 10 && !av.empty()) { fab::Coin k = pick(av); if (k.amount > 90000000) { x = bad::simpleTx(t, { k }, { feat(k) }, { fresh(k.amount - 60000000 + 1) }, 60000000); invalid = true; } }
            if (!x) { c.log << "-"; continue; }
            if (invalid) broken.insert(x->GetHash()); invalid = broken.count(x->GetHash()) > 0; for (auto& m : made) bad::known().insert({ m.commit, m });
            for (auto& k : x->GetKernels()) { kernels.insert(k); lock = std::max(lock, k.GetFeatures() == EKernelFeatures::HEIGHT_LOCKED ? k.GetLockHeight() : 0); } if (!inPool(ever, *x)) ever.push_back(x);
            auto to = s.chance(2, 3) ? EPoolType::MEMPOOL : EPoolType::STEMPOOL; u64 fees = 0; for (auto& k : x->GetKernels()) fees += k.GetFee(); u64 need = Consensus::GetHeaderVersion(Global::GetEnv(), tip->height + 1) < 5 ? minFeeV4(*x) : minFee(*x);
            bool ok = !invalid && fees >= need && lock <= tip->height + 1 && minable(tip, *x) && !clashes(M, *x) && (to == EPoolType::MEMPOOL || !clashes(S, *x)); if (kind != 1) for (auto& k : x->GetKernels()) if (k.GetFeatures() == EKernelFeatures::HEIGHT_LOCKED && k.GetLockHeight() > tip->height + 1) ok = false;
            EBlockChainStatus r; r = n.bc->AddTransaction(x, to); c.log << nm[kind] << (to == EPoolType::MEMPOOL ? "" : " (stem)") << (r == EBlockChainStatus::SUCCESS ? " +" : " -"); c.label(std::string(nm[kind]) + (ok ? " ok" : " refused")); any |= !M.empty();
            std::string why; if (ok && r != EBlockChainStatus::SUCCESS) { try { TransactionValidator().Validate(*x, tip->height + 1); } catch (std::exception& e) { why = e.what(); } }
            REQUIRE_MSG(ok == (r == EBlockChainStatus::SUCCESS), "transaction (" << nm[kind] << ") " << (ok ? "refused" : "accepted") << " by the " << (to == EPoolType::MEMPOOL ? "pool" : "stem pool") << ": fee " << fees << " of " << need << ", status " << (int)r << " " << why << ", outputs " << x->GetOutputs().size() << ", lock " << lock << " at height " << tip->height);
            if (r == EBlockChainStatus::INVALID) REQUIRE_MSG(invalid, "a valid transaction is reported as invalid, which bans its sender");
            if (ok) { if (to == EPoolType::MEMPOOL) { M.push_back(x); Txs k; for (auto& y : S) if (y->GetHash() != x->GetHash()) k.push_back(y); S = k; } else S.push_back(x); } check("after an addition");
        } else {
            Blk* p = tip; size_t depth = 0; if (what == 2) { depth = 1 + s.size(3); for (size_t i = 0; i < depth && p->height > 27; i++) p = p->parent; } size_t len = what == 2 ? 1 + s.size(3) : 1; std::vector<Blk*> bs; Txs taken; c.log << (what == 2 ? "fork" : "block");
            for (size_t i = 0; i < len; i++) { Blk* on = bs.empty() ? p : bs.back(); Txs txs; std::vector<fab::Coin> made; std::set<Commitment> used; auto add = [&](const TransactionPtr& x) { if (!minable(on, *x)) return; for (auto& y : txs) if (clash(*x, *y)) return; for (auto& k : x->GetKernels()) if (k.GetFeatures() == EKernelFeatures::HEIGHT_LOCKED && k.GetLockHeight() > on->height + 1) return; txs.push_back(x); }; for (auto& x : M) if (s.chance(1, 3)) { add(x); c.log << " mines"; } for (auto& x : S) if (s.chance(1, 4)) add(x);
                auto av = t.spendable(on); if (!av.empty() && s.chance(1, 2)) { Txs& src = M; if (!src.empty() && s.flip()) { auto cm = src[s.below(src.size())]->GetInputs()[0].GetCommitment(); for (auto& k : av) if (k.commit == cm) { add(bad::simpleTx(t, { k }, { on->st->utxo.at(k.commit).f }, { fab::coin(k.amount - 7, 800000 + t.serial++) }, 7)); c.log << " conflicts"; } } else { std::vector<fab::Coin> a2; for (auto& k : av) { bool u = false; for (auto& x : txs) for (auto& ii : x->GetInputs()) u |= ii.GetCommitment() == k.commit; if (!u) a2.push_back(k); } if (!a2.empty()) { auto k = a2[s.below(a2.size())]; auto o = fab::coin(k.amount - 7, 800000 + t.serial++); add(bad::simpleTx(t, { k }, { on->st->utxo.at(k.commit).f }, { o }, 7)); made.push_back(o); } } }
                for (auto& x : txs) for (auto& o : x->GetOutputs()) { auto f = bad::known().find(o.GetCommitment()); if (f != bad::known().end()) made.push_back(f->second); } u64 lead = tip->work > on->work ? tip->work - on->work : 0; Blk* b = t.make(on, txs, i + 1 == len ? lead + 1 + s.below(2) : 1, made); bs.push_back(b); if (b->work > tip->work && i + 1 < len) break; }
            if (bs.back()->work <= tip->work) { c.log << " (light)"; for (auto b : bs) REQUIRE_MSG(n.add(b->block) == (int)EBlockChainStatus::SUCCESS, "valid block refused"); check("after a block that is not on the chain"); continue; }
            for (auto b : bs) REQUIRE_MSG(n.add(b->block) == (int)EBlockChainStatus::SUCCESS, "valid block refused"); n.settle(); REQUIRE_MSG(n.tip() == bs.back()->hdr->GetHash(), "the heavier chain is not followed"); tip = bs.back(); c.label(what == 2 ? "reorganisation" : "block"); any |= !M.empty(); reconcile(bs); check(what == 2 ? "after a reorganisation" : "after a block");
        }
    }
    c.nontrivial(any);
}
void pbt::setup(Check& c) {
    c.id = "C19"; c.rule = "non-trivial: a transaction or a block arrived while the pool held transactions"; c.workerInit = init; c.quickCases = 1500; c.thoroughCases = 40000; c.quickCap = 28; c.quickMin = 100;
    c.parts = { { "history", 1, history } };
    c.assumptions = { "network AUTOMATED_TESTING", "pools are far smaller than a block's weight limit", "transactions enter through IBlockChain::AddTransaction" };
}
