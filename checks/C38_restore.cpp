// C38: a wallet is used over a model chain, then restored from its seed in an empty database and compared output by output
#include "walletnet.h"
#include <API/Wallet/Owner/Models/SendCriteria.h>
#include <API/Wallet/Owner/Models/ReceiveCriteria.h>
#include <API/Wallet/Owner/Models/FinalizeCriteria.h>
#include <API/Wallet/Owner/Models/RestoreWalletCriteria.h>
#include <API/Wallet/Foreign/Models/BuildCoinbaseCriteria.h>
#include <API/Wallet/Foreign/Models/BuildCoinbaseResponse.h>
#include "Wallet/Keychain/Mnemonic.h"
#include <Core/Validation/KernelSignatureValidator.h>
using namespace wn;
struct Own { Commitment com; u64 amount; Str path; EOutputFeatures feat; };
struct World {
    Net n; Src& s; Account *a, *b; std::map<Commitment, Own> mine; std::set<Str> paths;
    World(Ctx& c, u64 base) : n(c, base), s(c.src) { Bytes seed = uniq(s, s.pick<size_t>({ 32, 16, 20, 24, 28 })), other = seed; a = &n.add("alice", SecureVector(seed.begin(), seed.end())); if (s.flip()) other[s.below(other.size())] ^= (uint8_t)(1 << s.below(8)); else other = uniq(s, 32); b = &n.add("bob", SecureVector(other.begin(), other.end())); n.node->batchLimit = s.chance(1, 2) ? 2 + s.below(6) : 1000000; n.node->mine({}); }
    void use(const KeyChainPath& p, bool given = false) { bool fresh = paths.insert(p.Format()).second; REQUIRE_MSG(fresh || given, "path " << p.Format() << " is used twice"); }
    void add(const Commitment& cm, u64 amount, const KeyChainPath& p, EOutputFeatures f) { mine.insert({ cm, Own{ cm, amount, p.Format(), f } }); }
    void refresh(bool g = false) { n.refresh(*a, g); n.refresh(*b, g); }
    // everything the wallet has on chain, as the model knows it
    std::map<Commitment, Own> live() { std::map<Commitment, Own> m; for (auto& o : mine) if (n.node->utxo.count(o.first)) m.insert(o); return m; }
    void direct() { std::vector<TransactionOutput> outs; size_t k = s.below(5); while (k--) { bool to = s.chance(3, 4); u64 h = n.node->height() + 1; bool orig = h < 262080 + 20160 && s.flip(); Account& w = to ? *a : *b; u64 amt = s.chance(1, 4) ? s.edgy64() >> 8 : 1000000 * s.range(1, 5000); auto f = s.chance(1, 4) ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT; KeyChainPath p = s.chance(1, 5) ? KeyChainPath(std::vector<u32>{ (u32)s.below(3), (u32)s.below(3), (u32)(s.u64() & 0xffffffff) }) : [&] { auto x = n.impl(w); auto q = x.Write()->GetDatabase().BatchWrite(); auto r = q->GetNextChildPath(KeyChainPath::FromString("m/0/0")); q->Commit(); return r; }(); if (to) use(p, true); auto o = n.owned(w, p, amt, f, orig ? EBulletproofType::ORIGINAL : EBulletproofType::ENHANCED); if (n.node->utxo.count(o.GetCommitment()) || mine.count(o.GetCommitment())) continue; bool dup = false; for (auto& q : outs) dup = dup || q.GetCommitment() == o.GetCommitment(); if (dup) continue; if (to) add(o.GetCommitment(), amt, p, f); outs.push_back(o); n.c.log << "; " << w.name << " gets " << amt << (orig ? " (old proof)" : "") << " at " << p.Format(); } n.node->mine(outs); }
    void reward() { u64 fees = s.below(100000000); std::optional<KeyChainPath> given; if (s.chance(1, 4)) given = KeyChainPath::FromString("m/0/1/" + std::to_string(s.below(1000))); auto w = n.wallet(*a); auto r = w.Write()->BuildCoinbase(BuildCoinbaseCriteria(a->token, fees, given)); if (given) REQUIRE(r.GetPath() == *given); use(r.GetPath(), (bool)given); u64 amt = 60000000000ULL + fees; REQUIRE(r.GetKernel().GetFeatures() == EKernelFeatures::COINBASE_KERNEL && r.GetKernel().GetFee() == 0 && r.GetOutput().GetFeatures() == EOutputFeatures::COINBASE_OUTPUT); REQUIRE_MSG(KernelSignatureValidator().Verify(r.GetKernel()), "the kernel of a reward is not signed"); REQUIRE_MSG(Crypto::AddCommitments({ r.GetOutput().GetCommitment() }, { Crypto::CommitTransparent(amt) }) == r.GetKernel().GetCommitment(), "the reward is not " << amt); if (n.node->utxo.count(r.GetOutput().GetCommitment()) || mine.count(r.GetOutput().GetCommitment())) return; add(r.GetOutput().GetCommitment(), amt, r.GetPath(), EOutputFeatures::COINBASE_OUTPUT); n.node->mine({ r.GetOutput() }); n.c.log << "; reward of " << amt; }
    bool pay(bool out) {
        refresh(); Account &f = out ? *a : *b, &t = out ? *b : *a; std::vector<OutputDataEntity> was = n.outputs(*a); std::optional<Slate> sl; size_t change = s.below(3); bool all = s.chance(1, 6); try { sl = n.mgr->Send(SendCriteria(f.token, all ? std::nullopt : std::make_optional(1 + s.below(100000000)), s.below(300), (uint8_t)change, SelectionStrategyDTO(s.flip() ? ESelectionStrategy::SMALLEST : ESelectionStrategy::FEWEST_INPUTS, {}), std::nullopt, std::nullopt)); } catch (const std::exception&) { return false; }
        SessionToken tk = t.token; Slate r = n.mgr->Receive(ReceiveCriteria(std::move(tk), std::nullopt, std::move(*sl), std::nullopt)); n.mgr->Finalize(FinalizeCriteria(f.token, std::nullopt, std::move(r), std::make_optional(PostMethodDTO(EPostMethod::FLUFF, std::nullopt))), nullptr); std::set<Commitment> old; for (auto& o : was) old.insert(o.GetCommitment()); for (auto& o : n.outputs(*a)) if (!old.count(o.GetCommitment()) && o.GetStatus() == EOutputStatus::NO_CONFIRMATIONS) { use(o.GetKeyChainPath()); add(o.GetCommitment(), o.GetAmount(), o.GetKeyChainPath(), EOutputFeatures::DEFAULT); } size_t k = s.chance(5, 6) ? n.node->minePool() : 0; n.c.log << "; " << f.name << " pays" << (k ? "" : " (not mined)"); return true; }
    void step() { switch (s.below(8)) { case 0: case 1: direct(); break; case 2: reward(); break; case 3: pay(true); break; case 4: pay(false); break; case 5: n.node->skip(s.pick<u64>({ 1, 10, 12, 30 })); break; case 6: n.refresh(*a, s.chance(1, 5)); break; default: n.node->mine({}); } }
};
// the wallet's records of what is on chain are exactly those of the model
static void same(Ctx& c, Net& n, Account& w, const std::map<Commitment, Own>& want, const char* what) {
    std::set<Commitment> seen; u64 sum = 0, wanted = 0; for (auto& o : n.outputs(w)) { auto it = want.find(o.GetCommitment()); if (!n.node->utxo.count(o.GetCommitment())) continue; REQUIRE_MSG(it != want.end(), what << " has an output of " << o.GetAmount() << " that is not its own"); REQUIRE_MSG(seen.insert(o.GetCommitment()).second, what << " has an output twice"); auto& e = it->second; REQUIRE_MSG(o.GetAmount() == e.amount && o.GetKeyChainPath().Format() == e.path && o.GetFeatures() == e.feat && (o.GetStatus() == EOutputStatus::SPENDABLE || o.GetStatus() == EOutputStatus::LOCKED) && o.GetBlockHeight() && *o.GetBlockHeight() == n.node->utxo.at(o.GetCommitment()).height, what << " has " << show(o) << " for an output of " << e.amount << " at " << e.path << " height " << n.node->utxo.at(o.GetCommitment()).height); REQUIRE_MSG(Crypto::CommitBlinded(e.amount, o.GetBlindingFactor()) == o.GetCommitment(), what << " has the wrong blinding factor for " << show(o)); sum += e.amount; REQUIRE_MSG(o.GetWalletTxId(), "no transaction is recorded for " << show(o)); }
    for (auto& e : want) { wanted += e.second.amount; REQUIRE_MSG(seen.count(e.first), what << " does not find its output of " << e.second.amount << " at " << e.second.path << " leaf " << n.node->utxo.at(e.first).leaf); } REQUIRE_EQ(sum, wanted); (void)c; }
static void restoring(Ctx& c) {
    auto& s = c.src; u64 base = s.pick<u64>({ 1000, 262080 - 5, 262080 + 10000, 262080 + 20160 - 12, 300000, 2000000 }); World k(c, base); size_t steps = 2 + s.below(10); for (size_t i = 0; i < steps; i++) k.step(); bool words = s.chance(1, 12); k.n.node->mine({});
    auto want = k.live(); k.n.refresh(*k.a, true); same(c, k.n, *k.a, want, "the wallet");
    Net r(c, base, k.n.node, "restored"); Account* w; if (words) { SecureString m = Mnemonic::CreateMnemonic((const unsigned char*)k.a->seed.data(), k.a->seed.size()); SecureString pw("pass"); auto acc = std::make_unique<Account>(); acc->name = "again"; acc->seed = k.a->seed; acc->token = r.mgr->RestoreFromSeed(RestoreWalletCriteria("again", std::move(pw), std::move(m)), nullptr).GetToken(); w = acc.get(); r.accounts.push_back(std::move(acc)); REQUIRE(r.mgr->m_sessionManager.Read()->GetSeed(w->token) == k.a->seed); c.label("restored from words"); } else w = &r.add("again", k.a->seed);
    bool piecewise = s.flip(); r.refresh(*w, !piecewise); same(c, r, *w, want, "the restored wallet"); REQUIRE_EQ(r.outputs(*w).size(), want.size()); size_t n = r.txs(*w).size(); REQUIRE_EQ(n, want.size()); for (auto& t : r.txs(*w)) { bool ok = false; for (auto& o : r.outputs(*w)) if (*o.GetWalletTxId() == t.GetId()) ok = t.GetType() == EWalletTxType::RECEIVED && t.GetAmountCredited() == o.GetAmount() && t.GetConfirmationHeight() == o.GetBlockHeight(); REQUIRE_MSG(ok, "a restored output is recorded as " << show(t)); }
    u64 total = 0, got = 0; for (auto& o : want) total += o.second.amount; auto b = r.balance(*w); got = b.m_spendable + b.m_immature + b.m_locked + b.m_unconfirmed; REQUIRE_EQ(got, total); r.refresh(*w, s.flip()); REQUIRE_EQ(r.outputs(*w).size(), want.size()); REQUIRE_EQ(r.txs(*w).size(), n);
    c.label(Str(want.size() ? "outputs restored" : "nothing to restore")); c.nontrivial(want.size() > 1); c.log << "; restored " << want.size();
    // the restored wallet goes on: new paths, spendable coins
    std::set<Str> again; for (int i = 0; i < 3; i++) { auto x = r.impl(*w); auto q = x.Write()->GetDatabase().BatchWrite(); auto p = q->GetNextChildPath(KeyChainPath::FromString("m/0/0")); q->Commit(); REQUIRE_MSG(again.insert(p.Format()).second && !k.paths.count(p.Format()), "the restored wallet issues the used path " << p.Format()); }
    k.n.node->skip(30); r.refresh(*w); u64 have = 0; for (auto& o : want) have = have + o.second.amount < have ? UINT64_MAX : have + o.second.amount; if (have < 10000000 || have > (1ULL << 60)) return; std::optional<Slate> sl; sl = r.mgr->Send(SendCriteria(w->token, 1000000 + s.below(have / 2), 10, 1, SelectionStrategyDTO(ESelectionStrategy::ALL, {}), std::nullopt, std::nullopt)); REQUIRE_EQ(sl->GetInputs().size(), want.size()); SessionToken tk = k.b->token; Slate rep = k.n.mgr->Receive(ReceiveCriteria(std::move(tk), std::nullopt, std::move(*sl), std::nullopt)); r.mgr->Finalize(FinalizeCriteria(w->token, std::nullopt, std::move(rep), std::make_optional(PostMethodDTO(EPostMethod::FLUFF, std::nullopt))), nullptr); REQUIRE(k.n.node->minable(k.n.node->posted.back().first)); c.label("restored outputs spent");
}
void pbt::setup(Check& c) {
    c.id = "C38"; c.rule = "non-trivial: at least two outputs are restored"; c.workerInit = env::workerDefault; c.quickCases = 1200; c.thoroughCases = 50000; c.quickCap = 30; c.parts = { { "restore", 1, restoring } };
    c.assumptions = { "outputs with proofs of the original kind exist only up to the first hard fork (plus two weeks)", "the last leaf of the chain is unspent (it belongs to the block at the tip)", "signatures and range proofs through the algebraic stand-in for secp256k1-zkp" };
}
