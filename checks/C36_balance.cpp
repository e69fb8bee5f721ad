// C36: histories of payments, confirmations, cancellations and reorganisations over real wallets, compared to the chain after every refresh
#include "walletnet.h"
#include <API/Wallet/Owner/Models/SendCriteria.h>
#include <API/Wallet/Owner/Models/ReceiveCriteria.h>
#include <API/Wallet/Owner/Models/FinalizeCriteria.h>
using namespace wn;
// one side of a payment as its wallet should see it
struct Side { size_t who = 0; bool sender = false, exists = false, cancelled = false, confirmed = false; };
struct Pay { uuids::uuid id; Side snd, rcv; Slate sent, reply; bool finalized = false, fuzzy = false; u64 amount = 0, fee = 0; std::vector<Commitment> ins, change; std::optional<Commitment> got; std::optional<Transaction> tx; };
struct World {
    Net n; Src& s; std::vector<Account*> w; std::vector<std::unique_ptr<Pay>> pays; struct Dep { size_t who; u64 amount; Commitment com; bool sure; bool hidden = false; }; std::vector<Dep> deps; std::vector<u64> seenHeight; std::vector<std::set<Commitment>> everOn; std::vector<TransactionOutput> limbo; std::vector<u64> scanned{ 0, 0 }; size_t checks = 0, cancels = 0;
    World(Ctx& c) : n(c, 1000), s(c.src) { w.push_back(&n.add("alice")); w.push_back(&n.add("bob")); seenHeight = { 0, 0 }; everOn.resize(2); n.node->mine({}); std::vector<TransactionOutput> o; for (int i = 0; i < 2; i++) for (size_t k = (i ? 1 : 2) + s.below(2); k--;) o.push_back(deposit(i)); n.node->mine(o); n.node->skip(12); refresh(0); refresh(1); }
    TransactionOutput deposit(size_t who) { u64 a = 1000000 * s.range(50, 3000); auto o = n.fresh(*w[who], a, s.chance(1, 4) ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT); deps.push_back({ who, a, o.GetCommitment(), true }); return o; }
    EWalletTxType expected(const Pay& p, const Side& x) { if (x.sender) return x.cancelled ? EWalletTxType::SENT_CANCELED : x.confirmed ? EWalletTxType::SENT : p.finalized ? EWalletTxType::SENDING_FINALIZED : EWalletTxType::SENDING_STARTED; return x.cancelled ? EWalletTxType::RECEIVED_CANCELED : x.confirmed ? EWalletTxType::RECEIVED : EWalletTxType::RECEIVING_IN_PROGRESS; }
    bool onChain(const Pay& p) { if (!p.tx) return false; for (auto& b : n.node->blocks) for (auto& t : b.txs) if (bytesOf(t) == bytesOf(*p.tx)) return true; return false; }
    // inputs of the sends of this wallet that are neither cancelled nor confirmed
    std::map<Commitment, Pay*> pending(size_t who) { std::map<Commitment, Pay*> m; for (auto& p : pays) if (p->snd.who == who && !p->snd.cancelled && !p->snd.confirmed) for (auto& i : p->ins) m[i] = p.get(); return m; }
    void refresh(size_t who, bool genesis = false) {
        if (n.node->height() < seenHeight[who]) return; n.refresh(*w[who], genesis); seenHeight[who] = n.node->height(); checks++; scanned[who] = genesis ? n.node->leaves.size() - 1 : std::max<u64>(scanned[who], n.node->leaves.size() - 1); if (genesis) for (auto& d : deps) if (d.who == who) d.hidden = false;
        for (auto& p : pays) { bool on = onChain(*p); if (p->snd.who == who && on && !p->snd.cancelled && p->finalized) p->snd.confirmed = true; if (p->rcv.exists && p->rcv.who == who && p->got && n.node->utxo.count(*p->got) && !p->rcv.cancelled) p->rcv.confirmed = true; }
        for (auto& o : n.outputs(*w[who])) if (n.node->utxo.count(o.GetCommitment())) everOn[who].insert(o.GetCommitment());
        audit(who, true); }
    void audit(size_t who, bool fresh) {
        auto outs = n.outputs(*w[who]); auto pend = pending(who); u64 tip = seenHeight[who]; u64 sp = 0, lo = 0, im = 0, aw = 0; bool edge = false; std::set<Commitment> known; const Str& nm = w[who]->name;
        for (auto& o : outs) {
            REQUIRE_MSG(known.insert(o.GetCommitment()).second, "an output is recorded twice"); auto it = n.node->utxo.find(o.GetCommitment()); bool on = it != n.node->utxo.end(); auto st = o.GetStatus(); auto pi = pend.find(o.GetCommitment()); bool fuzzy = pi != pend.end() && pi->second->fuzzy;
            if (fresh && on && !fuzzy) { REQUIRE_MSG(st == (pi != pend.end() ? EOutputStatus::LOCKED : EOutputStatus::SPENDABLE), nm << " has " << show(o) << ", which is on chain at " << it->second.height << (pi != pend.end() ? " and spent by a pending payment" : " and free")); REQUIRE_MSG(o.GetBlockHeight() && *o.GetBlockHeight() == it->second.height, nm << " has " << show(o) << ", which is on chain at " << it->second.height); }
            if (fresh && !on) { REQUIRE_MSG(st == EOutputStatus::SPENT || st == EOutputStatus::NO_CONFIRMATIONS || st == EOutputStatus::CANCELED, nm << " has " << show(o) << ", which is not on chain"); if (st == EOutputStatus::NO_CONFIRMATIONS) REQUIRE_MSG(!everOn[who].count(o.GetCommitment()), nm << " waits for " << show(o)); }
            if (st == EOutputStatus::LOCKED && !fuzzy) REQUIRE_MSG(pi != pend.end(), nm << " has locked " << show(o) << " without a pending payment");
            if (st == EOutputStatus::LOCKED) lo += o.GetAmount(); if (st == EOutputStatus::NO_CONFIRMATIONS) aw += o.GetAmount(); if (st == EOutputStatus::SPENDABLE) { u64 h = *o.GetBlockHeight(); bool mature = o.GetFeatures() == EOutputFeatures::COINBASE_OUTPUT ? tip > h + 25 : tip >= h + 10; if (fresh && o.GetFeatures() == EOutputFeatures::COINBASE_OUTPUT && tip == h + 25) { edge = true; continue; } (mature ? sp : im) += o.GetAmount(); } }
        if (fresh) for (auto& d : deps) if (d.who == who && n.node->utxo.count(d.com) && d.sure) { if (d.hidden && !known.count(d.com)) n.c.known("leaf-index-reused-after-reorg", "an output of the wallet that comes on chain after a reorganisation, at a leaf index it had scanned before, is not found"); REQUIRE_MSG(known.count(d.com), nm << " does not know its output of " << d.amount); }
        if (!edge && fresh) { auto b = n.balance(*w[who]); auto wi = n.wallet(*w[who]); auto sm = wi.Read()->GetWalletSummary(); Json::Value j = sm.ToJSON(); REQUIRE_MSG(b.m_spendable == sp && b.m_locked == lo && b.m_immature == im && b.m_unconfirmed == aw, nm << " reports " << b.m_spendable << " spendable " << b.m_locked << " locked " << b.m_immature << " immature " << b.m_unconfirmed << " awaited instead of " << sp << " " << lo << " " << im << " " << aw); }
        for (auto& p : pays) for (auto* x : { &p->snd, &p->rcv }) if (x->exists && x->who == who && !p->fuzzy) { auto t = record(*p, *x); REQUIRE_MSG(t, "a payment is not recorded"); auto e = expected(*p, *x); REQUIRE_MSG(t->GetType() == e, nm << " records " << show(*t) << " instead of " << WalletTxType::ToString(e)); } }
    std::optional<WalletTx> record(const Pay& p, const Side& x) { for (auto& t : n.txs(*w[x.who])) if (t.GetSlateId() && *t.GetSlateId() == p.id) return t; return std::nullopt; }
    void start() {
        size_t from = s.below(2), to = 1 - from; u64 have = 0; if (n.node->height() < seenHeight[from]) return; refresh(from); for (auto& o : n.outputs(*w[from])) if (o.GetStatus() == EOutputStatus::SPENDABLE) have += o.GetAmount(); if (have < 60000000) return; u64 amount = 1 + s.below(have - 50000000); bool entire = s.chance(1, 6); size_t change = s.pick<size_t>({ 1, 0, 2, 3 });
        std::optional<Slate> sl; try { sl = n.mgr->Send(SendCriteria(w[from]->token, entire ? std::nullopt : std::make_optional(amount), s.below(300000), (uint8_t)change, SelectionStrategyDTO(s.pick<ESelectionStrategy>({ ESelectionStrategy::SMALLEST, ESelectionStrategy::FEWEST_INPUTS, ESelectionStrategy::ALL }), {}), std::nullopt, std::nullopt)); } catch (const std::exception&) { return; }
        auto p = std::make_unique<Pay>(); p->id = sl->GetId(); p->sent = *sl; p->amount = sl->amount; p->fee = sl->fee.GetFee(); for (auto& i : sl->GetInputs()) { REQUIRE_MSG(n.node->utxo.count(i.GetCommitment()), "an output that is not on chain is spent"); for (auto& q : pays) if (q->snd.who == from && !q->snd.cancelled && !q->snd.confirmed && !q->fuzzy) for (auto& k : q->ins) REQUIRE_MSG(!(k == i.GetCommitment()), "an output spent by a pending payment is offered again"); p->ins.push_back(i.GetCommitment()); } for (auto& o : sl->GetOutputs()) p->change.push_back(o.GetCommitment()); p->snd = { from, true, true, false, false }; p->rcv = { to, false, false, false, false }; n.c.log << "; " << w[from]->name << " sends " << p->amount << " (" << p->ins.size() << " in, " << p->change.size() << " change)"; pays.push_back(std::move(p)); }
    void advance(Pay& p) {
        if (!p.rcv.exists) { SessionToken tk = w[p.rcv.who]->token; Slate in = p.sent; p.reply = n.mgr->Receive(ReceiveCriteria(std::move(tk), std::nullopt, std::move(in), std::nullopt)); p.rcv.exists = true; for (auto& o : p.reply.GetOutputs()) { bool c = false; for (auto& k : p.change) c = c || k == o.GetCommitment(); if (!c) p.got = o.GetCommitment(); } n.c.log << "; " << w[p.rcv.who]->name << " receives"; return; }
        if (p.finalized || p.snd.cancelled) return; if (p.rcv.cancelled && s.chance(3, 4)) return; Slate in = p.reply; bool post = s.chance(3, 4); n.mgr->Finalize(FinalizeCriteria(w[p.snd.who]->token, std::nullopt, std::move(in), post ? std::make_optional(PostMethodDTO(EPostMethod::FLUFF, std::nullopt)) : std::nullopt), nullptr); p.finalized = true; auto t = record(p, p.snd); REQUIRE(t && t->GetTransaction()); p.tx = t->GetTransaction(); n.c.log << "; finalized" << (post ? "" : " without posting"); }
    void cancel() {
        if (pays.empty()) return; Pay& p = *pays[s.below(pays.size())]; Side& x = s.flip() ? p.snd : p.rcv; if (!x.exists || p.fuzzy) return; auto t = record(p, x); REQUIRE(t); bool ok = !x.cancelled && !x.confirmed; size_t who = x.who; auto before = n.outputs(*w[who]); Str d0 = dump(n, *w[who]), other = dump(n, *w[1 - who]); bool threw = false; Str err; try { auto g = n.wallet(*w[who]); g.Write()->CancelTx(t->GetId()); } catch (const std::exception& e) { threw = true; err = e.what(); }
        n.c.log << "; " << w[who]->name << " cancels " << (x.sender ? "sending " : "receiving ") << p.amount << (threw ? " - refused" : ""); REQUIRE_MSG(dump(n, *w[1 - who]) == other, "a cancellation changed another wallet"); if (threw) { REQUIRE_MSG(dump(n, *w[who]) == d0, "a refused cancellation changed the wallet"); if (ok) { bool seen = false; for (auto& o : before) if (o.GetWalletTxId() && *o.GetWalletTxId() == t->GetId() && o.GetStatus() == EOutputStatus::SPENDABLE) seen = true; REQUIRE_MSG(seen, "an unconfirmed payment cannot be cancelled: " << err); } return; }
        REQUIRE_MSG(ok, "a payment that is " << (x.cancelled ? "cancelled" : "confirmed") << " is cancelled"); x.cancelled = true; cancels++; std::set<Commitment> in(p.ins.begin(), p.ins.end()); if (!x.sender) in.clear(); auto after = n.outputs(*w[who]); REQUIRE_EQ(after.size(), before.size()); for (size_t i = 0; i < after.size(); i++) { auto& a = before[i]; auto& b = after[i]; REQUIRE(a.GetCommitment() == b.GetCommitment()); bool own = a.GetWalletTxId() && *a.GetWalletTxId() == t->GetId() && !in.count(a.GetCommitment()); auto e = a.GetStatus(); if (in.count(a.GetCommitment())) { if (e == EOutputStatus::LOCKED) e = EOutputStatus::SPENDABLE; else if (b.GetStatus() == EOutputStatus::CANCELED || b.GetStatus() == e) e = b.GetStatus(); } else if (own) e = EOutputStatus::CANCELED; REQUIRE_MSG(b.GetStatus() == e, "a cancellation turned " << show(a) << " into " << show(b)); REQUIRE(a.GetAmount() == b.GetAmount() && a.GetBlockHeight() == b.GetBlockHeight()); }
        audit(who, false); }
    void reorg() {
        size_t k = 1 + s.below(4); if (k + 2 > n.node->blocks.size()) return; u64 h = n.node->height();
        std::vector<std::vector<TransactionOutput>> lost; for (size_t i = n.node->blocks.size() - k; i < n.node->blocks.size(); i++) { std::vector<TransactionOutput> v; for (auto& o : n.node->blocks[i].outs) for (auto& d : deps) if (d.com == o.GetCommitment() && o.GetFeatures() != EOutputFeatures::COINBASE_OUTPUT) v.push_back(o); lost.push_back(v); }
        auto back = n.node->drop(k); for (auto& d : deps) if (!n.node->utxo.count(d.com)) d.sure = false; for (auto& d : deps) d.sure = d.sure && everOn[d.who].count(d.com); for (auto& t : back) if (s.chance(3, 4)) n.node->pool.push_back(t); bool mid = s.flip(); n.c.log << "; reorganisation of " << k << " blocks, " << back.size() << " transactions undone"; size_t extra = k + s.below(3); if (!s.chance(1, 4)) extra += 1; if (n.node->height() + extra < h + 3 && s.chance(4, 5)) { n.node->skip(h - n.node->height()); fuzz(); } for (size_t i = 0; i < extra; i++) { std::vector<TransactionOutput> re; if (!lost.empty()) { if (s.chance(1, 3)) { for (auto& o : lost[0]) limbo.push_back(o); } else for (auto& o : lost[0]) if (!n.node->utxo.count(o.GetCommitment())) re.push_back(o); } if (!lost.empty()) lost.erase(lost.begin()); if (s.flip()) n.node->minePool(re); else n.node->mine(re); if (mid && n.node->height() >= h) fuzz(); } fuzz(); }
    // a payment without change whose inputs left the chain otherwise than through it cannot be told from a confirmed one
    void fuzz() { for (auto& p : pays) if (p->change.empty() && !p->snd.confirmed && !p->snd.cancelled && !onChain(*p)) for (auto& i : p->ins) if (!n.node->utxo.count(i)) p->fuzzy = true; }
    void block() { std::vector<TransactionOutput> o; if (s.chance(1, 4)) o.push_back(deposit(s.below(2))); if (!limbo.empty() && s.flip()) { for (auto& x : limbo) if (!n.node->utxo.count(x.GetCommitment())) o.push_back(x); limbo.clear(); } size_t k = 0; if (s.chance(4, 5)) k = n.node->minePool(o); else n.node->mine(o); for (auto& d : deps) if (n.node->utxo.count(d.com) && n.node->utxo.at(d.com).height == n.node->height() && !everOn[d.who].count(d.com) && n.node->utxo.at(d.com).leaf <= scanned[d.who]) d.hidden = true; fuzz(); n.c.log << "; block with " << k; if (o.size()) n.c.log << " and a deposit"; }
};
static void history(Ctx& c) {
    auto& s = c.src; World k(c); size_t steps = 4 + s.below(20);
    for (size_t i = 0; i < steps; i++) switch (s.below(14)) {
        case 0: case 1: if (k.pays.size() < 5) k.start(); break;
        case 2: case 3: case 4: case 5: if (!k.pays.empty()) k.advance(*k.pays[s.below(k.pays.size())]); break;
        case 6: case 7: k.block(); break;
        case 8: k.n.node->skip(s.pick<u64>({ 1, 9, 10, 12, 25 })); break;
        case 9: case 10: { size_t w = s.below(2); k.refresh(w, s.chance(1, 6)); break; }
        case 11: k.cancel(); break;
        case 12: k.reorg(); if (s.flip()) k.refresh(s.below(2)); break;
        default: k.n.restart(); }
    k.n.node->minePool(); k.fuzz(); k.n.node->skip(1); k.refresh(0); k.refresh(1); c.label(k.cancels ? "with cancellations" : "without cancellations"); size_t done = 0; for (auto& p : k.pays) done += p->snd.confirmed; if (done) c.label("confirmed payments"); c.nontrivial(k.checks > 2 && !k.pays.empty());
}
static void reused(Ctx& c) { Net n(c, 1000); auto& a = n.add("alice"); n.node->mine({}); n.node->mine({ n.node->foreign(EOutputFeatures::DEFAULT), n.node->foreign(EOutputFeatures::DEFAULT) }); n.refresh(a); n.node->drop(1); auto o = n.fresh(a, 5000000); n.node->mine({ o }); n.node->skip(3); n.refresh(a); REQUIRE_MSG(n.outputs(a).size() == 1, "the output is not found"); }
void pbt::setup(Check& c) {
    c.id = "C36"; c.rule = "non-trivial: at least one payment is started and a wallet refreshed after it"; c.workerInit = env::workerDefault; c.quickCases = 2000; c.thoroughCases = 80000; c.quickCap = 30; c.parts = { { "history", 1, history } };
    c.probes = { { "leaf-index-reused-after-reorg", "an output of the wallet that it does not know yet (a mining reward, or one made by another copy of the wallet) is not found when it comes on chain after a reorganisation at a leaf index scanned before", reused } };
    c.assumptions = { "a payment that was once confirmed counts as sent or received even if its block is undone", "a wallet that has seen a higher chain than the node has waits for the node", "a payment without change outputs whose inputs leave the chain otherwise than through it (a reorganisation, a payment canceled after it was posted) is not followed further", "signatures and range proofs through the algebraic stand-in for secp256k1-zkp" };
}
