// C35: slates exchanged between real wallets over a model chain: histories of sends, receipts and finalizations against a model, altered replies, and secrets in slates
#include "walletnet.h"
#include <API/Wallet/Owner/Models/SendCriteria.h>
#include <API/Wallet/Owner/Models/ReceiveCriteria.h>
#include <API/Wallet/Owner/Models/FinalizeCriteria.h>
#include <Wallet/Models/Slatepack/Armor.h>
using namespace wn; typedef unsigned __int128 W;
static Slate viaJson(const Slate& s) { return Slate::FromJSON(s.ToJSON()); }
static Slate viaBytes(const Slate& s) { ByteBuffer b(bytesOf(s)); return Slate::Deserialize(b); }
struct Job { size_t from = 0, to = 0; u64 amount = 0, fee = 0; uuids::uuid id; Slate sent, reply; bool received = false, finalized = false, cancelledFrom = false, cancelledTo = false, proof = false, everReceived = false, misaddressed = false; std::vector<OutputDataEntity> ins, change; std::optional<OutputDataEntity> got; std::optional<Transaction> tx; };
struct World { Net n; Src& s; std::vector<Account*> w; std::vector<std::unique_ptr<Job>> jobs; size_t done = 0, refusedN = 0;
    World(Ctx& c, size_t wallets) : n(c, 1000), s(c.src) { static const char* names[] = { "alice", "bob", "carol" }; for (size_t i = 0; i < wallets; i++) w.push_back(&n.add(names[i])); n.node->mine({}); std::vector<TransactionOutput> outs; for (size_t i = 0; i < wallets; i++) { size_t k = i ? s.below(3) : 1 + s.below(5); while (k--) outs.push_back(n.fresh(*w[i], 1000000 * s.range(100, 5000))); } n.node->mine(outs); n.node->skip(12); for (auto a : w) { n.refresh(*a); if (s.chance(1, 4)) n.mgr->IncreaseAddressKeyChainPathIndex(a->token); } }
    u64 total(size_t i) { u64 t = 0; for (auto& o : n.outputs(*w[i])) if (n.node->utxo.count(o.GetCommitment())) t += o.GetAmount(); return t; }
    std::vector<Str> all() { std::vector<Str> v; for (auto a : w) v.push_back(dump(n, *a)); return v; }
    // the records of everyone but one are as before
    void others(const std::vector<Str>& before, size_t who, const char* what) { for (size_t i = 0; i < w.size(); i++) if (i != who) REQUIRE_MSG(dump(n, *w[i]) == before[i], what << " by " << w[who]->name << " changed the wallet of " << w[i]->name); }
    void noSecrets(const Slate& sl, size_t who, const std::vector<Bytes>& secrets, const char* what) { Bytes b = bytesOf(sl); Str js = sl.ToJSON().toStyledString(); std::transform(js.begin(), js.end(), js.begin(), ::tolower); (void)who; for (auto& k : secrets) { REQUIRE_MSG(std::search(b.begin(), b.end(), k.begin(), k.end()) == b.end() && js.find(hx(k)) == Str::npos, "a secret of " << w[who]->name << " is in the " << what << " slate"); } }
    static Bytes raw(const SecureVector& v) { return Bytes(v.begin(), v.end()); }
    std::vector<Bytes> secretsOf(size_t who, const uuids::uuid* id = nullptr) { std::vector<Bytes> v; v.push_back(raw(w[who]->seed)); for (auto& o : n.outputs(*w[who])) { auto d = o.GetBlindingFactor().GetBytes().GetData(); v.push_back(Bytes(d.begin(), d.end())); } if (id) { auto g = n.wallet(*w[who]); auto r = g.Read(); auto d = r->m_walletDB.Read(); auto e = d->LoadSlateContext(w[who]->seed, *id); if (e) { auto x = e->GetSecretKey().GetBytes().GetData(), y = e->GetSecretNonce().GetBytes().GetData(); v.push_back(Bytes(x.begin(), x.end())); v.push_back(Bytes(y.begin(), y.end())); } } return v; }
    // carries a slate from one wallet to another
    Slate carry(const Slate& x, size_t from, size_t to, std::optional<SlatepackMessage>& msg) {
        switch (s.below(4)) { case 0: return x; case 1: return viaJson(x); case 2: return viaBytes(x);
        default: { bool enc = s.flip(); std::vector<SlatepackAddress> rc; if (enc) rc.push_back(n.wallet(*w[to]).Read()->GetSlatepackAddress()); Str a = Armor::Pack(n.wallet(*w[from]).Read()->GetSlatepackAddress(), x, rc); SlatepackMessage m = n.wallet(*w[to]).Read()->DecryptSlatepack(a); if (enc && s.flip()) { size_t o = 3 - from - to; if (o < w.size() && o != from && o != to) { bool t = false; try { auto p = n.wallet(*w[o]).Read()->DecryptSlatepack(a); } catch (const std::exception&) { t = true; } REQUIRE_MSG(t, "a third party reads the slatepack"); } } msg = m; ByteBuffer b(m.m_payload); return Slate::Deserialize(b); } } }
    Job* start(size_t from, size_t to) {
        auto before = all(); auto j = std::make_unique<Job>(); j->from = from; j->to = to; u64 have = 0; for (auto& o : n.outputs(*w[from])) if (o.GetStatus() == EOutputStatus::SPENDABLE && n.node->height() >= *o.GetBlockHeight() + 10) have += o.GetAmount(); if (have < 60000000) return nullptr; bool entire = s.chance(1, 8); u64 fb = s.below(400000); size_t change = s.below(3); u64 amount = 1 + s.below(have - 50000000);
        auto st = s.pick<ESelectionStrategy>({ ESelectionStrategy::SMALLEST, ESelectionStrategy::FEWEST_INPUTS, ESelectionStrategy::ALL }); std::optional<Str> addr; if (s.chance(1, 20) && w.size() == 3 && from != to) { addr = n.wallet(*w[3 - from - to]).Read()->GetTorAddress()->ToString(); j->proof = true; j->misaddressed = true; } else if (s.chance(1, 3)) { auto t = n.wallet(*w[to]).Read()->GetTorAddress(); addr = t->ToString(); j->proof = true; } else if (s.chance(1, 4)) { addr = n.wallet(*w[to]).Read()->GetSlatepackAddress().ToString(); j->proof = TorAddressParser::Parse(*addr).has_value(); }
        std::optional<Slate> sl; try { sl = n.mgr->Send(SendCriteria(w[from]->token, entire ? std::nullopt : std::make_optional(amount), fb, (uint8_t)change, SelectionStrategyDTO(st, {}), addr, std::nullopt)); } catch (const std::exception& e) { n.c.log << "; send refused (" << e.what() << ")"; REQUIRE_MSG(all() == before, "a refused send changed a wallet"); return nullptr; }
        others(before, from, "a send"); j->sent = *sl; j->id = sl->GetId(); j->amount = sl->amount; j->fee = sl->fee.GetFee(); if (!entire) REQUIRE_EQ(j->amount, amount); std::set<Commitment> in; for (auto& i : sl->GetInputs()) in.insert(i.GetCommitment()); std::set<Commitment> ch; for (auto& o : sl->GetOutputs()) ch.insert(o.GetCommitment()); u64 sum = 0; for (auto& o : n.outputs(*w[from])) { if (in.count(o.GetCommitment())) { j->ins.push_back(o); sum += o.GetAmount(); } if (ch.count(o.GetCommitment())) { j->change.push_back(o); sum -= o.GetAmount(); } } REQUIRE_EQ(sum, j->amount + j->fee); REQUIRE_EQ(j->ins.size(), in.size()); REQUIRE_EQ(j->change.size(), ch.size());
        noSecrets(*sl, from, secretsOf(from, &j->id), "sent"); n.c.log << "; " << w[from]->name << " sends " << j->amount << " fee " << j->fee << " to " << w[to]->name << (j->misaddressed ? " with a proof to someone else" : j->proof ? " with proof" : "") << " (" << j->ins.size() << " in, " << j->change.size() << " change)"; jobs.push_back(std::move(j)); return jobs.back().get(); }
    bool receive(Job& j, bool expect) {
        expect = expect && !j.misaddressed;
        auto before = all(); std::optional<SlatepackMessage> m; Slate in = carry(j.sent, j.from, j.to, m); std::optional<SlatepackAddress> ad = m && !m->m_sender.IsNull() ? std::make_optional(m->m_sender) : std::nullopt; SessionToken tk = w[j.to]->token; std::optional<Slate> r; Str err; try { r = n.mgr->Receive(ReceiveCriteria(std::move(tk), std::move(m), std::move(in), ad)); } catch (const std::exception& e) { err = e.what(); }
        n.c.log << "; " << w[j.to]->name << " receives it" << (r ? "" : " - refused"); if (!r) { REQUIRE_MSG(!expect, "receiving a slate is refused: " << err); REQUIRE_MSG(all() == before, "a refused receipt changed a wallet"); refusedN++; return false; } REQUIRE_MSG(expect, "a slate is received twice"); others(before, j.to, "a receipt");
        std::vector<OutputDataEntity> nw; for (auto& o : n.outputs(*w[j.to])) { bool f = false; for (auto& q : r->GetOutputs()) f = f || q.GetCommitment() == o.GetCommitment(); for (auto& q : j.change) f = f && !(q.GetCommitment() == o.GetCommitment()); if (f) nw.push_back(o); } REQUIRE_EQ(nw.size(), (size_t)1); REQUIRE_MSG(nw[0].GetAmount() == j.amount && nw[0].GetStatus() == EOutputStatus::NO_CONFIRMATIONS, "received " << show(nw[0])); REQUIRE_EQ(r->GetOutputs().size(), j.change.size() + 1); noSecrets(*r, j.to, secretsOf(j.to), "received"); noSecrets(*r, j.from, secretsOf(j.from, &j.id), "received"); j.reply = *r; j.got = nw[0]; j.received = true; j.everReceived = true; return true; }
    std::optional<Slate> finalize(Job& j, size_t who, const Slate& reply, Str& err, bool post) { std::optional<SlatepackMessage> m; Slate in = reply; std::optional<PostMethodDTO> pm; if (post) pm = PostMethodDTO(EPostMethod::FLUFF, std::nullopt); try { return n.mgr->Finalize(FinalizeCriteria(w[who]->token, std::move(m), std::move(in), pm), nullptr); } catch (const std::exception& e) { err = e.what(); } return std::nullopt; }
    std::optional<Transaction> txOf(Job& j) { for (auto& t : n.txs(*w[j.from])) if (t.GetSlateId() && *t.GetSlateId() == j.id && t.GetType() == EWalletTxType::SENDING_FINALIZED) return t.GetTransaction(); return std::nullopt; }
    void agreed(Job& j, const Transaction& t) { try { TransactionValidator().Validate(t, n.node->height() + 1); } catch (const std::exception& e) { REQUIRE_MSG(false, "the transaction is invalid: " << e.what()); } std::set<Commitment> in, out, wi, wo; for (auto& i : t.GetInputs()) in.insert(i.GetCommitment()); for (auto& o : t.GetOutputs()) out.insert(o.GetCommitment()); for (auto& i : j.ins) wi.insert(i.GetCommitment()); for (auto& o : j.change) wo.insert(o.GetCommitment()); wo.insert(j.got->GetCommitment()); REQUIRE_MSG(in == wi, "other inputs than those agreed"); REQUIRE_MSG(out == wo, "other outputs than those agreed"); REQUIRE_EQ(t.GetKernels().size(), (size_t)1); REQUIRE_EQ(t.GetKernels()[0].GetFee(), j.fee); REQUIRE(t.GetKernels()[0].GetFeatures() == EKernelFeatures::DEFAULT_KERNEL); }
    bool complete(Job& j, bool expect, bool post = true) {
        auto before = all(); size_t posted = n.node->posted.size(); std::optional<SlatepackMessage> m; Slate in = carry(j.received ? j.reply : j.sent, j.to, j.from, m); Str err; auto r = finalize(j, j.from, in, err, post); n.c.log << "; " << w[j.from]->name << " finalizes" << (r ? "" : " - refused"); if (!r) { REQUIRE_MSG(!expect, "finalizing the reply is refused: " << err); REQUIRE_MSG(all() == before, "a refused finalization changed a wallet"); REQUIRE_EQ(n.node->posted.size(), posted); refusedN++; return false; } REQUIRE_MSG(expect, "a slate is finalized that cannot be"); others(before, j.from, "a finalization");
        noSecrets(*r, j.from, secretsOf(j.from, &j.id), "finalized"); noSecrets(*r, j.to, secretsOf(j.to), "finalized"); auto t = txOf(j); REQUIRE_MSG(t, "no finalized transaction recorded"); agreed(j, *t); if (post) { REQUIRE_EQ(n.node->posted.size(), posted + 1); REQUIRE(bytesOf(n.node->posted.back().first) == bytesOf(*t) && n.node->posted.back().second == EPoolType::MEMPOOL); } else n.node->pool.push_back(*t); j.tx = t; j.finalized = true; done++; return true; }
};
static Str alter(World& k, Job& j, Slate& r) {
    auto& s = k.s; auto key = [&] { return Crypto::CalculatePublicKey(SecretKey(CBigInteger<32>([&] { Bytes b = uniq(s, 32); b[0] = 0; return b; }().data()))); };
    switch (s.below(16)) {
    case 0: r.amount = s.flip() ? r.amount + 1 : s.edgy64(); return "amount";
    case 1: r.fee = Fee::From(s.below(1 << 30)); return "fee";
    case 2: r.sigs[0].excess = key(); return "excess";
    case 3: r.sigs[0].nonce = key(); return "nonce";
    case 4: if (s.flip()) r.sigs[0].partialOpt.reset(); else { auto b = r.sigs[0].partialOpt->GetSignatureBytes().GetData(); b[s.below(64)] ^= (uint8_t)(1 << s.below(8)); r.sigs[0].partialOpt = CompactSignature(CBigInteger<64>(b.data())); } return "partial signature";
    case 5: r.sigs.clear(); return "no signatures";
    case 6: r.sigs.push_back(s.flip() ? r.sigs[0] : SlateSignature{ key(), key(), std::nullopt }); return "extra signature";
    case 7: { auto b = uniq(s, 32); b[0] = 0; r.offset = s.flip() ? BlindingFactor(CBigInteger<32>(b.data())) : BlindingFactor(); return "offset"; }
    case 8: { size_t n = 0; for (size_t i = 0; i < r.commitments.size(); i++) if (r.commitments[i].commitment == j.got->GetCommitment()) n = i; r.commitments.erase(r.commitments.begin() + n); return "output dropped"; }
    case 9: { for (auto& c : r.commitments) if (c.commitment == j.got->GetCommitment()) { auto o = k.n.owned(*k.w[j.to], KeyChainPath::FromString("m/0/7/" + std::to_string(s.below(1000))), s.flip() ? j.amount : j.amount + 1); c = SlateCommitment{ o.GetFeatures(), o.GetCommitment(), o.GetRangeProof() }; } return "output replaced"; }
    case 10: { for (auto& c : r.commitments) if (c.commitment == j.got->GetCommitment() && c.proofOpt) { Bytes p = c.proofOpt->GetProofBytes(); p[s.below(p.size())] ^= (uint8_t)(1 << s.below(8)); c.proofOpt = RangeProof(std::move(p)); } return "range proof"; }
    case 11: { auto o = k.n.owned(*k.w[j.to], KeyChainPath::FromString("m/0/7/" + std::to_string(s.below(1000))), s.below(3)); r.commitments.push_back(SlateCommitment{ o.GetFeatures(), o.GetCommitment(), s.flip() ? std::make_optional(o.GetRangeProof()) : std::nullopt }); return "extra output or input"; }
    case 12: r.kernelFeatures = s.pick<EKernelFeatures>({ EKernelFeatures::COINBASE_KERNEL, EKernelFeatures::HEIGHT_LOCKED, EKernelFeatures::NO_RECENT_DUPLICATE }); if (s.flip()) { SlateFeatureArgs fa; fa.lockHeightOpt = 5000; r.featureArgsOpt = fa; } return "kernel features";
    case 13: r.slateId = uuids::uuid_system_generator()(); return "id";
    case 14: if (r.proofOpt) { auto p = *r.proofOpt; switch (s.below(4)) { case 0: r.proofOpt.reset(); break; case 1: { ed25519_signature_t g = p.GetReceiverSignature().value(); g.bytes[s.below(31)] ^= 1; p.AddSignature(std::move(g)); r.proofOpt = p; break; } case 2: { ed25519_public_key_t q = p.GetSenderAddress(); q.bytes[3] ^= 1; r.proofOpt = SlatePaymentProof::Create(q, p.GetReceiverAddress()); r.proofOpt->AddSignature(ed25519_signature_t(p.GetReceiverSignature().value())); break; } default: { ed25519_public_key_t a = p.GetSenderAddress(), b = p.GetReceiverAddress(); r.proofOpt = SlatePaymentProof::Create(a, b); } } return "payment proof"; } r.ttl = s.edgy64(); return "ttl";
    default: switch (s.below(4)) { case 0: r.ttl = s.edgy64(); return "ttl"; case 1: r.numParticipants = (uint8_t)s.below(256); return "participants"; case 2: r.blockVersion = (uint16_t)s.below(9); return "block version"; default: r.sigs[0].excess = k.s.flip() ? j.sent.sigs[0].excess : r.sigs[0].excess; r.sigs[0].nonce = j.sent.sigs[0].nonce; return "sender's nonce"; } }
}
static void exchange(Ctx& c) {
    auto& s = c.src; World k(c, 3); Job* j = k.start(0, 1); if (!j) return; auto start = std::vector<u64>{ k.total(0), k.total(1), k.total(2) };
    if (s.chance(1, 3)) { std::optional<SlatepackMessage> m; k.complete(*j, false); } k.receive(*j, true); if (j->misaddressed) { c.label("proof to someone else"); return; } if (s.chance(1, 3)) k.receive(*j, false); if (s.chance(1, 6)) { k.n.restart(); c.log << "; restart"; }
    size_t tries = s.below(4); Str what; bool over = false; auto before = k.all(); for (size_t i = 0; i < tries && !over; i++) { Slate r = j->reply; what = alter(k, *j, r); c.log << "; altered reply: " << what; bool same = bytesOf(r) == bytesOf(j->reply); Str err; auto f = k.finalize(*j, 0, r, err, false); if (f) { auto t = k.txOf(*j); REQUIRE_MSG(t, "nothing recorded"); if (same || what == "amount" || what == "fee" || what == "ttl" || what == "kernel features" || what == "participants" || what == "block version") { k.agreed(*j, *t); over = true; j->tx = t; j->finalized = true; k.n.node->pool.push_back(*t); c.label("harmless alteration: " + what); } else REQUIRE_MSG(false, "a reply with altered " << what << " is finalized"); } else { c.log << " - refused"; REQUIRE_MSG(k.all() == before, "a refused finalization changed a wallet (" << what << ")"); c.label("refused: " + what); } }
    if (s.chance(1, 3)) { size_t who = 1 + s.below(2); Str err; auto b = k.all(); auto f = k.finalize(*j, who, j->reply, err, false); REQUIRE_MSG(!f, k.w[who]->name << " finalizes a slate of someone else"); REQUIRE_MSG(k.all() == b, "a refused finalization changed a wallet"); }
    if (!over) k.complete(*j, true, s.flip()); if (s.chance(1, 2)) k.complete(*j, false); if (s.chance(1, 2)) k.receive(*j, false); if (s.chance(1, 3)) { Slate r = j->reply; what = alter(k, *j, r); Str err; auto b = k.all(); auto f = k.finalize(*j, 0, r, err, false); REQUIRE_MSG(!f, "a finalized slate is finalized again"); REQUIRE_MSG(k.all() == b, "a refused finalization changed a wallet"); }
    auto third = dump(k.n, *k.w[2]); REQUIRE_EQ(k.n.node->minePool(), (size_t)1); for (auto a : k.w) k.n.refresh(*a); REQUIRE_MSG(dump(k.n, *k.w[2]) == third, "the wallet of a bystander changed"); REQUIRE_EQ(k.total(0), start[0] - j->amount - j->fee); REQUIRE_EQ(k.total(1), start[1] + j->amount); REQUIRE_EQ(k.total(2), start[2]);
    for (size_t i = 0; i < 2; i++) { size_t n = 0; for (auto& t : k.n.txs(*k.w[i])) if (t.GetSlateId() && *t.GetSlateId() == j->id) { n++; REQUIRE_MSG(t.GetType() == (i ? EWalletTxType::RECEIVED : j->change.empty() ? t.GetType() : EWalletTxType::SENT), "recorded as " << show(t)); if (i) REQUIRE_EQ(t.GetAmountCredited(), j->amount); else REQUIRE_EQ(t.GetAmountDebited() - t.GetAmountCredited(), j->amount + j->fee); } REQUIRE_EQ(n, (size_t)1); }
    c.label(j->proof ? "exchange with proof" : "exchange"); c.nontrivial(true);
}
static u32 txId(World& k, size_t who, const uuids::uuid& id, bool sending) { u32 r = 0xffffffff; for (auto& t : k.n.txs(*k.w[who])) if (t.GetSlateId() && *t.GetSlateId() == id) { bool snd = t.GetType() == EWalletTxType::SENDING_STARTED || t.GetType() == EWalletTxType::SENDING_FINALIZED; bool rcv = t.GetType() == EWalletTxType::RECEIVING_IN_PROGRESS; if (sending ? snd : rcv) r = t.GetId(); } return r; }
static void history(Ctx& c) {
    auto& s = c.src; World k(c, 3); size_t steps = 3 + s.below(14); std::vector<u64> want{ k.total(0), k.total(1), k.total(2) };
    for (size_t i = 0; i < steps; i++) {
        size_t op = s.below(12); Job* j = k.jobs.empty() ? nullptr : k.jobs[s.below(k.jobs.size())].get();
        if (op < 3 || !j) { if (k.jobs.size() < 5) { size_t f = s.below(3), t = s.chance(1, 5) ? f : (f + 1 + s.below(2)) % 3; k.start(f, t); } }
        else if (op < 6) { bool ok = !j->received && !(j->from == j->to && (j->finalized || j->cancelledFrom)); k.receive(*j, ok); }
        else if (op < 9) { k.complete(*j, j->received && !j->finalized && !j->cancelledFrom, s.flip()); }
        else if (op == 9) { bool snd = s.flip(); u32 id = txId(k, snd ? j->from : j->to, j->id, snd); if (id == 0xffffffff || j->finalized) continue; auto before = k.all(); size_t who = snd ? j->from : j->to; { auto w = k.n.wallet(*k.w[who]); w.Write()->CancelTx(id); } k.others(before, who, "a cancellation"); c.log << "; " << k.w[who]->name << " cancels " << (snd ? "sending" : "receiving"); if (snd) j->cancelledFrom = true; else { j->cancelledTo = true; j->received = false; } c.label("cancelled"); if (!snd && !j->cancelledFrom) { j->cancelledFrom = true; u32 si = txId(k, j->from, j->id, true); { auto w = k.n.wallet(*k.w[j->from]); w.Write()->CancelTx(si); } } if (snd && j->received) {} }
        else if (op == 10) { size_t n = k.n.node->minePool(); if (s.flip()) k.n.node->skip(11); for (auto a : k.w) k.n.refresh(*a); c.log << "; mined " << n; }
        else { k.n.restart(); c.log << "; restart"; }
    }
    k.n.node->minePool(); REQUIRE(k.n.node->pool.empty()); for (auto a : k.w) k.n.refresh(*a); for (auto& j : k.jobs) if (j->finalized) { want[j->from] -= j->amount + j->fee; want[j->to] += j->amount; } for (size_t i = 0; i < 3; i++) REQUIRE_MSG(k.total(i) == want[i], k.w[i]->name << " has " << k.total(i) << " instead of " << want[i]);
    for (auto& j : k.jobs) if (j->finalized) for (auto& o : k.n.outputs(*k.w[j->to])) if (o.GetCommitment() == j->got->GetCommitment()) REQUIRE(o.GetStatus() == EOutputStatus::SPENDABLE || o.GetStatus() == EOutputStatus::LOCKED || o.GetStatus() == EOutputStatus::SPENT);
    c.label("history with " + std::to_string(k.done) + " completed"); c.nontrivial(k.done > 0);
}
void pbt::setup(Check& c) {
    c.id = "C35"; c.rule = "non-trivial: at least one exchange is completed and its transaction mined"; c.workerInit = env::workerDefault; c.quickCases = 1500; c.thoroughCases = 60000; c.quickCap = 30; c.parts = { { "exchange", 5, exchange }, { "history", 3, history } };
    c.assumptions = { "signatures and range proofs through the algebraic stand-in for secp256k1-zkp" };
}
