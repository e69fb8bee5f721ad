// C34: coin selection, fee estimates and the inputs and fee of a send against a 128-bit model
#include "walletnet.h"
#include "Wallet/SlateBuilder/CoinSelection.h"
#include <Core/Util/FeeUtil.h>
#include <API/Wallet/Owner/Models/SendCriteria.h>
#include <Core/Serialization/Base58.h>
// the armor of a sent slate is not looked at here (C31 does): base 58 takes minutes for 255 outputs
std::string Base58::SimpleEncodeCheck(const std::vector<unsigned char>& v) { return std::to_string(v.size()); }
std::vector<uint8_t> Base58::SimpleDecodeCheck(const std::string&) { throw std::runtime_error("not here"); }
using namespace wn; typedef unsigned __int128 W;
static W need(W feeBase, size_t in, size_t outs) { return feeBase * (W)(in + 21 * outs + 3); }
static Str num(W x) { Str s; do { s.insert(s.begin(), (char)('0' + (int)(x % 10))); x /= 10; } while (x); return s; }
static OutputDataEntity coin(Src& s, u64 amount, size_t k) { Bytes b(33, 0); b[0] = 8; b[31] = (uint8_t)(k >> 8); b[32] = (uint8_t)k; b[1] = (uint8_t)s.below(256); Bytes bl(32, 1); return OutputDataEntity(KeyChainPath::FromString("m/0/0/" + std::to_string(k)), SecretKey(CBigInteger<32>(bl.data())), TransactionOutput(EOutputFeatures::DEFAULT, Commitment(CBigInteger<33>(b.data())), RangeProof(Bytes(20, 1))), amount, EOutputStatus::SPENDABLE, std::nullopt, std::nullopt, std::nullopt, {}); }
static const char* name(ESelectionStrategy e) { return e == ESelectionStrategy::CUSTOM ? "custom" : e == ESelectionStrategy::SMALLEST ? "smallest" : e == ESelectionStrategy::FEWEST_INPUTS ? "fewest" : "all"; }
// amounts around what the coins can pay
static u64 amountNear(Src& s, const std::vector<u64>& v, u64 feeBase, size_t outs) {
    std::vector<u64> a = v; std::sort(a.begin(), a.end()); if (s.flip()) std::reverse(a.begin(), a.end()); size_t k = a.empty() ? 0 : 1 + s.below(a.size()); W t = 0; for (size_t i = 0; i < k; i++) t += a[i]; W n = need(feeBase, k, outs);
    switch (s.below(5)) { case 0: return t >= n ? (u64)(t - n) : (u64)t; case 1: return t >= n ? (u64)(t - n) + 1 : (u64)t; case 2: return s.below((u64)std::min<W>(t + 1, UINT64_MAX)); case 3: return s.edgy64(); default: return UINT64_MAX - s.below((u64)std::min<W>(n + 2, 1000000000)); }
}
static void selecting(Ctx& c) {
    auto& s = c.src; size_t n = s.chance(1, 10) ? s.below(200) : s.below(12); std::vector<OutputDataEntity> coins; std::vector<u64> v; u64 left = UINT64_MAX - 1; bool big = s.chance(1, 4), same = s.chance(1, 5);
    for (size_t i = 0; i < n; i++) { u64 a = same && i ? v[0] : big ? s.edgy64() : s.chance(1, 4) ? s.below(100) : s.below(100000000000ULL); a = std::min(a, left); left -= a; v.push_back(a); coins.push_back(coin(s, a, i)); }
    u64 feeBase = s.chance(1, 6) ? s.edgy64() : s.chance(1, 6) ? 0 : s.below(2000000); size_t outs = s.chance(1, 8) ? 1 + s.below(256) : 1 + s.below(4); u64 amount = amountNear(s, v, feeBase, outs);
    auto st = s.pick<ESelectionStrategy>({ ESelectionStrategy::SMALLEST, ESelectionStrategy::FEWEST_INPUTS, ESelectionStrategy::ALL, ESelectionStrategy::CUSTOM }); std::set<Commitment> want; std::set<Str> wanted; if (st == ESelectionStrategy::CUSTOM) { for (auto& x : coins) if (s.flip()) { want.insert(x.GetCommitment()); wanted.insert(x.GetCommitment().ToHex()); } if (s.chance(1, 6)) want.insert(coin(s, 1, 5000).GetCommitment()); }
    c.log << name(st) << " of " << n << " coins, amount " << amount << " fee base " << feeBase << " outputs " << outs << " coins"; for (auto x : v) c.log << " " << x;
    std::vector<OutputDataEntity> got; bool ok = true; try { got = CoinSelection().SelectCoinsToSpend(coins, amount, feeBase, st, want, (int64_t)outs, 1); } catch (const InsufficientFundsException&) { ok = false; }
    std::vector<u64> up = v, down; std::sort(up.begin(), up.end()); down = up; std::reverse(down.begin(), down.end()); auto prefix = [&](const std::vector<u64>& a) -> size_t { W t = 0; for (size_t k = 0; k < a.size(); k++) { t += a[k]; if (t >= (W)amount + need(feeBase, k + 1, outs)) return k + 1; } return 0; };
    W total = 0; for (auto x : v) total += x; bool all = n && total >= (W)amount + need(feeBase, n, outs);
    std::set<Str> seen; W sum = 0; for (auto& g : got) { REQUIRE_MSG(seen.insert(g.GetCommitment().ToHex()).second, "a coin is selected twice"); bool known = false; for (auto& x : coins) known = known || (x.GetCommitment() == g.GetCommitment() && x.GetAmount() == g.GetAmount()); REQUIRE_MSG(known, "a coin is selected that is not there"); sum += g.GetAmount(); }
    if (ok) REQUIRE_MSG(sum >= (W)amount + need(feeBase, got.size(), outs), "the " << got.size() << " coins selected hold " << num(sum) << ", less than the amount and the fee of " << num(need(feeBase, got.size(), outs)));
    switch (st) {
    case ESelectionStrategy::ALL: REQUIRE_MSG(!n || ok == all, (ok ? "paid from insufficient funds" : "sufficient funds refused")); if (ok) REQUIRE_EQ(got.size(), n); break;
    case ESelectionStrategy::CUSTOM: { W t = 0; for (auto& x : coins) if (wanted.count(x.GetCommitment().ToHex())) t += x.GetAmount(); bool f = t >= (W)amount + need(feeBase, wanted.size(), outs); REQUIRE_MSG(ok == f || wanted.empty(), (ok ? "paid from insufficient funds" : "sufficient funds refused")); if (ok) REQUIRE_MSG(seen == wanted, "other coins than those asked for"); break; }
    case ESelectionStrategy::FEWEST_INPUTS: { size_t k = prefix(down); REQUIRE_MSG(ok == (k > 0), (ok ? "paid from insufficient funds" : "sufficient funds refused")); if (ok) REQUIRE_MSG(got.size() == k, got.size() << " coins where " << k << " suffice"); break; }
    default: { size_t k = prefix(up); REQUIRE_MSG(ok || !all, "sufficient funds refused"); REQUIRE_MSG(ok == (k > 0), (ok ? "paid from insufficient funds" : "sufficient funds refused")); if (ok) { W t = 0; for (size_t i = 0; i < k; i++) t += up[i]; REQUIRE_MSG(got.size() == k && sum == t, "not the smallest coins"); } } }
    W f = need(feeBase, n, outs); if (f <= UINT64_MAX) REQUIRE_EQ(FeeUtil::CalculateFee(feeBase, (int64_t)n, (int64_t)outs, 1), (u64)f);
    c.label(Str(name(st)) + (ok ? " selected" : " refused")); c.nontrivial(n >= 2);
}
static void fees(Ctx& c) {
    auto& s = c.src; u64 f = s.edgy64() & 0xffffffffffULL; uint8_t sh = (uint8_t)s.below(16); Fee fee(sh, f); Serializer o; fee.Serialize(o); Bytes b = o.GetBytes(); REQUIRE_EQ(b.size(), (size_t)8); u64 raw = 0; for (auto x : b) raw = raw << 8 | x; REQUIRE_EQ(raw, ((u64)sh << 40) | f); ByteBuffer in(b); Fee back = Fee::Deserialize(in); REQUIRE(back == fee && back.GetFee() == f && back.GetShift() == sh); REQUIRE(Fee::FromJSON(fee.ToJSON()) == fee); REQUIRE(fee.ToJSON().asUInt64() == raw); REQUIRE(Fee::From(f).GetFee() == f && Fee::From(f).GetShift() == 0); c.log << "fee " << f << " shift " << (int)sh; c.nontrivial(f > 0);
}
static void sending(Ctx& c) {
    auto& s = c.src; Net n(c, 1000); auto& a = n.add("alice"); n.node->mine({}); std::vector<TransactionOutput> outs; size_t k = s.below(6); std::map<Str, u64> amt; std::set<Str> young; for (size_t i = 0; i < k; i++) { u64 x = s.chance(1, 8) ? s.edgy64() >> 4 : s.chance(1, 4) ? s.below(30000000) : 1000000 * s.range(1, 100000); EOutputFeatures f = s.chance(1, 4) ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT; outs.push_back(n.fresh(a, x, f)); amt[outs.back().GetCommitment().ToHex()] = x; }
    if (k) n.node->mine(outs); u64 later = s.pick<u64>({ 30, 9, 10, 8, 0, 23, 24, 25 }); n.node->skip(later); size_t k2 = s.below(3); outs.clear(); for (size_t i = 0; i < k2; i++) { outs.push_back(n.fresh(a, 5000000 * s.range(1, 1000))); amt[outs.back().GetCommitment().ToHex()] = 0; young.insert(outs.back().GetCommitment().ToHex()); } if (k2) n.node->mine(outs);
    n.refresh(a); std::vector<u64> v; std::set<Str> good; std::map<Str, EOutputFeatures> feats; u64 tip = n.node->height(); for (auto& o : n.outputs(a)) { auto it = n.node->utxo.find(o.GetCommitment()); REQUIRE(it != n.node->utxo.end()); bool mature = o.GetFeatures() == EOutputFeatures::COINBASE_OUTPUT ? tip > it->second.height + 25 : tip >= it->second.height + 10; bool edge = o.GetFeatures() == EOutputFeatures::COINBASE_OUTPUT && tip == it->second.height + 25; if (edge) return; if (mature) { v.push_back(o.GetAmount()); good.insert(o.GetCommitment().ToHex()); } }
    u64 feeBase = s.chance(1, 10) ? s.edgy64() : s.chance(1, 8) ? 0 : s.below(1000000); size_t change = s.chance(1, 60) ? s.pick<size_t>({ 255, 254, 12 }) : s.below(4); bool entire = s.chance(1, 4); u64 amount = amountNear(s, v, feeBase, 1 + change);
    auto st = s.pick<ESelectionStrategy>({ ESelectionStrategy::SMALLEST, ESelectionStrategy::FEWEST_INPUTS, ESelectionStrategy::ALL, ESelectionStrategy::CUSTOM }); std::set<Commitment> want; if (st == ESelectionStrategy::CUSTOM) for (auto& o : n.outputs(a)) if (s.chance(3, 4)) want.insert(o.GetCommitment());
    c.log << name(st) << (entire ? " everything" : " amount " + std::to_string(amount)) << " of"; for (auto x : v) c.log << " " << x; c.log << " fee base " << feeBase << " change " << change << " young " << k2; SelectionStrategyDTO strat(st, std::set<Commitment>(want));
    std::optional<u64> am = entire ? std::nullopt : std::make_optional(amount); std::optional<FeeEstimateDTO> est; try { auto w = n.wallet(a); est = w.Read()->EstimateFee(EstimateFeeCriteria(a.token, am, feeBase, (uint8_t)(entire ? 0 : change), strat)); } catch (const std::exception&) {}
    Str before = dump(n, a); std::optional<Slate> slate; try { slate = n.mgr->Send(SendCriteria(a.token, am, feeBase, (uint8_t)change, strat, std::nullopt, std::nullopt)); } catch (const std::exception& e) { c.log << " refused: " << e.what(); }
    W total = 0; for (auto x : v) total += x; size_t outsN = 1 + (entire ? 0 : change); if (!slate) { REQUIRE_MSG(dump(n, a) == before, "a refused send changed the wallet"); bool could = !v.empty() && (st == ESelectionStrategy::ALL || st == ESelectionStrategy::SMALLEST || st == ESelectionStrategy::FEWEST_INPUTS || entire) && total >= (entire ? (W)0 : (W)amount) + need(feeBase, v.size(), outsN); if (could && !(need(feeBase, v.size(), outsN) >> 40) && (change || entire)) { W fee = need(feeBase, v.size(), outsN); (void)fee; REQUIRE_MSG(false, "sufficient funds refused"); } c.label("refused"); c.nontrivial(v.size() >= 2); return; }
    std::vector<OutputDataEntity> used, made; for (auto& o : n.outputs(a)) { if (o.GetStatus() == EOutputStatus::LOCKED) { REQUIRE_MSG(good.count(o.GetCommitment().ToHex()), "an output that is not spendable is spent"); used.push_back(o); } else if (o.GetStatus() == EOutputStatus::NO_CONFIRMATIONS) made.push_back(o); }
    W in = 0, out = 0; for (auto& o : used) in += o.GetAmount(); for (auto& o : made) out += o.GetAmount(); u64 fee = slate->fee.GetFee(); W w = need(feeBase, used.size(), outsN); REQUIRE(!used.empty()); REQUIRE_EQ(made.size(), entire ? (size_t)0 : change); REQUIRE_MSG(in == out + (W)slate->amount + fee, "inputs of " << num(in) << " for " << slate->amount << " with fee " << fee << " and change " << num(out)); if (!entire) REQUIRE_EQ(slate->amount, amount); REQUIRE_MSG(slate->fee.GetShift() == 0 && (made.size() || entire ? (W)fee == w : (W)fee >= w), "fee is " << fee << " instead of " << num(w)); REQUIRE_EQ(slate->GetInputs().size(), used.size()); REQUIRE_EQ(slate->GetOutputs().size(), made.size()); REQUIRE_MSG(fee >> 40 == 0, "fee of " << fee << " does not fit its field"); for (auto& i : slate->GetInputs()) { bool f = false; for (auto& o : used) f = f || (o.GetCommitment() == i.GetCommitment() && o.GetFeatures() == i.GetFeatures()); REQUIRE(f); }
    if (entire || st == ESelectionStrategy::ALL) REQUIRE_EQ(used.size(), v.size()); if (!entire && st == ESelectionStrategy::CUSTOM) for (auto& o : used) REQUIRE(want.count(o.GetCommitment()));
    for (size_t i = 1; i < made.size(); i++) { u64 x = made[i].GetAmount(), y = made[0].GetAmount(); REQUIRE_MSG((x > y ? x - y : y - x) < made.size(), "change is split unevenly"); }
    REQUIRE_MSG(est, "no estimate for a send that succeeds"); REQUIRE_EQ(est->GetAmount(), slate->amount); if (change || entire) REQUIRE_EQ(est->GetFee(), fee); std::set<Str> e, u; for (auto& i : est->GetInputs()) e.insert(i.GetCommitment().ToHex()); for (auto& o : used) u.insert(o.GetCommitment().ToHex()); REQUIRE_MSG(e == u, "the estimate names other inputs than the send");
    c.label(entire ? "everything sent" : "sent"); c.nontrivial(v.size() >= 2);
}
void pbt::setup(Check& c) {
    c.id = "C34"; c.rule = "non-trivial: at least two coins to choose from, or a fee other than zero"; c.workerInit = env::workerDefault; c.quickCases = 3000; c.thoroughCases = 200000; c.quickCap = 25; c.parts = { { "select", 6, selecting }, { "send", 4, sending }, { "fees", 2, fees } };
    c.assumptions = { "the coins of a wallet total less than 2^64 - 1", "with no change outputs whatever is left over is part of the fee" };
}
