// C04: transaction validation
#include "fab.h"
#include "env.h"
#include <Core/Validation/TransactionValidator.h>
using namespace pbt; using fab::Coin; typedef uint64_t u64;
struct Spec { std::vector<Coin> ins, outs; std::vector<EOutputFeatures> inF; std::vector<fab::KernelSpec> ks; BlindingFactor offset; u64 salt = 0; Transaction make() const { return fab::tx(ins, inF, outs, ks, offset, salt); } };
static fab::KernelSpec kspec(Src& s, u64 fee) { Fee f((uint8_t)s.below(4) ? (uint8_t)0 : (uint8_t)s.below(16), fee); switch (s.below(4)) { case 0: return { EKernelFeatures::HEIGHT_LOCKED, f, s.below(1 << 20) }; case 1: return { EKernelFeatures::NO_RECENT_DUPLICATE, f, 1 + s.below(10080) }; default: return { EKernelFeatures::DEFAULT_KERNEL, f, 0 }; } }
static Spec spec(Src& s) {
    Spec t; size_t ni = 1 + s.size(5), no = s.chance(1, 12) ? 0 : 1 + s.size(4), nk = 1 + s.size(3); t.salt = 1 + s.below(40); u64 total = 0, serial = s.below(1000) * 100;
    std::vector<u64> fees; u64 feeSum = 0; for (size_t i = 0; i < nk; i++) { u64 f = s.chance(1, 8) ? 0 : s.chance(1, 8) ? (1ULL << 39) + s.below(5) : s.below(1000); fees.push_back(f); feeSum += f; }
    std::vector<u64> am; u64 outSum = 0; for (size_t i = 0; i < no; i++) { u64 a = s.chance(1, 10) ? 0 : s.chance(1, 10) ? 1ULL << 50 : 1 + s.below(1000); am.push_back(a); outSum += a; t.outs.push_back(fab::coin(a, serial++)); }
    total = feeSum + outSum; for (size_t i = 0; i < ni; i++) { u64 a = i + 1 == ni ? total : s.below(total / 2 + 1); total -= a; t.ins.push_back(fab::coin(a, serial++)); t.inF.push_back(s.chance(1, 5) ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT); }
    for (u64 f : fees) t.ks.push_back(kspec(s, f)); t.offset = s.chance(1, 6) ? BlindingFactor(CBigInteger<32>()) : fab::blindNo(50 + s.below(100)); return t;
}
static bool ok(const Transaction& t, u64 h) { try { TransactionValidator().Validate(t, h); return true; } catch (std::exception&) { return false; } }
static std::vector<uint8_t> bytes(const Transaction& t) { auto v = gen::ser(t, EProtocolVersion::V2); for (auto& i : t.GetInputs()) v.push_back((uint8_t)i.GetFeatures()); return v; }
static void expectValid(const Transaction& t, u64 h, const char* what) { auto b = bytes(t); REQUIRE_MSG(ok(t, h), what << " is refused"); REQUIRE_MSG(bytes(t) == b, "validation changed the transaction"); }
static std::string show(const Spec& t) { std::ostringstream o; o << t.ins.size() << " inputs, outputs"; for (auto& c : t.outs) o << " " << c.amount; o << ", kernels"; for (auto& k : t.ks) o << " " << (int)k.f << ":" << k.fee.GetFee(); return o.str(); }
typedef std::vector<TransactionInput> VI; typedef std::vector<TransactionOutput> VO; typedef std::vector<TransactionKernel> VK;
static TransactionKernel with(const TransactionKernel& k, EKernelFeatures f, Fee fee, u64 lock) { return TransactionKernel(f, fee, lock, Commitment(k.GetExcessCommitment()), Signature(k.GetExcessSignature())); }
static Fee feeOf(const TransactionKernel& k) { return Fee(k.GetFeeShift(), k.GetFee()); }
// one corruption of a valid transaction; empty text when it does not apply
static std::string corrupt(Src& s, Spec t, Transaction& out) {
    Transaction base = t.make(); VI vi = base.GetInputs(); VO vo = base.GetOutputs(); VK vk = base.GetKernels(); BlindingFactor off = base.GetOffset(); size_t i = vi.empty() ? 0 : s.below(vi.size()), o = vo.empty() ? 0 : s.below(vo.size()), k = s.below(vk.size()); int kind = (int)s.below(27); std::string what; bool sorted = true;
    auto diff = [&](u64 a) { u64 d = s.chance(1, 4) ? 1ULL << 49 : 1 + s.below(3); return a >= d && s.flip() ? a - d : a + d; };
    switch (kind) {
    case 0: if (vo.empty()) return ""; what = "output amount changed"; t.outs[o] = fab::coin(diff(t.outs[o].amount), 7777000 + o); { auto keep = t.outs[o]; Spec q = t; (void)q; } out = t.make(); return what;   // excess recomputed: only the amounts are off
    case 1: if (vo.empty()) return ""; what = "output replaced by one of equal amount"; { size_t j = 0; while (vo[o].GetCommitment() != t.outs[j].commit) j++; vo[o] = fab::coin(t.outs[j].amount, 8888000).out(); } break;
    case 2: what = "input amount changed"; t.ins[i] = fab::coin(diff(t.ins[i].amount), 7778000); out = t.make(); return what;
    case 3: what = "input replaced by one of equal amount"; { size_t j = 0; while (vi[i].GetCommitment() != t.ins[j].commit) j++; vi[i] = fab::coin(t.ins[j].amount, 8889000).in(); } break;
    case 4: what = "fee of a signed kernel changed"; vk[k] = with(vk[k], vk[k].GetFeatures(), Fee(vk[k].GetFeeShift(), diff(vk[k].GetFee())), vk[k].GetLockHeight()); break;
    case 5: what = "fee changed and signed again"; t.ks[s.below(t.ks.size())].fee = Fee(0, 1ULL << 38); out = t.make(); if (out.CalcFee() == base.CalcFee()) return ""; return what;
    case 6: what = "fee shift of a signed kernel changed"; vk[k] = with(vk[k], vk[k].GetFeatures(), Fee((uint8_t)((vk[k].GetFeeShift() + 1 + s.below(15)) & 15), vk[k].GetFee()), vk[k].GetLockHeight()); break;
    case 7: if (vk[k].GetFeatures() == EKernelFeatures::DEFAULT_KERNEL) return ""; what = "lock height changed"; { u64 l = vk[k].GetLockHeight() ^ (1ULL << s.below(13)); if (vk[k].GetFeatures() == EKernelFeatures::NO_RECENT_DUPLICATE) l = 1 + vk[k].GetLockHeight() % 10080; vk[k] = with(vk[k], vk[k].GetFeatures(), feeOf(vk[k]), l); } break;
    case 8: what = "kernel features changed"; { auto f = (EKernelFeatures)(((int)vk[k].GetFeatures() + 1 + s.below(3)) & 3); vk[k] = with(vk[k], f, feeOf(vk[k]), vk[k].GetLockHeight()); } break;
    case 9: if (vo.empty()) return ""; what = "output marked as coinbase"; vo[o] = TransactionOutput(EOutputFeatures::COINBASE_OUTPUT, Commitment(vo[o].GetCommitment()), RangeProof(vo[o].GetRangeProof())); break;
    case 10: what = "balanced coinbase kernel"; t.ks.insert(t.ks.begin() + s.below(t.ks.size() + 1), { EKernelFeatures::COINBASE_KERNEL, Fee(), 0 }); out = t.make(); return what;
    case 11: if (vo.empty()) return ""; { auto p = vo[o].GetRangeProof().GetProofBytes(); size_t bit = s.below(p.size() * 8); p[bit / 8] ^= (uint8_t)(1 << (bit % 8)); what = "bit " + std::to_string(bit) + " of a range proof flipped"; vo[o] = TransactionOutput(vo[o].GetFeatures(), Commitment(vo[o].GetCommitment()), RangeProof(std::move(p))); } break;
    case 12: if (vo.empty()) return ""; { auto p = vo[o].GetRangeProof().GetProofBytes(); p.resize(s.below(p.size())); what = "range proof cut to " + std::to_string(p.size()); vo[o] = TransactionOutput(vo[o].GetFeatures(), Commitment(vo[o].GetCommitment()), RangeProof(std::move(p))); } break;
    case 13: if (vo.size() < 2) return ""; what = "range proofs exchanged"; { size_t q = (o + 1) % vo.size(); auto a = vo[o], b = vo[q]; vo[o] = TransactionOutput(a.GetFeatures(), Commitment(a.GetCommitment()), RangeProof(b.GetRangeProof())); if (s.flip()) vo[q] = TransactionOutput(b.GetFeatures(), Commitment(b.GetCommitment()), RangeProof(a.GetRangeProof())); } break;
    case 14: what = "kernel excess replaced"; vk[k] = TransactionKernel(vk[k].GetFeatures(), feeOf(vk[k]), vk[k].GetLockHeight(), Crypto::CommitBlinded(0, fab::blindNo(999 + s.below(9))), Signature(vk[k].GetExcessSignature())); break;
    case 15: what = "kernel replaced by another signed one"; vk[k] = fab::kernel(vk[k].GetFeatures(), feeOf(vk[k]), vk[k].GetLockHeight(), fab::blindNo(999 + s.below(9))); break;
    case 16: { auto g = vk[k].GetExcessSignature().GetSignatureBytes().GetData(); size_t bit = s.below(512); g[bit / 8] ^= (uint8_t)(1 << (bit % 8)); what = "bit " + std::to_string(bit) + " of a kernel signature flipped"; vk[k] = TransactionKernel(vk[k].GetFeatures(), feeOf(vk[k]), vk[k].GetLockHeight(), Commitment(vk[k].GetExcessCommitment()), Signature(CBigInteger<64>(g))); } break;
    case 17: what = "offset changed"; { auto b = off.GetVec(); b[31 - s.below(8)] ^= (uint8_t)(1 << s.below(8)); off = BlindingFactor(CBigInteger<32>(b)); } break;
    case 18: { auto w = s.below(3); sorted = false; size_t n = w == 0 ? vi.size() : w == 1 ? vo.size() : vk.size(); if (n < 2) return ""; size_t a = s.below(n), b = (a + 1 + s.below(n - 1)) % n; what = "order of elements changed"; if (w == 0) std::swap(vi[a], vi[b]); else if (w == 1) std::swap(vo[a], vo[b]); else std::swap(vk[a], vk[b]); } break;
    case 19: what = "duplicated element"; { auto w = s.below(3); if (w == 0) vi.push_back(vi[i]); else if (w == 1) { if (vo.empty()) return ""; vo.push_back(vo[o]); } else vk.push_back(vk[k]); } break;
    case 20: what = "duplicated output, balanced"; { if (vo.empty()) return ""; u64 a = t.outs[o].amount; t.outs.push_back(t.outs[o]); t.ins.push_back(fab::coin(a, 9990000)); t.inF.push_back(EOutputFeatures::DEFAULT); out = t.make(); } return what;
    case 21: what = "duplicated input, balanced"; { u64 a = t.ins[i].amount; t.ins.push_back(t.ins[i]); t.inF.push_back(t.inF[i]); t.outs.push_back(fab::coin(a, 9991000)); out = t.make(); } return what;
    case 22: { what = "duplicated kernel, balanced"; auto e = fab::blindNo(31337); u64 f = 5; auto K = fab::kernel(EKernelFeatures::DEFAULT_KERNEL, Fee::From(f), 0, e); t.ins.push_back(fab::coin(2 * f, 9992000)); t.inF.push_back(EOutputFeatures::DEFAULT); BlindingFactor real = t.offset; std::vector<BlindingFactor> p{ e, e }; if (real != CBigInteger<32>()) p.push_back(real); t.offset = fab::sum(p, {}); Transaction q = t.make(); vi = q.GetInputs(); vo = q.GetOutputs(); vk = q.GetKernels(); vk.push_back(K); vk.push_back(K); off = real; } break;
    case 23: { auto w = s.below(3); what = "dropped element"; if (w == 0) vi.erase(vi.begin() + i); else if (w == 1) { if (vo.empty()) return ""; vo.erase(vo.begin() + o); } else vk.erase(vk.begin() + k); } break;
    case 24: what = "cut-through pair"; { auto& x = fab::coin(1 + s.below(100), 9993000); t.ins.insert(t.ins.begin() + s.below(t.ins.size() + 1), x); t.inF.insert(t.inF.begin(), EOutputFeatures::DEFAULT); t.outs.insert(t.outs.begin() + s.below(t.outs.size() + 1), x); t.inF.resize(t.ins.size()); out = t.make(); } return what;
    case 25: { what = "value hidden by wrap-around"; if (t.outs.empty()) return ""; u64 d = 1 + s.below(1ULL << 40); size_t j = s.below(t.outs.size()); u64 a = t.outs[j].amount; t.outs[j] = fab::coin(a - d, 9994000); t.outs.push_back(fab::coin(d + 1, 9994001)); out = t.make(); } return what;   // mod 2^64 this is one unit too much or wraps
    case 26: what = "balanced coinbase output"; { auto c = fab::coin(10, 9995000); t.outs.push_back(c); t.ins.push_back(fab::coin(10, 9995001)); t.inF.push_back(EOutputFeatures::DEFAULT); Transaction q = t.make(); vi = q.GetInputs(); vk = q.GetKernels(); vo = q.GetOutputs(); for (auto& x : vo) if (x.GetCommitment() == c.commit) x = c.out(EOutputFeatures::COINBASE_OUTPUT); } break;
    }
    out = Transaction(BlindingFactor(off), sorted ? TransactionBody(std::move(vi), std::move(vo), std::move(vk)) : TransactionBody::NoSort(vi, vo, vk)); return what;
}
static void validity(Ctx& c) {
    auto& s = c.src; Spec t = spec(s); u64 h = s.pick<u64>({ 0, 1, 10, 1 << 20 }); Transaction tx = t.make(), bad; c.log << show(t); c.nontrivial(t.ins.size() + t.outs.size() > 2);
    bool first = s.flip(); if (first) expectValid(tx, h, "a balanced, signed transaction");
    std::string what = corrupt(s, t, bad); if (!what.empty()) { c.log << "; " << what << (first ? " after the original was validated" : ""); c.label(what.substr(0, 3) == "bit" ? what.substr(what.find(" of ")) : what); auto b = bytes(bad); REQUIRE_MSG(!ok(bad, h), "accepted although: " << what); REQUIRE_MSG(bytes(bad) == b, "validation changed the transaction"); REQUIRE_MSG(!ok(bad, h), "accepted the second time although: " << what); }
    expectValid(tx, h, "a balanced, signed transaction"); Transaction again = t.make(); expectValid(again, h, "a transaction equal to a validated one");
}
// exact weight limit: a block must still have room for one coinbase output and kernel
static void weight(Ctx& c) {
    auto& s = c.src; u64 limit = 40000 - 21 - 3, h = 1ULL << 30; int delta = (int)s.below(5) - 2; u64 want = limit + delta; size_t no = 1700 + s.below(180); u64 rest = want - 21 * no; size_t nk = 1 + s.below(5); size_t ni = rest - 3 * nk > 300 ? 1 + s.below(200) : rest - 3 * nk; nk = (rest - ni) / 3; ni = rest - 3 * nk; if (nk < 1 || ni < 1) return;
    Spec t; t.salt = 3; for (size_t i = 0; i < no; i++) t.outs.push_back(fab::coin(1, 5000000 + i)); for (size_t i = 0; i < ni; i++) { t.ins.push_back(fab::coin(i ? 1 : no + nk - (ni - 1), 6000000 + i)); t.inF.push_back(EOutputFeatures::DEFAULT); } for (size_t i = 0; i < nk; i++) t.ks.push_back({ EKernelFeatures::DEFAULT_KERNEL, Fee::From(1), 0 }); t.offset = fab::blindNo(9);
    c.log << ni << " inputs, " << no << " outputs, " << nk << " kernels: weight " << want << " of at most " << limit; c.nontrivial(); bool v = ok(t.make(), h); REQUIRE_MSG(v == (want <= limit), "weight " << want << " of at most " << limit << (v ? " accepted" : " refused"));
}
void pbt::setup(Check& c) {
    c.id = "C04"; c.rule = "Balanced transactions of up to 6 inputs, 5 outputs and 4 kernels of every feature with random fees, shifts, lock heights and offsets, built with real group arithmetic, each also with one of 27 single corruptions, validated before or after the original; and transactions of about 2000 elements around the exact weight limit. Non-trivial: more than two inputs and outputs in all.";
    c.quickCases = 3000; c.thoroughCases = 200000; c.quickCap = 30; c.quickMin = 10; c.workerInit = env::workerDefault; c.parts = { { "validity", 600, validity }, { "weight", 1, weight } };
    c.assumptions = { "Range proofs are made and verified by the stand-in of shim/secp_shim.cpp, which binds a proof to its commitment and bytes." };
}
