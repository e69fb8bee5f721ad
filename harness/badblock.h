// Blocks that break exactly one rule (or sit just inside it); headers are recomputed so that nothing else is wrong.
#pragma once
#include "chainbase.h"
namespace bad {
enum Kind { PLAIN, TWO_REWARDS, JUST_MATURE, LOCK_AT_HEIGHT, RESPEND_PARENT, FREE_TX,   // valid
    REWARD_OFF, UNKNOWN_INPUT, SPENT_INPUT, IMMATURE, DUPLICATE_OUTPUT, LOCK_TOO_HIGH, KERNEL_SIG, RANGE_PROOF, OFFSET, ROOT_OUT, ROOT_PROOF, ROOT_KERNEL, ROOTS_MIXED, SIZE_OUT, SIZE_KERNEL, PARENT_OUT, PARENT_KERNEL, NO_REWARD_OUT, NO_REWARD_KERNEL, INFLATE, SHIFTED_REWARD, FAKE_COINBASE, FAKE_COINBASE_KERNEL, OTHER_FORK_INPUT, DUP_INPUT, DROPPED_KERNEL, DROPPED_OUTPUT, DUP_OUTPUT, DUP_KERNEL, CUT_THROUGH, UNSORTED, KINDS };
static const char* name(int k) { static const char* n[] = { "valid", "valid: two rewards", "valid: reward spent as soon as it may be", "valid: lock height reached", "valid: spends its parent's output", "valid: transaction without fee", "reward off", "input never created", "input already spent", "immature coinbase spent", "output already unspent", "kernel locked above the height", "kernel signature", "range proof", "total offset", "output root", "range proof root", "kernel root", "output and range proof roots swapped", "output set size", "kernel set size", "output sets of the parent", "kernel set of the parent", "reward output missing", "reward kernel missing", "transaction creates value", "reward takes from a transaction", "plain output marked coinbase", "plain kernel marked coinbase", "input of another fork", "input twice, balanced", "kernel dropped", "output dropped", "output twice, balanced", "kernel twice, balanced", "spends an output of its own", "order of elements" }; return n[k]; }
inline bool isValid(int k) { return k <= FREE_TX; }
inline Hash other(Src& s, const Hash& h) { auto v = h.GetData(); v[s.below(v.size())] ^= (uint8_t)(1 << s.below(8)); return Hash(v); }
// coins of generated transactions by commitment
inline std::map<Commitment, fab::Coin>& known() { static std::map<Commitment, fab::Coin> m; if (m.size() > 5000) m.clear(); return m; }
inline TransactionPtr simpleTx(Tree& t, std::vector<fab::Coin> ins, std::vector<EOutputFeatures> f, std::vector<fab::Coin> outs, u64 fee, EKernelFeatures kf = EKernelFeatures::DEFAULT_KERNEL, u64 lock = 0) { for (auto& o : outs) known().insert({ o.commit, o });  fab::KernelSpec k{ kf, Fee::From(fee), lock }; return std::make_shared<Transaction>(fab::tx(ins, f, outs, { k }, fab::blindNo(90000 + t.serial), t.serial)); }
// nullptr when the kind is not possible on this parent
inline std::unique_ptr<Blk> build(Src& s, Tree& t, Blk* p, int kind, u64 work, size_t maxTx = 2) {
    auto av = t.spendable(p); std::vector<fab::Coin> made; std::vector<TransactionPtr> txs; u64 h = p->height + 1; auto feat = [&](const fab::Coin& c) { auto i = p->st->utxo.find(c.commit); return i == p->st->utxo.end() ? EOutputFeatures::DEFAULT : i->second.f; };
    auto take = [&]() { size_t j = s.below(av.size()); auto c = av[j]; av.erase(av.begin() + j); return c; }; auto fresh = [&](u64 a) { auto c = fab::coin(a, 500000 + t.serial++); made.push_back(c); return c; };
    auto spend = [&](const fab::Coin& c, u64 fee = 3, EKernelFeatures kf = EKernelFeatures::DEFAULT_KERNEL, u64 lock = 0) { txs.push_back(simpleTx(t, { c }, { feat(c) }, { fresh(c.amount - fee) }, fee, kf, lock)); };
    int64_t delta = 0; if (kind == REWARD_OFF) { u64 d = s.pick<u64>({ 1, 2, 60, 1000000000 }); delta = s.flip() ? (int64_t)d : -(int64_t)d; }
    switch (kind) {
    case JUST_MATURE: { bool ok = false; for (auto& c : av) if (feat(c) == EOutputFeatures::COINBASE_OUTPUT && p->st->utxo.at(c.commit).height + 25 == h) { spend(c); ok = true; auto cc = c.commit; av.erase(std::find_if(av.begin(), av.end(), [&](const fab::Coin& x) { return x.commit == cc; })); break; } if (!ok) return nullptr; break; }
    case IMMATURE: { std::vector<fab::Coin> v; for (auto& x : p->wallet) { auto it = p->st->utxo.find(x.first); if (it == p->st->utxo.end()) continue; auto u = it->second; if (u.f == EOutputFeatures::COINBASE_OUTPUT && u.height + 25 > h) v.push_back(x.second); } if (v.empty()) return nullptr; fab::Coin best = v[0]; if (s.flip()) { for (auto& c : v) if (p->st->utxo.at(c.commit).height < p->st->utxo.at(best.commit).height) best = c; } else best = v[s.below(v.size())]; spend(best); break; }
    case LOCK_AT_HEIGHT: case LOCK_TOO_HIGH: if (av.empty()) return nullptr; spend(take(), 3, EKernelFeatures::HEIGHT_LOCKED, kind == LOCK_AT_HEIGHT ? h : s.chance(1, 4) ? h + (1ULL << s.pick({ 32, 33, 40, 63 })) : s.chance(1, 8) ? UINT64_MAX : h + 1 + s.size(3)); break;
    case RESPEND_PARENT: { std::vector<fab::Coin> v; for (auto& c : av) if (p->st->utxo.at(c.commit).height == p->height) v.push_back(c); if (v.empty()) return nullptr; auto c = v[s.below(v.size())]; spend(c); av.erase(std::find_if(av.begin(), av.end(), [&](const fab::Coin& x) { return x.commit == c.commit; })); break; }
    case FREE_TX: if (av.empty()) return nullptr; spend(take(), 0); break;
    case UNKNOWN_INPUT: { auto c = fab::coin(1000 + s.below(1000), 900000 + t.serial++); spend(c); break; }
    case SPENT_INPUT: { std::vector<fab::Coin> v; for (auto& x : p->spent) if (!p->st->utxo.count(x.first)) v.push_back(x.second); if (v.empty()) return nullptr; spend(v[s.below(v.size())]); break; }
    case OTHER_FORK_INPUT: { std::vector<fab::Coin> v; for (auto& b : t.all) for (auto& x : b->wallet) if (!p->st->utxo.count(x.first) && !p->spent.count(x.first)) v.push_back(x.second); if (v.empty()) return nullptr; spend(v[s.below(v.size())]); break; }
    case DUPLICATE_OUTPUT: { if (av.size() < 2) return nullptr; auto a = take(); std::vector<fab::Coin> v; for (auto& x : p->wallet) if (x.second.amount < a.amount && x.first != a.commit) v.push_back(x.second); if (v.empty()) return nullptr; auto d = v[s.below(v.size())]; txs.push_back(simpleTx(t, { a }, { feat(a) }, { d, fresh(a.amount - d.amount - 0) }, 0)); av.erase(std::remove_if(av.begin(), av.end(), [&](const fab::Coin& x) { return x.commit == d.commit; }), av.end()); break; }
    case INFLATE: { if (av.empty()) return nullptr; auto c = take(); u64 x = 1 + s.below(1000); txs.push_back(simpleTx(t, { c }, { feat(c) }, { fresh(c.amount - 3 + x) }, 3)); break; }
    case SHIFTED_REWARD: { if (av.empty()) return nullptr; auto c = take(); u64 x = 1 + s.below(std::min<u64>(1000, c.amount - 4)); bool plus = s.flip(); txs.push_back(simpleTx(t, { c }, { feat(c) }, { fresh(plus ? c.amount - 3 - x : c.amount - 3 + x) }, 3)); delta = plus ? (int64_t)x : -(int64_t)x; break; }
    case FAKE_COINBASE: case FAKE_COINBASE_KERNEL: case KERNEL_SIG: case RANGE_PROOF: case DROPPED_KERNEL: case DROPPED_OUTPUT: if (!av.empty()) spend(take()); else if (kind == FAKE_COINBASE || kind == FAKE_COINBASE_KERNEL || kind == DROPPED_KERNEL || kind == DROPPED_OUTPUT) return nullptr; break;
    case DUP_INPUT: { if (av.empty()) return nullptr; auto c = take(); txs.push_back(simpleTx(t, { c, c }, { feat(c), feat(c) }, { fresh(2 * c.amount - 3) }, 3)); break; }
    case DUP_OUTPUT: { if (av.empty()) return nullptr; auto c = take(); auto o = fresh((c.amount - 3) / (2 + s.below(2))); std::vector<fab::Coin> v{ o, o }; if (u64 rest = c.amount - 3 - 2 * o.amount; rest || s.flip()) v.push_back(fresh(rest)); txs.push_back(simpleTx(t, { c }, { feat(c) }, v, 3)); break; }
    case CUT_THROUGH: { if (av.empty()) return nullptr; auto c = take(); auto o = fresh(1 + s.below(1000)); txs.push_back(simpleTx(t, { c, o }, { feat(c), EOutputFeatures::DEFAULT }, { o, fresh(c.amount - 3) }, 3)); break; }
    case DUP_KERNEL: { if (av.empty()) return nullptr; auto c = take(); u64 fee = s.flip() ? 3 : 0; auto o = fresh(c.amount - 2 * fee); auto e = fab::blindNo(60000 + t.serial); auto K = fab::kernel(EKernelFeatures::DEFAULT_KERNEL, Fee::From(fee), 0, e); known().insert({ o.commit, o }); txs.push_back(std::make_shared<Transaction>(fab::sum({ o.blind }, { c.blind, e, e }), TransactionBody({ c.in(feat(c)) }, { o.out() }, { K, K }))); break; }
    default: break; }
    size_t n = s.size(maxTx); for (size_t i = 0; i < n && !av.empty(); i++) txs.push_back(t.randomTx(s, p, av, made));
    auto r = t.assemble(txs, made, delta); std::function<void(gen::HeaderFields&)> mut;
    auto findOut = [&](bool cb) { std::vector<size_t> v; for (size_t i = 0; i < r.outs.size(); i++) if (r.outs[i].IsCoinbase() == cb) v.push_back(i); return v[s.below(v.size())]; }; auto findKern = [&](bool cb) { std::vector<size_t> v; for (size_t i = 0; i < r.kernels.size(); i++) if (r.kernels[i].IsCoinbase() == cb) v.push_back(i); return v[s.below(v.size())]; };
    auto setKernel = [&](size_t i, EKernelFeatures f, const Signature& sig) { auto& k = r.kernels[i]; r.kernels[i] = TransactionKernel(f, Fee(k.GetFeeShift(), k.GetFee()), k.GetLockHeight(), Commitment(k.GetExcessCommitment()), Signature(sig)); };
    // the same reward in two parts
    auto split = [&]() { u64 total = r.reward.amount, x = s.below(total + 1); Transaction a = fab::coinbase(x, 300000 + t.serial), b = fab::coinbase(total - x, 400000 + t.serial); size_t o = findOut(true), k = findKern(true); r.outs.erase(r.outs.begin() + o); r.kernels.erase(r.kernels.begin() + k); for (auto q : { &a, &b }) { r.outs.push_back(q->GetOutputs()[0]); r.kernels.push_back(q->GetKernels()[0]); } r.reward = fab::coin(x, 300000 + t.serial); r.made.push_back(fab::coin(total - x, 400000 + t.serial)); };
    if ((kind == SHIFTED_REWARD || kind == REWARD_OFF || kind == INFLATE || kind == NO_REWARD_OUT || kind == NO_REWARD_KERNEL || kind == FAKE_COINBASE || kind == FAKE_COINBASE_KERNEL || kind == FREE_TX || kind == DUP_KERNEL) && s.chance(1, 3)) split();
    switch (kind) {
    case TWO_REWARDS: split(); break;
    case KERNEL_SIG: { size_t i = s.below(r.kernels.size()); auto v = r.kernels[i].GetExcessSignature().GetSignatureBytes().GetData(); v[s.below(64)] ^= (uint8_t)(1 << s.below(8)); setKernel(i, r.kernels[i].GetFeatures(), Signature(CBigInteger<64>(v))); break; }
    case RANGE_PROOF: { size_t i = s.below(r.outs.size()); auto& o = r.outs[i]; auto v = o.GetRangeProof().GetProofBytes(); if (s.flip()) v[s.below(v.size())] ^= (uint8_t)(1 << s.below(8)); else v = t.genesis()->wallet.empty() && p->wallet.empty() ? std::vector<uint8_t>(675, 1) : p->wallet.begin()->second.proof.GetProofBytes(); if (v == o.GetRangeProof().GetProofBytes()) return nullptr; r.outs[i] = TransactionOutput(o.GetFeatures(), Commitment(o.GetCommitment()), RangeProof(std::move(v))); break; }
    case NO_REWARD_OUT: r.outs.erase(r.outs.begin() + findOut(true)); break; case NO_REWARD_KERNEL: r.kernels.erase(r.kernels.begin() + findKern(true)); break;
    case DROPPED_KERNEL: r.kernels.erase(r.kernels.begin() + findKern(false)); break; case DROPPED_OUTPUT: r.outs.erase(r.outs.begin() + findOut(false)); break;
    case FAKE_COINBASE: { size_t i = findOut(false); auto& o = r.outs[i]; r.outs[i] = TransactionOutput(EOutputFeatures::COINBASE_OUTPUT, Commitment(o.GetCommitment()), RangeProof(o.GetRangeProof())); break; }
    case FAKE_COINBASE_KERNEL: { size_t i = findKern(false); auto& k = r.kernels[i]; r.kernels[i] = TransactionKernel(EKernelFeatures::COINBASE_KERNEL, Fee(), 0, Commitment(k.GetExcessCommitment()), Signature(k.GetExcessSignature())); break; }
    case OFFSET: mut = [&](gen::HeaderFields& f) { auto v = f.offset.GetVec(); v[31] ^= (uint8_t)(1 + s.below(200)); f.offset = BlindingFactor(CBigInteger<32>(v)); }; break;
    case ROOT_OUT: mut = [&](gen::HeaderFields& f) { f.outRoot = other(s, f.outRoot); }; break; case ROOT_PROOF: mut = [&](gen::HeaderFields& f) { f.rpRoot = other(s, f.rpRoot); }; break; case ROOT_KERNEL: mut = [&](gen::HeaderFields& f) { f.kRoot = other(s, f.kRoot); }; break;
    case ROOTS_MIXED: mut = [&](gen::HeaderFields& f) { std::swap(f.outRoot, f.rpRoot); }; break;
    case SIZE_OUT: mut = [&](gen::HeaderFields& f) { u64 d = 1 + s.below(3); if (s.flip()) f.outSize += d; else f.outSize -= d; }; break; case SIZE_KERNEL: mut = [&](gen::HeaderFields& f) { u64 d = 1 + s.below(3); if (s.flip()) f.kSize += d; else f.kSize -= d; }; break;
    case PARENT_OUT: mut = [&](gen::HeaderFields& f) { f.outSize = p->hdr->GetOutputMMRSize(); f.outRoot = p->hdr->GetOutputRoot(); f.rpRoot = p->hdr->GetRangeProofRoot(); }; break; case PARENT_KERNEL: mut = [&](gen::HeaderFields& f) { f.kSize = p->hdr->GetKernelMMRSize(); f.kRoot = p->hdr->GetKernelRoot(); }; break;
    case UNSORTED: { auto i = r.ins; auto o = r.outs; auto k = r.kernels; TransactionBody b(std::move(i), std::move(o), std::move(k)); r.ins = b.GetInputs(); r.outs = b.GetOutputs(); r.kernels = b.GetKernels(); std::vector<int> w; if (r.ins.size() > 1) w.push_back(0); if (r.outs.size() > 1) w.push_back(1); if (r.kernels.size() > 1) w.push_back(2); if (w.empty()) return nullptr;
        int which = w[s.below(w.size())]; auto mix = [&](auto& v) { if (s.flip()) { size_t x = s.below(v.size() - 1); std::swap(v[x], v[x + 1]); } else std::swap(v[v.size() - 2], v[v.size() - 1]); }; if (which == 0) mix(r.ins); else if (which == 1) mix(r.outs); else mix(r.kernels); r.asIs = true; break; }
    default: break; }
    return t.seal(p, r, work, mut);
}
}
