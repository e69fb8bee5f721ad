// Fabricates coins, kernels and balanced transactions with real (shim) cryptography.
#pragma once
#include "gen.h"
#include <Core/Models/FullBlock.h>
#include <Core/Util/TransactionUtil.h>
#include <Crypto/Crypto.h>
#include <Crypto/Hasher.h>
#include <Consensus.h>
namespace fab {
using pbt::Src;
struct Coin { uint64_t amount; BlindingFactor blind; Commitment commit; RangeProof proof;
    TransactionOutput out(EOutputFeatures f = EOutputFeatures::DEFAULT) const { return TransactionOutput(f, Commitment(commit), RangeProof(proof)); }
    TransactionInput in(EOutputFeatures f = EOutputFeatures::DEFAULT) const { return TransactionInput(f, Commitment(commit)); } };
// far apart for neighbouring numbers, so that no sums of a few of them coincide
inline BlindingFactor blindNo(uint64_t n) { std::vector<uint8_t> v(32); uint64_t x = n + 0x9E3779B97F4A7C15ULL; for (int w = 0; w < 4; w++) { x += 0x9E3779B97F4A7C15ULL; uint64_t z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; z ^= z >> 31; for (int i = 0; i < 8; i++) v[w * 8 + i] = (uint8_t)(z >> (8 * i)); } v[0] = 0x11; return BlindingFactor(CBigInteger<32>(v)); }
inline SecretKey key(const BlindingFactor& b) { BlindingFactor c = b; return c.ToSecretKey(); }
// coins are remembered: the same (amount, serial) is the same commitment
inline const Coin& coin(uint64_t amount, uint64_t serial) {
    static std::map<std::pair<uint64_t, uint64_t>, Coin> memo; auto k = std::make_pair(amount, serial); auto it = memo.find(k); if (it != memo.end()) return it->second;
    if (memo.size() > 20000) memo.clear();
    auto b = blindNo(1000 + serial * 2654435761ULL); auto c = Crypto::CommitBlinded(amount, b); auto p = Crypto::GenerateRangeProof(amount, key(b), key(blindNo(serial + 7)), key(blindNo(serial + 7)), ProofMessage(CBigInteger<20>()));
    return memo.emplace(k, Coin{ amount, b, c, p }).first->second;
}
inline TransactionKernel kernel(EKernelFeatures f, const Fee& fee, uint64_t lock, const BlindingFactor& excess) {
    auto c = Crypto::CommitBlinded(0, excess); auto m = TransactionKernel::GetSignatureMessage(f, fee, lock); auto s = Crypto::BuildCoinbaseSignature(key(excess), c, m); if (!s) throw std::runtime_error("cannot sign"); return TransactionKernel(f, fee, lock, Commitment(c), Signature(*s));
}
struct KernelSpec { EKernelFeatures f; Fee fee; uint64_t lock; };
inline BlindingFactor sum(const std::vector<BlindingFactor>& p, const std::vector<BlindingFactor>& n) { return Crypto::AddBlindingFactors(p, n); }
// outputs - inputs = excesses + offset; the fees must already balance the amounts
inline Transaction tx(const std::vector<Coin>& ins, const std::vector<EOutputFeatures>& inFeat, const std::vector<Coin>& outs, const std::vector<KernelSpec>& ks, const BlindingFactor& offset, uint64_t salt) {
    std::vector<BlindingFactor> p, n; for (auto& o : outs) p.push_back(o.blind); for (auto& i : ins) n.push_back(i.blind); if (offset != CBigInteger<32>()) n.push_back(offset);
    std::vector<TransactionKernel> kernels; for (size_t i = 0; i + 1 < ks.size(); i++) { auto e = blindNo(salt * 977 + i + 5); n.push_back(e); kernels.push_back(kernel(ks[i].f, ks[i].fee, ks[i].lock, e)); }
    kernels.push_back(kernel(ks.back().f, ks.back().fee, ks.back().lock, sum(p, n)));
    std::vector<TransactionInput> vi; for (size_t i = 0; i < ins.size(); i++) vi.push_back(ins[i].in(inFeat.empty() ? EOutputFeatures::DEFAULT : inFeat[i])); std::vector<TransactionOutput> vo; for (auto& o : outs) vo.push_back(o.out());
    return Transaction(BlindingFactor(offset), TransactionBody(std::move(vi), std::move(vo), std::move(kernels)));
}
// reward output and kernel; as a transaction without inputs and offset
inline Transaction coinbase(uint64_t amount, uint64_t serial) { auto& c = coin(amount, serial); return Transaction(BlindingFactor(CBigInteger<32>()), TransactionBody({}, { c.out(EOutputFeatures::COINBASE_OUTPUT) }, { kernel(EKernelFeatures::COINBASE_KERNEL, Fee(), 0, c.blind) })); }
}
