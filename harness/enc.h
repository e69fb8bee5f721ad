// Independent encoders of the published consensus formats.
#pragma once
#include "gen.h"
#include <sodium.h>
namespace enc {
using gen::Enc;
inline bool v2(EProtocolVersion v) { return v != EProtocolVersion::V1; }
inline bool v3(EProtocolVersion v) { return v == EProtocolVersion::V3 || v == EProtocolVersion::V1000; }
inline std::vector<uint8_t> b2b(const std::vector<uint8_t>& v) { std::vector<uint8_t> o(32); crypto_generichash_blake2b(o.data(), 32, v.data(), v.size(), nullptr, 0); return o; }
inline std::vector<uint8_t> vec(const Hash& h) { return h.GetData(); }
// ---- independent encoders, from the published formats
inline std::vector<uint8_t> cycleBits(const ProofOfWork& p) {
    std::vector<uint8_t> o((p.GetEdgeBits() * 42 + 7) / 8, 0); size_t pos = 0;
    for (uint64_t n : p.GetProofNonces()) for (int b = 0; b < p.GetEdgeBits(); b++, pos++) if ((n >> b) & 1) o[pos >> 3] |= (uint8_t)(1u << (pos & 7));
    return o;
}
inline void encHeader(Enc& e, const BlockHeader& h, bool withPow = true) {
    e.be(h.GetVersion(), 2).be(h.GetHeight(), 8).be((uint64_t)h.GetTimestamp(), 8).v(vec(h.GetPreviousHash())).v(vec(h.GetPreviousRoot())).v(vec(h.GetOutputRoot())).v(vec(h.GetRangeProofRoot())).v(vec(h.GetKernelRoot()))
        .v(std::vector<uint8_t>(h.GetTotalKernelOffset().GetBytes().cbegin(), h.GetTotalKernelOffset().GetBytes().cend())).be(h.GetOutputMMRSize(), 8).be(h.GetKernelMMRSize(), 8).be(h.GetTotalDifficulty(), 8).be(h.GetScalingDifficulty(), 4).be(h.GetNonce(), 8);
    if (withPow) e.be(h.GetEdgeBits(), 1).v(cycleBits(h.GetProofOfWork()));
}
inline uint64_t rawFee(const TransactionKernel& k) { return ((uint64_t)k.GetFeeShift() << 40) | k.GetFee(); }
inline void encKernel(Enc& e, const TransactionKernel& k, EProtocolVersion v) {
    e.be((uint8_t)k.GetFeatures(), 1);
    if (!v2(v)) e.be(rawFee(k), 8).be(k.GetLockHeight(), 8);
    else switch ((int)k.GetFeatures()) { case 0: e.be(rawFee(k), 8); break; case 1: break; case 2: e.be(rawFee(k), 8).be(k.GetLockHeight(), 8); break; case 3: e.be(rawFee(k), 8).be(k.GetLockHeight(), 2); break; }
    e.v(k.GetExcessCommitment().GetVec()).v(k.GetExcessSignature().GetSignatureBytes().GetData());
}
inline void encInput(Enc& e, const TransactionInput& i, EProtocolVersion v) { if (!v3(v)) e.be((uint8_t)i.GetFeatures(), 1); e.v(i.GetCommitment().GetVec()); }
inline void encOutput(Enc& e, const TransactionOutput& o) { e.be((uint8_t)o.GetFeatures(), 1).v(o.GetCommitment().GetVec()).be(o.GetRangeProof().GetProofBytes().size(), 8).v(o.GetRangeProof().GetProofBytes()); }
inline void encBody(Enc& e, const TransactionBody& b, EProtocolVersion v) {
    e.be(b.GetInputs().size(), 8).be(b.GetOutputs().size(), 8).be(b.GetKernels().size(), 8);
    for (auto& i : b.GetInputs()) encInput(e, i, v); for (auto& o : b.GetOutputs()) encOutput(e, o); for (auto& k : b.GetKernels()) encKernel(e, k, v);
}
}  // namespace enc
