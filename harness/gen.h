// Generators of (not necessarily valid) consensus objects.
#pragma once
#include "pbt.h"
#include <Core/Models/BlockHeader.h>
#include <Core/Models/CompactBlock.h>
#include <Core/Models/FullBlock.h>
#include <Core/Models/OutputIdentifier.h>
#include <Core/Models/Transaction.h>
#include <Core/Serialization/ByteBuffer.h>
#include <Core/Serialization/Serializer.h>

namespace gen {
using pbt::Src;
template <size_t N> CBigInteger<N> big(Src& s) {
    std::vector<uint8_t> v(N);
    switch (s.below(4)) { case 0: break; case 1: v[N - 1] = (uint8_t)s.below(256); break; case 2: std::fill(v.begin(), v.end(), 0xFF); break; default: s.fill(v.data(), N); }
    return CBigInteger<N>(std::move(v));
}
template <size_t N> CBigInteger<N> uniq(Src& s) { std::vector<uint8_t> v(N); s.fill(v.data(), N); return CBigInteger<N>(std::move(v)); }
inline Hash hash(Src& s) { return big<32>(s); }
inline Commitment commit(Src& s) { auto b = uniq<33>(s); b[0] = (uint8_t)(8 + (b[0] & 1)); return Commitment(std::move(b)); }
inline BlindingFactor blind(Src& s) { return BlindingFactor(big<32>(s)); }
inline Fee fee(Src& s) {
    uint64_t f;
    switch (s.below(4)) { case 0: f = s.below(1000); break; case 1: f = (1ULL << s.below(40)); break; case 2: f = (1ULL << 40) - 1 - s.below(3); break; default: f = s.below(1ULL << 40); }
    return Fee((uint8_t)(s.chance(1, 3) ? s.below(16) : 0), f);
}
inline TransactionKernel kernel(Src& s, int feature = -1) {
    EKernelFeatures ft = (EKernelFeatures)(feature >= 0 ? feature : s.below(4));
    Fee f = ft == COINBASE_KERNEL ? Fee() : fee(s);
    uint64_t lock = ft == HEIGHT_LOCKED ? s.edgy64() : ft == NO_RECENT_DUPLICATE ? 1 + s.below(Consensus::WEEK_HEIGHT) : 0;
    return TransactionKernel(ft, f, lock, commit(s), Signature(uniq<64>(s)));
}
inline TransactionInput input(Src& s) { return TransactionInput((EOutputFeatures)s.below(2), commit(s)); }
inline TransactionOutput output(Src& s) {
    size_t n = s.chance(1, 4) ? s.pick<size_t>({ 0, 1, 674, 675 }) : s.below(676);
    if (n > 64 && s.chance(3, 4)) n = s.below(64);
    return TransactionOutput((EOutputFeatures)s.below(2), commit(s), RangeProof(s.bytes(n)));
}
template <class T, class F> std::vector<T> list(Src& s, size_t max, F f) { size_t n = s.below(max + 1); std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back(f(s)); return v; }
inline TransactionBody body(Src& s, size_t max = 4) {
    auto i = list<TransactionInput>(s, max, [](Src& q) { return input(q); });
    auto o = list<TransactionOutput>(s, max, [](Src& q) { return output(q); });
    auto k = list<TransactionKernel>(s, max, [](Src& q) { return kernel(q); });
    return TransactionBody(std::move(i), std::move(o), std::move(k));
}
inline Transaction tx(Src& s, size_t max = 4) { auto o = blind(s); return Transaction(std::move(o), body(s, max)); }
inline ProofOfWork pow(Src& s, int edgeBits = -1) {
    uint8_t eb = (uint8_t)(edgeBits >= 0 ? edgeBits : s.chance(1, 2) ? s.pick<uint64_t>({ 1, 29, 31, 32, 63, 8, 19 }) : 1 + s.below(63));
    std::vector<uint64_t> n(Consensus::PROOFSIZE);
    uint64_t mask = (1ULL << eb) - 1; int mode = (int)s.below(3);
    for (auto& x : n) x = mode == 0 ? 0 : mode == 1 ? mask : (s.u64() & mask);
    if (mode == 0) n[s.below(n.size())] = s.u64() & mask;
    return ProofOfWork(eb, std::move(n));
}
struct HeaderFields {
    uint16_t version; uint64_t height; int64_t timestamp; Hash prev, prevRoot, outRoot, rpRoot, kRoot; BlindingFactor offset; uint64_t outSize, kSize, td; uint32_t scaling; uint64_t nonce; ProofOfWork pow;
    BlockHeader make() const { return BlockHeader(version, height, timestamp, Hash(prev), Hash(prevRoot), Hash(outRoot), Hash(rpRoot), Hash(kRoot), BlindingFactor(offset), outSize, kSize, td, scaling, nonce, ProofOfWork(pow)); }
};
inline HeaderFields headerFields(Src& s) {
    return HeaderFields{ (uint16_t)s.edgy64(), s.edgy64(), (int64_t)s.edgy64(), hash(s), hash(s), hash(s), hash(s), hash(s), blind(s), s.edgy64(), s.edgy64(), s.edgy64(), (uint32_t)s.edgy64(), s.edgy64(), pow(s) };
}
inline HeaderFields fieldsOf(const BlockHeader& h) {
    return HeaderFields{ h.GetVersion(), h.GetHeight(), h.GetTimestamp(), h.GetPreviousHash(), h.GetPreviousRoot(), h.GetOutputRoot(), h.GetRangeProofRoot(), h.GetKernelRoot(), h.GetTotalKernelOffset(), h.GetOutputMMRSize(), h.GetKernelMMRSize(), h.GetTotalDifficulty(), h.GetScalingDifficulty(), h.GetNonce(), h.GetProofOfWork() };
}
inline BlockHeader header(Src& s) { return headerFields(s).make(); }
inline FullBlock block(Src& s, size_t max = 4) { auto h = std::make_shared<const BlockHeader>(header(s)); return FullBlock(h, body(s, max)); }
inline CompactBlock compact(Src& s, size_t max = 4) {
    auto h = std::make_shared<const BlockHeader>(header(s)); uint64_t nonce = s.edgy64();
    auto o = list<TransactionOutput>(s, max, [](Src& q) { return output(q); });
    auto k = list<TransactionKernel>(s, max, [](Src& q) { return kernel(q); });
    auto i = list<ShortId>(s, max, [](Src& q) { return ShortId(big<6>(q)); });
    return CompactBlock(h, nonce, std::move(o), std::move(k), std::move(i));
}
inline EProtocolVersion version(Src& s) { return s.pick<EProtocolVersion>({ EProtocolVersion::V1, EProtocolVersion::V2, EProtocolVersion::V3, EProtocolVersion::V1000 }); }
template <class T> std::vector<uint8_t> ser(const T& t, EProtocolVersion v) { Serializer s(v); t.Serialize(s); return s.GetBytes(); }
template <class T> T de(const std::vector<uint8_t>& b, EProtocolVersion v, size_t* rest = nullptr) { ByteBuffer bb(b, v); T t = T::Deserialize(bb); if (rest) *rest = bb.GetRemainingSize(); return t; }

// independent encoder of the published formats
struct Enc {
    std::vector<uint8_t> b;
    Enc& be(uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) b.push_back((uint8_t)(v >> (8 * i))); return *this; }
    template <class C> Enc& raw(const C& c) { b.insert(b.end(), c.begin(), c.end()); return *this; }
    Enc& v(const std::vector<uint8_t>& c) { b.insert(b.end(), c.begin(), c.end()); return *this; }
};
}  // namespace gen
