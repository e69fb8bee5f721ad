// Every P2P message body: an independent generator of its published bytes, and the decoder of the code under test.
#pragma once
#include "enc.h"
#include "env.h"
#include <P2P/Messages/BanReasonMessage.h>
#include <P2P/Messages/BlockMessage.h>
#include <P2P/Messages/CompactBlockMessage.h>
#include <P2P/Messages/ErrorMessage.h>
#include <P2P/Messages/GetBlockMessage.h>
#include <P2P/Messages/GetCompactBlockMessage.h>
#include <P2P/Messages/GetHeadersMessage.h>
#include <P2P/Messages/GetPeerAddressesMessage.h>
#include <P2P/Messages/GetTransactionMessage.h>
#include <P2P/Messages/HandMessage.h>
#include <P2P/Messages/HeaderMessage.h>
#include <P2P/Messages/HeadersMessage.h>
#include <P2P/Messages/MessageHeader.h>
#include <P2P/Messages/PeerAddressesMessage.h>
#include <P2P/Messages/PingMessage.h>
#include <P2P/Messages/PongMessage.h>
#include <P2P/Messages/SegmentRequestMessage.h>
#include <P2P/Messages/SegmentResponseMessage.h>
#include <P2P/Messages/ShakeMessage.h>
#include <P2P/Messages/StemTransactionMessage.h>
#include <P2P/Messages/TransactionKernelMessage.h>
#include <P2P/Messages/TransactionMessage.h>
#include <P2P/Messages/TxHashSetArchiveMessage.h>
#include <P2P/Messages/TxHashSetRequestMessage.h>

namespace p2pm {
using enc::Enc; using pbt::Src;
typedef std::vector<uint8_t> Bytes;
struct Decoded { Bytes message; size_t rest; int type; Bytes clone; std::string text; };
struct Msg { std::string name; int type; uint64_t max; std::function<void(Src&, EProtocolVersion, Enc&)> gen; std::function<Decoded(const Bytes&, EProtocolVersion)> dec; };
template <class M> Decoded decodeAs(const Bytes& b, EProtocolVersion v) {
    ByteBuffer bb(b, v); M m = M::Deserialize(bb); Decoded d; d.rest = bb.GetRemainingSize(); d.message = m.Serialize(v); d.type = (int)m.GetMessageType(); d.clone = m.Clone()->Serialize(v); return d;
}
template <> inline Decoded decodeAs<ErrorMessage>(const Bytes& b, EProtocolVersion v) {
    ByteBuffer bb(b, v); ErrorMessage m = ErrorMessage::Deserialize(bb); Decoded d; d.rest = bb.GetRemainingSize(); { std::string smash(200, 'x'); volatile char c = smash[17]; (void)c; } d.message = m.Serialize(v); d.type = (int)m.GetMessageType(); d.clone = m.Clone()->Serialize(v); d.text = m.GetErrorMessage(); return d;
}
inline void str(Enc& e, const std::string& s) { e.be(s.size(), 8).raw(s); }
inline std::string text(Src& s, size_t max) { size_t n = s.size(max); std::string t; for (size_t i = 0; i < n; i++) t += (char)s.below(256); return t; }
inline void h32(Src& s, Enc& e) { e.v(gen::hash(s).GetData()); }
inline void addr(Src& s, Enc& e) { if (s.flip()) { e.be(1, 1).v(s.bytes(16)); } else { e.be(0, 1).v(s.bytes(4)); } e.be(s.edgy64() & 0xFFFF, 2); }
inline void segId(Src& s, Enc& e) { e.be(s.below(256), 1).be(s.edgy64(), 8); }
inline void segProof(Src& s, Enc& e) { size_t n = s.below(5); e.be(n, 8); for (size_t i = 0; i < n; i++) h32(s, e); }
template <class F> void segment(Src& s, Enc& e, F leaf) {
    segId(s, e); size_t n = s.below(5); e.be(n, 8); for (size_t i = 0; i < n; i++) e.be(s.edgy64(), 8); for (size_t i = 0; i < n; i++) h32(s, e);
    size_t m = s.below(5); e.be(m, 8); for (size_t i = 0; i < m; i++) e.be(s.edgy64(), 8); for (size_t i = 0; i < m; i++) leaf(s, e); segProof(s, e);
}
inline void bitmapSegment(Src& s, Enc& e) {
    segId(s, e); size_t n = s.below(4); e.be(n, 2);
    for (size_t i = 0; i < n; i++) { size_t chunks = s.below(4); int mode = (int)s.below(3); e.be(chunks, 1).be(mode, 1); if (mode == 0) e.v(s.bytes(chunks * 128)); else { size_t k = s.below(6); e.be(k, 2); for (size_t j = 0; j < k; j++) e.be(s.edgy64() & 0xFFFF, 2); } }
    segProof(s, e);
}
inline void encTx(const Transaction& t, EProtocolVersion v, Enc& e) { auto off = t.GetOffset().GetBytes(); e.v(Bytes(off.cbegin(), off.cend())); enc::encBody(e, t.GetBody(), v); }
inline void encCompact(const CompactBlock& b, EProtocolVersion v, Enc& e) {
    enc::encHeader(e, *b.GetHeader()); e.be(b.GetNonce(), 8).be(b.GetOutputs().size(), 8).be(b.GetKernels().size(), 8).be(b.GetShortIds().size(), 8);
    for (auto& o : b.GetOutputs()) enc::encOutput(e, o); for (auto& k : b.GetKernels()) enc::encKernel(e, k, v); for (auto& i : b.GetShortIds()) e.v(i.GetId().GetData());
}
// finds input features in a deterministic way, so that formats without features decode
struct HashCoinView : ICoinView { EOutputFeatures GetOutputType(const Commitment& c) const override { return (EOutputFeatures)(c.GetVec()[32] & 1); } };
inline TransactionBody fixFeatures(const TransactionBody& b) { std::vector<TransactionInput> in; for (auto& i : b.GetInputs()) in.push_back(TransactionInput((EOutputFeatures)(i.GetCommitment().GetVec()[32] & 1), i.GetCommitment())); auto o = b.GetOutputs(); auto k = b.GetKernels(); return TransactionBody(std::move(in), std::move(o), std::move(k)); }

inline const std::vector<Msg>& all() {
    using M = MessageTypes::EMessageType; const uint64_t BLOCK = (40000 / 21) * 708;
    static std::vector<Msg> v = {
        { "Error", 0, 0, [](Src& s, EProtocolVersion, Enc& e) { e.be(s.edgy32(), 4); str(e, text(s, 40)); }, decodeAs<ErrorMessage> },
        { "Hand", 1, 128, [](Src& s, EProtocolVersion, Enc& e) { e.be(s.edgy32(), 4).be(s.edgy32(), 4).be(s.edgy64(), 8).be(s.edgy64(), 8); addr(s, e); addr(s, e); str(e, text(s, 40)); h32(s, e); }, decodeAs<HandMessage> },
        { "Shake", 2, 88, [](Src& s, EProtocolVersion, Enc& e) { e.be(s.edgy32(), 4).be(s.edgy32(), 4).be(s.edgy64(), 8); str(e, text(s, 40)); h32(s, e); }, decodeAs<ShakeMessage> },
        { "Ping", 3, 16, [](Src& s, EProtocolVersion, Enc& e) { e.be(s.edgy64(), 8).be(s.edgy64(), 8); }, decodeAs<PingMessage> },
        { "Pong", 4, 16, [](Src& s, EProtocolVersion, Enc& e) { e.be(s.edgy64(), 8).be(s.edgy64(), 8); }, decodeAs<PongMessage> },
        { "GetPeerAddrs", 5, 4, [](Src& s, EProtocolVersion, Enc& e) { e.be(s.edgy32(), 4); }, decodeAs<GetPeerAddressesMessage> },
        { "PeerAddrs", 6, 4 + 19 * 256, [](Src& s, EProtocolVersion, Enc& e) { size_t n = s.chance(1, 20) ? 256 : s.below(6); e.be(n, 4); for (size_t i = 0; i < n; i++) addr(s, e); }, decodeAs<PeerAddressesMessage> },
        { "GetHeaders", 7, 1 + 32 * 20, [](Src& s, EProtocolVersion, Enc& e) { size_t n = s.below(21); e.be(n, 1); for (size_t i = 0; i < n; i++) h32(s, e); }, decodeAs<GetHeadersMessage> },
        { "Header", 8, 365, [](Src& s, EProtocolVersion, Enc& e) { enc::encHeader(e, gen::header(s)); }, decodeAs<HeaderMessage> },
        { "Headers", 9, 2 + 365 * 512, [](Src& s, EProtocolVersion, Enc& e) { size_t n = s.chance(1, 300) ? s.pick<size_t>({ 512, 511, 256, 255 }) : s.below(5); e.be(n, 2); for (size_t i = 0; i < n; i++) enc::encHeader(e, gen::header(s)); }, decodeAs<HeadersMessage> },
        { "GetBlock", 10, 32, [](Src& s, EProtocolVersion, Enc& e) { h32(s, e); }, decodeAs<GetBlockMessage> },
        { "Block", 11, BLOCK, [](Src& s, EProtocolVersion v, Enc& e) { auto h = gen::header(s); enc::encHeader(e, h); enc::encBody(e, fixFeatures(gen::body(s)), v); }, decodeAs<BlockMessage> },
        { "GetCompactBlock", 12, 32, [](Src& s, EProtocolVersion, Enc& e) { h32(s, e); }, decodeAs<GetCompactBlockMessage> },
        { "CompactBlock", 13, BLOCK / 10, [](Src& s, EProtocolVersion v, Enc& e) { encCompact(gen::compact(s), v, e); }, decodeAs<CompactBlockMessage> },
        { "StemTransaction", 14, BLOCK, [](Src& s, EProtocolVersion v, Enc& e) { auto o = gen::blind(s); encTx(Transaction(std::move(o), fixFeatures(gen::body(s))), v, e); }, decodeAs<StemTransactionMessage> },
        { "Transaction", 15, BLOCK, [](Src& s, EProtocolVersion v, Enc& e) { auto o = gen::blind(s); encTx(Transaction(std::move(o), fixFeatures(gen::body(s))), v, e); }, decodeAs<TransactionMessage> },
        { "TxHashSetRequest", 16, 40, [](Src& s, EProtocolVersion, Enc& e) { h32(s, e); e.be(s.edgy64(), 8); }, decodeAs<TxHashSetRequestMessage> },
        { "TxHashSetArchive", 17, 64, [](Src& s, EProtocolVersion, Enc& e) { h32(s, e); e.be(s.edgy64(), 8).be(s.edgy64(), 8); }, decodeAs<TxHashSetArchiveMessage> },
        { "BanReason", 18, 64, [](Src& s, EProtocolVersion, Enc& e) { e.be(s.edgy32(), 4); }, decodeAs<BanReasonMessage> },
        { "GetTransaction", 19, 32, [](Src& s, EProtocolVersion, Enc& e) { h32(s, e); }, decodeAs<GetTransactionMessage> },
        { "TransactionKernel", 20, 32, [](Src& s, EProtocolVersion, Enc& e) { h32(s, e); }, decodeAs<TransactionKernelMessage> },
        { "GetOutputBitmapSegment", 21, 41, [](Src& s, EProtocolVersion, Enc& e) { h32(s, e); segId(s, e); }, decodeAs<GetOutputBitmapSegmentMessage> },
        { "OutputBitmapSegment", 22, 2 * BLOCK, [](Src& s, EProtocolVersion, Enc& e) { h32(s, e); bitmapSegment(s, e); h32(s, e); }, decodeAs<OutputBitmapSegmentMessage> },
        { "GetOutputSegment", 23, 41, [](Src& s, EProtocolVersion, Enc& e) { h32(s, e); segId(s, e); }, decodeAs<GetOutputSegmentMessage> },
        { "OutputSegment", 24, 2 * BLOCK, [](Src& s, EProtocolVersion, Enc& e) { h32(s, e); segment(s, e, [](Src& q, Enc& x) { x.be(q.below(2), 1).v(gen::commit(q).GetVec()); }); h32(s, e); }, decodeAs<OutputSegmentMessage> },
        { "GetRangeProofSegment", 25, 41, [](Src& s, EProtocolVersion, Enc& e) { h32(s, e); segId(s, e); }, decodeAs<GetRangeProofSegmentMessage> },
        { "RangeProofSegment", 26, 2 * BLOCK, [](Src& s, EProtocolVersion, Enc& e) { h32(s, e); segment(s, e, [](Src& q, Enc& x) { size_t n = q.below(676); if (!q.chance(1, 6)) n %= 40; x.be(n, 8).v(q.bytes(n)); }); }, decodeAs<RangeProofSegmentMessage> },
        { "GetKernelSegment", 27, 41, [](Src& s, EProtocolVersion, Enc& e) { h32(s, e); segId(s, e); }, decodeAs<GetKernelSegmentMessage> },
        { "KernelSegment", 28, 2 * BLOCK, [](Src& s, EProtocolVersion v, Enc& e) { h32(s, e); segment(s, e, [v](Src& q, Enc& x) { enc::encKernel(x, gen::kernel(q), v); }); }, decodeAs<KernelSegmentMessage> },
    };
    return v;
}
}  // namespace p2pm
