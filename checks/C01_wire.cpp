// C01: wire formats, canonical hashes, canonical order
#include "env.h"
#include "enc.h"
#include "gen.h"
#include <Crypto/Hasher.h>
#include <openssl/evp.h>
#include <sodium.h>
using namespace pbt;
using namespace enc;
static EProtocolVersion VS[] = { EProtocolVersion::V1, EProtocolVersion::V2, EProtocolVersion::V3, EProtocolVersion::V1000 };

static bool sameKernel(const TransactionKernel& a, const TransactionKernel& b) { return a.GetFeatures() == b.GetFeatures() && a.GetFee() == b.GetFee() && a.GetFeeShift() == b.GetFeeShift() && a.GetLockHeight() == b.GetLockHeight() && a.GetExcessCommitment() == b.GetExcessCommitment() && a.GetExcessSignature() == b.GetExcessSignature() && a.GetHash() == b.GetHash(); }
static bool sameOutput(const TransactionOutput& a, const TransactionOutput& b) { return a.GetFeatures() == b.GetFeatures() && a.GetCommitment() == b.GetCommitment() && a.GetRangeProof() == b.GetRangeProof() && a.GetHash() == b.GetHash(); }
static bool sameInput(const TransactionInput& a, const TransactionInput& b) { return a.GetFeatures() == b.GetFeatures() && a.GetCommitment() == b.GetCommitment() && a.GetHash() == b.GetHash(); }
static void requireSameBody(const TransactionBody& a, const TransactionBody& b) {
    REQUIRE_EQ(a.GetInputs().size(), b.GetInputs().size()); REQUIRE_EQ(a.GetOutputs().size(), b.GetOutputs().size()); REQUIRE_EQ(a.GetKernels().size(), b.GetKernels().size());
    for (size_t i = 0; i < a.GetInputs().size(); i++) REQUIRE(sameInput(a.GetInputs()[i], b.GetInputs()[i]));
    for (size_t i = 0; i < a.GetOutputs().size(); i++) REQUIRE(sameOutput(a.GetOutputs()[i], b.GetOutputs()[i]));
    for (size_t i = 0; i < a.GetKernels().size(); i++) REQUIRE(sameKernel(a.GetKernels()[i], b.GetKernels()[i]));
}
static void requireSameHeader(const BlockHeader& a, const BlockHeader& b) {
    REQUIRE_EQ(a.GetVersion(), b.GetVersion()); REQUIRE_EQ(a.GetHeight(), b.GetHeight()); REQUIRE_EQ(a.GetTimestamp(), b.GetTimestamp()); REQUIRE(a.GetPreviousHash() == b.GetPreviousHash()); REQUIRE(a.GetPreviousRoot() == b.GetPreviousRoot()); REQUIRE(a.GetOutputRoot() == b.GetOutputRoot()); REQUIRE(a.GetRangeProofRoot() == b.GetRangeProofRoot()); REQUIRE(a.GetKernelRoot() == b.GetKernelRoot()); REQUIRE(a.GetTotalKernelOffset() == b.GetTotalKernelOffset());
    REQUIRE_EQ(a.GetOutputMMRSize(), b.GetOutputMMRSize()); REQUIRE_EQ(a.GetKernelMMRSize(), b.GetKernelMMRSize()); REQUIRE_EQ(a.GetTotalDifficulty(), b.GetTotalDifficulty()); REQUIRE_EQ(a.GetScalingDifficulty(), b.GetScalingDifficulty()); REQUIRE_EQ(a.GetNonce(), b.GetNonce()); REQUIRE_EQ((int)a.GetEdgeBits(), (int)b.GetEdgeBits()); REQUIRE(a.GetProofNonces() == b.GetProofNonces()); REQUIRE(a.GetHash() == b.GetHash());
}
template <class It, class H> static void requireSorted(const It& v, H h) { for (size_t i = 1; i < v.size(); i++) REQUIRE_MSG(!(h(v[i]) < h(v[i - 1])), "elements out of hash order at " << i); }
// the order of a body is by the published hash of each element
static void requireCanonical(const TransactionBody& b) {
    requireSorted(b.GetInputs(), [](const TransactionInput& i) { Enc e; encInput(e, i, EProtocolVersion::V1000); return b2b(e.b); });
    requireSorted(b.GetOutputs(), [](const TransactionOutput& o) { Enc e; e.be((uint8_t)o.GetFeatures(), 1).v(o.GetCommitment().GetVec()); return b2b(e.b); });
    requireSorted(b.GetKernels(), [](const TransactionKernel& k) { Enc e; encKernel(e, k, EProtocolVersion::V1); return b2b(e.b); });
}
static std::shared_ptr<env::MapCoinView> coinView(const TransactionBody& b) { auto cv = std::make_shared<env::MapCoinView>(); cv->add(b); Global::SetCoinView(cv); return cv; }
template <class T> static T roundTrip(Ctx& c, const T& t, const std::vector<uint8_t>& expect, EProtocolVersion v) {
    auto bytes = gen::ser(t, v);
    REQUIRE_MSG(bytes == expect, "encoding differs from the published format; version " << (int)v << "\n got  " << hex(bytes) << "\n want " << hex(expect));
    // trailing bytes stay unread
    auto longer = bytes; size_t tail = c.src.below(3); for (size_t i = 0; i < tail; i++) longer.push_back((uint8_t)c.src.below(256));
    size_t rest = 0; T d = gen::de<T>(longer, v, &rest); REQUIRE_EQ(rest, tail);
    REQUIRE_MSG(gen::ser(d, v) == bytes, "re-encoding differs");
    // decoding a truncated encoding is refused
    if (!bytes.empty()) { auto cut = bytes; cut.resize(c.src.below(bytes.size())); bool threw = false; try { gen::de<T>(cut, v); } catch (const std::exception&) { threw = true; } REQUIRE_MSG(threw, "accepted a truncated encoding of " << cut.size() << " of " << bytes.size() << " bytes"); }
    return d;
}
static void header(Ctx& c) {
    auto f = gen::headerFields(c.src); BlockHeader h = f.make();
    c.log << "header v" << f.version << " h" << f.height << " eb" << (int)f.pow.GetEdgeBits(); c.nontrivial();
    auto v = gen::version(c.src);
    Enc e; encHeader(e, h); BlockHeader d = roundTrip(c, h, e.b, v);
    requireSameHeader(h, d);
    REQUIRE(d.GetTotalKernelOffset() == f.offset); REQUIRE(d.GetPreviousHash() == f.prev); REQUIRE(d.GetKernelRoot() == f.kRoot); REQUIRE(d.GetRangeProofRoot() == f.rpRoot); REQUIRE(d.GetOutputRoot() == f.outRoot); REQUIRE(d.GetPreviousRoot() == f.prevRoot);
    REQUIRE_MSG(vec(h.GetHash()) == b2b(cycleBits(h.GetProofOfWork())), "header hash is not Blake2b of the packed cycle");
    Enc p; encHeader(p, h, false); REQUIRE(h.GetPreProofOfWork() == p.b);
    // changing any nonce changes the hash
    auto n = h.GetProofNonces(); size_t i = c.src.below(42); n[i] ^= 1ULL << c.src.below(h.GetEdgeBits()); auto g = f; g.pow = ProofOfWork(f.pow.GetEdgeBits(), std::vector<uint64_t>(n)); REQUIRE(g.make().GetHash() != h.GetHash());
}
static void kernel(Ctx& c) {
    auto k = gen::kernel(c.src); c.log << "kernel f" << (int)k.GetFeatures() << " fee " << k.GetFee() << "<<" << (int)k.GetFeeShift() << " lock " << k.GetLockHeight(); c.nontrivial(); c.label("kernel_feature=" + std::to_string((int)k.GetFeatures()));
    Enc h; encKernel(h, k, EProtocolVersion::V1); REQUIRE_MSG(vec(k.GetHash()) == b2b(h.b), "kernel hash");
    for (auto v : VS) { Enc e; encKernel(e, k, v); auto d = roundTrip(c, k, e.b, v); REQUIRE_MSG(sameKernel(k, d), "decoded kernel differs, version " << (int)v); REQUIRE_EQ(k == d, true); }
    // signature message
    Enc m; m.be((uint8_t)k.GetFeatures(), 1); if (k.GetFeatures() != 1) m.be(rawFee(k), 8); if (k.GetFeatures() == 2) m.be(k.GetLockHeight(), 8); if (k.GetFeatures() == 3) m.be(k.GetLockHeight(), 2);
    REQUIRE_MSG(vec(k.GetSignatureMessage()) == b2b(m.b), "kernel signature message");
    // a changed field changes the hash
    auto sig = k.GetExcessSignature().GetSignatureBytes(); sig[c.src.below(64)] ^= (uint8_t)(1 << c.src.below(8));
    REQUIRE(TransactionKernel(k.GetFeatures(), Fee(k.GetFeeShift(), k.GetFee()), k.GetLockHeight(), k.GetExcessCommitment(), Signature(sig)).GetHash() != k.GetHash());
    if (k.GetFeatures() != 1) { REQUIRE(TransactionKernel(k.GetFeatures(), Fee(k.GetFeeShift(), k.GetFee() ^ (1ULL << c.src.below(40))), k.GetLockHeight(), k.GetExcessCommitment(), k.GetExcessSignature()).GetHash() != k.GetHash()); REQUIRE(TransactionKernel(k.GetFeatures(), Fee(k.GetFeeShift() ^ (1 << c.src.below(4)), k.GetFee()), k.GetLockHeight(), k.GetExcessCommitment(), k.GetExcessSignature()).GetHash() != k.GetHash()); }
}
static void inout(Ctx& c) {
    auto i = gen::input(c.src); auto o = gen::output(c.src); TransactionBody ib({ i }, {}, {}); coinView(ib);
    c.log << "input f" << (int)i.GetFeatures() << " output proof " << o.GetRangeProof().GetProofBytes().size(); c.nontrivial();
    for (auto v : VS) { Enc e; encInput(e, i, v); REQUIRE(sameInput(i, roundTrip(c, i, e.b, v))); Enc x; encOutput(x, o); REQUIRE(sameOutput(o, roundTrip(c, o, x.b, v))); }
    Enc h; h.be((uint8_t)o.GetFeatures(), 1).v(o.GetCommitment().GetVec()); REQUIRE_MSG(vec(o.GetHash()) == b2b(h.b), "output hash");
    REQUIRE_MSG(vec(i.GetHash()) == b2b(i.GetCommitment().GetVec()), "input hash");
    auto id = OutputIdentifier::FromOutput(o); REQUIRE(gen::ser(id, EProtocolVersion::V1) == h.b); auto id2 = gen::de<OutputIdentifier>(h.b, EProtocolVersion::V1); REQUIRE(id2.GetFeatures() == o.GetFeatures() && id2.GetCommitment() == o.GetCommitment());
}
static void transaction(Ctx& c) {
    auto t = gen::tx(c.src, 6); auto v = gen::version(c.src); auto cv = coinView(t.GetBody());
    c.log << "tx " << t.GetInputs().size() << "/" << t.GetOutputs().size() << "/" << t.GetKernels().size() << " v" << (int)v; c.nontrivial(t.GetInputs().size() + t.GetOutputs().size() + t.GetKernels().size() >= 2);
    requireCanonical(t.GetBody());
    auto off = t.GetOffset().GetBytes(); Enc e; e.v(std::vector<uint8_t>(off.cbegin(), off.cend())); encBody(e, t.GetBody(), v);
    auto d = roundTrip(c, t, e.b, v); requireSameBody(t.GetBody(), d.GetBody()); REQUIRE(t.GetOffset() == d.GetOffset());
    // the hash is that of the version 1 encoding, whichever version carried it
    Enc h; h.v(std::vector<uint8_t>(off.cbegin(), off.cend())); encBody(h, t.GetBody(), EProtocolVersion::V1);
    REQUIRE_MSG(vec(d.GetHash()) == b2b(h.b) && vec(t.GetHash()) == b2b(h.b), "transaction hash");
    Transaction cp(t); REQUIRE(cp.GetHash() == t.GetHash()); Transaction as; as = d; REQUIRE(as.GetHash() == t.GetHash()); Transaction mv(std::move(cp)); REQUIRE(mv.GetHash() == t.GetHash());
    // elements sent in another order are put in canonical order
    auto in = t.GetInputs(); auto out = t.GetOutputs(); auto ker = t.GetKernels();
    auto shuffle = [&](auto& x) { for (size_t i = x.size(); i > 1; i--) std::swap(x[i - 1], x[c.src.below(i)]); }; shuffle(in); shuffle(out); shuffle(ker);
    auto raw = TransactionBody::NoSort(in, out, ker); Serializer s(v); s.AppendBigInteger<32>(off); raw.Serialize(s); auto d2 = gen::de<Transaction>(s.GetBytes(), v); requireCanonical(d2.GetBody()); requireSameBody(t.GetBody(), d2.GetBody()); REQUIRE(d2.GetHash() == t.GetHash());
    auto b3 = TransactionBody(std::move(in), std::move(out), std::move(ker)); requireCanonical(b3); requireSameBody(t.GetBody(), b3);
}
static void block(Ctx& c) {
    auto b = gen::block(c.src, 5); auto v = gen::version(c.src); auto cv = coinView(b.GetTransactionBody());
    c.log << "block " << b.GetInputs().size() << "/" << b.GetOutputs().size() << "/" << b.GetKernels().size() << " v" << (int)v; c.nontrivial();
    Enc e; encHeader(e, *b.GetHeader()); encBody(e, b.GetTransactionBody(), v);
    auto d = roundTrip(c, b, e.b, v); requireSameHeader(*b.GetHeader(), *d.GetHeader()); requireSameBody(b.GetTransactionBody(), d.GetTransactionBody()); REQUIRE(d.GetHash() == b.GetHash()); REQUIRE(!d.WasValidated());
}
static void compact(Ctx& c) {
    auto b = gen::compact(c.src, 5); auto v = gen::version(c.src);
    c.log << "compact " << b.GetOutputs().size() << "/" << b.GetKernels().size() << "/" << b.GetShortIds().size() << " v" << (int)v; c.nontrivial();
    Enc e; encHeader(e, *b.GetHeader()); e.be(b.GetNonce(), 8).be(b.GetOutputs().size(), 8).be(b.GetKernels().size(), 8).be(b.GetShortIds().size(), 8); for (auto& o : b.GetOutputs()) encOutput(e, o); for (auto& k : b.GetKernels()) encKernel(e, k, v); for (auto& s : b.GetShortIds()) e.v(s.GetId().GetData());
    auto d = roundTrip(c, b, e.b, v); requireSameHeader(*b.GetHeader(), *d.GetHeader()); REQUIRE_EQ(d.GetNonce(), b.GetNonce()); REQUIRE_EQ(d.GetShortIds().size(), b.GetShortIds().size()); for (size_t i = 0; i < b.GetShortIds().size(); i++) REQUIRE(d.GetShortIds()[i].GetId() == b.GetShortIds()[i].GetId()); for (size_t i = 0; i < b.GetOutputs().size(); i++) REQUIRE(sameOutput(b.GetOutputs()[i], d.GetOutputs()[i])); for (size_t i = 0; i < b.GetKernels().size(); i++) REQUIRE(sameKernel(b.GetKernels()[i], d.GetKernels()[i]));
}
// V1 carries fields that a kernel variant does not have: they must be zero, or one kernel would have many hashes
static void canonicalV1(Ctx& c) {
    auto k = gen::kernel(c.src); Enc e; uint64_t lock = k.GetLockHeight(), fee = rawFee(k); int ft = (int)k.GetFeatures();
    int what = (int)c.src.below(3); bool bad = false;
    if (what == 0 && ft <= 1) { lock = 1 + c.src.below(1000); bad = true; } else if (what == 1 && ft == 1) { fee = 1 + c.src.below(1000); bad = true; } else if (what == 2) { ft = 4 + (int)c.src.below(252); bad = true; }
    c.log << "v1 kernel feature " << ft << " fee " << fee << " lock " << lock; c.nontrivial(bad);
    auto v = what == 2 ? gen::version(c.src) : EProtocolVersion::V1;
    e.be(ft, 1).be(fee, 8); if (what != 2 || v == EProtocolVersion::V1) e.be(lock, 8); e.v(k.GetExcessCommitment().GetVec()).v(k.GetExcessSignature().GetSignatureBytes().GetData());
    bool threw = false; try { gen::de<TransactionKernel>(e.b, v); } catch (const std::exception&) { threw = true; }
    REQUIRE_MSG(threw == bad, (bad ? "accepted a kernel with a meaningless field or unknown feature" : "refused a valid kernel"));
}
// bits after the last nonce of a packed cycle are zero, or one proof would have many hashes
static void powPadding(Ctx& c) {
    auto p = gen::pow(c.src); Enc e; e.be(p.GetEdgeBits(), 1).v(cycleBits(p)); int used = p.GetEdgeBits() * 42, total = (int)(e.b.size() - 1) * 8;
    c.log << "proof with " << (int)p.GetEdgeBits() << " edge bits, " << total - used << " padding bits"; if (used == total) return; c.nontrivial();
    int bit = used + (int)c.src.below(total - used); e.b[1 + bit / 8] |= (uint8_t)(1 << (bit % 8));
    bool threw = false; Hash h; try { ByteBuffer b(e.b); h = ProofOfWork::Deserialize(b).GetHash(); } catch (const std::exception&) { threw = true; }
    REQUIRE_MSG(threw || h == p.GetHash(), "the same proof of work has two hashes");
}
void pbt::setup(Check& c) {
    c.id = "C01"; c.workerInit = env::workerDefault;
    c.rule = "random consensus objects (all field values, edge-biased; all kernel features, edge bits 1-63, proof sizes 0-675, bodies of 0-6 elements each, all four protocol versions), compared with an independent encoder and libsodium Blake2b; non-trivial: at least one element / a variant with extra fields";
    c.quickCases = 12000; c.thoroughCases = 400000; c.quickMin = 6;
    c.parts = { { "header", 3, header }, { "kernel", 3, kernel }, { "inout", 2, inout }, { "tx", 4, transaction }, { "block", 2, block }, { "compact", 2, compact }, { "canonical-v1", 2, canonicalV1 }, { "pow-padding", 1, powPadding } };
    c.assumptions = { "libsodium's Blake2b is the reference hash", "little-endian host" };
}
