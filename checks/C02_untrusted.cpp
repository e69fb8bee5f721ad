// C02: decoding untrusted bytes
// VARIANT: asan
#include "p2pmsgs.h"
#include <PMMR/Common/Segment.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
using namespace pbt; using namespace p2pm;
static bool g_count = false; static size_t g_total = 0, g_biggest = 0;
static void onMalloc(const volatile void*, size_t n) { if (g_count) { g_total += n; if (n > g_biggest) g_biggest = n; } }
struct Target { std::string name; std::function<void(Src&, EProtocolVersion, Enc&)> gen; std::function<Bytes(const Bytes&, EProtocolVersion)> reencode; };
template <class T> Bytes re(const Bytes& b, EProtocolVersion v) { ByteBuffer bb(b, v); T t = T::Deserialize(bb); Serializer s(v); t.Serialize(s); return s.GetBytes(); }
static const std::vector<Target>& targets() {
    static std::vector<Target> t;
    if (!t.empty()) return t;
    for (auto& m : all()) t.push_back({ m.name, m.gen, [&m](const Bytes& b, EProtocolVersion v) { auto d = m.dec(b, v); return Bytes(d.message.begin() + 11, d.message.end()); } });
    t.push_back({ "BlockHeader", [](Src& s, EProtocolVersion, Enc& e) { enc::encHeader(e, gen::header(s)); }, re<BlockHeader> });
    t.push_back({ "FullBlock", [](Src& s, EProtocolVersion v, Enc& e) { enc::encHeader(e, gen::header(s)); enc::encBody(e, fixFeatures(gen::body(s)), v); }, re<FullBlock> });
    t.push_back({ "Transaction", [](Src& s, EProtocolVersion v, Enc& e) { auto o = gen::blind(s); encTx(Transaction(std::move(o), fixFeatures(gen::body(s))), v, e); }, re<Transaction> });
    t.push_back({ "TransactionBody", [](Src& s, EProtocolVersion v, Enc& e) { enc::encBody(e, fixFeatures(gen::body(s)), v); }, re<TransactionBody> });
    t.push_back({ "TransactionKernel", [](Src& s, EProtocolVersion v, Enc& e) { enc::encKernel(e, gen::kernel(s), v); }, re<TransactionKernel> });
    t.push_back({ "TransactionOutput", [](Src& s, EProtocolVersion v, Enc& e) { enc::encOutput(e, gen::output(s)); }, re<TransactionOutput> });
    t.push_back({ "CompactBlock", [](Src& s, EProtocolVersion v, Enc& e) { encCompact(gen::compact(s), v, e); }, re<CompactBlock> });
    t.push_back({ "OutputIdentifier", [](Src& s, EProtocolVersion, Enc& e) { e.be(s.below(2), 1).v(gen::commit(s).GetVec()); }, re<OutputIdentifier> });
    t.push_back({ "ProofOfWork", [](Src& s, EProtocolVersion, Enc& e) { auto p = gen::pow(s); e.be(p.GetEdgeBits(), 1).v(enc::cycleBits(p)); }, re<ProofOfWork> });
    t.push_back({ "MessageHeader", [](Src& s, EProtocolVersion, Enc& e) { e.v(Global::GetMagicBytes()).be(s.below(29), 1).be(s.below(100), 8); }, re<MessageHeader> });
    t.push_back({ "VarStr", [](Src& s, EProtocolVersion, Enc& e) { str(e, text(s, 30)); }, [](const Bytes& b, EProtocolVersion v) { ByteBuffer bb(b, v); std::string x = bb.ReadVarStr(); Serializer s(v); s.AppendVarStr(x); return s.GetBytes(); } });
    t.push_back({ "ReadVector", [](Src& s, EProtocolVersion, Enc& e) { size_t n = s.below(30); e.be(n, 8).v(s.bytes(n)); }, [](const Bytes& b, EProtocolVersion v) { ByteBuffer bb(b, v); uint64_t n = bb.ReadU64(); auto x = bb.ReadVector(n); Serializer s(v); s.Append<uint64_t>(x.size()); s.AppendByteVector(x); return s.GetBytes(); } });
    t.push_back({ "ReadString", [](Src& s, EProtocolVersion, Enc& e) { size_t n = s.below(30); e.be(n, 8).v(s.bytes(n)); }, [](const Bytes& b, EProtocolVersion v) { ByteBuffer bb(b, v); uint64_t n = bb.ReadU64(); auto x = bb.ReadString(n); Serializer s(v); s.Append<uint64_t>(x.size()); s.AppendStr(x); return s.GetBytes(); } });
    return t;
}
static Bytes mutate(Src& s, Bytes b) {
    size_t n = 1 + s.size(6);
    for (size_t i = 0; i < n; i++) {
        if (b.empty()) { b = s.bytes(1 + s.below(8)); continue; }
        size_t p = s.below(b.size());
        switch (s.weighted({ 6, 4, 4, 6, 3, 3, 2 })) {
        case 0: b[p] ^= (uint8_t)(1 << s.below(8)); break;
        case 1: b[p] = s.pick<uint8_t>({ 0, 1, 2, 3, 0x3F, 0x40, 0x7F, 0x80, 0xFE, 0xFF }); break;
        case 2: b.resize(p); break;
        case 3: { uint64_t v = s.edgy64(); int w = (int)s.pick<uint64_t>({ 8, 8, 4, 2 }); for (int k = 0; k < w && p + k < b.size(); k++) b[p + k] = (uint8_t)(v >> (8 * (w - 1 - k))); break; }
        case 4: { auto x = s.bytes(1 + s.below(40)); b.insert(b.begin() + p, x.begin(), x.end()); break; }
        case 5: { size_t q = p + s.below(b.size() - p); b.erase(b.begin() + p, b.begin() + q); break; }
        case 6: { size_t q = s.below(b.size()); size_t len = std::min<size_t>({ b.size() - p, b.size() - q, 1 + s.below(64) }); Bytes x(b.begin() + q, b.begin() + q + len); std::copy(x.begin(), x.end(), b.begin() + p); break; }
        }
    }
    return b;
}
// a length or count field of the encoding replaced: found by trying every aligned place
static void run(Ctx& c) {
    auto& s = c.src; auto& t = s.pick(targets()); auto v = gen::version(s); Global::SetCoinView(std::make_shared<HashCoinView>());
    Bytes in; int how = (int)s.weighted({ 8, 2, 1 });
    if (how == 0) { Enc e; t.gen(s, v, e); in = mutate(s, e.b); }
    else if (how == 1) { Enc e; t.gen(s, v, e); in = e.b; size_t p = in.empty() ? 0 : s.below(in.size()); uint64_t x = s.pick<uint64_t>({ ~0ULL, ~0ULL - 7, ~0ULL - 8, 1ULL << 63, 1ULL << 61, 1ULL << 32, 1ULL << 28, 1ULL << 24, 0xFFFFFFFFULL, 0x7FFFFFFFULL }) - s.below(64); for (int k = 0; k < 8 && p + k < in.size(); k++) in[p + k] = (uint8_t)(x >> (56 - 8 * k)); }
    else in = s.bytes(s.below(300));
    c.log << t.name << " v" << (int)v << " from " << in.size() << " bytes: " << hex(in).substr(0, 600);
    auto exact = std::make_unique<Bytes>(in);   // exact-size heap copy: any over-read hits the redzone
    Bytes out; bool accepted = false; g_total = g_biggest = 0;
    try { g_count = true; out = t.reencode(*exact, v); g_count = false; accepted = true; }
    catch (const std::bad_alloc&) { g_count = false; fail(t.name + ": allocation failure while decoding " + std::to_string(in.size()) + " bytes"); }
    catch (const std::length_error&) { g_count = false; fail(t.name + ": a container was sized by an unchecked length"); }
    catch (const std::exception&) { g_count = false; }
    catch (...) { g_count = false; fail(t.name + ": threw something that is not an exception object"); }
    REQUIRE_MSG(g_biggest <= 300000 + 200 * in.size(), t.name << ": a single allocation of " << g_biggest << " bytes while decoding " << in.size() << " bytes");
    REQUIRE_MSG(g_total <= 4000000 + 4000 * in.size(), t.name << ": " << g_total << " bytes allocated while decoding " << in.size() << " bytes");
    c.label(accepted ? "accepted" : "refused"); c.nontrivial(in.size() > 8);
    if (accepted) {
        Bytes again; try { again = t.reencode(out, v); } catch (const std::exception& e) { fail(t.name + ": what was accepted does not decode again: " + e.what()); }
        REQUIRE_MSG(again == out, t.name << ": decoding its own encoding gives another object");
    }
}
void pbt::setup(Check& c) {
    c.id = "C02"; c.quickCases = 300000; c.quickMin = 10; c.quickCap = 20; c.thoroughCases = 100000000; c.thoroughCap = 600; c.caseTimeout = 20;
    c.workerInit = [] { env::workerDefault(); __sanitizer_install_malloc_and_free_hooks(onMalloc, nullptr); targets(); };
    c.rule = "valid encodings of all P2P message bodies and consensus objects, mutated (bit flips, length fields, truncation, insertion, deletion, splicing) or random bytes, decoded under AddressSanitizer with allocation accounting; non-trivial: more than 8 input bytes";
    c.assumptions = { "allocation bound: one allocation at most 300 kB + 200 x input, all together 4 MB + 4000 x input" };
    c.parts = { { "decode", 1, run } };
}
