// C23: P2P messages
#include "p2pmsgs.h"
using namespace pbt; using namespace p2pm;
static Bytes frame(int type, const Bytes& body) { Enc e; auto m = Global::GetConfig().GetMagicBytes(); e.v(m).be(type, 1).be(body.size(), 8).v(body); return e.b; }
static void roundTrip(Ctx& c) {
    auto& m = c.src.pick(all()); auto v = gen::version(c.src); Global::SetCoinView(std::make_shared<HashCoinView>());
    Enc e; m.gen(c.src, v, e); c.log << m.name << " v" << (int)v << " " << e.b.size() << " bytes"; c.nontrivial(e.b.size() > 4); c.label(m.name);
    Bytes in = e.b; size_t tail = c.src.below(3); for (size_t i = 0; i < tail; i++) in.push_back((uint8_t)c.src.below(256));
    Decoded d = m.dec(in, v);
    REQUIRE_EQ(d.rest, tail); REQUIRE_EQ(d.type, m.type);
    Bytes want = frame(m.type, e.b);
    REQUIRE_MSG(d.message == want, m.name << ": message differs from the published form\n got  " << hex(d.message) << "\n want " << hex(want));
    REQUIRE_MSG(d.clone == want, m.name << ": the copy of a message differs");
    if (!e.b.empty()) { Bytes cut = e.b; cut.resize(c.src.below(cut.size())); bool threw = false; try { m.dec(cut, v); } catch (const std::exception&) { threw = true; } REQUIRE_MSG(threw, m.name << " accepted from " << cut.size() << " of " << e.b.size() << " bytes"); }
}
// getters of a decoded message give the field at the published place
static void fields(Ctx& c) {
    auto& s = c.src; uint32_t a = s.edgy32(), b = s.edgy32(); uint64_t x = s.edgy64(), y = s.edgy64(); Hash h = gen::uniq<32>(s); auto v = gen::version(s); std::string t = text(s, 60); c.nontrivial();
    int w = (int)s.below(10); c.log << "fields of message kind " << w;
    switch (w) {
    case 0: { Enc e; e.be(a, 4).be(b, 4).be(x, 8).be(y, 8); Bytes i4 = s.bytes(4), i6 = s.bytes(16); uint16_t p = (uint16_t)s.edgy64(), q = (uint16_t)s.edgy64(); e.be(0, 1).v(i4).be(p, 2).be(1, 1).v(i6).be(q, 2); str(e, t); e.v(h.GetData());
        ByteBuffer bb(e.b, v); auto m = HandMessage::Deserialize(bb); REQUIRE_EQ(m.GetVersion(), a); REQUIRE_EQ((uint32_t)m.GetCapabilities().GetCapability(), b); REQUIRE_EQ(m.GetNonce(), x); REQUIRE_EQ(m.GetTotalDifficulty(), y); REQUIRE(m.GetHash() == h); REQUIRE(m.GetUserAgent() == t); REQUIRE_EQ(m.GetSenderAddress().GetPortNumber(), p); REQUIRE_EQ(m.GetReceiverAddress().GetPortNumber(), q);
        REQUIRE(m.GetSenderAddress().GetIPAddress().IsV4()); REQUIRE(m.GetReceiverAddress().GetIPAddress().IsV6()); auto r4 = m.GetSenderAddress().GetIPAddress().GetAddress().to_v4().to_bytes(); REQUIRE(Bytes(r4.begin(), r4.end()) == i4); auto r6 = m.GetReceiverAddress().GetIPAddress().GetAddress().to_v6().to_bytes(); REQUIRE(Bytes(r6.begin(), r6.end()) == i6); break; }
    case 1: { Enc e; e.be(a, 4).be(b, 4).be(x, 8); str(e, t); e.v(h.GetData()); ByteBuffer bb(e.b, v); auto m = ShakeMessage::Deserialize(bb); REQUIRE_EQ(m.GetVersion(), a); REQUIRE_EQ((uint32_t)m.GetCapabilities().GetCapability(), b); REQUIRE_EQ(m.GetTotalDifficulty(), x); REQUIRE(m.GetUserAgent() == t); REQUIRE(m.GetHash() == h); break; }
    case 2: { Enc e; e.be(x, 8).be(y, 8); ByteBuffer bb(e.b, v); auto m = PingMessage::Deserialize(bb); REQUIRE_EQ(m.GetTotalDifficulty(), x); REQUIRE_EQ(m.GetHeight(), y); break; }
    case 3: { Enc e; e.be(x, 8).be(y, 8); ByteBuffer bb(e.b, v); auto m = PongMessage::Deserialize(bb); REQUIRE_EQ(m.GetTotalDifficulty(), x); REQUIRE_EQ(m.GetHeight(), y); break; }
    case 4: { Enc e; e.v(h.GetData()).be(x, 8).be(y, 8); ByteBuffer bb(e.b, v); auto m = TxHashSetArchiveMessage::Deserialize(bb); REQUIRE(m.GetBlockHash() == h); REQUIRE_EQ(m.GetBlockHeight(), x); REQUIRE_EQ(m.GetZippedSize(), y); break; }
    case 5: { Enc e; e.v(h.GetData()).be(x, 8); ByteBuffer bb(e.b, v); auto m = TxHashSetRequestMessage::Deserialize(bb); REQUIRE(m.GetBlockHash() == h); break; }
    case 6: { Enc e; e.v(h.GetData()).be(a & 0xFF, 1).be(y, 8); ByteBuffer bb(e.b, v); auto m = GetOutputSegmentMessage::Deserialize(bb); REQUIRE(m.GetBlockHash() == h); REQUIRE_EQ((uint32_t)m.GetIdentifier().GetHeight(), a & 0xFF); REQUIRE_EQ(m.GetIdentifier().GetIndex(), y); break; }
    case 7: { Enc e; e.be(a, 4); str(e, t); ByteBuffer bb(e.b, v); auto m = ErrorMessage::Deserialize(bb); std::string junk(t.size() + 20, 'z'); REQUIRE_EQ(m.GetErrorCode(), a); REQUIRE(m.GetErrorMessage() == t); break; }
    case 8: { size_t n = s.below(21); std::vector<Hash> hs; Enc e; e.be(n, 1); for (size_t i = 0; i < n; i++) { hs.push_back(gen::uniq<32>(s)); e.v(hs.back().GetData()); } ByteBuffer bb(e.b, v); auto m = GetHeadersMessage::Deserialize(bb); REQUIRE(m.GetHashes() == hs); break; }
    case 9: { size_t n = s.below(10); std::vector<std::pair<Bytes, uint16_t>> as; Enc e; e.be(n, 4); for (size_t i = 0; i < n; i++) { as.push_back({ s.bytes(s.flip() ? 16 : 4), (uint16_t)s.edgy64() }); e.be(as.back().first.size() == 16, 1).v(as.back().first).be(as.back().second, 2); } ByteBuffer bb(e.b, v); auto m = PeerAddressesMessage::Deserialize(bb); REQUIRE_EQ(m.GetPeerAddresses().size(), n);
        for (size_t i = 0; i < n; i++) { auto& g = m.GetPeerAddresses()[i]; REQUIRE_EQ(g.GetPortNumber(), as[i].second); Bytes got; if (g.GetIPAddress().IsV4()) { auto r = g.GetIPAddress().GetAddress().to_v4().to_bytes(); got.assign(r.begin(), r.end()); } else { auto r = g.GetIPAddress().GetAddress().to_v6().to_bytes(); got.assign(r.begin(), r.end()); } REQUIRE(got == as[i].first); } break; }
    }
}
// framing: magic, type, length limits
static void framing(Ctx& c) {
    auto& s = c.src; auto magic = Global::GetConfig().GetMagicBytes(); int type = (int)(s.chance(1, 4) ? s.below(256) : s.below(29)); uint64_t max = 0; bool known = false; for (auto& m : all()) if (m.type == type) { max = m.max; known = true; }
    uint64_t lim = max * 4;  // implementations accept up to four times the nominal size
    uint64_t len; switch (s.below(5)) { case 0: len = s.below(lim + 1); break; case 1: len = lim; break; case 2: len = lim + 1 + s.below(3); break; case 3: len = s.edgy64(); break; default: len = max; }
    Bytes mg = magic; int bad = (int)s.below(4); if (bad == 1) mg[0] ^= (uint8_t)(1 + s.below(255)); else if (bad == 2) mg[1] ^= (uint8_t)(1 + s.below(255)); else if (bad == 3) { std::swap(mg[0], mg[1]); if (magic[0] == magic[1]) bad = 0; }
    Enc e; e.v(mg).be(type, 1).be(len, 8); c.log << "header type " << type << " length " << len << " magic " << hex(mg); c.nontrivial(); c.label(bad ? "bad-magic" : !known ? "unknown-type" : len > lim ? "too-long" : "ok");
    bool want = !bad && len <= lim; bool got = true; std::string why;
    ByteBuffer bb(e.b);
    try { auto h = MessageHeader::Deserialize(bb); REQUIRE_EQ((int)h.GetMessageType(), type); REQUIRE_EQ(h.GetMessageLength(), len); REQUIRE(h.GetMagicBytes() == magic); REQUIRE_EQ(bb.GetRemainingSize(), (size_t)0); Serializer o; h.Serialize(o); REQUIRE(o.GetBytes() == e.b); h.Format(); }
    catch (const DeserializationException& x) { got = false; why = x.what(); }
    REQUIRE_MSG(got == want, (got ? "accepted" : "refused") << " a message header of type " << type << " with length " << len << " (limit " << lim << ")");
    if (c.src.chance(1, 4)) { Bytes cut = e.b; cut.resize(s.below(11)); bool t = false; try { ByteBuffer q(cut); MessageHeader::Deserialize(q); } catch (const std::exception&) { t = true; } REQUIRE(t); }
}
// built by the node itself: constructor arguments end up in the published bytes
static void built(Ctx& c) {
    auto& s = c.src; auto v = gen::version(s); Global::SetCoinView(std::make_shared<HashCoinView>()); c.nontrivial(); Enc e; Bytes got; int type; int w = (int)s.below(13); c.log << "build kind " << w;
    auto h = gen::uniq<32>(s); uint64_t x = s.edgy64(), y = s.edgy64(); uint32_t a = s.edgy32(), b = s.edgy32(); std::string t = text(s, 40);
    switch (w) {
    case 0: { Bytes i4 = s.bytes(4), i6 = s.bytes(16); std::array<uint8_t, 4> r4; std::copy(i4.begin(), i4.end(), r4.begin()); std::array<uint8_t, 16> r6; std::copy(i6.begin(), i6.end(), r6.begin()); uint16_t p = (uint16_t)s.edgy64(), q = (uint16_t)s.edgy64();
        e.be(a, 4).be(b, 4).be(x, 8).be(y, 8).be(1, 1).v(i6).be(p, 2).be(0, 1).v(i4).be(q, 2); str(e, t); e.v(h.GetData()); HandMessage m(a, Capabilities(b), x, h, y, SocketAddress::CreateV6(r6, p), SocketAddress::CreateV4(r4, q), t); got = m.Serialize(v); type = 1; break; }
    case 1: { e.be(a, 4).be(b, 4).be(x, 8); str(e, t); e.v(h.GetData()); got = ShakeMessage(a, Capabilities(b), h, x, t).Serialize(v); type = 2; break; }
    case 2: { e.be(x, 8).be(y, 8); got = PingMessage(x, y).Serialize(v); type = 3; break; }
    case 3: { e.be(x, 8).be(y, 8); got = PongMessage(x, y).Serialize(v); type = 4; break; }
    case 4: { e.be(b, 4); got = GetPeerAddressesMessage(Capabilities(b)).Serialize(v); type = 5; break; }
    case 5: { e.v(h.GetData()); got = GetBlockMessage(h).Serialize(v); type = 10; break; }
    case 6: { e.v(h.GetData()); got = GetCompactBlockMessage(h).Serialize(v); type = 12; break; }
    case 7: { e.v(h.GetData()).be(x, 8); Hash q = h; got = TxHashSetRequestMessage(std::move(q), x).Serialize(v); type = 16; break; }
    case 8: { e.v(h.GetData()).be(x, 8).be(y, 8); Hash q = h; got = TxHashSetArchiveMessage(std::move(q), x, y).Serialize(v); type = 17; break; }
    case 9: { e.v(h.GetData()); got = GetTransactionMessage(h).Serialize(v); type = 19; break; }
    case 10: { e.v(h.GetData()); got = TransactionKernelMessage(h).Serialize(v); type = 20; break; }
    case 11: { auto o = gen::blind(s); auto tx = std::make_shared<Transaction>(std::move(o), fixFeatures(gen::body(s))); encTx(*tx, v, e); bool stem = s.flip(); got = stem ? StemTransactionMessage(tx).Serialize(v) : TransactionMessage(tx).Serialize(v); type = stem ? 14 : 15; break; }
    default: { size_t n = s.below(4); std::vector<BlockHeaderPtr> hs; e.be(n, 2); for (size_t i = 0; i < n; i++) { hs.push_back(std::make_shared<const BlockHeader>(gen::header(s))); enc::encHeader(e, *hs.back()); } got = HeadersMessage(std::move(hs)).Serialize(v); type = 9; break; }
    }
    auto want = frame(type, e.b); REQUIRE_MSG(got == want, "message differs\n got  " << hex(got) << "\n want " << hex(want));
}
// the magic bytes of each network
static void magic(Ctx& c) {
    int w = (int)c.src.below(3); c.log << "network " << w; c.nontrivial();
    Environment en = w == 0 ? Environment::MAINNET : w == 1 ? Environment::FLOONET : Environment::AUTOMATED_TESTING;
    auto cfg = Config::Load(Json::Value(Json::objectValue), en); auto m = cfg->GetMagicBytes();
    if (w == 0) REQUIRE(m == Bytes({ 97, 61 })); if (w == 1) REQUIRE(m == Bytes({ 83, 59 })); REQUIRE_EQ(m.size(), (size_t)2);
}
void pbt::setup(Check& c) {
    c.id = "C23"; c.quickCases = 400000; c.quickMin = 4; c.quickCap = 12; c.thoroughCases = 20000000; c.thoroughCap = 300; c.workerInit = env::workerDefault;
    c.rule = "bodies of all 29 message types written by an independent encoder from random fields (all protocol versions), decoded, compared field by field and re-serialised with the published frame; headers with every type, lengths around the limits and altered magic; non-trivial: body of more than 4 bytes or a header case";
    c.assumptions = { "size limits are the published per-type maxima, with the fourfold slack every implementation grants" };
    c.parts = { { "roundtrip", 10, roundTrip }, { "fields", 4, fields }, { "framing", 4, framing }, { "built", 4, built } };
}
