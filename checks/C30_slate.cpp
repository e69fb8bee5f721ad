// C30: slates through their binary and JSON forms against an encoder of the published formats, and damaged encodings
#include "env.h"
#include "gen.h"
#include "enc.h"
#include <Wallet/Models/Slate/Slate.h>
#include <Crypto/Crypto.h>
#include <sodium.h>
using namespace pbt; typedef std::vector<uint8_t> Bytes; typedef uint64_t u64; typedef uint32_t u32;
static std::string hx(const Bytes& b) { std::string s; char t[3]; for (uint8_t x : b) { snprintf(t, 3, "%02x", x); s += t; } return s; }
// the content of a slate, as plain data
struct Sig { Bytes xs, nonce, part; }; struct Com { int f; Bytes c, p; };
struct M { int ver, bv; Bytes id; int sta; Bytes off; int parts; u64 amt; int shift; u64 fee; int feat; u64 lock, ttl; std::vector<Sig> sigs; std::vector<Com> coms; bool proof; Bytes sa, ra, rs; };
static Bytes pub(Src& s) { Bytes k = s.bytes(32); k[0] = 1; return Crypto::CalculatePublicKey(SecretKey(CBigInteger<32>(k.data()))).vec(); }
static Bytes edge(Src& s, size_t n) { Bytes b = s.bytes(n); switch (s.below(6)) { case 0: std::fill(b.begin(), b.end(), 0); break; case 1: std::fill(b.begin(), b.end(), 0xff); break; default: break; } return b; }
static M model(Src& s) {
    M m; m.ver = s.chance(5, 6) ? 4 : (int)s.pick<u32>({ 0, 5, 256, 65535 }); m.bv = s.chance(5, 6) ? (int)s.range(1, 5) : (int)s.pick<u32>({ 0, 255, 256, 65535 }); m.id = edge(s, 16); m.sta = (int)s.range(1, 6); m.off = edge(s, 32); m.parts = s.chance(2, 3) ? 2 : (int)s.below(256); m.amt = s.flip() ? s.edgy64() : 0; m.shift = s.chance(1, 3) ? (int)s.below(16) : 0; m.fee = s.flip() ? s.edgy64() & 0xffffffffffULL : 0; m.feat = s.chance(2, 3) ? 0 : (int)s.range(1, 3); m.lock = m.feat == 2 ? s.edgy64() : 0; m.ttl = s.chance(1, 3) ? s.edgy64() : 0;
    size_t n = s.chance(1, 40) ? s.pick<size_t>({ 127, 128, 255 }) : s.below(5); for (size_t i = 0; i < n; i++) { Sig g{ pub(s), pub(s), {} }; if (s.flip()) { g.part = s.bytes(64); g.part[0] &= 0x7f; g.part[32] &= 0x7f; } m.sigs.push_back(g); }
    n = s.chance(1, 60) ? s.pick<size_t>({ 256, 300 }) : s.below(6); for (size_t i = 0; i < n; i++) { Com c{ (int)s.below(2), s.bytes(33), {} }; c.c[0] = (uint8_t)(8 + s.below(2)); if (s.flip()) c.p = s.bytes(675); m.coms.push_back(c); }
    m.proof = s.chance(1, 3); if (m.proof) { m.sa = edge(s, 32); m.ra = edge(s, 32); if (s.flip()) m.rs = edge(s, 64); } return m;
}
static Slate make(const M& m) {
    std::array<uint8_t, 16> id; std::copy(m.id.begin(), m.id.end(), id.begin()); Slate s{ uuids::uuid(id) }; s.version = (uint16_t)m.ver; s.blockVersion = (uint16_t)m.bv; s.stage = SlateStage((ESlateStage)(m.sta - 1)); s.offset = BlindingFactor(CBigInteger<32>(m.off.data())); s.numParticipants = (uint8_t)m.parts; s.amount = m.amt; s.fee = Fee((uint8_t)m.shift, m.fee); s.kernelFeatures = (EKernelFeatures)m.feat; if (m.feat) { SlateFeatureArgs a; if (m.feat == 2) a.lockHeightOpt = m.lock; s.featureArgsOpt = a; } s.ttl = m.ttl;
    for (auto& g : m.sigs) s.sigs.push_back(SlateSignature(PublicKey(CBigInteger<33>(g.xs.data())), PublicKey(CBigInteger<33>(g.nonce.data())), g.part.empty() ? std::nullopt : std::make_optional(CompactSignature(CBigInteger<64>(g.part.data())))));
    for (auto& c : m.coms) s.commitments.push_back(SlateCommitment{ (EOutputFeatures)c.f, Commitment(CBigInteger<33>(c.c.data())), c.p.empty() ? std::nullopt : std::make_optional(RangeProof(Bytes(c.p))) });
    if (m.proof) { auto p = SlatePaymentProof::Create(ed25519_public_key_t(CBigInteger<32>(m.sa.data())), ed25519_public_key_t(CBigInteger<32>(m.ra.data()))); if (!m.rs.empty()) p.AddSignature(ed25519_signature_t{ CBigInteger<64>(m.rs.data()) }); s.proofOpt = p; } return s;
}
static M read(const Slate& s) {
    M m; m.ver = s.version; m.bv = s.blockVersion; m.id.assign((const uint8_t*)s.slateId.as_bytes().data(), (const uint8_t*)s.slateId.as_bytes().data() + 16); m.sta = s.stage.ToByte(); m.off = s.offset.GetVec(); m.parts = s.numParticipants; m.amt = s.amount; m.shift = s.fee.GetShift(); m.fee = s.fee.GetFee(); m.feat = (int)s.kernelFeatures; m.lock = s.GetLockHeight(); m.ttl = s.ttl; for (auto& g : s.sigs) m.sigs.push_back({ g.excess.vec(), g.nonce.vec(), g.partialOpt ? g.partialOpt->GetSignatureBytes().GetData() : Bytes() });
    for (auto& c : s.commitments) m.coms.push_back({ (int)c.features, c.commitment.GetVec(), c.proofOpt ? c.proofOpt->GetProofBytes() : Bytes() }); m.proof = s.proofOpt.has_value(); if (m.proof) { m.sa = s.proofOpt->GetSenderAddress().vec(); m.ra = s.proofOpt->GetReceiverAddress().vec(); if (s.proofOpt->GetReceiverSignature()) m.rs = s.proofOpt->GetReceiverSignature()->bytes.GetData(); } return m;
}
// names the first field that differs
static std::string diff(const M& a, const M& b) {
#define F(x) if (!(a.x == b.x)) return #x;
    F(ver) F(bv) F(id) F(sta) F(off) F(parts) F(amt) F(shift) F(fee) F(feat) F(lock) F(ttl) F(sigs.size()) F(coms.size()) F(proof)
    for (size_t i = 0; i < a.sigs.size(); i++) { F(sigs[i].xs) F(sigs[i].nonce) F(sigs[i].part) } for (size_t i = 0; i < a.coms.size(); i++) { F(coms[i].f) F(coms[i].c) F(coms[i].p) } if (a.proof) { F(sa) F(ra) F(rs) } return "";
#undef F
}
// the published binary form (RFC 12); partial signatures are stored in the library's internal order
static Bytes binary(const M& m, std::vector<size_t>* marks = nullptr) {
    Bytes o; auto be = [&](u64 x, int n) { for (int i = n - 1; i >= 0; i--) o.push_back((uint8_t)(x >> (8 * i))); }; auto raw = [&](const Bytes& b) { o.insert(o.end(), b.begin(), b.end()); }; auto mark = [&] { if (marks) marks->push_back(o.size()); };
    be(m.ver, 2); be(m.bv, 2); raw(m.id); mark(); be(m.sta, 1); raw(m.off); bool fee = m.fee || m.shift; mark(); be((m.parts != 2) | (m.amt != 0) << 1 | fee << 2 | (m.feat != 0) << 3 | (m.ttl != 0) << 4, 1); if (m.parts != 2) be(m.parts, 1); if (m.amt) be(m.amt, 8); if (fee) be((u64)m.shift << 40 | m.fee, 8); if (m.feat) { mark(); be(m.feat, 1); } if (m.ttl) be(m.ttl, 8);
    mark(); be(m.sigs.size(), 1); for (auto& g : m.sigs) { mark(); be(!g.part.empty(), 1); raw(g.xs); raw(g.nonce); if (!g.part.empty()) raw(g.part); }
    mark(); be(!m.coms.empty() | m.proof << 1, 1); if (!m.coms.empty()) { mark(); be(m.coms.size(), 2); for (auto& c : m.coms) { mark(); be(!c.p.empty(), 1); mark(); be(c.f, 1); raw(c.c); if (!c.p.empty()) { mark(); be(675, 8); raw(c.p); } } } if (m.proof) { raw(m.sa); raw(m.ra); mark(); be(!m.rs.empty(), 1); raw(m.rs); } if (m.feat == 2) be(m.lock, 8); return o;
}
static Bytes swapped(Bytes b) { std::reverse(b.begin(), b.begin() + 32); std::reverse(b.begin() + 32, b.end()); return b; }
static M inner(M m) { for (auto& g : m.sigs) if (!g.part.empty()) g.part = swapped(g.part); return m; }
static Bytes bytesOf(const Slate& s) { Serializer o; s.Serialize(o); return o.GetBytes(); }
static Slate fromBytes(const Bytes& b) { ByteBuffer x(b); return Slate::Deserialize(x); }
static std::string uuid(const Bytes& b) { std::string h = hx(b); return h.substr(0, 8) + "-" + h.substr(8, 4) + "-" + h.substr(12, 4) + "-" + h.substr(16, 4) + "-" + h.substr(20); }
static Json::Value jsonOf(const M& m) {
    Json::Value j; j["ver"] = std::to_string(m.ver) + ":" + std::to_string(m.bv); j["id"] = uuid(m.id); static const char* st[] = { "", "S1", "S2", "S3", "I1", "I2", "I3" }; j["sta"] = st[m.sta]; if (m.off != Bytes(32)) j["off"] = hx(m.off); if (m.parts != 2) j["num_parts"] = std::to_string(m.parts); if (m.fee || m.shift) j["fee"] = Json::UInt64((u64)m.shift << 40 | m.fee); if (m.amt) j["amt"] = std::to_string(m.amt); if (m.feat) { j["feat"] = m.feat; Json::Value a; if (m.feat == 2) a["lock_hgt"] = Json::UInt64(m.lock); j["feat_args"] = a; } if (m.ttl) j["ttl"] = std::to_string(m.ttl);
    j["sigs"] = Json::Value(Json::arrayValue); for (auto& g : m.sigs) { Json::Value x; x["xs"] = hx(g.xs); x["nonce"] = hx(g.nonce); if (!g.part.empty()) x["part"] = hx(g.part); j["sigs"].append(x); } j["coms"] = Json::Value(Json::arrayValue); for (auto& c : m.coms) { Json::Value x; x["c"] = hx(c.c); if (c.f) x["f"] = 1; if (!c.p.empty()) x["p"] = hx(c.p); j["coms"].append(x); } if (m.proof) { Json::Value p; p["saddr"] = hx(m.sa); p["raddr"] = hx(m.ra); if (!m.rs.empty()) p["rsig"] = hx(m.rs); j["proof"] = p; } return j;
}
static Json::Value reparse(const Json::Value& j) { std::string t = Json::FastWriter().write(j); Json::Value r; if (!Json::Reader().parse(t, r)) throw std::logic_error("JSON"); return r; }
static void forms(Ctx& c) {
    auto& s = c.src; M m = model(s); Slate a = make(m); c.log << "slate " << Json::FastWriter().write(jsonOf(m)).substr(0, 700); c.nontrivial(!m.sigs.empty() || !m.coms.empty() || m.proof || m.feat || m.ttl); c.label("stage " + std::to_string(m.sta)); if (m.feat == 2) c.label("height locked"); if (m.proof) c.label("payment proof");
    Bytes b = bytesOf(a), want = binary(inner(m)); REQUIRE_MSG(b == want, "binary form is " << hx(b).substr(0, 400) << " instead of " << hx(want).substr(0, 400)); Slate d = fromBytes(b); std::string f = diff(read(d), m); REQUIRE_MSG(f.empty(), "field " << f << " lost in binary form"); REQUIRE(d == a);
    Json::Value j = a.ToJSON(); REQUIRE_MSG(reparse(j) == reparse(jsonOf(m)), "JSON form is " << Json::FastWriter().write(j).substr(0, 900)); Slate e = Slate::FromJSON(reparse(j)); f = diff(read(e), m); REQUIRE_MSG(f.empty(), "field " << f << " lost in JSON form"); REQUIRE(e == a);
    // any mix of transports
    Slate x = a; for (int i = 0; i < 4; i++) x = s.flip() ? fromBytes(bytesOf(x)) : Slate::FromJSON(reparse(x.ToJSON())); f = diff(read(x), m); REQUIRE_MSG(f.empty(), "field " << f << " lost by mixing transports"); REQUIRE(bytesOf(x) == b);
    // forms other wallets write: optional lists left out, numbers as text or as numbers
    { Json::Value k = reparse(j); if (m.coms.empty() && s.flip()) k.removeMember("coms"); if (k.isMember("fee") && s.flip()) k["fee"] = std::to_string((u64)m.shift << 40 | m.fee); if (k.isMember("amt") && s.flip()) k["amt"] = Json::UInt64(m.amt); if (k.isMember("ttl") && s.flip()) k["ttl"] = Json::UInt64(m.ttl); if (m.feat == 2 && s.flip()) k["feat_args"]["lock_hgt"] = std::to_string(m.lock); if (!m.feat && s.flip()) k["feat"] = 0; f = diff(read(Slate::FromJSON(k)), m); REQUIRE_MSG(f.empty(), "field " << f << " lost reading " << Json::FastWriter().write(k).substr(0, 600)); }
    // slates that differ in one field are different
    { M n = m; switch (s.below(14)) { case 0: n.bv ^= 1; break; case 1: n.id[s.below(16)] ^= 1; break; case 2: n.sta = n.sta % 6 + 1; break; case 3: n.off[s.below(32)] ^= 2; break; case 4: n.parts ^= 1; break; case 5: n.amt ^= 1ULL << s.below(64); break; case 6: n.fee ^= 1; break; case 7: n.shift ^= 1; break; case 8: if (n.feat == 2) n.lock ^= 1; else n.ttl ^= 1; break; case 9: n.ttl ^= 4; break; case 10: if (n.sigs.size()) n.sigs.pop_back(); else n.ver ^= 1; break; case 11: if (n.coms.size()) n.coms[0].f ^= 1; else n.ver ^= 1; break; case 12: n.proof = !n.proof; if (n.proof) { n.sa = n.ra = Bytes(32); n.rs.clear(); } break; default: n.feat = n.feat == 2 ? 0 : 2; n.lock = 7; if (n.feat == 0) n.lock = 0; } if (!diff(n, m).empty()) { REQUIRE_MSG(!(make(n) == a), "slates that differ in " << diff(n, m) << " compare equal"); REQUIRE_MSG(bytesOf(make(n)) != b, "slates that differ in " << diff(n, m) << " have the same binary form"); } }
}
static bool decodes(const Bytes& b, Slate& out) { try { out = fromBytes(b); return true; } catch (const std::exception&) { return false; } }
// what was read must survive both transports
static void stable(const Slate& a, const char* what) { M m = read(a); Bytes b; Json::Value j; for (auto& c : a.commitments) if (c.proofOpt && c.proofOpt->GetProofBytes().size() != 675) return;   // proofs of odd sizes have no JSON form
    try { b = bytesOf(a); } catch (const std::exception&) { return; } j = a.ToJSON(); std::string f = diff(read(fromBytes(b)), m); REQUIRE_MSG(f.empty(), what << ": field " << f << " of a damaged slate changes in binary form"); bool ok = true; Slate e; try { e = Slate::FromJSON(reparse(j)); } catch (const std::exception&) { ok = false; } REQUIRE_MSG(ok, what << ": read but not readable from JSON: " << Json::FastWriter().write(j).substr(0, 500)); f = diff(read(e), m); REQUIRE_MSG(f.empty(), what << ": field " << f << " of a damaged slate changes in JSON form"); }
static void damaged(Ctx& c) {
    auto& s = c.src; M m = model(s); std::vector<size_t> marks; Bytes b = binary(inner(m), &marks); c.nontrivial(); Slate out; { Bytes t(b.begin(), b.begin() + s.below(b.size())); c.log << "cut to " << t.size() << " of " << b.size() << "; "; REQUIRE_MSG(!decodes(t, out), "slate cut to " << t.size() << " of " << b.size() << " bytes accepted"); }
    for (int n = 0; n < 4; n++) { Bytes t = b; size_t k = 1 + s.below(3); for (size_t i = 0; i < k; i++) { size_t at = s.chance(2, 3) ? marks[s.below(marks.size())] : s.below(t.size()); if (at >= t.size()) continue; switch (s.below(4)) { case 0: t[at] = (uint8_t)s.below(256); break; case 1: t[at] ^= (uint8_t)(1 << s.below(8)); break; case 2: t.erase(t.begin() + at); break; default: t.insert(t.begin() + at, (uint8_t)s.below(256)); } } bool ok = decodes(t, out); c.label(ok ? "damaged but readable" : "refused"); if (ok) stable(out, "binary"); }
    // unknown codes
    { Bytes t = b; t[20] = s.flip() ? 0 : (uint8_t)s.range(7, 255); REQUIRE_MSG(!decodes(t, out), "stage byte " << (int)t[20] << " accepted"); }
    { M n = m; n.feat = (int)s.range(4, 255); REQUIRE_MSG(!decodes(binary(inner(n)), out), "kernel features " << n.feat << " accepted"); bool ok = true; try { Slate::FromJSON(reparse(jsonOf(n))); } catch (const std::exception&) { ok = false; } REQUIRE_MSG(!ok, "kernel features " << n.feat << " accepted in JSON"); }
    if (!m.coms.empty()) { M n = m; n.coms[s.below(n.coms.size())].f = (int)s.range(2, 255); REQUIRE_MSG(!decodes(binary(inner(n)), out), "output features accepted"); Json::Value j = jsonOf(m); j["coms"][0]["f"] = (int)s.range(2, 255); bool ok = true; try { Slate::FromJSON(j); } catch (const std::exception&) { ok = false; } REQUIRE_MSG(!ok, "unknown output features accepted in JSON"); }
    { Bytes r = s.bytes(s.below(300)); if (r.size() > 60 && s.flip()) std::copy_n(b.begin(), 53, r.begin()); if (decodes(r, out)) stable(out, "random"); }
}
static void damagedJson(Ctx& c) {
    auto& s = c.src; M m = model(s); if (m.sigs.size() > 5) m.sigs.resize(2); if (m.coms.size() > 5) m.coms.resize(2); Json::Value j = reparse(jsonOf(m)); c.nontrivial();
    // pick any node of the document and spoil it
    std::vector<std::string> path; Json::Value* p = &j; Json::Value* parent = nullptr; std::string key; int idx = -1; while ((p->isObject() || p->isArray()) && !p->empty() && (p == &j || s.chance(5, 6))) { parent = p; if (p->isObject()) { auto names = p->getMemberNames(); key = names[s.below(names.size())]; idx = -1; path.push_back(key); p = &(*p)[key]; } else { idx = (int)s.below(p->size()); path.push_back(std::to_string(idx)); p = &(*p)[idx]; } }
    std::string where; for (auto& x : path) where += "/" + x; std::string root = path.empty() ? "" : path[0]; Json::Value old = *p; int kind = (int)s.below(8); bool mustFail = false;
    switch (kind) { case 0: if (idx < 0) { parent->removeMember(key); mustFail = (root == "ver" || root == "id" || root == "sta" || root == "sigs") && path.size() == 1; mustFail |= key == "xs" || key == "nonce" || key == "c" || key == "saddr" || key == "raddr" || key == "lock_hgt" || (key == "feat_args" && m.feat == 2); } break;
        case 1: if (old.isString()) { std::string x = old.asString(); x.resize(x.size() - 1); *p = x; mustFail = key == "off" || key == "xs" || key == "nonce" || key == "part" || key == "c" || key == "p" || key == "saddr" || key == "raddr" || key == "rsig" || key == "id" || key == "sta"; } break;
        case 2: *p = s.pick<std::string>({ "", "x", "-1", " 1", "1 ", "0x10", "1e3", "18446744073709551616", "4:", "4", ":", "4:5:6", "70000:4", "4:65536", "4:-1", "+4:5", "4:5x", "1.5" }); mustFail = true; if (root == "num_parts" || root == "amt" || root == "ttl" || root == "fee" || root == "ver") { std::string x = p->asString(); mustFail = true; if (root != "ver" && x == "4") mustFail = false; } if (key == "lock_hgt" && p->asString() == "4") mustFail = false; if (key == "f" || key == "feat" || root == "feat_args") mustFail = p->asString() != "4" || key == "f" || key == "feat"; break;
        case 3: *p = Json::Value(Json::arrayValue); p->append(1); mustFail = true; break; case 4: *p = Json::Value(Json::objectValue); (*p)["q"] = 1; mustFail = key != "feat_args" || m.feat == 2; if (idx >= 0) mustFail = true; break; case 5: *p = (Json::Int64)-1; mustFail = true; break; case 6: *p = 1.5; mustFail = true; break;
        default: if (old.isString()) { std::string x = old.asString(); if (!x.empty()) x[s.below(x.size())] = s.pick<char>({ 'g', ' ', 'z', '\0', '-' }); *p = x; } }
    if (kind != 0 && *p == old) mustFail = false; c.log << where << " kind " << kind << " in " << Json::FastWriter().write(j).substr(0, 600); Slate out; bool ok = true; try { out = Slate::FromJSON(j); } catch (const std::exception&) { ok = false; } c.label(ok ? "damaged but readable" : "refused"); REQUIRE_MSG(!(ok && mustFail), "damaged JSON accepted: " << where); if (ok) stable(out, "JSON");
}
void pbt::setup(Check& c) {
    c.id = "C30"; c.rule = "non-trivial: a slate with at least one signature, commitment, payment proof, kernel feature or ttl; every damaged encoding"; c.workerInit = env::workerDefault; c.quickCases = 20000; c.thoroughCases = 600000; c.quickCap = 20; c.parts = { { "forms", 3, forms }, { "damaged", 2, damaged }, { "damagedJson", 2, damagedJson } };
    c.assumptions = { "partial signatures are stored in binary slates in libsecp256k1's internal order (each half little-endian), as existing wallets do on little-endian machines", "generated range proofs have the only size in use, 675 bytes" };
}
