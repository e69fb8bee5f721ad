// C03: JSON and text encodings of chain data
#include "gen.h"
#include "env.h"
#include "enc.h"
#include <Core/Serialization/Base58.h>
#include <Core/Serialization/Base64.h>
#include <Core/Util/JsonUtil.h>
#include <Common/Util/TimeUtil.h>
#include <Crypto/Crypto.h>
#include <openssl/sha.h>
#include <time.h>
using namespace pbt; using namespace gen;
typedef std::vector<uint8_t> Bytes;
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static std::string hx(const Bytes& b) { static const char* d = "0123456789abcdef"; std::string s; for (auto x : b) { s += d[x >> 4]; s += d[x & 15]; } return s; }
// ----- naive base58
static const std::string A58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz", A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string num58(Bytes b) { std::string out; while (true) { bool any = false; unsigned r = 0; for (auto& x : b) { unsigned v = r * 256 + x; x = (uint8_t)(v / 58); r = v % 58; any = any || x; } if (b.empty()) break; if (!any && r == 0) break; out += A58[r]; if (!any) break; } std::reverse(out.begin(), out.end()); return out; }
static std::string b58(const Bytes& b) { size_t z = 0; while (z < b.size() && !b[z]) z++; return std::string(z, '1') + num58(Bytes(b.begin() + z, b.end())); }
static Bytes sha2(const Bytes& b) { Bytes h(32), r(32); SHA256(b.data(), b.size(), h.data()); SHA256(h.data(), 32, r.data()); return r; }
static Bytes blob(Src& s, size_t max) { Bytes b = s.bytes(s.size(max)); size_t z = s.chance(1, 3) ? s.below(5) : 0; for (size_t i = 0; i < z && i < b.size(); i++) b[i] = 0; return b; }
// a kernel whose signature has in-range halves, an output with a full-size proof
static Signature sig(Src& s) { auto b = s.bytes(64); b[31] &= 0x7F; b[63] &= 0x7F; return Signature(CBigInteger<64>(b)); }
static TransactionKernel kern(Src& s) { auto k = kernel(s); uint64_t h = k.GetLockHeight(); return TransactionKernel(k.GetFeatures(), Fee(k.GetFeeShift(), k.GetFee()), h, Commitment(k.GetCommitment()), sig(s)); }
static TransactionOutput out(Src& s) { Bytes p = s.chance(1, 2) ? Bytes(675, (uint8_t)s.below(256)) : s.bytes(675); return TransactionOutput((EOutputFeatures)s.below(2), commit(s), RangeProof(std::move(p))); }
static TransactionBody bodyOf(Src& s) {
    auto i = list<TransactionInput>(s, 3, [](Src& q) { return input(q); }); auto o = list<TransactionOutput>(s, 2, out); auto k = list<TransactionKernel>(s, 3, kern);
    std::sort(i.begin(), i.end(), SortInputsByHash); std::sort(o.begin(), o.end(), SortOutputsByHash); std::sort(k.begin(), k.end(), SortKernelsByHash);
    return TransactionBody(std::move(i), std::move(o), std::move(k));
}
static Json::Value viaText(const Json::Value& j, Src& s) { Json::StreamWriterBuilder w; if (s.flip()) w["indentation"] = ""; Json::Value r; std::string e; std::istringstream is(Json::writeString(w, j)); REQUIRE(Json::parseFromStream(Json::CharReaderBuilder(), is, &r, &e)); return r; }
static std::string compactHex(const Signature& s) { Bytes b(s.data(), s.data() + 64); std::reverse(b.begin(), b.begin() + 32); std::reverse(b.begin() + 32, b.end()); return hx(b); }

static const char* KF[] = { "Plain", "Coinbase", "HeightLocked", "NoRecentDuplicate" }; static const char* OF[] = { "Plain", "Coinbase" };
static void checkKernelJson(const Json::Value& j, const TransactionKernel& k) {
    int f = (int)k.GetFeatures(); REQUIRE_EQ(j["excess"].asString(), hx(k.GetCommitment().GetVec())); REQUIRE_EQ(j["excess_sig"].asString(), compactHex(k.GetExcessSignature()));
    REQUIRE(j["features"].isObject() && j["features"].size() == 1 && j["features"].isMember(KF[f])); auto a = j["features"][KF[f]];
    if (f != COINBASE_KERNEL) { REQUIRE_EQ(a["fee"].asUInt64(), enc::rawFee(k)); }
    if (f == HEIGHT_LOCKED || f == NO_RECENT_DUPLICATE) { REQUIRE_EQ(a["lock_height"].asUInt64(), k.GetLockHeight()); }
}
static void txJson(Ctx& c) {
    auto& s = c.src; Transaction t(blind(s), bodyOf(s)); c.log << "transaction of " << t.GetInputs().size() << "/" << t.GetOutputs().size() << "/" << t.GetKernels().size() << " json " << JsonUtil::WriteCondensed(t.ToJSON()).substr(0, 1500);
    Json::Value j = viaText(t.ToJSON(), s); c.nontrivial(t.GetKernels().size() > 0);
    REQUIRE_EQ(j["offset"].asString(), hx(t.GetOffset().GetVec()));
    auto& b = j["body"]; REQUIRE_EQ(b["inputs"].size(), t.GetInputs().size()); REQUIRE_EQ(b["outputs"].size(), t.GetOutputs().size()); REQUIRE_EQ(b["kernels"].size(), t.GetKernels().size());
    for (Json::ArrayIndex i = 0; i < b["inputs"].size(); i++) { auto& x = t.GetInputs()[i]; REQUIRE_EQ(b["inputs"][i]["commit"].asString(), hx(x.GetCommitment().GetVec())); REQUIRE_EQ(b["inputs"][i]["features"].asString(), OF[(int)x.GetFeatures()]); }
    for (Json::ArrayIndex i = 0; i < b["outputs"].size(); i++) { auto& x = t.GetOutputs()[i]; REQUIRE_EQ(b["outputs"][i]["commit"].asString(), hx(x.GetCommitment().GetVec())); REQUIRE_EQ(b["outputs"][i]["features"].asString(), OF[(int)x.GetFeatures()]); REQUIRE_EQ(b["outputs"][i]["proof"].asString(), hx(x.GetRangeProof().GetProofBytes())); }
    for (Json::ArrayIndex i = 0; i < b["kernels"].size(); i++) { checkKernelJson(b["kernels"][i], t.GetKernels()[i]); c.label(KF[(int)t.GetKernels()[i].GetFeatures()]); }
    // array order does not matter when reading
    Json::Value sh = j; if (s.flip()) for (auto n : { "inputs", "outputs", "kernels" }) { Json::Value r(Json::arrayValue); for (int i = (int)b[n].size() - 1; i >= 0; i--) r.append(b[n][(Json::ArrayIndex)i]); sh["body"][n] = r; }
    Transaction u = Transaction::FromJSON(sh);
    for (auto v : { EProtocolVersion::V1, EProtocolVersion::V2, EProtocolVersion::V3 }) REQUIRE_MSG(ser(u, v) == ser(t, v), "the transaction read back from json is another one (v" << (int)v << ")");
    REQUIRE(u.GetHash() == t.GetHash()); for (size_t i = 0; i < t.GetKernels().size(); i++) REQUIRE(u.GetKernels()[i] == t.GetKernels()[i]);
    for (auto& k : t.GetKernels()) { auto r = TransactionKernel::FromJSON(viaText(k.ToJSON(), s)); REQUIRE(r.GetHash() == k.GetHash()); REQUIRE(Fee(r.GetFeeShift(), r.GetFee()) == Fee(k.GetFeeShift(), k.GetFee())); REQUIRE_EQ(r.GetLockHeight(), k.GetLockHeight()); REQUIRE(r.GetFeatures() == k.GetFeatures()); REQUIRE(r.GetSignatureMessage() == k.GetSignatureMessage()); }
}
// one field of good JSON is damaged: reading must throw, never crash, never give something else
static void damage(Ctx& c) {
    auto& s = c.src; auto mk = [&](int f) { auto k = kernel(s, f); return TransactionKernel(k.GetFeatures(), Fee(k.GetFeeShift(), k.GetFee()), k.GetLockHeight(), Commitment(k.GetCommitment()), sig(s)); };
    std::vector<TransactionKernel> ks; ks.push_back(mk((int)s.below(4))); std::vector<TransactionInput> is{ input(s) }; std::vector<TransactionOutput> os{ out(s) };
    Transaction t(blind(s), TransactionBody(std::move(is), std::move(os), std::move(ks))); Json::Value j = t.ToJSON(); auto& k = j["body"]["kernels"][0]; std::string f = KF[(int)t.GetKernels()[0].GetFeatures()];
    std::vector<Json::Value*> hexes{ &j["offset"], &j["body"]["inputs"][0]["commit"], &j["body"]["outputs"][0]["commit"], &j["body"]["outputs"][0]["proof"], &k["excess"], &k["excess_sig"] };
    std::string what; bool structural = true; c.nontrivial();
    switch (s.below(9)) {
    case 0: { auto h = s.pick(hexes); std::string x = h->asString(); int w = (int)s.below(5); what = "hex text damaged, way " + std::to_string(w);
        if (w == 0) x.pop_back(); else if (w == 1) { x.pop_back(); x.pop_back(); } else if (w == 2) x += hx(s.bytes(1 + s.below(3))); else if (w == 3) x[s.below(x.size())] = s.pick<char>({ 'g', 'x', ' ', '-', '/', ':', '@', 'G', '`', '\n', '\0' }); else x = "";
        if (w == 3) { std::string tr = x; auto ws = [](char ch) { return isspace((unsigned char)ch); }; while (!tr.empty() && ws(tr.front())) tr.erase(0, 1); while (!tr.empty() && ws(tr.back())) tr.pop_back(); (void)tr; }
        *h = x; break; }
    case 1: { std::string n = s.pick<const char*>({ "inputs", "outputs", "kernels" }); j["body"].removeMember(n); what = n + " missing"; break; }
    case 2: { std::string n = s.pick<const char*>({ "offset", "body" }); j.removeMember(n); what = n + " missing"; break; }
    case 3: { std::string n = s.pick<const char*>({ "features", "excess", "excess_sig" }); k.removeMember(n); what = "kernel " + n + " missing"; break; }
    case 4: { int w = (int)s.below(7); what = "kernel features damaged, way " + std::to_string(w); auto& x = k["features"]; if (w == 0) x = Json::Value(Json::objectValue); else if (w == 1) x = Json::Value(Json::arrayValue); else if (w == 2) x = f; else if (w == 3) { Json::Value a = x[f]; x = Json::Value(Json::objectValue); x["plain"] = a; } else if (w == 4) x = 7; else if (w == 5) { x["Aardvark"] = Json::Value(Json::objectValue); } else x = true; break; }
    case 5: { std::string n = s.pick<const char*>({ "features", "commit" }); auto& o = j["body"][s.flip() ? "inputs" : "outputs"][0]; if (s.flip()) { o.removeMember(n); what = "coin " + n + " missing"; } else { o["features"] = s.pick<const char*>({ "", "Plai", "Plain ", "2", "Transactions", "HeightLocked" }); what = "unknown coin features"; } break; }
    case 6: { if (f == "Coinbase") { structural = false; break; } auto v = s.pick<const char*>({ "", "12x", "-5", " 7", "0x10", "1e3", "99999999999999999999999", "7 ", "+3", "1.5", "abc" }); k["features"][f]["fee"] = v; what = std::string("fee text '") + v + "'"; break; }
    case 7: { if (f == "Coinbase") { structural = false; break; } auto& x = k["features"][f]["fee"]; int w = (int)s.below(4); if (w == 0) x = -1; else if (w == 1) x = 1.5; else if (w == 2) x = Json::Value(Json::arrayValue); else x = true; what = "fee of the wrong type"; break; }
    case 8: { if (f != "NoRecentDuplicate") { structural = false; break; } int w = (int)s.below(3); auto& x = k["features"][f]; if (w == 0) x["lock_height"] = 0; else if (w == 1) x["lock_height"] = Json::UInt64(Consensus::WEEK_HEIGHT + 1 + s.below(1ULL << 40)); else x.removeMember("lock_height"); what = "relative height of no-recent-duplicate kernel missing or out of range"; break; }
    }
    if (!structural) { REQUIRE(ser(Transaction::FromJSON(j), EProtocolVersion::V2) == ser(t, EProtocolVersion::V2)); return; }
    c.log << f << " kernel; " << what; c.label(what.substr(0, what.find(',')).substr(0, 20));
    bool refused = throws([&] { auto u = Transaction::FromJSON(j); bool same = ser(u, EProtocolVersion::V2) == ser(t, EProtocolVersion::V2); if (same) throw std::runtime_error("harmless"); });
    REQUIRE_MSG(refused, what << " was read as another transaction");
}
static const char* TZS[] = { "UTC", "EST5EDT,M3.2.0,M11.1.0", "XXX-9:30", "NPT-5:45", "AEST-10AEDT,M10.1.0,M4.1.0/3", "YYY12" };
static void headerJson(Ctx& c) {
    auto& s = c.src; setenv("TZ", TZS[s.below(6)], 1); tzset(); auto f = headerFields(s); f.timestamp = s.chance(1, 4) ? (int64_t)s.below(4000000000ULL) : 1500000000 + (int64_t)s.below(400000000); auto h = f.make();
    c.nontrivial(); c.log << "TZ " << getenv("TZ") << " header at " << f.timestamp << " edge bits " << (int)f.pow.GetEdgeBits();
    Json::Value j = viaText(h.ToJSON(), s);
    REQUIRE_EQ(j["height"].asUInt64(), f.height); REQUIRE_EQ(j["version"].asUInt(), f.version); REQUIRE_EQ(j["timestamp_raw"].asInt64(), f.timestamp); REQUIRE_EQ(j["output_mmr_size"].asUInt64(), f.outSize); REQUIRE_EQ(j["kernel_mmr_size"].asUInt64(), f.kSize); REQUIRE_EQ(j["total_difficulty"].asUInt64(), f.td); REQUIRE_EQ(j["secondary_scaling"].asUInt(), f.scaling); REQUIRE_EQ(j["nonce"].asUInt64(), f.nonce); REQUIRE_EQ(j["edge_bits"].asUInt(), f.pow.GetEdgeBits());
    REQUIRE_EQ(j["previous"].asString(), hx(f.prev.GetData())); REQUIRE_EQ(j["prev_root"].asString(), hx(f.prevRoot.GetData())); REQUIRE_EQ(j["kernel_root"].asString(), hx(f.kRoot.GetData())); REQUIRE_EQ(j["output_root"].asString(), hx(f.outRoot.GetData())); REQUIRE_EQ(j["range_proof_root"].asString(), hx(f.rpRoot.GetData())); REQUIRE_EQ(j["total_kernel_offset"].asString(), hx(f.offset.GetVec())); REQUIRE_EQ(j["hash"].asString(), hx(h.GetHash().GetData()));
    REQUIRE_EQ(j["cuckoo_solution"].size(), 42u); for (int i = 0; i < 42; i++) REQUIRE_EQ(j["cuckoo_solution"][i].asUInt64(), f.pow.GetProofNonces()[i]);
    // civil date computed independently
    int64_t d = f.timestamp / 86400, z = d + 719468, era = z / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, dd = doy - (153 * mp + 2) / 5 + 1, mm = mp < 10 ? mp + 3 : mp - 9, yy = yoe + era * 400 + (mm <= 2), r = f.timestamp % 86400;
    char buf[64]; snprintf(buf, sizeof buf, "%04d-%02d-%02d %02d:%02d:%02d UTC", (int)yy, (int)mm, (int)dd, (int)(r / 3600), (int)(r / 60 % 60), (int)(r % 60)); REQUIRE_EQ(j["timestamp"].asString(), std::string(buf));
    auto k = BlockHeader::FromJSON(j); REQUIRE_MSG(ser(*k, EProtocolVersion::V2) == ser(h, EProtocolVersion::V2), "header read back from json differs, timestamp " << k->GetTimestamp() << " vs " << f.timestamp); REQUIRE(k->GetHash() == h.GetHash());
    // damage
    Json::Value bad = j; int w = (int)s.below(5); std::string what;
    if (w == 0) { Json::Value n(Json::arrayValue); size_t m = s.chance(1, 2) ? s.pick<size_t>({ 0, 41, 43 }) : s.below(200); if (m == 42) m = 0; for (size_t i = 0; i < m; i++) n.append(Json::UInt64(i)); bad["cuckoo_solution"] = n; what = std::to_string(m) + " nonces"; }
    else if (w == 1) { bad["edge_bits"] = Json::UInt64(s.pick<uint64_t>({ 0, 64, 255, 256 + 29, 1ULL << 33 })); what = "edge bits out of range"; }
    else if (w == 2) { auto n = s.pick<const char*>({ "version", "secondary_scaling" }); bad[n] = Json::UInt64((std::string(n) == "version" ? 65536 : 4294967296ULL) + s.below(1000)); what = std::string(n) + " out of range"; }
    else if (w == 3) { auto n = s.pick<const char*>({ "height", "version", "secondary_scaling", "total_difficulty", "nonce", "kernel_mmr_size", "output_mmr_size", "edge_bits" }); bad[n] = s.pick<const char*>({ "", "3z", "-1", "0x3", " 3", "3 ", "99999999999999999999" }); what = std::string(n) + " malformed"; }
    else { auto n = s.pick<const char*>({ "height", "version", "secondary_scaling", "total_difficulty", "nonce", "kernel_mmr_size", "output_mmr_size", "edge_bits", "kernel_root", "output_root", "range_proof_root", "prev_root", "previous", "total_kernel_offset", "cuckoo_solution", "timestamp" }); bad.removeMember(n); what = std::string(n) + " missing"; }
    c.log << "; then " << what; REQUIRE_MSG(throws([&] { BlockHeader::FromJSON(bad); }), "header json with " << what << " was accepted");
}
static void numbers(Ctx& c) {
    auto& s = c.src; uint64_t v = s.edgy64(); std::string t = s.flip() ? std::to_string(v) : s.text("0123456789-+ xaeE.\t\"", 24); c.log << "number text '" << t << "'"; c.nontrivial(!t.empty());
    bool digits = !t.empty() && t.find_first_not_of("0123456789") == std::string::npos; size_t nz = t.find_first_not_of('0'); std::string m = nz == std::string::npos ? "0" : t.substr(nz); bool fits = digits && (m.size() < 20 || (m.size() == 20 && m <= "18446744073709551615")); uint64_t val = 0; if (fits) for (char ch : m) val = val * 10 + (uint64_t)(ch - '0');
    Json::Value j; j["n"] = t; c.label(fits ? "valid" : "malformed");
    auto chk = [&](auto get, uint64_t max, const char* n) { bool ok = fits && val <= max; uint64_t got = 0; bool th = throws([&] { got = (uint64_t)get(); }); REQUIRE_MSG(th != ok, n << (ok ? " refused a good number" : " accepted malformed or out-of-range text")); if (ok) REQUIRE_EQ(got, val); };
    chk([&] { return JsonUtil::GetRequiredUInt64(j, "n"); }, UINT64_MAX, "u64"); chk([&] { return JsonUtil::GetRequiredUInt32(j, "n"); }, UINT32_MAX, "u32"); chk([&] { return JsonUtil::GetRequiredUInt16(j, "n"); }, 65535, "u16"); chk([&] { return JsonUtil::GetRequiredUInt8(j, "n"); }, 255, "u8");
    chk([&] { return *JsonUtil::GetUInt64Opt(j, "n"); }, UINT64_MAX, "u64?"); chk([&] { return *JsonUtil::GetUInt32Opt(j, "n"); }, UINT32_MAX, "u32?"); chk([&] { return *JsonUtil::GetUInt8Opt(j, "n"); }, 255, "u8?");
    Json::Value w; w["n"] = Json::UInt64(v); REQUIRE_EQ(JsonUtil::GetRequiredUInt64(w, "n"), v); REQUIRE(throws([&] { JsonUtil::GetRequiredUInt32(w, "n"); }) == (v > UINT32_MAX)); REQUIRE(throws([&] { JsonUtil::GetRequiredUInt8(w, "n"); }) == (v > 255));
    int64_t sv = (int64_t)s.edgy64(); Json::Value x; x["n"] = std::to_string(sv); REQUIRE_EQ(JsonUtil::GetRequiredInt64(x, "n"), sv); x["n"] = Json::Int64(sv); REQUIRE_EQ(JsonUtil::GetRequiredInt64(x, "n"), sv);
    if (!digits && !(t.size() > 1 && t[0] == '-' && t.find_first_not_of("0123456789", 1) == std::string::npos)) REQUIRE(throws([&] { JsonUtil::GetRequiredInt64(j, "n"); }));
    uint64_t raw = (v & 0x0FFFFFFFFFFULL) | ((uint64_t)s.below(16) << 40); Fee f = Fee::FromJSON(Json::UInt64(raw)); REQUIRE_EQ(f.GetFee(), raw & 0xFFFFFFFFFFULL); REQUIRE_EQ((uint64_t)f.GetShift(), raw >> 40); REQUIRE_EQ(f.ToJSON().asUInt64(), raw); REQUIRE(Fee::FromJSON(std::to_string(raw)) == f);
}
static void hexText(Ctx& c) {
    auto& s = c.src; Bytes b = blob(s, 80); std::string h = HexUtil::ConvertToHex(b); REQUIRE_EQ(h, hx(b)); REQUIRE(HexUtil::FromHex(h) == b); REQUIRE(HexUtil::IsValidHex(h)); std::string up = h; for (auto& ch : up) ch = (char)toupper(ch); REQUIRE(HexUtil::FromHex(up) == b); REQUIRE(HexUtil::FromHex("0x" + h) == b);
    if (!b.empty()) { size_t n = s.below(b.size() + 1); REQUIRE_EQ(HexUtil::ConvertToHex(b, n), h.substr(0, 2 * n)); }
    std::string t = s.flip() ? s.text("0123456789abcdefABCDEFxXgG -\n", 40) : h; if (s.flip() && !t.empty()) t[s.below(t.size())] = (char)s.below(256); c.log << "hex of " << b.size() << " bytes; text '" << t << "'"; c.nontrivial();
    std::string u = t; auto sp = [](char ch) { return isspace((unsigned char)ch) != 0; }; while (!u.empty() && sp(u.back())) u.pop_back(); while (!u.empty() && sp(u[0])) u.erase(0, 1); if (u.size() >= 2 && u[0] == '0' && (u[1] | 32) == 'x') u = u.substr(2);
    bool good = u.size() % 2 == 0 && u.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos; Bytes got; bool th = throws([&] { got = HexUtil::FromHex(t); }); REQUIRE_MSG(th == !good, (good ? "refused" : "accepted") << " hex text '" << t << "'"); if (good) { std::string l = u; for (auto& ch : l) ch = (char)tolower(ch); REQUIRE_EQ(hx(got), l); }
    c.label(good ? "valid" : "malformed");
    Hash x = gen::hash(s); REQUIRE_EQ(x.ToHex(), hx(x.GetData())); REQUIRE(Hash::FromHex(x.ToHex()) == x); Commitment cm = commit(s); REQUIRE(Commitment::FromHex(cm.ToHex()) == cm); REQUIRE_EQ(cm.ToHex(), hx(cm.GetVec())); BlindingFactor bf = blind(s); REQUIRE(BlindingFactor::FromHex(bf.ToHex()) == bf);
    std::string w = hx(x.GetData()); size_t cut = s.below(3); if (cut == 0) w.resize(62); else if (cut == 1) w += "0000"; else w = ""; REQUIRE(throws([&] { Hash::FromHex(w); })); REQUIRE(throws([&] { Commitment::FromHex(w); })); REQUIRE(throws([&] { BlindingFactor::FromHex(w); })); Json::Value j; j["x"] = w; REQUIRE(throws([&] { JsonUtil::GetHash(j, "x"); })); REQUIRE(throws([&] { JsonUtil::GetCommitment(j, "x"); })); REQUIRE(throws([&] { JsonUtil::GetBlindingFactor(j, "x"); })); REQUIRE(throws([&] { JsonUtil::GetPublicKey(j, "x"); })); REQUIRE(throws([&] { JsonUtil::GetCompactSignature(j, "x"); })); REQUIRE(throws([&] { JsonUtil::GetRangeProof(j, "x"); }));
    j["x"] = hx(x.GetData()); REQUIRE(JsonUtil::GetHash(j, "x") == x); j["x"] = cm.ToHex(); REQUIRE(JsonUtil::GetCommitment(j, "x") == cm);
    Signature sg = sig(s); CompactSignature cs = Crypto::ToCompact(sg); REQUIRE_EQ(cs.ToHex(), compactHex(sg)); REQUIRE(Crypto::ParseCompactSignature(cs).GetSignatureBytes() == sg.GetSignatureBytes());
    Bytes ov(64, 0xFF); if (s.flip()) std::fill(ov.begin() + 32, ov.end(), 1); REQUIRE(throws([&] { Crypto::ParseCompactSignature(CompactSignature(CBigInteger<64>(ov))); }));
}
static void base58Text(Ctx& c) {
    auto& s = c.src; Bytes b = blob(s, 60); c.log << "base58 of " << hx(b); c.nontrivial(b.size() > 0);
    std::string e = Base58::Encode(b); REQUIRE_EQ(e, b58(b)); REQUIRE(Base58::Decode(e) == b);
    Bytes ck = b, h = sha2(b); ck.insert(ck.end(), h.begin(), h.begin() + 4); std::string ec = Base58::EncodeCheck(b); REQUIRE_EQ(ec, b58(ck)); REQUIRE(Base58::DecodeCheck(ec) == b);
    Bytes sc(h.begin(), h.begin() + 4); sc.insert(sc.end(), b.begin(), b.end()); std::string es = Base58::SimpleEncodeCheck(b); REQUIRE_EQ(es, b58(sc)); REQUIRE(Base58::SimpleDecodeCheck(es) == b);
    // damage: any other string is refused or is the encoding of what comes out
    std::string t = s.flip() ? ec : es; bool simple = t == es && t != ec; size_t n = 1 + s.below(2); for (size_t i = 0; i < n && !t.empty(); i++) { size_t p = s.below(t.size()); switch (s.below(4)) { case 0: t[p] = A58[s.below(58)]; break; case 1: t[p] = (char)s.below(256); break; case 2: t.erase(p, 1); break; default: t.insert(p, 1, s.flip() ? A58[s.below(58)] : (char)s.pick<int>({ '0', 'O', 'I', 'l', 0, ' ', '+' })); } }
    c.log << "; damaged '" << t << "'"; std::string u = t; auto sp = [](char ch) { return ch && strchr(" \f\n\r\t\v", ch) != nullptr; }; while (!u.empty() && sp(u[0])) u.erase(0, 1); while (!u.empty() && sp(u.back())) u.pop_back();
    bool alpha = u.find_first_not_of(A58) == std::string::npos; Bytes got; bool th = throws([&] { got = Base58::Decode(t); }); REQUIRE_MSG(th == !alpha, "base58 text " << (alpha ? "refused" : "accepted")); if (!th) REQUIRE_EQ(b58(got), u);
    bool th2 = throws([&] { got = simple ? Base58::SimpleDecodeCheck(t) : Base58::DecodeCheck(t); }); if (!th2) { Bytes g2 = got, hh = sha2(got); if (simple) { g2.assign(hh.begin(), hh.begin() + 4); g2.insert(g2.end(), got.begin(), got.end()); REQUIRE_EQ(b58(g2), u); } else { g2.insert(g2.end(), hh.begin(), hh.begin() + 4); REQUIRE_EQ(b58(g2), u); } }
    c.label(th2 ? "refused" : "accepted");
}
static void base64Text(Ctx& c) {
    auto& s = c.src; Bytes b = blob(s, 60); std::string want; for (size_t i = 0; i < b.size(); i += 3) { uint32_t v = b[i] << 16; size_t n = std::min<size_t>(3, b.size() - i); if (n > 1) v |= b[i + 1] << 8; if (n > 2) v |= b[i + 2]; for (size_t k = 0; k <= n; k++) want += A64[(v >> (18 - 6 * k)) & 63]; }
    c.log << "base64 of " << hx(b); c.nontrivial(b.size() > 0); REQUIRE_EQ(Base64::EncodeUnpadded(b), want); REQUIRE(Base64::DecodeUnpadded(want) == b);
    if (!want.empty()) { std::string t = want; t[s.below(t.size())] = s.pick<char>({ '*', '-', '_', '.', '~', '(', '\x80' }); bool ok = !throws([&] { Base64::DecodeUnpadded(t); }); REQUIRE_MSG(!ok, "base64 text with a foreign character was accepted: " << t); }
}
void pbt::setup(Check& c) {
    c.id = "C03"; c.rule = "Transactions, kernels and headers with boundary and random fields in several time zones; JSON compared field by field with the object, re-read through text and compared by encodings; single-field damage of good JSON and of hex, base58, base64 and number texts against independent codecs. Non-trivial: at least one kernel, byte or character is involved.";
    c.quickCases = 20000; c.thoroughCases = 1000000; c.quickCap = 20; c.quickMin = 5; c.workerInit = env::workerDefault;
    c.parts = { { "tx", 4, txJson }, { "damage", 4, damage }, { "header", 3, headerJson }, { "numbers", 3, numbers }, { "hex", 3, hexText }, { "base58", 3, base58Text }, { "base64", 1, base64Text } };
    c.assumptions = { "Range proofs in JSON are of the standard size (675 bytes); timestamps lie between 1970 and 2096; base64 decoding ignores unused trailing bits." };
}
