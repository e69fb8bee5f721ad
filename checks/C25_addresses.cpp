// C25: network addresses parse exactly and print back the same
#include "gen.h"
#include "env.h"
#include "sha3.h"
#include <Net/SocketAddress.h>
#include <Net/Tor/TorAddressParser.h>
#include <Crypto/ED25519.h>
#include <arpa/inet.h>
#include <sodium.h>
using namespace pbt; typedef std::vector<uint8_t> Bytes;
template <class F> static bool throws(F f) { try { f(); return false; } catch (std::exception&) { return true; } }
// ---- generated values and texts
struct V { bool v6; Bytes b; std::string text; };
static std::string dec4(const uint8_t* b) { std::string t; for (int i = 0; i < 4; i++) t += (i ? "." : "") + std::to_string(b[i]); return t; }
static V value(Src& s) {
    V v; v.v6 = s.flip(); v.b = s.bytes(v.v6 ? 16 : 4); if (s.chance(1, 3)) for (auto& x : v.b) x = s.pick<uint8_t>({ 0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 255, x });
    if (!v.v6) { if (s.chance(1, 4)) v.b[0] = 127; v.text = dec4(v.b.data()); return v; }
    size_t z = s.below(9), at = s.below(9); for (size_t i = at; i < at + z && i < 8; i++) v.b[2 * i] = v.b[2 * i + 1] = 0; if (s.chance(1, 8)) { v.b.assign(16, 0); v.b[15] = (uint8_t)s.below(3); } if (s.chance(1, 8)) { for (int i = 0; i < 10; i++) v.b[i] = 0; v.b[10] = v.b[11] = 0xff; }
    bool tail = s.chance(1, 5), upper = s.flip(), pad = s.chance(1, 4); size_t groups = tail ? 6 : 8; std::vector<std::string> g; for (size_t i = 0; i < groups; i++) { char q[8]; unsigned w = v.b[2 * i] * 256u + v.b[2 * i + 1]; snprintf(q, sizeof q, pad ? (upper ? "%04X" : "%04x") : (upper ? "%X" : "%x"), w); g.push_back(q); }
    std::vector<std::pair<size_t, size_t>> runs; for (size_t i = 0; i < groups; i++) for (size_t j = i + 1; j <= groups; j++) { bool all = true; for (size_t k = i; k < j; k++) all &= v.b[2 * k] == 0 && v.b[2 * k + 1] == 0; if (all) runs.push_back({ i, j }); }
    size_t a = groups, b = groups; if (!runs.empty() && s.chance(2, 3)) { auto r = runs[s.below(runs.size())]; a = r.first; b = r.second; }
    std::string t; for (size_t i = 0; i < groups; i++) { if (i == a && a < b) { t += "::"; i = b - 1; continue; } if (!t.empty() && t.back() != ':') t += ":"; t += g[i]; } if (tail) { if (t.empty() || t.back() != ':') t += ":"; t += dec4(&v.b[12]); } v.text = t; return v;
}
static Bytes raw(const IPAddress& a) { Bytes r; if (a.IsV4()) { for (auto x : a.GetAddress().to_v4().to_bytes()) r.push_back(x); } else for (auto x : a.GetAddress().to_v6().to_bytes()) r.push_back(x); return r; }
static bool strict4(const std::string& t) { size_t i = 0; for (int g = 0; g < 4; g++) { if (g && (i >= t.size() || t[i++] != '.')) return false; size_t n = 0, v = 0; while (i < t.size() && isdigit((unsigned char)t[i]) && n < 4) { v = v * 10 + (size_t)(t[i] - '0'); i++; n++; } if (n == 0 || n > 3 || v > 255 || (n > 1 && t[i - n] == '0')) return false; } return i == t.size(); }
static std::string mutate(Src& s, std::string t) { static const std::string al = "0123456789abcdefABCDEF.:[]%/ -+xg,"; size_t n = 1 + s.size(3); for (size_t q = 0; q < n; q++) { switch (s.below(5)) { case 0: t.insert(t.begin() + (long)s.below(t.size() + 1), al[s.below(al.size())]); break; case 1: if (!t.empty()) t.erase(s.below(t.size()), 1 + s.below(3)); break; case 2: if (!t.empty()) t[s.below(t.size())] = al[s.below(al.size())]; break; case 3: t += t.substr(s.below(t.size() + 1)); break; case 4: { size_t d = t.find_first_of("0123456789"); if (d != std::string::npos) t.insert(d, s.pick<std::string>({ "99999999999", "25", "0", "00", "2" })); } } } if (t.find('\0') != std::string::npos) t.clear(); return t; }
static void ip(Ctx& c) {
    auto& s = c.src; V v = value(s); c.log << v.text; IPAddress a = IPAddress::Parse(v.text); REQUIRE_EQ(a.IsV6(), v.v6); REQUIRE_EQ(a.IsV4(), !v.v6); REQUIRE_MSG(raw(a) == v.b, "parsed to another address"); char buf[64]; std::string canon = inet_ntop(v.v6 ? AF_INET6 : AF_INET, v.b.data(), buf, sizeof buf); REQUIRE_EQ(a.Format(), canon); IPAddress b = IPAddress::Parse(a.Format()); REQUIRE_MSG(b == a && !(a < b) && !(b < a), "printed and parsed again: not equal");
    IPAddress d = v.v6 ? [&] { std::array<uint8_t, 16> x; std::copy(v.b.begin(), v.b.end(), x.begin()); return IPAddress::CreateV6(x); }() : [&] { std::array<uint8_t, 4> x; std::copy(v.b.begin(), v.b.end(), x.begin()); return IPAddress::CreateV4(x); }(); REQUIRE(d == a); REQUIRE_MSG(std::hash<IPAddress>()(d) == std::hash<IPAddress>()(a) && std::hash<IPAddress>()(b) == std::hash<IPAddress>()(a), "equal addresses hash differently");
    bool loop = v.v6 ? std::all_of(v.b.begin(), v.b.end() - 1, [](uint8_t x) { return x == 0; }) && v.b[15] == 1 : v.b[0] == 127; REQUIRE_EQ(a.IsLocalhost(), loop); REQUIRE_EQ(IPAddress::IsValidIPAddress(v.text), !v.v6);
    V w = value(s); if (s.chance(1, 3)) { w = v; w.b[s.below(w.b.size())] ^= (uint8_t)(1 << s.below(8)); w.text = inet_ntop(w.v6 ? AF_INET6 : AF_INET, w.b.data(), buf, sizeof buf); } IPAddress e = IPAddress::Parse(w.text); bool eq = w.v6 == v.v6 && w.b == v.b; REQUIRE_EQ(e == a, eq); bool lt = v.v6 != w.v6 ? !v.v6 : v.b < w.b; REQUIRE_EQ(a < e, lt); std::unordered_set<IPAddress> set{ a, e }; REQUIRE_EQ(set.size(), eq ? 1u : 2u);
    Bytes ser = gen::ser(a, EProtocolVersion::V1); Bytes want{ (uint8_t)v.v6 }; want.insert(want.end(), v.b.begin(), v.b.end()); REQUIRE(ser == want); ByteBuffer bb(Bytes(ser), EProtocolVersion::V1); REQUIRE(IPAddress::Deserialize(bb) == a); c.nontrivial(v.text != canon || v.b[0] > 9); c.label(v.v6 ? "IPv6" : "IPv4");
}
static void socketAddress(Ctx& c) {
    auto& s = c.src; V v = value(s); uint16_t port = (uint16_t)s.edgy64(); IPAddress a = IPAddress::Parse(v.text); SocketAddress x(a, port); c.log << x.Format(); REQUIRE_MSG(SocketAddress::Parse(x.Format()) == x, "printed and parsed again: not equal"); std::string t = (v.v6 ? "[" + v.text + "]" : v.text) + ":" + std::to_string(port); SocketAddress y = SocketAddress::Parse(t); REQUIRE_MSG(y == x && y.GetPortNumber() == port && y.GetIPAddress() == a, t << " parsed to " << y.Format()); SocketAddress z(v.text, port); REQUIRE(z == x); auto e = x.GetEndpoint(); REQUIRE_MSG(e.port() == port && e.address() == a.GetAddress(), "endpoint differs"); REQUIRE(SocketAddress::FromEndpoint(e) == x);
    Bytes ser = gen::ser(x, EProtocolVersion::V1); ByteBuffer bb(Bytes(ser), EProtocolVersion::V1); REQUIRE(SocketAddress::Deserialize(bb) == x); SocketAddress o(a, (uint16_t)(port ^ (1 << s.below(16)))); REQUIRE(!(o == x)); REQUIRE_EQ(x < o, port < o.GetPortNumber()); SocketAddress p(IPAddress::Parse(value(s).text), (uint16_t)s.edgy64()); REQUIRE((x < p) + (p < x) + (x == p) == 1);
    std::string bad = v.v6 ? "[" + v.text + "]" : v.text; switch (s.below(9)) { case 0: bad += ":" + std::to_string(65536 + s.below(1000000)); break; case 1: bad += ":"; break; case 2: bad += ":" + std::to_string(port) + s.pick<std::string>({ "x", " ", ".", ":1", ":", "e3", "/" }); break; case 3: bad += ":-" + std::to_string(port); break; case 4: break; case 5: bad += ":+" + std::to_string(port); break; case 6: bad += ":99999999999999999999"; break; case 7: bad = ":" + std::to_string(port); break; case 8: bad += ": " + std::to_string(port); break; } REQUIRE_MSG(throws([&] { SocketAddress::Parse(bad); }), "accepted: " << bad); c.nontrivial(); c.label(v.v6 ? "IPv6" : "IPv4");
}
static void malformed(Ctx& c) {
    auto& s = c.src; std::string t = s.chance(1, 10) ? s.text("0123456789.:abcdef[]", 20) : mutate(s, value(s).text); c.log << "\"" << t << "\""; if (t.find('%') != std::string::npos) { c.label("scope"); return; } uint8_t b[16]; bool ok4 = strict4(t), ok6 = inet_pton(AF_INET6, t.c_str(), b) == 1; bool r = throws([&] { IPAddress::Parse(t); }); REQUIRE_MSG(r == !(ok4 || ok6), (r ? "refused though well-formed" : "accepted though malformed")); bool valid = false; bool th = throws([&] { valid = IPAddress::IsValidIPAddress(t); }); REQUIRE_MSG(!th, "the test of an address throws"); REQUIRE_EQ(valid, ok4); c.nontrivial(!ok4 && !ok6);
}
// ---- onion addresses
static std::string base32(const Bytes& b) { static const char* al = "abcdefghijklmnopqrstuvwxyz234567"; std::string r; unsigned acc = 0, n = 0; for (uint8_t x : b) { acc = (acc << 8) | x; n += 8; while (n >= 5) { r += al[(acc >> (n - 5)) & 31]; n -= 5; } acc &= 0xff; } return r; }
static std::string onion(const Bytes& key, uint8_t version, uint8_t flip0 = 0, uint8_t flip1 = 0) { Bytes m; for (char ch : std::string(".onion checksum")) m.push_back((uint8_t)ch); m.insert(m.end(), key.begin(), key.end()); m.push_back(version); auto h = ref::sha3_256(m); Bytes a = key; a.push_back(h[0] ^ flip0); a.push_back(h[1] ^ flip1); a.push_back(version); return base32(a); }
static void tor(Ctx& c) {
    auto& s = c.src; auto seed = s.bytes(32); auto kp = ED25519::CalculateKeypair(SecretKey(CBigInteger<32>(seed.data()))); Bytes key = kp.public_key.vec(); std::string t = onion(key, 3); c.log << t; const std::string fromKey = TorAddressParser::FromPubKey(kp.public_key).ToString(); REQUIRE_EQ(fromKey, t);
    auto p = TorAddressParser::Parse(t); REQUIRE_MSG(p.has_value(), "a valid onion address is refused"); REQUIRE_MSG(p->GetPublicKey().vec() == key, "another key"); REQUIRE(p->ToString() == t && *TorAddressParser::Parse(p->ToString()) == *p);
    std::string bad = t; const char* what = ""; switch (s.below(7)) {
        case 0: { size_t i = s.below(t.size()); char o = "abcdefghijklmnopqrstuvwxyz234567"[s.below(32)]; if (o == t[i]) o = o == 'a' ? 'b' : 'a'; bad[i] = o; what = "one letter replaced"; break; }
        case 1: { size_t n = s.below(t.size()); bad = t.substr(0, n); what = "cut short"; break; }
        case 2: bad += s.text("abcdefghijklmnopqrstuvwxyz234567=.", 6) + "a"; what = "too long"; break;
        case 3: { uint8_t f = (uint8_t)s.below(256), g = (uint8_t)s.below(256); if (!f && !g) g = 1; bad = onion(key, 3, f, g); what = "wrong checksum"; break; }
        case 4: bad[s.below(t.size())] = s.pick<char>({ '0', '1', '8', '9', '!', ' ', '=', '-', '_', '.' }); what = "not a base32 digit"; break;
        case 5: { size_t i = s.below(55); while (i < 55 && bad[i] == bad[i + 1]) i++; if (i >= 55) { return; } std::swap(bad[i], bad[i + 1]); what = "letters swapped"; break; }
        case 6: { // not a key in the main subgroup
            Bytes k2 = key; if (s.flip()) { static const unsigned char low[32] = { 0xec, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f }; if (crypto_core_ed25519_add(k2.data(), key.data(), low)) return; } else { k2 = s.bytes(32); if (crypto_core_ed25519_is_valid_point(k2.data())) return; } bad = onion(k2, 3); what = "not a point of the prime-order group"; break; } }
    c.log << " " << what; REQUIRE_MSG(!TorAddressParser::Parse(bad).has_value(), "accepted with " << what << ": " << bad); c.label(what); c.nontrivial();
}
void pbt::setup(Check& c) {
    c.id = "C25"; c.rule = "non-trivial: text other than the canonical one or a larger first byte (ip), a malformed text (malformed), every case (socket, tor)"; c.workerInit = env::workerDefault; c.quickCases = 60000; c.thoroughCases = 3000000; c.quickCap = 12; c.quickMin = 0;
    c.parts = { { "ip", 3, ip }, { "socket", 3, socketAddress }, { "malformed", 3, malformed }, { "tor", 1, tor } };
    c.assumptions = { "scope suffixes (%) of IPv6 addresses are left out" };
}
