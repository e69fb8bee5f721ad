// C32: slatepack addresses against a bech32 reference, with all kinds of altered texts
#include "env.h"
#include "gen.h"
#include "sha3.h"
#include <Wallet/Models/Slatepack/SlatepackAddress.h>
#include <Crypto/ED25519.h>
#include <sodium.h>
#include <set>
using namespace pbt; typedef std::vector<uint8_t> Bytes; typedef uint64_t u64; typedef uint32_t u32;
static std::string hx(const Bytes& b) { std::string s; char t[3]; for (uint8_t x : b) { snprintf(t, 3, "%02x", x); s += t; } return s; }
static const std::string CS = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
// BIP173: the code word, as a polynomial over GF(32), is 1 modulo the generator
static u32 poly(const std::string& hrp, const Bytes& v) { static const u32 G[5] = { 0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3 }; u32 c = 1; auto step = [&](u32 x) { u32 t = c >> 25; c = (c & 0x1ffffff) << 5 ^ x; for (int i = 0; i < 5; i++) if ((t >> i) & 1) c ^= G[i]; }; for (char h : hrp) step((uint8_t)h >> 5); step(0); for (char h : hrp) step((uint8_t)h & 31); for (uint8_t x : v) step(x); return c; }
static Bytes to5(const Bytes& d) { Bytes o; size_t bits = d.size() * 8; for (size_t i = 0; i < bits; i += 5) { u32 x = 0; for (size_t k = i; k < i + 5; k++) x = x * 2 + (k < bits ? (d[k / 8] >> (7 - k % 8)) & 1 : 0); o.push_back((uint8_t)x); } return o; }
static std::string enc5(const std::string& hrp, Bytes v) { Bytes w = v; w.resize(v.size() + 6); u32 m = poly(hrp, w) ^ 1; std::string o = hrp + "1"; for (uint8_t x : v) o += CS[x]; for (int i = 5; i >= 0; i--) o += CS[(m >> (5 * i)) & 31]; return o; }
static std::string enc(const std::string& hrp, const Bytes& d) { return enc5(hrp, to5(d)); }
static std::optional<Bytes> meaning(std::string t) {
    bool lo = false, up = false; for (char& ch : t) { if (ch < 33 || ch > 126) return {}; if (islower(ch)) lo = true; if (isupper(ch)) { up = true; ch = (char)tolower(ch); } } std::string hrp = t.substr(0, t.find('1')); if ((lo && up) || (hrp != "grin" && hrp != "tgrin") || t.size() != hrp.size() + 59) return {};
    Bytes v; for (char ch : t.substr(hrp.size() + 1)) { size_t p = CS.find(ch); if (p == CS.npos) return {}; v.push_back((uint8_t)p); } if (poly(hrp, v) != 1) return {}; v.resize(52); if (v.back() & 15) return {}; Bytes d(32); for (size_t i = 0; i < 256; i++) d[i / 8] = (uint8_t)(d[i / 8] << 1 | ((v[i / 5] >> (4 - i % 5)) & 1)); if (!crypto_core_ed25519_is_valid_point(d.data())) return {}; return d;
}
static std::optional<Bytes> ask(const std::string& t) { try { return SlatepackAddress::Parse(t).GetEdwardsPubKey().vec(); } catch (const std::exception&) { return {}; } }
static Bytes someKey(Src& s) { Bytes seed = s.bytes(32), pk(32), sk(64); crypto_sign_ed25519_seed_keypair(pk.data(), sk.data(), seed.data()); return pk; }
static void onlyMeaning(Ctx& c, const std::string& t, const char* what) { auto want = meaning(t), got = ask(t); c.label(want ? "valid altered text" : "invalid text"); REQUIRE_MSG((bool)want == (bool)got && (!want || *want == *got), what << ": \"" << t << "\" " << (got ? "accepted as " + hx(*got) : "refused")); }
static void address(Ctx& c) {
    auto& s = c.src; Bytes pk = someKey(s); c.log << "key " << hx(pk) << "; "; c.nontrivial(); ed25519_public_key_t ek; ek.bytes = CBigInteger<32>(pk.data()); SlatepackAddress a(ek); std::string t = a.ToString(); REQUIRE_MSG(t == enc("grin", pk), "address is " << t << " instead of " << enc("grin", pk)); auto got = ask(t); REQUIRE_MSG(got && *got == pk, "does not parse back"); std::string up = t; for (auto& ch : up) ch = (char)toupper(ch); onlyMeaning(c, up, "upper case"); REQUIRE(SlatepackAddress::Parse(t) == a);
    { Bytes in; for (char ch : std::string(".onion checksum")) in.push_back((uint8_t)ch); in.insert(in.end(), pk.begin(), pk.end()); in.push_back(3); Bytes h = ref::sha3_256(in), o = pk; o.push_back(h[0]); o.push_back(h[1]); o.push_back(3); std::string b; for (size_t i = 0; i < 280; i += 5) { u32 x = 0; for (size_t k = i; k < i + 5; k++) x = x * 2 + ((o[k / 8] >> (7 - k % 8)) & 1); b += "abcdefghijklmnopqrstuvwxyz234567"[x]; } std::string got2 = a.ToTorAddress().ToString(); if (got2.size() > 56 && got2.substr(0, 7) == "http://") got2 = got2.substr(7); REQUIRE_MSG(got2 == b || got2 == b + ".onion", "onion address " << got2 << " instead of " << b); auto j = a.ToJSON(); REQUIRE_EQ(j["slatepack"].asString(), t); REQUIRE(j["onion"].asString().find(b) != std::string::npos); Bytes x(32); REQUIRE(crypto_sign_ed25519_pk_to_curve25519(x.data(), pk.data()) == 0); REQUIRE_MSG(a.ToX25519PubKey().bytes.GetData() == x, "encryption key"); REQUIRE_EQ(j["key"].asString(), hx(x)); }
    { Serializer o; a.Serialize(o); Bytes w{ 63 }; w.insert(w.end(), t.begin(), t.end()); REQUIRE(o.GetBytes() == w); ByteBuffer b(w); REQUIRE(SlatepackAddress::Deserialize(b) == a); size_t cut = s.below(w.size()); w.resize(cut); ByteBuffer q(w); bool thrown = false; try { SlatepackAddress::Deserialize(q); } catch (const std::exception&) { thrown = true; } REQUIRE_MSG(thrown, "packed address cut to " << cut << " bytes"); }
    // up to four characters changed
    for (int n = 0; n < 24; n++) { std::string u = t; std::set<size_t> at; size_t k = 1 + s.below(4); while (at.size() < k) at.insert(s.below(8) ? 5 + s.below(58) : s.below(5)); for (size_t p : at) { char old = u[p]; do u[p] = s.below(8) ? CS[s.below(32)] : (char)s.range(33, 126); while (u[p] == old); } auto g = ask(u); REQUIRE_MSG(!g, k << " characters changed: \"" << u << "\" accepted"); }
    for (int n = 0; n < 8; n++) {
        std::string u = t; size_t p = s.below(u.size()); switch (s.below(8)) { case 0: u.erase(p, 1 + s.below(3)); break; case 1: u.insert(p, 1, s.flip() ? 'q' : CS[s.below(32)]); break; case 2: u[p] = (char)toupper(u[p]); break; case 3: u = u + s.pick<std::string>({ " ", "\n", "q", "p", "\xc3", "1" }); break; case 4: u = " " + u; break; case 5: std::swap(u[p], u[s.below(u.size())]); break; case 6: u[p] = (char)s.below(256); break; default: u.resize(p); } onlyMeaning(c, u, "altered");
    }
}
// well-formed bech32 that is no slatepack address: other prefix, other length, stray padding bits, no curve point
static void foreign(Ctx& c) {
    auto& s = c.src; Bytes d = someKey(s); std::string hrp = "grin"; c.nontrivial(); int kind = (int)s.below(6); std::string t; switch (kind) { case 0: hrp = s.pick<std::string>({ "tgrin", "bc", "grim", "gri", "g", "grin1", "grinn", "tb" }); t = enc(hrp, d); break; case 1: d.resize(s.pick<size_t>({ 0, 1, 2, 20, 31, 33, 40, 16 }), 0); t = enc(hrp, d); break; case 2: { Bytes v = to5(d); v.back() |= (uint8_t)s.range(1, 15); t = enc5(hrp, v); break; } case 3: d = s.bytes(32); t = enc(hrp, d); break; case 4: { Bytes v = to5(d); v.push_back((uint8_t)s.below(2)); t = enc5(hrp, v); break; } default: { size_t n = s.below(70); Bytes v(n); for (auto& x : v) x = (uint8_t)s.below(32); t = enc5(hrp, v); } }
    c.log << "kind " << kind << " " << t; onlyMeaning(c, t, "foreign"); static const char* L[] = { "other prefix", "other length", "stray padding", "random 32 bytes", "one more character", "random words" }; c.label(L[kind]);
    std::string r; size_t n = s.below(100); for (size_t i = 0; i < n; i++) r += (char)s.below(256); onlyMeaning(c, r, "random text");
}
void pbt::setup(Check& c) {
    c.id = "C32"; c.rule = "every case: a key with 32 altered address texts, or a well-formed bech32 text that is no address"; c.workerInit = env::workerDefault; c.quickCases = 8000; c.thoroughCases = 400000; c.quickCap = 20; c.parts = { { "address", 3, address }, { "foreign", 2, foreign } };
    c.assumptions = { "libsodium is the reference for Ed25519 points and their Curve25519 form" };
}
