// C27: key derivation against BIP32 and Grin's switch commitments computed with OpenSSL, paths, proof messages, recognition of one's own outputs
#include "env.h"
#include "gen.h"
#include <Wallet/Keychain/KeyChain.h>
#include <Wallet/KeyChainPath.h>
#include <Wallet/PublicExtKey.h>
#include "Wallet/Keychain/KeyGenerator.h"
#include <Crypto/Crypto.h>
#include <Crypto/ED25519.h>
#include <Core/Global.h>
#include <sodium.h>
#include <openssl/ec.h>
#include <openssl/obj_mac.h>
#include <openssl/hmac.h>
#include <openssl/evp.h>
#include <openssl/bn.h>
using namespace pbt; typedef std::vector<uint8_t> Bytes; typedef uint64_t u64; typedef uint32_t u32;
static std::string hx(const Bytes& b) { std::string s; char t[3]; for (uint8_t x : b) { snprintf(t, 3, "%02x", x); s += t; } return s; }
static Bytes unhx(const std::string& h) { Bytes o; for (size_t i = 0; i + 1 < h.size(); i += 2) o.push_back((uint8_t)std::stoi(h.substr(i, 2), nullptr, 16)); return o; }
// ---- the curve, by OpenSSL
struct Ec { EC_GROUP* g = EC_GROUP_new_by_curve_name(NID_secp256k1); BN_CTX* x = BN_CTX_new(); BIGNUM *n = BN_new(), *p = BN_new(); EC_POINT *H = pt("0250929b74c1a04954b78b4b6035e97a5e078a5a0f28ec96d547bfee9ace803ac0"), *J = pt("02b860f56795fc03f3c21685383d1b5a2f2954f49b7e398b8d2a0193933621155f");
    Ec() { EC_GROUP_get_order(g, n, x); EC_GROUP_get_curve(g, p, nullptr, nullptr, x); }
    EC_POINT* pt(const char* h) { EC_POINT* r = EC_POINT_new(g); Bytes b = unhx(h); if (!EC_POINT_oct2point(g, r, b.data(), b.size(), x)) throw std::logic_error("point"); return r; }
    bool isSquare(EC_POINT* P) { BIGNUM* y = BN_new(); EC_POINT_get_affine_coordinates(g, P, nullptr, y, x); int k = BN_kronecker(y, p, x); BN_free(y); return k == 1; }
    Bytes compress(EC_POINT* P) { Bytes o(33); EC_POINT_point2oct(g, P, POINT_CONVERSION_COMPRESSED, o.data(), 33, x); return o; }
    Bytes commit(EC_POINT* P) { Bytes o = compress(P); o[0] = isSquare(P) ? 8 : 9; return o; }
    Bytes pub(const Bytes& k) { BIGNUM* b = BN_bin2bn(k.data(), 32, nullptr); EC_POINT* r = EC_POINT_new(g); EC_POINT_mul(g, r, b, nullptr, nullptr, x); Bytes o = compress(r); EC_POINT_free(r); BN_free(b); return o; }
    Bytes add(const Bytes& a, const Bytes& b) { BIGNUM *u = BN_bin2bn(a.data(), 32, nullptr), *v = BN_bin2bn(b.data(), 32, nullptr); BN_mod_add(u, u, v, n, x); Bytes o(32); BN_bn2binpad(u, o.data(), 32); BN_free(u); BN_free(v); return o; }
    Bytes pedersen(u64 value, const Bytes& k) { BIGNUM *b = BN_bin2bn(k.data(), 32, nullptr), *v = BN_new(); Bytes vb(8); for (int i = 0; i < 8; i++) vb[7 - i] = (uint8_t)(value >> (8 * i)); BN_bin2bn(vb.data(), 8, v); EC_POINT* r = EC_POINT_new(g); EC_POINT_mul(g, r, b, H, v, x); Bytes o = commit(r); EC_POINT_free(r); BN_free(b); BN_free(v); return o; }
    Bytes blindSwitch(const Bytes& k, u64 value) { Bytes c = pedersen(value, k); BIGNUM* b = BN_bin2bn(k.data(), 32, nullptr); EC_POINT* r = EC_POINT_new(g); EC_POINT_mul(g, r, nullptr, J, b, x); Bytes j = compress(r); EC_POINT_free(r); BN_free(b); c.insert(c.end(), j.begin(), j.end()); Bytes h(32); unsigned l; EVP_Digest(c.data(), c.size(), h.data(), &l, EVP_sha256(), nullptr); return add(k, h); } };
static Ec& ec() { static Ec e; return e; }
static Bytes hmac512(const Bytes& k, const Bytes& d) { Bytes o(64); unsigned n; HMAC(EVP_sha512(), k.data(), (int)k.size(), d.data(), d.size(), o.data(), &n); return o; }
static Bytes blake(const Bytes& key, const Bytes& in) { Bytes o(32); crypto_generichash_blake2b(o.data(), 32, in.data(), in.size(), key.data(), key.size()); return o; }
struct Node { Bytes k, c; u32 depth = 0, parent = 0, child = 0; };
static Node master(const Bytes& seed) { Bytes h = hmac512(Bytes{ 'I','a','m','V','o','l','d','e','m','o','r','t' }, seed); return { Bytes(h.begin(), h.begin() + 32), Bytes(h.begin() + 32, h.end()) }; }
static Node derive(const Node& p, u32 i) { Bytes pub = ec().pub(p.k), d = pub; if (i >> 31) { d = { 0 }; d.insert(d.end(), p.k.begin(), p.k.end()); } for (int s = 24; s >= 0; s -= 8) d.push_back((uint8_t)(i >> s)); Bytes h = hmac512(p.c, d), sh(32), id(20); unsigned l; EVP_Digest(pub.data(), 33, sh.data(), &l, EVP_sha256(), nullptr); EVP_Digest(sh.data(), 32, id.data(), &l, EVP_get_digestbyname("RIPEMD160"), nullptr); return { ec().add(Bytes(h.begin(), h.begin() + 32), p.k), Bytes(h.begin() + 32, h.end()), p.depth + 1, (u32)id[0] << 24 | id[1] << 16 | id[2] << 8 | id[3], i }; }
static u32 index(Src& s) { switch (s.below(4)) { case 0: return (u32)s.below(4); case 1: return 0x80000000u + (u32)s.below(4); case 2: return s.pick<u32>({ 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x7ffffffeu, 256, 65536 }); default: return (u32)s.u64(); } }
static std::vector<u32> path(Src& s, size_t max) { std::vector<u32> v(s.below(max + 1)); for (auto& x : v) x = index(s); return v; }
static std::string show(const std::vector<u32>& v) { std::string r = "m"; for (u32 x : v) r += "/" + std::to_string(x); return r; }
static Bytes seedOf(Src& s) { return s.bytes(s.pick<size_t>({ 32, 16, 20, 24, 28, 64, 33, 1 })); }
static KeyChainPath P(std::vector<u32> v) { return KeyChainPath(std::move(v)); }
static void bip32(Ctx& c) {
    auto& s = c.src; Bytes seed = seedOf(s); auto v = path(s, 5); c.log << "seed " << hx(seed) << " path " << show(v); c.nontrivial(!v.empty()); Node n = master(seed); KeyGenerator kg(Global::GetConfig()); SecureVector sv(seed.begin(), seed.end()); PrivateExtKey k = kg.GenerateMasterKey(sv);
    for (size_t i = 0;; i++) {
        REQUIRE_MSG(k.GetPrivateKey().GetVec() == n.k, "key after " << i << " steps is " << hx(k.GetPrivateKey().GetVec()) << " instead of " << hx(n.k)); REQUIRE_MSG(k.GetChainCode().GetVec() == n.c, "chain code after " << i << " steps"); REQUIRE_EQ((u32)k.GetDepth(), n.depth); REQUIRE_EQ(k.GetParentFingerprint(), n.parent); REQUIRE_EQ(k.GetChildNumber(), n.child); REQUIRE_EQ(k.GetNetwork(), Global::GetConfig().GetPrivateKeyVersion());
        Serializer o; k.Serialize(o); Bytes want; auto be = [&](u64 x, int b) { for (int q = b - 1; q >= 0; q--) want.push_back((uint8_t)(x >> (8 * q))); }; be(k.GetNetwork(), 4); be(n.depth, 1); be(n.parent, 4); be(n.child, 4); want.insert(want.end(), n.c.begin(), n.c.end()); want.push_back(0); want.insert(want.end(), n.k.begin(), n.k.end()); REQUIRE_MSG(o.GetBytes() == want, "extended key packs to " << hx(o.GetBytes())); ByteBuffer b(o.GetBytes()); PrivateExtKey r = PrivateExtKey::Deserialize(b); Serializer o2; r.Serialize(o2); REQUIRE(o2.GetBytes() == want); REQUIRE(r.GetPrivateKey() == k.GetPrivateKey());
        { PublicExtKey pk(k.GetNetwork(), k.GetDepth(), k.GetParentFingerprint(), k.GetChildNumber(), SecretKey(CBigInteger<32>(n.c.data())), Crypto::CalculatePublicKey(k.GetPrivateKey())); REQUIRE_MSG(pk.vec() == ec().pub(n.k), "public key"); Serializer q; pk.Serialize(q); Bytes w2(want.begin(), want.begin() + 45), pb = ec().pub(n.k); w2.insert(w2.end(), pb.begin(), pb.end()); REQUIRE(q.GetBytes() == w2); ByteBuffer z(w2); PublicExtKey u = PublicExtKey::Deserialize(z); REQUIRE(u.vec() == pb); REQUIRE(u.GetChainCode().GetVec() == n.c); }
        if (i == v.size()) break; k = kg.GenerateChildPrivateKey(k, v[i]); n = derive(n, v[i]);
    }
    KeyChain kc = KeyChain::FromSeed(sv); REQUIRE(kc.DerivePrivateKey(P(v)).GetVec() == n.k); u64 amount = s.edgy64(); Bytes sw = ec().blindSwitch(n.k, amount); auto got = kc.DerivePrivateKey(P(v), amount); REQUIRE_MSG(got.GetVec() == sw, "blinding factor for " << amount << " is " << hx(got.GetVec()) << " instead of " << hx(sw)); Commitment cm = Crypto::CommitBlinded(amount, BlindingFactor(CBigInteger<32>(sw.data()))); REQUIRE_MSG(cm.GetVec() == ec().pedersen(amount, sw), "commitment");
    Bytes es = blake({}, n.k), pk(32), sk(64); crypto_sign_ed25519_seed_keypair(pk.data(), sk.data(), es.data()); auto ed = kc.DeriveED25519Key(P(v)); REQUIRE_MSG(ed.public_key.vec() == pk, "address key"); REQUIRE(KeyChain::FromSeed(sv).DerivePrivateKey(P(v)) == kc.DerivePrivateKey(P(v)));
}
static void paths(Ctx& c) {
    auto& s = c.src; auto v = path(s, 6); KeyChainPath p = P(v); c.log << show(v); c.nontrivial(!v.empty()); REQUIRE_EQ(p.Format(), show(v)); std::vector<u32> back; std::string err; try { back = KeyChainPath::FromString(p.Format()).GetKeyIndices(); } catch (const std::exception& e) { err = e.what(); } REQUIRE_MSG(err.empty() && back == v, "text reads back as " << (err.empty() ? show(back) : err));
    if (v.size() <= 4) { Bytes want{ (uint8_t)v.size() }; for (size_t i = 0; i < 4; i++) for (int b = 24; b >= 0; b -= 8) want.push_back((uint8_t)((i < v.size() ? v[i] : 0) >> b)); REQUIRE_EQ(p.ToHex(), hx(want)); REQUIRE(KeyChainPath::FromHex(p.ToHex()) == p); }
    { u32 i = index(s); auto w = v; w.push_back(i); REQUIRE(p.GetChild(i).GetKeyIndices() == w); w.back() = 0; REQUIRE(p.GetFirstChild().GetKeyIndices() == w); auto q = p.GetRandomChild().GetKeyIndices(); REQUIRE_EQ(q.size(), v.size() + 1); w.back() = q.back(); REQUIRE(q == w); REQUIRE(q.back() < 0x80000000u); }
    // altered text and packed form
    std::string t = show(v); size_t n = 1 + s.below(2); for (size_t i = 0; i < n; i++) switch (s.below(4)) { case 0: if (!t.empty()) t.erase(s.below(t.size()), 1); break; case 1: t.insert(s.below(t.size() + 1), 1, s.pick<char>({ '/', '-', '+', ' ', '\'', 'm', '0', '9', 'x', 'h', '.', '\n' })); break; case 2: t += s.pick<std::string>({ "/", "/4294967296", "/99999999999999999999", "/-1", "/ 1", "/1 ", "'", "/18446744073709551617", "/0x1" }); break; default: if (!t.empty()) t[s.below(t.size())] = s.pick<char>({ '/', '-', '1', 'M', 'n', '\0' }); }
    bool want = !t.empty() && t[0] == 'm'; std::vector<u32> w; for (size_t i = 1; want && i < t.size();) { if (t[i] != '/') { want = false; break; } size_t j = ++i; if (i == t.size()) break; u64 x = 0; while (i < t.size() && isdigit((unsigned char)t[i]) && x < (1ULL << 40)) x = x * 10 + (u64)(t[i++] - '0'); if (i == j || x > 0xffffffffULL) want = false; w.push_back((u32)x); }
    bool got = true; try { back = KeyChainPath::FromString(t).GetKeyIndices(); } catch (const std::exception&) { got = false; } c.label(want ? "good text" : "malformed text"); REQUIRE_MSG(got == want, "path text \"" << t << "\" " << (got ? "accepted as " + show(back) : "refused")); if (want) REQUIRE(back == w);
    Bytes raw = s.bytes(s.pick<size_t>({ 17, 16, 18, 0, 1, 5, 13 })); if (!raw.empty() && s.chance(3, 4)) raw[0] = (uint8_t)s.below(7); std::string h = hx(raw); if (s.chance(1, 6)) h += s.pick<char>({ 'g', '-', '1' }); bool ok = h.size() == raw.size() * 2 && !raw.empty() && raw[0] <= 4 && raw.size() >= 1 + 4 * (size_t)raw[0]; got = true; try { back = KeyChainPath::FromHex(h).GetKeyIndices(); } catch (const std::exception&) { got = false; } REQUIRE_MSG(got == ok, "packed path " << h << (got ? " accepted" : " refused")); if (ok) { REQUIRE_EQ(back.size(), (size_t)raw[0]); for (size_t i = 0; i < back.size(); i++) REQUIRE_EQ(back[i], (u32)raw[1 + 4 * i] << 24 | (u32)raw[2 + 4 * i] << 16 | (u32)raw[3 + 4 * i] << 8 | raw[4 + 4 * i]); }
}
static void outputs(Ctx& c) {
    auto& s = c.src; Bytes seed = seedOf(s), other = s.bytes(32); if (other == seed) other[0] ^= 1; SecureVector sv(seed.begin(), seed.end()), ov(other.begin(), other.end()); KeyChain kc = KeyChain::FromSeed(sv), oc = KeyChain::FromSeed(ov); EBulletproofType type = s.flip() ? EBulletproofType::ENHANCED : EBulletproofType::ORIGINAL; auto v = path(s, 3); if (type == EBulletproofType::ORIGINAL) v.resize(3); else { v.resize(1 + s.below(4)); for (auto& x : v) if (s.flip()) x = index(s); } u64 amount = s.edgy64(); c.nontrivial();
    c.log << (type == EBulletproofType::ORIGINAL ? "original" : "enhanced") << " output of " << amount << " at " << show(v); SecretKey blind = kc.DerivePrivateKey(P(v), amount); Commitment cm = Crypto::CommitBlinded(amount, BlindingFactor(blind.GetBytes())); RangeProof rp = kc.GenerateRangeProof(P(v), amount, cm, blind, type); std::vector<std::pair<Commitment, RangeProof>> one{ { cm, rp } }; REQUIRE_MSG(Crypto::VerifyRangeProofs(one), "range proof does not verify");
    ProofMessage pm = ProofMessage::FromKeyIndices(v, type); Bytes want(20); if (type == EBulletproofType::ENHANCED) { want[2] = 1; want[3] = (uint8_t)v.size(); } for (size_t i = 0; i < v.size(); i++) for (int b = 0; b < 4; b++) want[4 + 4 * i + b] = (uint8_t)(v[i] >> (24 - 8 * b)); REQUIRE_MSG(pm.GetBytes().GetData() == want, "proof message " << pm.GetBytes().ToHex()); REQUIRE(pm.ToKeyIndices(type) == v);
    auto r = kc.RewindRangeProof(cm, rp, type); REQUIRE_MSG(r != nullptr, "own output not recognised"); REQUIRE_EQ(r->GetAmount(), amount); REQUIRE_MSG(r->ToKeyIndices(type) == v, "path recovered as " << show(r->ToKeyIndices(type))); REQUIRE(kc.DerivePrivateKey(P(r->ToKeyIndices(type)), r->GetAmount()) == blind); if (type == EBulletproofType::ORIGINAL) REQUIRE_MSG(r->GetBlindingFactor()->GetBytes() == blind.GetBytes(), "blinding factor recovered");
    // the nonce the published scheme prescribes opens it too
    Node m = master(seed); Bytes root = type == EBulletproofType::ORIGINAL ? ec().blindSwitch(m.k, 0) : blake({}, ec().pub(m.k)), nonce = blake(cm.GetVec(), root); auto q = Crypto::RewindRangeProof(cm, rp, SecretKey(CBigInteger<32>(nonce.data()))); REQUIRE_MSG(q && q->GetAmount() == amount, "the published rewind nonce does not open the proof");
    REQUIRE_MSG(!oc.RewindRangeProof(cm, rp, type), "another wallet recognises the output"); REQUIRE_MSG(!kc.RewindRangeProof(cm, rp, type == EBulletproofType::ORIGINAL ? EBulletproofType::ENHANCED : EBulletproofType::ORIGINAL), "recognised as the other kind"); Commitment c2 = Crypto::CommitBlinded(amount ^ 1, BlindingFactor(blind.GetBytes())); REQUIRE_MSG(!kc.RewindRangeProof(c2, rp, type), "recognised for another commitment");
    auto w = v; w[s.below(w.size())] ^= 1u << s.below(32); SecretKey b2 = kc.DerivePrivateKey(P(w), amount), b3 = kc.DerivePrivateKey(P(v), amount + 1); REQUIRE_MSG(b2 != blind && b3 != blind, "the same blinding factor for another path or amount");
}
static void messages(Ctx& c) {
    auto& s = c.src; Bytes b = s.bytes(20); if (s.chance(2, 3)) for (int i = 0; i < 4; i++) b[i] = s.flip() ? 0 : (uint8_t)s.below(6); c.log << hx(b); c.nontrivial(); ProofMessage pm{ CBigInteger<20>(b.data()) };
    for (auto t : { EBulletproofType::ORIGINAL, EBulletproofType::ENHANCED }) { size_t n = t == EBulletproofType::ORIGINAL ? 3 : b[3] ? b[3] : 3; bool ok = t == EBulletproofType::ORIGINAL ? !(b[0] | b[1] | b[2] | b[3]) : n <= 4; std::vector<u32> v; bool got = true; try { v = pm.ToKeyIndices(t); } catch (const std::exception&) { got = false; } REQUIRE_EQ(got, ok); if (ok) { REQUIRE_EQ(v.size(), n); for (size_t i = 0; i < n; i++) REQUIRE_EQ(v[i], (u32)b[4 + 4 * i] << 24 | (u32)b[5 + 4 * i] << 16 | (u32)b[6 + 4 * i] << 8 | b[7 + 4 * i]); } }
}
void pbt::setup(Check& c) {
    c.id = "C27"; c.rule = "non-trivial: paths of at least one step, every output and proof message"; c.workerInit = env::workerDefault; c.quickCases = 6000; c.thoroughCases = 200000; c.quickCap = 25; c.parts = { { "bip32", 3, bip32 }, { "paths", 3, paths }, { "outputs", 3, outputs }, { "messages", 1, messages } };
    c.assumptions = { "range proofs are the stand-in of /verif/shim, which can be rewound only with the nonce and commitment it was made for", "OpenSSL is the reference for secp256k1, HMAC-SHA-512, SHA-256 and RIPEMD-160" };
}
