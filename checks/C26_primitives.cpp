// C26: cryptographic primitives against OpenSSL and independent implementations
#include "env.h"
#include "gen.h"
#include "sha3.h"
#include <Crypto/Crypto.h>
#include <Crypto/Hasher.h>
#include <Crypto/KDF.h>
#include <Crypto/AES256.h>
#include <Crypto/ChaChaPoly.h>
#include <Crypto/ED25519.h>
#include <Crypto/X25519.h>
#include <Crypto/Curve25519.h>
#include <Crypto/Models/ScryptParameters.h>
#include "sha3/sha3.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/kdf.h>
#include <openssl/core_names.h>
#include <openssl/params.h>
#include <openssl/bn.h>
using namespace pbt; typedef std::vector<uint8_t> Bytes; typedef uint64_t u64;
static std::string hx(const Bytes& b) { std::string s; char t[3]; for (uint8_t x : b) { snprintf(t, 3, "%02x", x); s += t; } return s; }
static Bytes data(Src& s, size_t max = 700) { size_t n; switch (s.below(4)) { case 0: n = s.size(20); break; case 1: { size_t k = s.pick<size_t>({ 16, 32, 55, 56, 63, 64, 65, 72, 111, 112, 119, 120, 127, 128, 129, 136, 144, 192, 256, 512 }); size_t d = s.below(5); n = k + d < 2 ? 0 : k + d - 2; break; } default: n = s.size(max); } if (n > max) n = max; return s.bytes(n); }
template <class B> static Bytes V(const B& b) { return Bytes(b.cbegin(), b.cend()); }
static Bytes V(const SecretKey& k) { return k.GetVec(); }
static Bytes digest(const char* name, const Bytes& d) { Bytes o(64); unsigned n = 0; const EVP_MD* md = EVP_get_digestbyname(name); if (!md || EVP_Digest(d.data(), d.size(), o.data(), &n, md, nullptr) != 1) throw std::logic_error(std::string("no ") + name); o.resize(n); return o; }
static Bytes hmac(const EVP_MD* md, const Bytes& k, const Bytes& d) { Bytes o(64); unsigned n = 0; static const uint8_t z = 0; HMAC(md, k.empty() ? &z : k.data(), (int)k.size(), d.data(), d.size(), o.data(), &n); o.resize(n); return o; }
// ---- Blake2b from RFC 7693
static Bytes blake2b(const Bytes& key, const Bytes& in, size_t outLen) {
    static const u64 IV[8] = { 0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL, 0xa54ff53a5f1d36f1ULL, 0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL, 0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL };
    static const uint8_t S[10][16] = { {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0} };
    Bytes m; if (!key.empty()) { m = key; m.resize(128); } m.insert(m.end(), in.begin(), in.end()); u64 h[8]; for (int i = 0; i < 8; i++) h[i] = IV[i]; h[0] ^= 0x01010000 ^ (key.size() << 8) ^ outLen;
    size_t total = m.size(), blocks = total ? (total + 127) / 128 : 1; m.resize(blocks * 128); auto rot = [](u64 x, int n) { return x >> n | x << (64 - n); };
    for (size_t b = 0; b < blocks; b++) { u64 w[16], v[16]; for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 7; j >= 0; j--) w[i] = w[i] << 8 | m[b * 128 + i * 8 + j]; } for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = IV[i]; } v[12] ^= b + 1 == blocks ? total : (b + 1) * 128; if (b + 1 == blocks) v[14] = ~v[14];
        auto G = [&](int a, int bb, int c, int d, u64 x, u64 y) { v[a] += v[bb] + x; v[d] = rot(v[d] ^ v[a], 32); v[c] += v[d]; v[bb] = rot(v[bb] ^ v[c], 24); v[a] += v[bb] + y; v[d] = rot(v[d] ^ v[a], 16); v[c] += v[d]; v[bb] = rot(v[bb] ^ v[c], 63); };
        for (int r = 0; r < 12; r++) { const uint8_t* s = S[r % 10]; G(0, 4, 8, 12, w[s[0]], w[s[1]]); G(1, 5, 9, 13, w[s[2]], w[s[3]]); G(2, 6, 10, 14, w[s[4]], w[s[5]]); G(3, 7, 11, 15, w[s[6]], w[s[7]]); G(0, 5, 10, 15, w[s[8]], w[s[9]]); G(1, 6, 11, 12, w[s[10]], w[s[11]]); G(2, 7, 8, 13, w[s[12]], w[s[13]]); G(3, 4, 9, 14, w[s[14]], w[s[15]]); }
        for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8]; }
    Bytes o; for (size_t i = 0; i < outLen; i++) o.push_back((uint8_t)(h[i / 8] >> (8 * (i % 8)))); return o;
}
static void hashes(Ctx& c) {
    auto& s = c.src; Bytes d = data(s), k; c.log << d.size() << " bytes"; if (d.size() > 1) c.nontrivial();
    REQUIRE_MSG(V(Hasher::SHA256(d)) == digest("SHA256", d), "SHA-256 of " << hx(d)); REQUIRE_MSG(V(Hasher::SHA512(d)) == digest("SHA512", d), "SHA-512 of " << hx(d)); REQUIRE_MSG(V(Hasher::RipeMD160(d)) == digest("RIPEMD160", d), "RIPEMD-160 of " << hx(d));
    REQUIRE_MSG(V(Hasher::Blake2b(d)) == blake2b({}, d, 32), "Blake2b of " << hx(d)); k = s.bytes(s.size(64)); REQUIRE_MSG(V(Hasher::Blake2b(k, d)) == blake2b(k, d, 32), "Blake2b of " << hx(d) << " key " << hx(k));
    { auto want = ref::sha3_256(d); std::string w; char t[3]; for (uint8_t x : want) { snprintf(t, 3, "%02x", x); w += t; } SHA3 h; std::string whole = h(d.data(), d.size()); REQUIRE_MSG(whole == w, "SHA3-256 of " << hx(d)); SHA3 p; size_t i = 0; while (i < d.size()) { size_t n = std::min(d.size() - i, 1 + s.size(160)); p.add(d.data() + i, n); i += n; } std::string parts = p.getHash(); REQUIRE_MSG(parts == w, "SHA3-256 in pieces of " << hx(d)); }
    k = data(s, 300); REQUIRE_MSG(V(Hasher::HMAC_SHA256(k, d)) == hmac(EVP_sha256(), k, d), "HMAC-SHA-256 key " << hx(k) << " of " << hx(d)); REQUIRE_MSG(V(Hasher::HMAC_SHA512(k, d)) == hmac(EVP_sha512(), k, d), "HMAC-SHA-512 key " << hx(k) << " of " << hx(d));
    if (!d.empty()) { u64 k0 = s.u64(), k1 = s.u64(); Bytes kb; for (u64 x : { k0, k1 }) for (int i = 0; i < 8; i++) kb.push_back((uint8_t)(x >> (8 * i))); Bytes o(8); EVP_MAC* m = EVP_MAC_fetch(nullptr, "SIPHASH", nullptr); EVP_MAC_CTX* x = EVP_MAC_CTX_new(m); unsigned sz = 8; size_t n = 8; OSSL_PARAM p[] = { OSSL_PARAM_construct_uint("size", &sz), OSSL_PARAM_construct_end() }; bool ok = EVP_MAC_init(x, kb.data(), 16, p) && EVP_MAC_update(x, d.data(), d.size()) && EVP_MAC_final(x, o.data(), &n, 8); EVP_MAC_CTX_free(x); EVP_MAC_free(m); if (!ok) throw std::logic_error("siphash");
        u64 want = 0; for (int i = 7; i >= 0; i--) want = want << 8 | o[i]; REQUIRE_MSG(Hasher::SipHash24(k0, k1, d) == want, "SipHash-2-4 of " << hx(d)); }
}
static Bytes kdf(const char* name, OSSL_PARAM* p, size_t n) { EVP_KDF* k = EVP_KDF_fetch(nullptr, name, nullptr); EVP_KDF_CTX* x = EVP_KDF_CTX_new(k); Bytes o(n); int r = EVP_KDF_derive(x, o.data(), n, p); EVP_KDF_CTX_free(x); EVP_KDF_free(k); if (r != 1) throw std::logic_error(name); return o; }
static void kdfs(Ctx& c) {
    auto& s = c.src; Bytes ikm = data(s, 200); if (ikm.empty()) ikm = { 1 }; std::optional<Bytes> salt; if (s.flip()) salt = data(s, 200); std::string label = s.flip() ? s.pick<std::string>({ "header", "payload", "age-encryption.org/v1/X25519" }) : s.text("abc/-1", 120); c.nontrivial(); c.log << "HKDF salt " << (salt ? (int)salt->size() : -1) << " label '" << label << "' key " << ikm.size();
    Bytes sb = salt && !salt->empty() ? *salt : Bytes(32); /* no salt is a salt of zeroes */ OSSL_PARAM p[] = { OSSL_PARAM_construct_utf8_string("digest", (char*)"SHA256", 0), OSSL_PARAM_construct_octet_string("key", ikm.data(), ikm.size()), OSSL_PARAM_construct_octet_string("salt", sb.data(), sb.size()), OSSL_PARAM_construct_octet_string("info", (void*)label.data(), label.size()), OSSL_PARAM_construct_end() };
    REQUIRE_MSG(V(KDF::HKDF(salt, label, ikm)) == kdf("HKDF", p, 32), "HKDF differs");
    if (s.chance(1, 3)) { Bytes sl = data(s, 80); std::string pw = s.text("aZ0 \xc3\xa9!", 90); uint32_t N = 2u << s.below(9), r = 1 + (uint32_t)s.below(8), q = 1 + (uint32_t)s.below(3); c.log << "; scrypt " << N << ' ' << r << ' ' << q << " salt " << sl.size() << " password " << pw.size(); u64 N64 = N; static uint8_t z = 0; OSSL_PARAM sp[] = { OSSL_PARAM_construct_octet_string("pass", pw.empty() ? (void*)&z : (void*)pw.data(), pw.size()), OSSL_PARAM_construct_octet_string("salt", sl.empty() ? &z : sl.data(), sl.size()), OSSL_PARAM_construct_uint64("n", &N64), OSSL_PARAM_construct_uint32("r", &r), OSSL_PARAM_construct_uint32("p", &q), OSSL_PARAM_construct_end() };
        Bytes want = blake2b({}, kdf("SCRYPT", sp, 64), 32); c.label("scrypt"); REQUIRE_MSG(V(KDF::PBKDF(SecureString(pw.begin(), pw.end()), sl, ScryptParameters(N, r, q))) == want, "scrypt differs"); }
}
static Bytes aesRef(const Bytes& in, const Bytes& k, const Bytes& iv, bool enc, bool& ok) { EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); Bytes o(in.size() + 32); int a = 0, b = 0; ok = EVP_CipherInit_ex(x, EVP_aes_256_cbc(), nullptr, k.data(), iv.data(), enc) && EVP_CipherUpdate(x, o.data(), &a, in.data(), (int)in.size()) && EVP_CipherFinal_ex(x, o.data() + a, &b); EVP_CIPHER_CTX_free(x); o.resize(ok ? a + b : 0); return o; }
static void aes(Ctx& c) {
    auto& s = c.src; Bytes d = data(s, 300), k = s.bytes(32), iv = s.bytes(16); if (d.empty()) d = { 0 }; SecretKey key{ CBigInteger<32>(k.data()) }; CBigInteger<16> v(iv.data()); c.nontrivial(); bool ok; c.log << d.size() << " bytes";
    Bytes ct = AES256::Encrypt(SecureVector(d.begin(), d.end()), key, v), want = aesRef(d, k, iv, true, ok); REQUIRE_MSG(ct == want, "ciphertext " << hx(ct) << " instead of " << hx(want)); auto back = AES256::Decrypt(ct, key, v); REQUIRE(Bytes(back.begin(), back.end()) == d);
    // any other ciphertext, key or vector: what the standard says
    Bytes x = ct; std::string what; switch (s.below(5)) { case 0: x[s.below(x.size())] ^= (uint8_t)(1 << s.below(8)); what = "a bit flipped"; break; case 1: x.resize(s.below(x.size())); what = "truncated to " + std::to_string(x.size()); break; case 2: { size_t n = s.size(40); Bytes e = s.bytes(n); x.insert(x.end(), e.begin(), e.end()); what = "extended"; break; } case 3: k[s.below(32)] ^= (uint8_t)(1 << s.below(8)); what = "another key"; break; default: { size_t n = 16 * (1 + s.below(3)); size_t pad = 1 + s.below(20); x = s.bytes(n); for (size_t i = 0; i < std::min(pad, n); i++) x[n - 1 - i] = (uint8_t)pad; if (s.flip()) x[n - 1 - s.below(n)] ^= 1; EVP_CIPHER_CTX* e = EVP_CIPHER_CTX_new(); Bytes o(n + 16); int a = 0; EVP_EncryptInit_ex(e, EVP_aes_256_cbc(), nullptr, k.data(), iv.data()); EVP_CIPHER_CTX_set_padding(e, 0); EVP_EncryptUpdate(e, o.data(), &a, x.data(), (int)n); EVP_CIPHER_CTX_free(e); o.resize(n); x = o; what = "chosen padding " + std::to_string(pad); } }
    Bytes plain = aesRef(x, k, iv, false, ok); if (x.empty()) ok = false; c.log << "; " << what << (ok ? ", valid" : ", invalid"); c.label(ok ? "decrypts" : "refused"); SecretKey key2{ CBigInteger<32>(k.data()) }; bool got = true; Bytes res; try { auto r = AES256::Decrypt(x, key2, v); res.assign(r.begin(), r.end()); } catch (const std::exception&) { got = false; }
    if (ok && plain.empty()) return; /* an empty message is never encrypted */ REQUIRE_EQ(got, ok); if (ok) REQUIRE_MSG(res == plain, "decrypts to " << hx(res) << " instead of " << hx(plain));
}
static Bytes chachaRef(const Bytes& in, const Bytes& k, const Bytes& nonce) { EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); Bytes o(in.size() + 16); int a = 0, b = 0; EVP_EncryptInit_ex(x, EVP_chacha20_poly1305(), nullptr, k.data(), nonce.data()); EVP_EncryptUpdate(x, o.data(), &a, in.data(), (int)in.size()); EVP_EncryptFinal_ex(x, o.data() + a, &b); EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 16, o.data() + in.size()); EVP_CIPHER_CTX_free(x); return o; }
static void alter(Ctx& c, Bytes& x, size_t unit) { auto& s = c.src; std::string w; switch (s.below(5)) { case 0: x[s.below(x.size())] ^= (uint8_t)(1 << s.below(8)); w = "a bit flipped"; break; case 1: { size_t n = s.flip() ? 1 + s.below(std::min<size_t>(x.size() - 1, 20) ) : s.below(x.size() - 1) + 1; x.resize(x.size() - std::min(n, x.size() - 1)); w = "truncated"; break; } case 2: { Bytes e = s.bytes(1 + s.size(40)); x.insert(x.end(), e.begin(), e.end()); w = "extended"; break; } case 3: x.erase(x.begin() + s.below(x.size())); w = "a byte removed"; break; default: if (x.size() > unit) { x.resize(x.size() - 1 - (x.size() - 1) % unit); w = "truncated at a chunk"; } else { x[x.size() - 1] ^= 1; w = "tag altered"; } } if (x.empty()) x = { 0 }; c.log << "; " << w; c.label(w); }
static void chacha(Ctx& c) {
    auto& s = c.src; Bytes k = s.bytes(32), n = s.bytes(12), d = data(s, 600); auto C = ChaChaPoly::Init(SecretKey{ CBigInteger<32>(k.data()) }); CBigInteger<12> nonce(n.data()); c.nontrivial(); c.log << d.size() << " bytes"; Bytes ct = C.Encrypt(nonce, d), want = chachaRef(d, k, n); REQUIRE_MSG(ct == want, "ciphertext " << hx(ct) << " instead of " << hx(want)); REQUIRE(C.Decrypt(nonce, ct) == d);
    int w = (int)s.below(4); if (w == 0) { Bytes n2 = n; n2[s.below(12)] ^= (uint8_t)(1 << s.below(8)); bool got = true; try { C.Decrypt(CBigInteger<12>(n2.data()), ct); } catch (const std::exception&) { got = false; } REQUIRE_MSG(!got, "accepted under another nonce"); } else if (w == 1) { Bytes k2 = k; k2[s.below(32)] ^= (uint8_t)(1 << s.below(8)); bool got = true; try { ChaChaPoly::Init(SecretKey{ CBigInteger<32>(k2.data()) }).Decrypt(nonce, ct); } catch (const std::exception&) { got = false; } REQUIRE_MSG(!got, "accepted under another key"); }
    else { Bytes x = ct; alter(c, x, 64); bool got = true; try { C.Decrypt(nonce, x); } catch (const std::exception&) { got = false; } REQUIRE_MSG(!got || x == ct, "altered ciphertext accepted"); }
}
static void stream(Ctx& c) {
    auto& s = c.src; const size_t K = 65536; size_t n = s.chance(1, 2) ? 1 + s.size(300) : (s.chance(1, 150) ? 254 + s.below(4) : s.chance(1, 5) ? 3 + s.below(14) : s.below(3)) * K + s.pick<size_t>({ 0, 1, 2, K - 1, K / 2, 15, 16, 17 }); if (n == 0) n = K; uint8_t seed = (uint8_t)s.below(256); Bytes d(n); for (size_t i = 0; i < n; i++) d[i] = (uint8_t)(seed + i * 7 + (i >> 8) * 13); Bytes k = s.bytes(32); auto C = ChaChaPoly::Init(SecretKey{ CBigInteger<32>(k.data()) }); c.nontrivial(); c.log << n << " bytes";
    Bytes want; for (size_t i = 0, j = 0; i < n; i += K, j++) { Bytes nonce(12); for (int b = 0; b < 8; b++) nonce[10 - b] = (uint8_t)(j >> (8 * b)); nonce[11] = i + K >= n; Bytes e = chachaRef(Bytes(d.begin() + i, d.begin() + std::min(n, i + K)), k, nonce); want.insert(want.end(), e.begin(), e.end()); }
    Bytes ct = C.StreamEncrypt(d); REQUIRE_MSG(ct == want, "the stream differs"); REQUIRE(C.StreamDecrypt(ct) == d);
    Bytes x = ct; if (n > K && s.chance(1, 3)) { size_t chunks = (n + K - 1) / K; size_t a = s.below(chunks), b = s.below(chunks); std::vector<Bytes> v; for (size_t i = 0; i < x.size(); i += K + 16) v.emplace_back(x.begin() + i, x.begin() + std::min(x.size(), i + K + 16)); if (s.flip()) { std::swap(v[a], v[b]); c.log << "; chunks swapped"; } else { v.insert(v.begin() + a, v[b]); c.log << "; chunk repeated"; } x.clear(); for (auto& e : v) x.insert(x.end(), e.begin(), e.end()); } else alter(c, x, K + 16);
    bool got = true; try { C.StreamDecrypt(x); } catch (const std::exception&) { got = false; } REQUIRE_MSG(!got || x == ct, "altered stream accepted");
}
// ---- Ed25519 points with big-number arithmetic
struct Curve { BN_CTX* x = BN_CTX_new(); BIGNUM *p = nullptr, *d = nullptr, *L = nullptr; Curve() { BN_hex2bn(&p, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed"); BN_hex2bn(&d, "52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3"); BN_hex2bn(&L, "1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed"); } };
static Curve& curve() { static Curve c; return c; }
struct B { BIGNUM* v = BN_new(); B() {} B(u64 n) { BN_set_word(v, n); } B(const B& o) { BN_copy(v, o.v); } B& operator=(const B& o) { BN_copy(v, o.v); return *this; } ~B() { BN_free(v); } bool operator==(const B& o) const { return BN_cmp(v, o.v) == 0; } };
static B add(const B& a, const B& b) { B r; BN_mod_add(r.v, a.v, b.v, curve().p, curve().x); return r; } static B sub(const B& a, const B& b) { B r; BN_mod_sub(r.v, a.v, b.v, curve().p, curve().x); return r; } static B mul(const B& a, const B& b) { B r; BN_mod_mul(r.v, a.v, b.v, curve().p, curve().x); return r; }
struct Pt { B X, Y, Z, T; };
static Pt padd(const Pt& p, const Pt& q) { B d; BN_copy(d.v, curve().d); B A = mul(sub(p.Y, p.X), sub(q.Y, q.X)), Bb = mul(add(p.Y, p.X), add(q.Y, q.X)), Cc = mul(mul(add(p.T, p.T), d), q.T), D = mul(add(p.Z, p.Z), q.Z), E = sub(Bb, A), F = sub(D, Cc), G = add(D, Cc), H = add(Bb, A); return { mul(E, F), mul(G, H), mul(F, G), mul(E, H) }; }
// canonical encoding of a point of the prime-order subgroup other than the neutral element
static bool validPoint(const Bytes& in) {
    Bytes be(in.rbegin(), in.rend()); int sign = be[0] >> 7; be[0] &= 0x7f; B y; BN_bin2bn(be.data(), 32, y.v); if (BN_cmp(y.v, curve().p) >= 0) return false; B d; BN_copy(d.v, curve().d); B yy = mul(y, y), u = sub(yy, B(1)), v = add(mul(d, yy), B(1)), xx, inv; BN_mod_inverse(inv.v, v.v, curve().p, curve().x); xx = mul(u, inv); B x; if (BN_is_zero(xx.v)) { if (sign) return false; x = B(0); } else { if (!BN_mod_sqrt(x.v, xx.v, curve().p, curve().x)) { return false; } B chk = mul(x, x); if (!(chk == xx)) return false; if (BN_is_odd(x.v) != sign) x = sub(B(0), x); }
    Pt P{ x, y, B(1), mul(x, y) }, R{ B(0), B(1), B(1), B(0) }; if (BN_is_zero(x.v) && BN_is_one(y.v)) return false; for (int i = BN_num_bits(curve().L) - 1; i >= 0; i--) { R = padd(R, R); if (BN_is_bit_set(curve().L, i)) R = padd(R, P); } return BN_is_zero(R.X.v) && R.Y == R.Z;
}
static const char* SMALL[] = { "0100000000000000000000000000000000000000000000000000000000000000", "0000000000000000000000000000000000000000000000000000000000000000", "0000000000000000000000000000000000000000000000000000000000000080", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa", "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f" };
static Bytes unhex(const std::string& h) { Bytes o; for (size_t i = 0; i + 1 < h.size(); i += 2) o.push_back((uint8_t)std::stoi(h.substr(i, 2), nullptr, 16)); return o; }
static void ed(Ctx& c) {
    auto& s = c.src; Bytes seed = s.bytes(32), msg = data(s, 300); c.nontrivial(); c.log << "message " << msg.size() << " bytes"; auto kp = ED25519::CalculateKeypair(SecretKey{ CBigInteger<32>(seed.data()) }); EVP_PKEY* k = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, seed.data(), 32); Bytes pub(32), sig(64); size_t n = 32; EVP_PKEY_get_raw_public_key(k, pub.data(), &n); EVP_MD_CTX* m = EVP_MD_CTX_new(); n = 64; EVP_DigestSignInit(m, nullptr, nullptr, nullptr, k); EVP_DigestSign(m, sig.data(), &n, msg.data(), msg.size()); EVP_MD_CTX_free(m); EVP_PKEY_free(k);
    REQUIRE_MSG(kp.public_key.vec() == pub, "public key"); REQUIRE_MSG(ED25519::CalculatePubKey(kp.secret_key).vec() == pub, "public key from the secret key"); auto got = ED25519::Sign(kp.secret_key, msg); Bytes gb(got.cbegin(), got.cend()); REQUIRE_MSG(gb == sig, "signature " << hx(gb) << " instead of " << hx(sig)); REQUIRE(ED25519::VerifySignature(kp.public_key, got, msg)); REQUIRE(ED25519::IsValid(kp.public_key)); REQUIRE(ED25519::ToPubKey(pub) == kp.public_key);
    { Bytes h = digest("SHA512", seed); h[0] &= 248; h[31] &= 127; h[31] |= 64; SecretKey64 t = ED25519::CalculateTorKey(kp.secret_key); REQUIRE_MSG(t.GetVec() == h, "expanded key"); 
      auto xk = Curve25519::ToX25519(kp); Bytes xs = xk.seckey.bytes.GetVec(); REQUIRE_MSG(xs == Bytes(h.begin(), h.begin() + 32), "X25519 secret key"); EVP_PKEY* e = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, xs.data(), 32); Bytes xp(32); size_t l = 32; EVP_PKEY_get_raw_public_key(e, xp.data(), &l); EVP_PKEY_free(e); REQUIRE_MSG(V(xk.pubkey) == xp, "X25519 public key"); REQUIRE(V(X25519::ToPubKey(xk.seckey)) == xp); }
    Bytes m2 = msg, s2 = sig, p2 = pub; switch (s.below(4)) { case 0: if (m2.empty()) m2.push_back(0); else m2[s.below(m2.size())] ^= (uint8_t)(1 << s.below(8)); break; case 1: s2[s.below(64)] ^= (uint8_t)(1 << s.below(8)); break; case 2: p2[s.below(32)] ^= (uint8_t)(1 << s.below(8)); break; default: { /* s + L */ B v; Bytes be(s2.rbegin(), s2.rbegin() + 32); BN_bin2bn(be.data(), 32, v.v); BN_add(v.v, v.v, curve().L); Bytes o(32); if (BN_num_bytes(v.v) <= 32) { BN_bn2binpad(v.v, o.data(), 32); std::copy(o.rbegin(), o.rend(), s2.begin() + 32); } else s2[0] ^= 1; } }
    REQUIRE_MSG(!ED25519::VerifySignature(ed25519_public_key_t(CBigInteger<32>(p2.data())), ed25519_signature_t(CBigInteger<64>(s2.data())), m2), "altered signature, message or key accepted");
}
static void points(Ctx& c) {
    auto& s = c.src; Bytes b; switch (s.below(4)) { case 0: b = unhex(SMALL[s.below(10)]); if (s.chance(1, 4)) b[31] ^= 0x80; break; case 1: b = s.bytes(32); if (s.flip()) b[31] &= 0x7f; break; case 2: b = ED25519::CalculateKeypair(SecretKey{ CBigInteger<32>(s.bytes(32).data()) }).public_key.vec(); if (s.flip()) b[31] ^= 0x80; break; default: b = Bytes(32, 0xff); b[0] = (uint8_t)(0xe0 + s.below(32)); b[31] = s.flip() ? 0xff : 0x7f; }
    c.log << hx(b); bool want = validPoint(b); c.nontrivial(); c.label(want ? "valid" : "invalid"); REQUIRE_EQ(ED25519::IsValid(ed25519_public_key_t(CBigInteger<32>(b.data()))), want); bool got = true; try { ED25519::ToPubKey(b); } catch (const std::exception&) { got = false; } REQUIRE_EQ(got, want);
    Bytes o = b; if (s.flip()) o.push_back(0); else o.resize(s.below(32)); got = true; try { ED25519::ToPubKey(o); } catch (const std::exception&) { got = false; } REQUIRE_MSG(!got, "a key of " << o.size() << " bytes accepted");
}
static void x25519(Ctx& c) {
    auto& s = c.src; Bytes a = s.bytes(32), p = s.bytes(32); if (s.chance(1, 4)) { p = Bytes(32); p[0] = (uint8_t)s.below(3); if (s.flip()) { p = Bytes(32, 0xff); p[0] = (uint8_t)(0xe8 + s.below(24)); p[31] = 0x7f; } } if (s.chance(1, 3)) { EVP_PKEY* e = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, p.data(), 32); Bytes q(32); size_t l = 32; EVP_PKEY_get_raw_public_key(e, q.data(), &l); EVP_PKEY_free(e); x25519_keypair_t eph = X25519::GenerateEphemeralKeypair(); REQUIRE(X25519::ToPubKey(eph.seckey) == eph.pubkey); x25519_secret_key_t pk(SecretKey{ CBigInteger<32>(p.data()) }); REQUIRE(X25519::ECDH(pk, eph.pubkey) == X25519::ECDH(eph.seckey, x25519_public_key_t(CBigInteger<32>(q.data())))); p = q; }
    c.nontrivial(); c.log << hx(a) << " * " << hx(p); EVP_PKEY *k = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, a.data(), 32), *q = EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, p.data(), 32); EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(k, nullptr); Bytes o(32); size_t n = 32; EVP_PKEY_derive_init(x); bool ok = EVP_PKEY_derive_set_peer(x, q) == 1 && EVP_PKEY_derive(x, o.data(), &n) == 1; EVP_PKEY_CTX_free(x); EVP_PKEY_free(k); EVP_PKEY_free(q); bool got = true; Bytes r; try { r = X25519::ECDH(x25519_secret_key_t(SecretKey{ CBigInteger<32>(a.data()) }), x25519_public_key_t(CBigInteger<32>(p.data()))).GetVec(); } catch (const std::exception&) { got = false; }
    c.label(ok ? "shared" : "degenerate"); REQUIRE_EQ(got, ok); if (ok) REQUIRE_MSG(r == o, hx(r) << " instead of " << hx(o));
}
static void bigint(Ctx& c) {
    auto& s = c.src; typedef CBigInteger<11> I; auto val = [&] { Bytes b = s.bytes(11); if (s.chance(1, 2)) { size_t k = s.below(12); for (size_t i = 11 - k; i < 11; i++) b[i] = s.flip() ? 0xff : 0; if (s.chance(1, 6)) b = Bytes(11, 0xff); } return b; }; Bytes a = val(), b = s.flip() ? val() : a; if (s.chance(1, 3)) b[s.below(11)] ^= 1; I x(a.data()), y(b.data()); c.log << hx(a) << ", " << hx(b); c.nontrivial(a != b);
    REQUIRE_EQ(x < y, a < b); REQUIRE_EQ(x > y, a > b); REQUIRE_EQ(x <= y, a <= b); REQUIRE_EQ(x >= y, a >= b); REQUIRE_EQ(x == y, a == b); REQUIRE_EQ(x != y, a != b); Bytes z = a; for (int i = 0; i < 11; i++) z[i] ^= b[i]; REQUIRE((x ^ y).GetData() == z); I w = x; w ^= y; REQUIRE(w.GetData() == z);
    REQUIRE_EQ(x.ToHex(), hx(a)); REQUIRE(I::FromHex(hx(a)) == x); Bytes nx = a; for (int i = 10; i >= 0 && ++nx[i] == 0; i--) {} I u = x; REQUIRE((++u).GetData() == nx); I v = x; REQUIRE((v++) == x); REQUIRE(v.GetData() == nx); uint8_t q = (uint8_t)s.below(256); Bytes vb(11); vb[10] = q; REQUIRE(I::ValueOf(q).GetData() == vb); REQUIRE(I::GetMaximumValue().GetData() == Bytes(11, 0xff));
    std::string h = hx(a); if (s.flip()) h += "00"; else h.resize(h.size() - 2); bool got = true; try { I::FromHex(h); } catch (const std::exception&) { got = false; } REQUIRE_MSG(!got, "hex of another length accepted");
}
// ---- aggregated signatures over any number of participants
static void agg(Ctx& c) {
    auto& s = c.src; size_t n = 1 + (s.chance(1, 60) ? s.below(140) : s.below(4)); std::vector<SecretKey> ks, ns; std::vector<PublicKey> P, R; Hash msg = gen::hash(s); for (size_t i = 0; i < n; i++) { Bytes k = s.bytes(32); k[0] &= 0x7f; k[31] |= 1; ks.emplace_back(CBigInteger<32>(k.data())); ns.push_back(Crypto::GenerateSecureNonce()); P.push_back(Crypto::CalculatePublicKey(ks.back())); R.push_back(Crypto::CalculatePublicKey(ns.back())); } c.log << n << " participants"; c.nontrivial(n > 1);
    PublicKey sp = Crypto::AddPublicKeys(P), sr = Crypto::AddPublicKeys(R); std::vector<CompactSignature> parts; for (size_t i = 0; i < n; i++) { parts.push_back(Crypto::CalculatePartialSignature(ks[i], ns[i], sp, sr, msg)); REQUIRE_MSG(Crypto::VerifyPartialSignature(parts[i], P[i], sp, sr, msg), "partial signature " << i << " does not verify"); }
    auto sig = Crypto::AggregateSignatures(parts, sr); REQUIRE(sig != nullptr); REQUIRE_MSG(Crypto::VerifyAggregateSignature(*sig, sp, msg), "aggregate does not verify"); Commitment excess = Crypto::ToCommitment(sp); std::vector<const Signature*> sv{ sig.get() }; std::vector<const Commitment*> cv{ &excess }; std::vector<const Hash*> mv{ &msg }; REQUIRE_MSG(Crypto::VerifyKernelSignatures(sv, cv, mv), "kernel signature does not verify");
    REQUIRE(Crypto::ParseCompactSignature(Crypto::ToCompact(*sig)) == *sig);
    Hash m2 = msg; m2[s.below(32)] ^= (uint8_t)(1 << s.below(8)); size_t i = s.below(n); Bytes other = s.bytes(32); other[0] &= 0x7f; other[31] |= 1; other[0] |= 0x40; for (auto& k : ks) if (Bytes(k.GetVec()) == other) other[1] ^= 1; PublicKey foreign = Crypto::CalculatePublicKey(SecretKey{ CBigInteger<32>(other.data()) }); std::vector<const Hash*> mw{ &m2 }; auto no = [&](auto f, const char* w) { bool got = false; try { got = f(); } catch (const std::exception&) {} REQUIRE_MSG(!got, w); };
    no([&] { return Crypto::VerifyPartialSignature(parts[i], P[i], sp, sr, m2); }, "partial signature accepted for another message"); no([&] { return Crypto::VerifyPartialSignature(parts[i], foreign, sp, sr, msg); }, "partial signature accepted for another key"); if (n > 1 && !(P[(i + 1) % n] == P[i])) no([&] { return Crypto::VerifyPartialSignature(parts[i], P[(i + 1) % n], sp, sr, msg); }, "partial signature accepted for another participant");
    no([&] { return Crypto::VerifyAggregateSignature(*sig, sp, m2); }, "aggregate accepted for another message"); no([&] { return Crypto::VerifyAggregateSignature(*sig, foreign, msg); }, "aggregate accepted for another key"); no([&] { return Crypto::VerifyKernelSignatures(sv, cv, mw); }, "kernel signature accepted for another message"); Signature bad(CBigInteger<64>([&] { Bytes b = V(sig->GetSignatureBytes()); b[s.below(64)] ^= (uint8_t)(1 << s.below(8)); return b; }().data())); std::vector<const Signature*> bv{ &bad }; no([&] { return Crypto::VerifyKernelSignatures(bv, cv, mv); }, "altered kernel signature accepted"); no([&] { return Crypto::VerifyAggregateSignature(bad, sp, msg); }, "altered aggregate accepted");
    // a batch is good exactly when every member is
    { size_t k = 1 + (s.chance(1, 60) ? s.below(300) : s.below(5)); std::vector<SecretKey> keys; std::vector<Signature> sg; std::vector<Commitment> cm; std::vector<Hash> ms; for (size_t j = 0; j < k; j++) { Bytes b = s.bytes(32); b[0] &= 0x7f; b[31] |= 1; SecretKey key{ CBigInteger<32>(b.data()) }; cm.push_back(Crypto::CommitBlinded(0, BlindingFactor(CBigInteger<32>(b.data())))); ms.push_back(gen::hash(s)); auto r = Crypto::BuildCoinbaseSignature(key, cm.back(), ms.back()); REQUIRE(r != nullptr); sg.push_back(*r); } bool spoil = s.flip(); if (spoil) { size_t j = s.below(k); if (k > 1 && ms[j] != ms[(j + 1) % k] && s.flip()) std::swap(ms[j], ms[(j + 1) % k]); else ms[j][s.below(32)] ^= 1; } std::vector<const Signature*> a; std::vector<const Commitment*> b; std::vector<const Hash*> d; for (size_t j = 0; j < k; j++) { a.push_back(&sg[j]); b.push_back(&cm[j]); d.push_back(&ms[j]); } bool got = false; try { got = Crypto::VerifyKernelSignatures(a, b, d); } catch (const std::exception&) {} REQUIRE_EQ(got, !spoil); }
    // commitments add up
    { u64 v1 = s.edgy64() >> 2, v2 = s.edgy64() >> 2; auto bl = [&] { Bytes b = s.bytes(32); b[0] &= 0x3f; b[31] |= 1; return BlindingFactor(CBigInteger<32>(b.data())); }; auto b1 = bl(), b2 = bl(), b3 = bl(); Commitment c1 = Crypto::CommitBlinded(v1, b1), c2 = Crypto::CommitBlinded(v2, b2); REQUIRE(Crypto::CommitBlinded(v1 + v2, Crypto::AddBlindingFactors({ b1, b2 }, {})) == Crypto::AddCommitments({ c1, c2 }, {})); REQUIRE(Crypto::AddCommitments({ c1, c2 }, { c2 }) == c1); REQUIRE(Crypto::AddBlindingFactors({ b1, b3 }, { b3 }) == b1); REQUIRE(Crypto::CommitBlinded(v1 + 1, b1) != c1); if (v1) REQUIRE(Crypto::AddCommitments({ Crypto::CommitTransparent(v1), Crypto::CommitBlinded(0, b1) }, {}) == c1); SecretKey k1(CBigInteger<32>(b1.GetBytes())), k2(CBigInteger<32>(b2.GetBytes())); REQUIRE(Crypto::AddPrivateKeys(k1, k2).GetBytes() == Crypto::AddBlindingFactors({ b1, b2 }, {}).GetBytes()); }
}
void pbt::setup(Check& c) {
    c.id = "C26"; c.rule = "non-trivial: more than one input byte (hashes), different operands (big integers), more than one participant (signatures), any case of the others"; c.workerInit = env::workerDefault; c.quickCases = 6000; c.thoroughCases = 300000; c.quickCap = 25;
    c.parts = { { "hashes", 4, hashes }, { "kdfs", 2, kdfs }, { "aes", 2, aes }, { "chacha", 2, chacha }, { "stream", 1, stream }, { "ed25519", 2, ed }, { "points", 1, points }, { "x25519", 1, x25519 }, { "bigint", 2, bigint }, { "signatures", 2, agg } };
    c.assumptions = { "elliptic-curve operations on secp256k1 go through the stand-in library of /verif/shim (own arithmetic, cross-checked against OpenSSL)", "messages given to AES-CBC, SipHash and the chunked stream are not empty: the code never gives them an empty one", "OpenSSL 3.0 is the reference for SHA-2, RIPEMD-160, HMAC, HKDF, scrypt, AES, ChaCha20-Poly1305, SipHash, Ed25519 and X25519; Blake2b, SHA-3 and point validity are written from their definitions" };
}
