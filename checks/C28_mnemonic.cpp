// C28: mnemonics against BIP39 and encrypted seeds against scrypt, AES-256-CBC and HMAC-SHA-256 computed with OpenSSL
#include "env.h"
#include "gen.h"
#include "Wallet/Keychain/Mnemonic.h"
#include "Wallet/Keychain/WordList.h"
#include "Wallet/Keychain/SeedEncrypter.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <sodium.h>
#include <map>
using namespace pbt; typedef std::vector<uint8_t> Bytes; typedef uint64_t u64; typedef uint32_t u32;
static std::string hx(const Bytes& b) { std::string s; char t[3]; for (uint8_t x : b) { snprintf(t, 3, "%02x", x); s += t; } return s; }
static Bytes sha256(const Bytes& in) { Bytes h(32); unsigned l; EVP_Digest(in.data(), in.size(), h.data(), &l, EVP_sha256(), nullptr); return h; }
static std::map<std::string, int>& dict() { static std::map<std::string, int> m; if (m.empty()) for (size_t i = 0; i < WORD_LIST.size(); i++) m[WORD_LIST[i]] = (int)i; return m; }
static Bytes bitsOf(const Bytes& e) { Bytes b; Bytes h = sha256(e); for (uint8_t x : e) for (int i = 7; i >= 0; i--) b.push_back((x >> i) & 1); for (size_t i = 0; i < e.size() / 4; i++) b.push_back((h[i / 8] >> (7 - i % 8)) & 1); return b; }
static std::string phrase(const Bytes& e) { Bytes b = bitsOf(e); std::string r; for (size_t i = 0; i < b.size(); i += 11) { int w = 0; for (int k = 0; k < 11; k++) w = w * 2 + b[i + k]; r += (i ? " " : "") + WORD_LIST[w]; } return r; }
static std::vector<std::string> split(const std::string& s) { std::vector<std::string> v; std::string w; for (char c : s) if (c == ' ') { v.push_back(w); w.clear(); } else w += c; v.push_back(w); return v; }
static std::string join(const std::vector<std::string>& v) { std::string r; for (size_t i = 0; i < v.size(); i++) r += (i ? " " : "") + v[i]; return r; }
// what the phrase stands for, or nothing
static std::optional<Bytes> meaning(std::string s) { size_t a = s.find_first_not_of(" \t"); s = a == s.npos ? "" : s.substr(a, s.find_last_not_of(" \t") - a + 1); auto v = split(s); if (v.size() % 3 || v.size() < 12 || v.size() > 24) return {}; Bytes bits; for (auto& w : v) { auto it = dict().find(w); if (it == dict().end()) return {}; for (int k = 10; k >= 0; k--) bits.push_back((it->second >> k) & 1); } Bytes e(v.size() / 3 * 4); for (size_t i = 0; i < e.size() * 8; i++) e[i / 8] = (uint8_t)(e[i / 8] << 1 | bits[i]); if (bitsOf(e) != bits) return {}; return e; }
static std::optional<Bytes> ask(const std::string& s) { try { SecureVector e = Mnemonic::ToEntropy(SecureString(s.c_str(), s.size())); return Bytes(e.begin(), e.end()); } catch (const std::exception&) { return {}; } }
static Bytes entropy(Src& s) { Bytes e = s.bytes(4 * s.range(4, 8)); switch (s.below(6)) { case 0: std::fill(e.begin(), e.end(), 0); break; case 1: std::fill(e.begin(), e.end(), 0xff); break; case 2: std::fill(e.begin(), e.end() - 1, 0); break; default: break; } return e; }
static void words(Ctx& c) {
    auto& s = c.src; static std::string list; if (list.empty()) { for (auto& w : WORD_LIST) list += w + "\n"; } REQUIRE_MSG(hx(sha256(Bytes(list.begin(), list.end()))) == "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda", "the word list is not BIP39's English one");
    Bytes e = entropy(s); c.log << "entropy " << hx(e) << "; "; c.nontrivial(); auto m = Mnemonic::CreateMnemonic(e.data(), e.size()); std::string text(m.c_str(), m.size()); REQUIRE_MSG(text == phrase(e), "phrase is " << text << " instead of " << phrase(e)); auto back = ask(text); REQUIRE_MSG(back && *back == e, "phrase turns back into " << (back ? hx(*back) : "nothing"));
    for (int n = 0; n < 4; n++) {
        auto v = split(text); std::string t; size_t i = s.below(v.size()), j = s.below(v.size()); int kind = (int)s.below(9);
        switch (kind) { case 0: v[i] = WORD_LIST[s.below(2048)]; break; case 1: std::swap(v[i], v[j]); break; case 2: v.erase(v.begin() + i); break; case 3: v.insert(v.begin() + i, WORD_LIST[s.below(2048)]); break; case 4: v.resize(s.pick<size_t>({ 3, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33 }), "abandon"); break;
            case 5: { auto& w = v[i]; w[s.below(w.size())] = (char)('a' + s.below(26)); break; } case 6: v[i] += s.pick<std::string>({ "s", "\t", "A", "\xc3\xa9", "." }); break; case 7: v[i].resize(s.below(v[i].size())); break; default: v.back() = WORD_LIST[(dict()[v.back()] ^ (1 << s.below(11))) & 2047]; }
        t = join(v); auto want = meaning(t), got = ask(t); c.label(want ? "valid altered phrase" : "invalid phrase"); REQUIRE_MSG((bool)want == (bool)got, "phrase \"" << t << "\" " << (got ? "accepted as " + hx(*got) : "refused")); if (want) REQUIRE_MSG(*want == *got, "phrase \"" << t << "\" gives " << hx(*got));
    }
    { auto v = split(text); std::string t = s.flip() ? " " + text + "  " : join(v); auto got = ask(t); REQUIRE_MSG(!got || *got == e, "spaced phrase gives other entropy"); }
}
// ---- encrypted seeds
struct Enc { Bytes iv, salt, data; u32 N, r, p; };
static Bytes key(const Enc& e, const Bytes& pw) { Bytes o(64), k(32); if (EVP_PBE_scrypt((const char*)pw.data(), pw.size(), e.salt.data(), e.salt.size(), e.N, e.r, e.p, 1ull << 30, o.data(), 64) != 1) throw std::logic_error("scrypt"); crypto_generichash_blake2b(k.data(), 32, o.data(), 64, nullptr, 0); return k; }
static Bytes mac(const Bytes& k, const Bytes& d) { Bytes o(32); unsigned n; HMAC(EVP_sha256(), d.data(), (int)d.size(), k.data(), 32, o.data(), &n); return o; }
// the seed is the HMAC key, the password hash its message (as existing seed files have it)
static Bytes aes(bool enc, const Bytes& k, const Bytes& iv, const Bytes& in, bool* ok = nullptr) { EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); Bytes o(in.size() + 32); int n = 0, m = 0; EVP_CipherInit_ex(x, EVP_aes_256_cbc(), nullptr, k.data(), iv.data(), enc); bool good = EVP_CipherUpdate(x, o.data(), &n, in.data(), (int)in.size()) == 1 && EVP_CipherFinal_ex(x, o.data() + n, &m) == 1; EVP_CIPHER_CTX_free(x); o.resize(good ? n + m : 0); if (ok) *ok = good; return o; }
static Bytes pass(Src& s) { switch (s.below(5)) { case 0: return {}; case 1: { std::string t = s.pick<std::string>({ "password", "pass word", "p\xc3\xa4ssword", "Password", "password " }); return Bytes(t.begin(), t.end()); } case 2: return s.bytes(1); default: return s.bytes(s.below(80)); } }
static SecureString ss(const Bytes& b) { return SecureString((const char*)b.data(), b.size()); }
static EncryptedSeed make(const Enc& e) { Bytes d = e.data; return EncryptedSeed(CBigInteger<16>(e.iv.data()), CBigInteger<8>(e.salt.data()), std::move(d), ScryptParameters(e.N, e.r, e.p)); }
static std::optional<Bytes> open(const EncryptedSeed& e, const Bytes& pw) { try { SecureVector v = SeedEncrypter().DecryptWalletSeed(e, ss(pw)); return Bytes(v.begin(), v.end()); } catch (const std::exception&) { return {}; } }
static Enc seal(Src& s, const Bytes& seed, const Bytes& pw) { Enc e{ s.bytes(16), s.bytes(8), {}, (u32)2 << s.below(5), (u32)s.range(1, 4), (u32)s.range(1, 2) }; Bytes k = key(e, pw), d = seed, h = mac(k, seed); d.insert(d.end(), h.begin(), h.end()); e.data = aes(true, k, e.iv, d); return e; }
static bool same(const Enc& a, const Enc& b) { return a.iv == b.iv && a.salt == b.salt && a.data == b.data && a.N == b.N && a.r == b.r && a.p == b.p; }
static Enc enc(const EncryptedSeed& e) { return { e.GetIV().GetData(), e.GetSalt().GetData(), e.GetEncryptedSeedBytes(), e.GetScryptParameters().N, e.GetScryptParameters().r, e.GetScryptParameters().p }; }
static void seeds(Ctx& c) {
    auto& s = c.src; Bytes seed = entropy(s), pw = pass(s); Enc e = seal(s, seed, pw); c.log << "seed " << hx(seed) << " password " << hx(pw) << " N " << e.N << " r " << e.r << " p " << e.p << "; "; c.nontrivial(); EncryptedSeed es = make(e); auto got = open(es, pw); REQUIRE_MSG(got && *got == seed, "the published format opens to " << (got ? hx(*got) : "nothing"));
    { Json::Value j = es.ToJSON(); std::string t = j.toStyledString(); Json::Value k; Json::Reader().parse(t, k); REQUIRE_MSG(same(enc(EncryptedSeed::FromJSON(k)), e), "JSON form " << t); Serializer o; es.Serialize(o); ByteBuffer b(o.GetBytes()); REQUIRE(same(enc(EncryptedSeed::Deserialize(b)), e)); }
    for (int n = 0; n < 6; n++) { Bytes q = pw; switch (s.below(5)) { case 0: q = pass(s); break; case 1: q.push_back((uint8_t)s.below(256)); break; case 2: if (!q.empty()) q.pop_back(); break; case 3: if (!q.empty()) q[s.below(q.size())] ^= (uint8_t)(1 << s.below(8)); break; default: q.insert(q.begin(), ' '); } Enc k = e; if (key(k, q) == key(k, pw)) continue; auto r = open(es, q); REQUIRE_MSG(!r, "opened under password " << hx(q) << " to " << hx(*r)); }   // PBKDF2 pads keys with zeros: two passwords can be the same key
    for (int n = 0; n < 6; n++) {
        Enc a = e; int kind = (int)s.below(9); auto flip = [&](Bytes& b) { if (!b.empty()) b[s.below(b.size())] ^= (uint8_t)(1 << s.below(8)); };
        switch (kind) { case 0: flip(a.iv); break; case 1: flip(a.salt); break; case 2: case 3: flip(a.data); break; case 4: a.data.resize(s.below(a.data.size())); break; case 5: { Bytes x = s.bytes(1 + s.below(33)); a.data.insert(a.data.begin() + s.below(a.data.size() + 1), x.begin(), x.end()); break; } case 6: a.data.resize(16 * s.below(a.data.size() / 16)); break; case 7: { size_t i = 16 * s.below(a.data.size() / 16), j = 16 * s.below(a.data.size() / 16); std::swap_ranges(a.data.begin() + i, a.data.begin() + i + 16, a.data.begin() + j); if (s.flip() && i != j) std::copy_n(a.data.begin() + i, 16, a.data.begin() + j); break; }
            default: { u32& x = s.flip() ? a.N : s.flip() ? a.r : a.p; x = s.pick<u32>({ 0, 1, 2, 3, 4, 8, 16, 5, 7 }); } }
        auto r = open(make(a), pw); c.label(same(a, e) ? "unaltered" : "altered seed file"); if (same(a, e)) REQUIRE(r && *r == seed); else REQUIRE_MSG(!r, "opened after alteration kind " << kind << " to " << hx(*r));
    }
    // a ciphertext made under the right key of content without room for the check
    { Enc a = e; Bytes k = key(e, pw); a.data = aes(true, k, a.iv, s.bytes(s.below(48))); auto r = open(make(a), pw); REQUIRE_MSG(!r, "opened without a check value"); }
}
static void json(Ctx& c) {
    auto& s = c.src; Bytes seed = entropy(s), pw = pass(s); Enc e = seal(s, seed, pw); std::string t = make(e).ToJSON().toStyledString(); c.nontrivial(); Json::Value j; Json::Reader().parse(t, j); std::string f = s.pick<std::string>({ "iv", "salt", "seed", "scrypt", "version", "N", "r", "p" }); Json::Value& v = f.size() == 1 ? j["scrypt"][f] : j[f];
    switch (s.below(6)) { case 0: if (f.size() == 1) j["scrypt"].removeMember(f); else j.removeMember(f); break; case 1: v = s.pick<std::string>({ "", "00", "zz", "0x", "-1", "1" }); break; case 2: v = Json::Value(); break; case 3: v = Json::Value(Json::arrayValue); break; case 4: v = (Json::Int64)s.pick<int64_t>({ -1, 0, 1, 4294967296LL, 3 }); break;
        default: if (v.isString()) { std::string x = v.asString(); if (x.size()) switch (s.below(3)) { case 0: x[s.below(x.size())] = "0123456789abcdefgX"[s.below(18)]; break; case 1: x.erase(s.below(x.size()), 1 + s.below(3)); break; default: x.insert(s.below(x.size() + 1), s.pick<std::string>({ "0", "00", " " })); } v = x; } }
    c.log << "JSON " << j.toStyledString(); std::optional<Bytes> got; bool eq = false; try { EncryptedSeed a = EncryptedSeed::FromJSON(j); eq = same(enc(a), e); got = open(a, pw); } catch (const std::exception&) {} c.label(eq ? "harmless JSON change" : "damaged JSON"); if (eq) REQUIRE(got && *got == seed); else REQUIRE_MSG(!got, "damaged seed file opens to " << hx(*got));
}
static void fresh(Ctx& c) {
    auto& s = c.src; Bytes seed = entropy(s), pw = pass(s); c.log << "seed " << hx(seed) << " password " << hx(pw); c.nontrivial(); SecureVector sv(seed.begin(), seed.end()); EncryptedSeed es = SeedEncrypter().EncryptWalletSeed(sv, ss(pw)); Enc e = enc(es); Bytes k = key(e, pw); bool ok = false; Bytes d = aes(false, k, e.iv, e.data, &ok); REQUIRE_MSG(ok && d.size() == seed.size() + 32 && Bytes(d.begin(), d.end() - 32) == seed && Bytes(d.end() - 32, d.end()) == mac(k, seed), "what is written is not the seed with its check value");
    REQUIRE_MSG(e.N >= 32768 && e.r >= 8, "weak scrypt parameters"); auto got = open(es, pw); REQUIRE(got && *got == seed); Bytes q = pw; q.push_back('x'); REQUIRE(!open(es, q)); static std::set<Bytes> ivs, salts; REQUIRE_MSG(ivs.insert(e.iv).second && salts.insert(e.salt).second, "salt or initialisation vector used twice"); std::string all = es.ToJSON().toStyledString(); REQUIRE_MSG(all.find(hx(seed)) == std::string::npos, "seed in clear");
}
void pbt::setup(Check& c) {
    c.id = "C28"; c.rule = "every case: an entropy with four altered phrases, or a seed sealed under a password with altered passwords, ciphertexts, parameters or JSON"; c.workerInit = env::workerDefault; c.quickCases = 6000; c.thoroughCases = 200000; c.quickCap = 20; c.parts = { { "words", 6, words }, { "seeds", 6, seeds }, { "json", 4, json }, { "fresh", 1, fresh } };
    c.assumptions = { "OpenSSL and libsodium are the reference for SHA-256, scrypt, AES-256-CBC, HMAC and BLAKE2b; the SHA-256 of BIP39's English word list is the published one", "altered scrypt parameters stay below 16, so that altered files cost no memory" };
}
