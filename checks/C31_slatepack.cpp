// C31: slatepacks against an independent implementation of the armor, message and age formats (OpenSSL), and damaged ones
#include "env.h"
#include "gen.h"
#include "enc.h"
#include <Wallet/Models/Slate/Slate.h>
#include <Wallet/Models/Slatepack/Armor.h>
#include <Crypto/Crypto.h>
#include <Crypto/Age.h>
#include <sodium.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/sha.h>
#include <openssl/bn.h>
using namespace pbt; typedef std::vector<uint8_t> Bytes; typedef uint64_t u64; typedef uint32_t u32; typedef std::string Str;
static Str hx(const Bytes& b) { Str s; char t[3]; for (uint8_t x : b) { snprintf(t, 3, "%02x", x); s += t; } return s; }
static Bytes B(const Str& s) { return Bytes(s.begin(), s.end()); } static void cat(Bytes& o, const Bytes& b) { o.insert(o.end(), b.begin(), b.end()); }
static void be(Bytes& o, u64 x, int n) { for (int i = n - 1; i >= 0; i--) o.push_back((uint8_t)(x >> (8 * i))); }
// ---- reference: base58, age, slatepack message
static const Str A58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz", A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static Str b58(const Bytes& b) { BIGNUM* n = BN_bin2bn(b.data(), (int)b.size(), nullptr); Str s; while (!BN_is_zero(n)) s += A58[BN_div_word(n, 58)]; BN_free(n); for (size_t i = 0; i < b.size() && !b[i]; i++) s += '1'; std::reverse(s.begin(), s.end()); return s; }
static bool un58(const Str& s, Bytes& o) { BIGNUM* n = BN_new(); BN_zero(n); size_t z = 0; while (z < s.size() && s[z] == '1') z++; for (char ch : s) { size_t d = A58.find(ch); if (d == Str::npos) { BN_free(n); return false; } BN_mul_word(n, 58); BN_add_word(n, d); } o.assign(z, 0); Bytes t(BN_num_bytes(n)); BN_bn2bin(n, t.data()); cat(o, t); BN_free(n); return true; }
static Bytes sha2(const Bytes& b) { Bytes a(32), d(32); SHA256(b.data(), b.size(), a.data()); SHA256(a.data(), 32, d.data()); return d; }
static Str b64(const Bytes& b) { Str o; for (size_t i = 0; i < b.size(); i += 3) { u32 v = b[i] << 16; size_t n = std::min<size_t>(3, b.size() - i); if (n > 1) v |= b[i + 1] << 8; if (n > 2) v |= b[i + 2]; for (size_t k = 0; k <= n; k++) o += A64[(v >> (18 - 6 * k)) & 63]; } return o; }
static Bytes hmac(const Bytes& k, const Bytes& d) { Bytes o(32); unsigned n = 0; static const uint8_t z = 0; HMAC(EVP_sha256(), k.empty() ? &z : k.data(), (int)k.size(), d.data(), d.size(), o.data(), &n); return o; }
static Bytes hkdf(const Bytes& salt, const Str& info, const Bytes& ikm) { Bytes prk = hmac(salt.empty() ? Bytes(32) : salt, ikm), i = B(info); i.push_back(1); return hmac(prk, i); }
static Bytes dh(const Bytes& sk, const Bytes& pk) { Bytes o(32); if (crypto_scalarmult_curve25519(o.data(), sk.data(), pk.data()) != 0) throw std::logic_error("dh"); return o; }
static Bytes dhPub(const Bytes& sk) { Bytes o(32); crypto_scalarmult_curve25519_base(o.data(), sk.data()); return o; }
static Bytes seal(const Bytes& k, const Bytes& nonce, const Bytes& in) { EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); Bytes o(in.size() + 16); int a = 0, b = 0; EVP_EncryptInit_ex(x, EVP_chacha20_poly1305(), nullptr, k.data(), nonce.data()); EVP_EncryptUpdate(x, o.data(), &a, in.data(), (int)in.size()); EVP_EncryptFinal_ex(x, o.data() + a, &b); EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 16, o.data() + in.size()); EVP_CIPHER_CTX_free(x); return o; }
static bool open(const Bytes& k, const Bytes& nonce, const Bytes& in, Bytes& o) { if (in.size() < 16) return false; EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); size_t n = in.size() - 16; o.assign(n + 16, 0); int a = 0, b = 0; EVP_DecryptInit_ex(x, EVP_chacha20_poly1305(), nullptr, k.data(), nonce.data()); EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_TAG, 16, (void*)(in.data() + n)); EVP_DecryptUpdate(x, o.data(), &a, in.data(), (int)n); bool ok = EVP_DecryptFinal_ex(x, o.data() + a, &b) == 1; EVP_CIPHER_CTX_free(x); o.resize(n); return ok; }
static Bytes nonceOf(u64 i, bool last) { Bytes n(3); be(n, i, 8); n.push_back(last); return n; }
static Bytes unb64(const Str& t) { Bytes o; u32 v = 0; int n = 0; for (char ch : t) { size_t d = A64.find(ch); if (d == Str::npos) throw std::logic_error("base64"); v = v << 6 | (u32)d; n += 6; if (n >= 8) { n -= 8; o.push_back((uint8_t)(v >> n)); v &= (1u << n) - 1; } } if (v) throw std::logic_error("base64 tail"); return o; }
struct Key { Bytes sk, pk; x25519_keypair_t kp; SlatepackAddress addr; };
static Key key(Src& s, uint8_t tag) { Bytes sd = s.bytes(32); sd[31] = tag; auto e = ED25519::CalculateKeypair(SecretKey(CBigInteger<32>(sd.data()))); Key k; k.kp = Curve25519::ToX25519(e); k.sk = k.kp.seckey.bytes.GetVec(); k.pk = dhPub(k.sk); k.addr = SlatepackAddress(e.public_key); return k; }
// age encryption as any other wallet writes it; grease: stanzas of other kinds among the recipients'
static Bytes ageSeal(Src& s, const std::vector<Bytes>& to, const Bytes& plain, bool grease) {
    Bytes fk = s.bytes(16); Str h = "age-encryption.org/v1\n"; auto extra = [&] { if (!grease || !s.flip()) return; static const char* kinds[] = { "joint-oil", "ssh-ed25519 Xy+/0", "grease ~ a b", "scrypt 1 18", "X-25519", "x25519 zz" }; h += Str("-> ") + kinds[s.below(6)] + "\n"; h += b64(s.bytes(s.below(60))) + "\n"; };
    extra(); for (auto& pk : to) { Bytes e = s.bytes(32), ep = dhPub(e), salt = ep; cat(salt, pk); Bytes wrapped = seal(hkdf(salt, "age-encryption.org/v1/X25519", dh(e, pk)), Bytes(12), fk); h += "-> X25519 " + b64(ep) + "\n" + b64(wrapped) + "\n"; extra(); }
    h += "---"; h += " " + b64(hmac(hkdf({}, "header", fk), B(h))) + "\n"; Bytes o = B(h), n = s.bytes(16); cat(o, n); Bytes k = hkdf(n, "payload", fk); size_t i = 0, c = 0; do { size_t m = std::min<size_t>(65536, plain.size() - i); cat(o, seal(k, nonceOf(c++, i + m == plain.size()), Bytes(plain.begin() + i, plain.begin() + i + m))); i += m; } while (i < plain.size()); return o;
}
// strict age decryption; false: not for this key, or altered
static bool ageOpen(const Bytes& in, const Bytes& sk, Bytes& out, Str* why = nullptr, size_t* body = nullptr, size_t* stanzas = nullptr) {
    auto no = [&](const char* w) { if (why) *why = w; return false; }; std::vector<Str> lines; Str cur; size_t i = 0, sigAt = 0; for (; i < in.size(); i++) { if (in[i] != '\n') { cur += (char)in[i]; continue; } lines.push_back(cur); cur.clear(); if (lines.back().compare(0, 3, "---") == 0) break; sigAt = i + 1; } if (i >= in.size()) return no("no header"); i++; if (body) *body = i;
    if (lines[0] != "age-encryption.org/v1") return no("intro"); Bytes hdr(in.begin(), in.begin() + sigAt + 3), pk = dhPub(sk), fk; bool have = false; size_t n = 0;
    for (size_t l = 1; l + 1 < lines.size(); l++) if (lines[l].compare(0, 10, "-> X25519 ") == 0) { n++; Bytes ep, w; try { ep = unb64(lines[l].substr(10)); w = unb64(lines[l + 1]); } catch (...) { return no("base64"); } if (ep.size() != 32 || w.size() != 32) return no("stanza size"); Bytes salt = ep; cat(salt, pk); Bytes k; try { k = hkdf(salt, "age-encryption.org/v1/X25519", dh(sk, ep)); } catch (...) { continue; } Bytes t; if (!have && open(k, Bytes(12), w, t) && t.size() == 16) { fk = t; have = true; } }
    if (stanzas) *stanzas = n; if (!have) return no("not a recipient"); if (lines.back() != "--- " + b64(hmac(hkdf({}, "header", fk), hdr))) return no("MAC"); if (in.size() < i + 16) return no("nonce"); Bytes k = hkdf(Bytes(in.begin() + i, in.begin() + i + 16), "payload", fk); i += 16; out.clear(); u64 c = 0; do { size_t m = std::min<size_t>(65552, in.size() - i); Bytes t; if (!open(k, nonceOf(c++, i + m == in.size()), Bytes(in.begin() + i, in.begin() + i + m), t)) return no("chunk"); cat(out, t); i += m; } while (i < in.size()); return true;
}
struct Msg { int major = 1, minor = 0, mode = 0, flags = 0; Bytes opt, payload; };
static Bytes msgBytes(const Msg& m) { Bytes o; be(o, m.major, 1); be(o, m.minor, 1); be(o, m.mode, 1); be(o, m.flags, 2); be(o, m.opt.size(), 4); cat(o, m.opt); be(o, m.payload.size(), 8); cat(o, m.payload); return o; }
static bool msgParse(const Bytes& b, Msg& m) { size_t i = 0; bool ok = true; auto rd = [&](int n) { u64 x = 0; while (n--) { if (i >= b.size()) { ok = false; return (u64)0; } x = x << 8 | b[i++]; } return x; }; auto blob = [&](u64 n) { if (n > b.size() - i) { ok = false; return Bytes(); } Bytes r(b.begin() + i, b.begin() + i + n); i += n; return r; }; m.major = (int)rd(1); m.minor = (int)rd(1); m.mode = (int)rd(1); m.flags = (int)rd(2); m.opt = blob(rd(4)); m.payload = blob(rd(8)); return ok && i == b.size(); }
static Bytes addr(const SlatepackAddress& a) { Str t = a.ToString(); Bytes o; be(o, t.size(), 1); cat(o, B(t)); return o; }
static Str armor(const Bytes& msg) { Bytes c = sha2(msg); c.resize(4); cat(c, msg); return b58(c); }
static bool unarmor(const Str& t, Bytes& msg) { Bytes b; if (!un58(t, b) || b.size() < 4) return false; msg.assign(b.begin() + 4, b.end()); Bytes h = sha2(msg); return std::equal(h.begin(), h.begin() + 4, b.begin()); }
static Str squeeze(const Str& s) { Str o; for (char ch : s) if (!strchr(" \f\n\r\t\v", ch) || !ch) o += ch; return o; }
static bool unpack(const Str& t, const Key& k, SlatepackMessage& m) { try { m = Armor::Unpack(t, k.kp); return true; } catch (const std::exception&) { return false; } }
static Str spread(Src& s, const Str& t) { Str o; static const Str ws = " \f\n\r\t\v"; u32 rate = s.pick<u32>({ 2, 5, 20 }); if (s.flip()) o += ws[s.below(6)]; for (char ch : t) { o += ch; if (s.chance(1, rate)) { int n = 1 + (int)s.below(3); while (n--) o += ws[s.below(6)]; } } return o; }
static Slate slate(Src& s, size_t coms) {
    std::array<uint8_t, 16> id; Bytes r = s.bytes(16); std::copy(r.begin(), r.end(), id.begin()); Slate a{ uuids::uuid(id) }; a.blockVersion = (uint16_t)s.range(1, 5); a.stage = SlateStage((ESlateStage)s.below(6)); a.offset = BlindingFactor(CBigInteger<32>(s.bytes(32).data())); a.amount = s.flip() ? s.edgy64() : 0; a.fee = Fee((uint8_t)s.below(2), s.edgy64() & 0xffffffffffULL); a.ttl = s.flip() ? s.edgy64() : 0; if (s.chance(1, 4)) { a.kernelFeatures = EKernelFeatures::HEIGHT_LOCKED; SlateFeatureArgs f; f.lockHeightOpt = s.edgy64(); a.featureArgsOpt = f; }
    size_t n = s.below(3); for (size_t i = 0; i < n; i++) { auto pub = [&] { Bytes k = s.bytes(32); k[0] = 1; return Crypto::CalculatePublicKey(SecretKey(CBigInteger<32>(k.data()))); }; Bytes p = s.bytes(64); p[31] &= 0x7f; p[63] &= 0x7f; a.sigs.push_back(SlateSignature(pub(), pub(), s.flip() ? std::make_optional(CompactSignature(CBigInteger<64>(p.data()))) : std::nullopt)); }
    for (size_t i = 0; i < coms; i++) { Bytes cm = s.bytes(33); cm[0] = 8; a.commitments.push_back(SlateCommitment{ (EOutputFeatures)s.below(2), Commitment(CBigInteger<33>(cm.data())), s.chance(1, 4) ? std::make_optional(RangeProof(s.bytes(675))) : std::nullopt }); }
    if (s.chance(1, 4)) { Bytes x = s.bytes(32), y = s.bytes(32); a.proofOpt = SlatePaymentProof::Create(ed25519_public_key_t(CBigInteger<32>(x.data())), ed25519_public_key_t(CBigInteger<32>(y.data()))); } return a;
}
static Bytes bytesOf(const Slate& s) { Serializer o; s.Serialize(o); return o.GetBytes(); }
static SlatepackAddress sender(Src& s, bool null = false) { return null && s.chance(1, 5) ? SlatepackAddress() : key(s, 200).addr; }   // clear slatepacks need not name their sender
// what was packed comes back, for exactly the recipients
static void pack(Ctx& c) {
    auto& s = c.src; Slate a = slate(s, s.chance(1, 12) ? 20 : s.below(3)); Bytes sb = bytesOf(a); size_t n = s.chance(2, 5) ? 0 : 1 + s.below(4); SlatepackAddress from = sender(s, n == 0); std::vector<Key> to; for (size_t i = 0; i < n; i++) to.push_back(i && s.chance(1, 8) ? to[0] : key(s, (uint8_t)i)); Key other = key(s, 255); std::vector<SlatepackAddress> rc; for (auto& k : to) rc.push_back(k.addr);
    bool zero = n == 0 && s.chance(1, 6); if (zero) { for (int i = 0; i < 4000; i++) { Msg m; m.payload = sb; if (!from.IsNull()) { m.flags = 1; m.opt = addr(from); } if (sha2(msgBytes(m))[0] == 0) break; std::array<uint8_t, 16> id; Bytes r = s.bytes(16); std::copy(r.begin(), r.end(), id.begin()); a.slateId = uuids::uuid(id); sb = bytesOf(a); } c.label("checksum starts with zero"); }
    c.log << n << " recipients, slate " << hx(sb).substr(0, 300) << " from " << from.ToString(); c.nontrivial(); c.label(n ? "encrypted" : "clear"); if (n > 1) c.label("several recipients");
    Str t = Armor::Pack(from, a, rc); size_t words = 0;
    { REQUIRE_MSG(t.compare(0, 16, "BEGINSLATEPACK. ") == 0 && t.size() > 33 && t.substr(t.size() - 15) == ". ENDSLATEPACK.", "framing of " << t); Str in = t.substr(16, t.size() - 31), w; for (size_t i = 0; i <= in.size(); i++) { if (i < in.size() && in[i] != ' ' && in[i] != '\n') { w += in[i]; continue; } words++; REQUIRE_MSG(i == in.size() ? w.size() <= 15 && !w.empty() : w.size() == 15, "word of " << w.size() << " characters"); REQUIRE(i == in.size() || (in[i] == '\n') == (words % 200 == 0)); w.clear(); }
      Bytes mb; REQUIRE_MSG(unarmor(squeeze(in), mb), "not the base58 of a message with its checksum: " << t); Msg m; REQUIRE(msgParse(mb, m)); REQUIRE_EQ(m.major, 1); REQUIRE_EQ(m.minor, 0); REQUIRE_EQ(m.mode, n ? 1 : 0); REQUIRE_EQ(m.flags, n || from.IsNull() ? 0 : 1); REQUIRE(m.opt == (m.flags ? addr(from) : Bytes()));
      if (n == 0) REQUIRE(m.payload == sb); else for (auto& k : to) { Bytes p; Str why; size_t st = 0; bool ok = ageOpen(m.payload, k.sk, p, &why, nullptr, &st); REQUIRE_MSG(ok, "another wallet cannot open it: " << why); REQUIRE_EQ(st, n); Bytes want, meta; be(meta, 1, 2); cat(meta, addr(from)); be(want, meta.size(), 4); cat(want, meta); cat(want, sb); REQUIRE_MSG(p == want, "encrypted content " << hx(p).substr(0, 300)); }
      if (n) { auto vis = [&](const Bytes& w) { return std::search(mb.begin(), mb.end(), w.begin(), w.end()) != mb.end(); }; REQUIRE_MSG(!vis(Bytes(sb.begin(), sb.begin() + 30)), "slate readable in the encrypted message"); REQUIRE_MSG(!vis(B(from.ToString())), "sender readable in the encrypted message"); } }
    SlatepackMessage m; to.push_back(other); for (size_t i = 0; i < to.size(); i++) { bool isTo = i + 1 < to.size() || n == 0; bool ok = unpack(s.flip() ? t : spread(s, t), to[i], m); REQUIRE_MSG(ok == isTo, (isTo ? "recipient cannot open the slatepack" : "opened by somebody who is no recipient")); if (ok) { REQUIRE_MSG(m.m_payload == sb, "payload " << hx(m.m_payload).substr(0, 300)); REQUIRE_EQ(m.m_sender.ToString(), from.ToString()); REQUIRE_EQ((int)m.m_mode, n ? 1 : 0); REQUIRE(m.m_recipients.empty()); ByteBuffer bb(m.m_payload); REQUIRE(Slate::Deserialize(bb) == a); } }
}
// what other wallets write
static void foreign(Ctx& c) {
    auto& s = c.src; Slate a = slate(s, s.below(3)); Bytes sb = bytesOf(a); SlatepackAddress from = sender(s); size_t n = s.chance(1, 4) ? 0 : 1 + s.below(3); std::vector<Key> to; for (size_t i = 0; i < n; i++) to.push_back(key(s, (uint8_t)i)); Key other = key(s, 255); Msg m; m.mode = n > 0; m.minor = s.chance(1, 5) ? (int)s.below(4) : 0; std::vector<SlatepackAddress> listed; bool named = s.chance(3, 4);
    if (n == 0) { if (named) { m.flags = 1; m.opt = addr(from); } m.payload = sb; } else { std::vector<Bytes> pks; for (auto& k : to) { pks.push_back(k.pk); if (s.flip()) listed.push_back(k.addr); } if (s.chance(1, 30)) for (size_t many = s.pick<size_t>({ 255, 256, 300 }); listed.size() < many;) listed.push_back(to[listed.size() % n].addr); Bytes meta, p; be(meta, (named ? 1 : 0) | (listed.empty() ? 0 : 2), 2); if (named) cat(meta, addr(from)); if (!listed.empty()) { be(meta, listed.size(), 2); for (auto& x : listed) cat(meta, addr(x)); } if (s.chance(1, 4)) cat(meta, s.bytes(5)); be(p, meta.size(), 4); cat(p, meta); cat(p, sb); m.payload = ageSeal(s, pks, p, s.flip()); }
    Str t = spread(s, "BEGINSLATEPACK." + armor(msgBytes(m)) + ".ENDSLATEPACK."); if (s.chance(1, 4)) t += " bye\n"; c.log << n << " recipients, message " << hx(msgBytes(m)).substr(0, 600); c.nontrivial(); c.label(n ? "encrypted" : "clear");
    to.push_back(other); SlatepackMessage d; for (size_t i = 0; i < to.size(); i++) { bool isTo = i + 1 < to.size() || n == 0, ok = unpack(t, to[i], d); REQUIRE_MSG(ok == isTo, (isTo ? "slatepack of another wallet refused" : "opened by somebody who is no recipient")); if (ok) { REQUIRE(d.m_payload == sb); REQUIRE_EQ(d.m_sender.ToString(), named ? from.ToString() : SlatepackAddress().ToString()); REQUIRE_EQ(d.m_recipients.size(), listed.size()); for (size_t k = 0; k < listed.size(); k++) REQUIRE(d.m_recipients[k] == listed[k]); } }
}
// damage to the text
static void armored(Ctx& c) {
    auto& s = c.src; Slate a = slate(s, s.below(2)); bool enc = s.flip(); Key k = key(s, 1); SlatepackAddress from = sender(s); Str t = squeeze(Armor::Pack(from, a, enc ? std::vector<SlatepackAddress>{ k.addr } : std::vector<SlatepackAddress>{})); Str p = t.substr(15, t.size() - 15 - 14); REQUIRE_EQ(t, "BEGINSLATEPACK." + p + ".ENDSLATEPACK."); SlatepackMessage m; REQUIRE_MSG(unpack(t, k, m), "cannot open " << t);
    for (int r = 0; r < 12; r++) { Str q = p, what; size_t at = s.chance(1, 4) ? s.below(8) : s.below(q.size()); switch (s.below(8)) { case 0: case 1: { char x = A58[s.below(58)]; what = Str("character ") + std::to_string(at) + " changed"; q[at] = x; break; } case 2: q.erase(at, 1); what = "a character lost"; break; case 3: q.insert(at, 1, A58[s.below(58)]); what = "a character added"; break; case 4: at = at ? at : 1; std::swap(q[at - 1], q[at]); what = "two characters swapped"; break; case 5: q.resize(s.below(q.size())); what = "cut short"; break; case 6: q = Str(1 + s.below(3), '1') + q; what = "ones put in front"; break; default: q[at] = s.pick<char>({ '0', 'O', 'I', 'l', '.', '+', '\x80', '\0' }); what = "a foreign character"; }
        if (q == p) continue; c.nontrivial(); c.label(what.substr(0, 9) == "character" ? "a character changed" : what); REQUIRE_MSG(!unpack(spread(s, "BEGINSLATEPACK." + q + ".ENDSLATEPACK."), k, m), what << ", accepted: " << q << " for " << p); }
    { Str h = "BEGINSLATEPACK", f = "ENDSLATEPACK"; Str& w = s.flip() ? h : f; switch (s.below(4)) { case 0: w.erase(s.below(w.size()), 1); break; case 1: w[s.below(w.size())] ^= 0x20; break; case 2: w.clear(); break; default: w.insert(s.below(w.size() + 1), 1, 'X'); } REQUIRE_MSG(!unpack(h + "." + p + "." + f + ".", k, m), "frame '" << h << "' '" << f << "' accepted"); }
}
static bool ageDec(const Bytes& b, const Key& k, Bytes& o) { try { o = Age::Decrypt(k.kp, b); return true; } catch (const std::exception&) { return false; } }
// damage to the encrypted data, below the checksum
static void sealed(Ctx& c) {
    auto& s = c.src; size_t n = 1 + s.below(3); std::vector<Key> to; std::vector<Bytes> pks; std::vector<x25519_public_key_t> rk; for (size_t i = 0; i < n; i++) { to.push_back(key(s, (uint8_t)i)); pks.push_back(to[i].pk); rk.push_back(to[i].kp.pubkey); } Key& k = to[s.below(n)]; Bytes plain = s.bytes(1 + s.below(200)); bool big = s.chance(1, 12); if (big) { size_t x = s.pick<size_t>({ 65535, 65536, 65537, 131072, 150000, 262144, 262145, 400000, 1100000 }); plain = s.bytes(64); plain.reserve(x); while (plain.size() < x) plain.push_back((uint8_t)(plain[plain.size() - 64] * 31 + plain.size())); c.label("several chunks"); }
    bool ours = s.flip(); Bytes e = ours ? Age::Encrypt(rk, plain) : ageSeal(s, pks, plain, s.flip()), o, r; c.log << (ours ? "own" : "foreign") << " message to " << n << ", " << plain.size() << " bytes"; size_t body = 0; Str why; REQUIRE_MSG(ageOpen(e, k.sk, r, &why, &body), "reference cannot open: " << why); REQUIRE(r == plain); REQUIRE_MSG(ageDec(e, k, o), "recipient cannot open"); REQUIRE(o == plain); Key other = key(s, 255); REQUIRE_MSG(!ageDec(e, other, o), "opened by somebody who is no recipient"); if (ours) REQUIRE(Age::Encrypt(rk, plain) != e); c.nontrivial();
    std::vector<size_t> nl{ 0 }; for (size_t i = 0; i < body; i++) if (e[i] == '\n') nl.push_back(i + 1);   // line starts
    auto line = [&](size_t i) { return Bytes(e.begin() + nl[i], e.begin() + nl[i + 1]); }; size_t lines = nl.size() - 1; auto joined = [&](std::vector<Bytes> v) { Bytes x; for (auto& l : v) cat(x, l); x.insert(x.end(), e.begin() + body, e.end()); return x; }; std::vector<Bytes> all; for (size_t i = 0; i < lines; i++) all.push_back(line(i));
    for (int q = 0; q < 10; q++) { Bytes x = e; Str what; switch (s.below(12)) {
        case 0: { size_t at = s.below(e.size()); x[at] ^= (uint8_t)(1 << s.below(8)); what = "a bit flipped at " + std::to_string(at); break; }
        case 1: { size_t at = s.below(body); x[at] = s.chance(1, 2) ? (uint8_t)A64[s.below(64)] : (uint8_t)s.below(256); what = "header byte " + std::to_string(at) + " changed"; break; }
        case 2: x[nl[lines] - 2] = (uint8_t)A64[s.below(64)]; what = "last character of the MAC changed"; break;
        case 3: { auto v = all; size_t st = 0; Bytes st0 = line(1); v.insert(v.begin() + 1, { line(1), line(2) }); (void)st; what = "a recipient stanza doubled"; x = joined(v); break; }
        case 4: { auto v = all; if (lines >= 6) { size_t at = 1 + 2 * s.below((lines - 2) / 2); v.erase(v.begin() + at, v.begin() + at + 2); } what = "a recipient stanza removed"; x = joined(v); break; }
        case 5: { auto v = all; if (lines >= 6) { std::swap(v[1], v[3]); std::swap(v[2], v[4]); } what = "recipient stanzas swapped"; x = joined(v); break; }
        case 6: { auto v = all; Bytes ep = s.bytes(32), w = s.bytes(32); v.insert(v.begin() + 1 + 2 * s.below((lines - 2) / 2 + 1), { B("-> X25519 " + b64(dhPub(ep)) + "\n"), B(b64(w) + "\n") }); what = "a recipient stanza added"; x = joined(v); break; }
        case 7: { auto v = all; v.back() = B("--- " + b64(s.bytes(s.pick<size_t>({ 32, 31, 33, 0, 64 }))) + "\n"); what = "another MAC"; x = joined(v); break; }
        case 8: x.resize(s.below(x.size())); what = "cut short"; break;
        case 9: { size_t at = body + s.below(x.size() - body + 1); x.insert(x.begin() + at, (uint8_t)s.below(256)); what = "a byte added after the header"; break; }
        case 10: if (big && plain.size() > 65552) { size_t b0 = body + 16; Bytes last(x.begin() + b0 + 65552, x.end()); if (s.flip()) { x.resize(b0 + 65552); what = "chunks after the first dropped"; } else { x.erase(x.begin() + b0, x.begin() + b0 + 65552); what = "first chunk dropped"; } } else { x.resize(body + 16 + s.below(17)); what = "body dropped"; } break;
        default: { auto v = all; if (s.flip()) v[0] = B(s.pick<Str>({ "age-encryption.org/v2\n", "\n", "age-encryption.org/v1 \n", "-> X25519 AAAA\n" })); else v.insert(v.begin() + s.below(lines), B(s.pick<Str>({ "\n", "-> x\n", "junk\n", " \n" }))); what = "a line changed or added"; x = joined(v); } }
        if (x == e) continue; bool want = ageOpen(x, k.sk, r); REQUIRE_MSG(!want, "the reference accepts an altered message: " << what); c.label(what.substr(0, 18)); bool ok = ageDec(x, k, o); REQUIRE_MSG(!ok, what << ": altered message accepted, header " << Str(x.begin(), x.begin() + std::min(x.size(), body))); 
        if (q == 0 && !big) { Msg m; m.mode = 1; m.payload = x; SlatepackMessage sm; REQUIRE_MSG(!unpack("BEGINSLATEPACK." + armor(msgBytes(m)) + ".ENDSLATEPACK.", k, sm), what << ": altered slatepack accepted"); } }
}
// messages that only an attacker writes: refused without harm
static void hostile(Ctx& c) {
    auto& s = c.src; Key k = key(s, 1); c.nontrivial(); Bytes o; Msg m; m.mode = 1; Str what;
    switch (s.below(6)) {
    case 0: { size_t n = s.pick<size_t>({ 1000, 30000, 150000, 400000 }); Str h = "age-encryption.org/v1\n-> X25519 " + Str(n, s.pick<char>({ 'A', '/', '=', ' ', '\xff' })) + "\n" + Str(43, 'A') + "\n--- " + Str(43, 'A') + "\n"; what = "recipient line of " + std::to_string(n); m.payload = B(h); cat(m.payload, s.bytes(64)); break; }
    case 1: { Str h = "age-encryption.org/v1\n"; size_t n = 1 + s.below(2000); for (size_t i = 0; i < n; i++) h += s.pick<Str>({ "\n", "->\n", "-> X25519\n", "-> X25519 \n", "--\n", "AAAA\n" }); h += s.pick<Str>({ "---\n", "--- \n", "--- AAAA\n", "--- A A\n", "---A\n", "" }); what = "odd lines"; m.payload = B(h); cat(m.payload, s.bytes(s.below(64))); break; }
    case 2: m.payload = s.bytes(s.below(400)); what = "random bytes"; break;
    case 3: { Bytes p = s.bytes(s.below(12)); if (s.flip()) { p.clear(); be(p, s.pick<u64>({ 0, 1, 2, 3, 0xffffffff, 0x7fffffff }), 4); cat(p, s.bytes(s.below(40))); } m.payload = ageSeal(s, { k.pk }, p, false); what = "metadata " + hx(p); break; }
    case 4: { Bytes meta, p; be(meta, 3, 2); cat(meta, addr(sender(s))); be(meta, s.pick<u64>({ 1, 65535, 300 }), 2); be(p, meta.size(), 4); cat(p, meta); cat(p, s.bytes(20)); m.payload = ageSeal(s, { k.pk }, p, false); what = "missing recipients"; break; }
    default: { Bytes low(32); low[0] = (uint8_t)s.below(2); Str h = "age-encryption.org/v1\n-> X25519 " + b64(low) + "\n" + b64(s.bytes(32)) + "\n--- " + b64(s.bytes(32)) + "\n"; m.payload = B(h); cat(m.payload, s.bytes(64)); what = "low order point"; } }
    c.log << what; c.label(what.substr(0, 12)); Bytes raw = msgBytes(m); if (s.chance(1, 4)) { Msg x = m; be(raw, 1, 1); raw = msgBytes(x); size_t at = s.chance(1, 2) ? s.below(9) : 9 + s.below(8); if (at < raw.size()) raw[at] ^= (uint8_t)(1 + s.below(255)); }
    try { o = SlatepackMessage::Decrypt(raw, k.kp).m_payload; c.label("readable"); } catch (const std::exception&) { c.label("refused"); } if (what.compare(0, 8, "metadata")) REQUIRE_MSG(raw != msgBytes(m) || o.empty(), what << " accepted");
    // unknown modes are neither clear nor encrypted
    { Msg x; x.mode = (int)s.range(2, 255); x.payload = bytesOf(slate(s, 0)); bool ok = true; try { SlatepackMessage::Decrypt(msgBytes(x), k.kp); } catch (const std::exception&) { ok = false; } REQUIRE_MSG(!ok, "mode " << x.mode << " accepted"); }
}
void pbt::setup(Check& c) {
    c.id = "C31"; c.rule = "every case packs or opens a slatepack; damage that leaves the text as it was is not counted"; c.workerInit = env::workerDefault; c.quickCases = 5000; c.thoroughCases = 250000; c.quickCap = 25; c.parts = { { "pack", 3, pack }, { "foreign", 2, foreign }, { "armored", 2, armored }, { "sealed", 4, sealed }, { "hostile", 2, hostile } };
    c.assumptions = { "X25519 in the reference comes from libsodium, as in the code; hashing, MACs and ciphers from OpenSSL" };
}
