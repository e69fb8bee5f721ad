// Stand-in for secp256k1-zkp: the subset of its C API that GrinPlusPlus calls.
//  * curve, Pedersen commitments, switch commitments, aggsig and schnorr: real secp256k1 arithmetic
//    following the mimblewimble fork's encodings (opaque pubkeys/signatures little-endian,
//    commitments 08/09 || x, raw aggsig = R.x || s).
//  * bulletproofs: a 675-byte stand-in. It binds commitment and proof bytes with SHA-256 so that any
//    change of either is rejected, and it can be rewound with the nonce it was made with. It is not
//    zero-knowledge and not sound against a forger who knows the format; checks that use it say so.
#include "secp256k1-zkp/secp256k1.h"
#include "secp256k1-zkp/secp256k1_aggsig.h"
#include "secp256k1-zkp/secp256k1_bulletproofs.h"
#include <set>
#include <string>
#include "secp256k1-zkp/secp256k1_commitment.h"
#include "secp256k1-zkp/secp256k1_schnorrsig.h"
#include <cstring>
#include <mutex>
#include <openssl/sha.h>
#include <vector>

typedef unsigned __int128 u128;
typedef uint64_t u64;

namespace {
struct N256 { u64 v[4]; };  // little-endian limbs

const N256 P = { { 0xFFFFFFFEFFFFFC2FULL, ~0ULL, ~0ULL, ~0ULL } };
const N256 Nn = { { 0xBFD25E8CD0364141ULL, 0xBAAEDCE6AF48A03BULL, 0xFFFFFFFFFFFFFFFEULL, ~0ULL } };
// 2^256 - n
const u64 NC[3] = { 0x402DA1732FC9BEBFULL, 0x4551231950B75FC4ULL, 1ULL };

int cmp(const N256& a, const N256& b) { for (int i = 3; i >= 0; i--) { if (a.v[i] < b.v[i]) return -1; if (a.v[i] > b.v[i]) return 1; } return 0; }
bool is0(const N256& a) { return !(a.v[0] | a.v[1] | a.v[2] | a.v[3]); }
u64 addc(N256& r, const N256& a, const N256& b) { u128 c = 0; for (int i = 0; i < 4; i++) { c += (u128)a.v[i] + b.v[i]; r.v[i] = (u64)c; c >>= 64; } return (u64)c; }
u64 subb(N256& r, const N256& a, const N256& b) { u128 c = 0; for (int i = 0; i < 4; i++) { u128 t = (u128)a.v[i] - b.v[i] - c; r.v[i] = (u64)t; c = (t >> 64) & 1; } return (u64)c; }
N256 fromBE(const unsigned char* p) { N256 r; for (int i = 0; i < 4; i++) { u64 x = 0; for (int j = 0; j < 8; j++) x = (x << 8) | p[(3 - i) * 8 + j]; r.v[i] = x; } return r; }
void toBE(const N256& a, unsigned char* p) { for (int i = 0; i < 4; i++) for (int j = 0; j < 8; j++) p[(3 - i) * 8 + j] = (unsigned char)(a.v[i] >> (56 - 8 * j)); }
N256 fromLE(const unsigned char* p) { unsigned char t[32]; for (int i = 0; i < 32; i++) t[i] = p[31 - i]; return fromBE(t); }
void toLE(const N256& a, unsigned char* p) { unsigned char t[32]; toBE(a, t); for (int i = 0; i < 32; i++) p[i] = t[31 - i]; }

void mul512(u64 o[8], const N256& a, const N256& b) {
    memset(o, 0, 64);
    for (int i = 0; i < 4; i++) {
        u128 c = 0;
        for (int j = 0; j < 4; j++) { c += (u128)a.v[i] * b.v[j] + o[i + j]; o[i + j] = (u64)c; c >>= 64; }
        o[i + 4] = (u64)c;
    }
}
// ---- field mod p
N256 fadd(const N256& a, const N256& b) { N256 r; u64 c = addc(r, a, b); if (c || cmp(r, P) >= 0) subb(r, r, P); return r; }
N256 fsub(const N256& a, const N256& b) { N256 r; if (subb(r, a, b)) addc(r, r, P); return r; }
N256 fmul(const N256& a, const N256& b) {
    u64 o[8]; mul512(o, a, b);
    const u64 K = 0x1000003D1ULL;
    N256 r; u128 c = 0;
    for (int i = 0; i < 4; i++) { c += (u128)o[i + 4] * K + o[i]; r.v[i] = (u64)c; c >>= 64; }
    u128 t = (u128)(u64)c * K;   // c < 2^34
    for (int i = 0; i < 4; i++) { t += r.v[i]; r.v[i] = (u64)t; t >>= 64; }
    if (t) { u128 q = K; for (int i = 0; i < 4; i++) { q += r.v[i]; r.v[i] = (u64)q; q >>= 64; } }
    if (cmp(r, P) >= 0) subb(r, r, P);
    return r;
}
N256 fsqr(const N256& a) { return fmul(a, a); }
N256 fpow(const N256& a, const N256& e) { N256 r = { { 1, 0, 0, 0 } }; for (int i = 255; i >= 0; i--) { r = fsqr(r); if ((e.v[i >> 6] >> (i & 63)) & 1) r = fmul(r, a); } return r; }
N256 finv(const N256& a) { N256 e = P; e.v[0] -= 2; return fpow(a, e); }
bool fsqrt(const N256& a, N256& r) { // p = 3 mod 4
    N256 e; N256 one = { { 1, 0, 0, 0 } }; addc(e, P, one); // p+1 does not overflow 2^256
    for (int k = 0; k < 2; k++) { for (int i = 0; i < 4; i++) { e.v[i] >>= 1; if (i < 3) e.v[i] |= e.v[i + 1] << 63; } }
    r = fpow(a, e);
    return cmp(fsqr(r), a) == 0;
}
bool fquad(const N256& a) { N256 t; return fsqrt(a, t); }
N256 fneg(const N256& a) { N256 z = { { 0, 0, 0, 0 } }; return fsub(z, a); }
// ---- scalars mod n
N256 sadd(const N256& a, const N256& b) { N256 r; u64 c = addc(r, a, b); if (c || cmp(r, Nn) >= 0) subb(r, r, Nn); return r; }
N256 sneg(const N256& a) { if (is0(a)) return a; N256 r; subb(r, Nn, a); return r; }
N256 smul(const N256& a, const N256& b) {
    u64 o[9]; mul512(o, a, b); o[8] = 0;
    for (;;) {
        bool hi = false; for (int i = 4; i < 9; i++) if (o[i]) hi = true;
        if (!hi) break;
        u64 h[5]; for (int i = 0; i < 5; i++) { h[i] = o[4 + i]; o[4 + i] = 0; }
        for (int i = 0; i < 5; i++) {
            u128 c = 0;
            for (int j = 0; j < 3 && i + j < 9; j++) { c += (u128)h[i] * NC[j] + o[i + j]; o[i + j] = (u64)c; c >>= 64; }
            for (int k = i + 3; c && k < 9; k++) { c += o[k]; o[k] = (u64)c; c >>= 64; }
        }
    }
    N256 r = { { o[0], o[1], o[2], o[3] } };
    while (cmp(r, Nn) >= 0) subb(r, r, Nn);
    return r;
}
N256 sreduce(N256 a) { while (cmp(a, Nn) >= 0) subb(a, a, Nn); return a; }
// ---- points
struct Aff { N256 x, y; bool inf; };
struct Jac { N256 x, y, z; bool inf; };
const N256 SEVEN = { { 7, 0, 0, 0 } };
Jac toJac(const Aff& a) { Jac j; j.x = a.x; j.y = a.y; j.z = { { 1, 0, 0, 0 } }; j.inf = a.inf; return j; }
Aff toAff(const Jac& j) { Aff a; a.inf = j.inf; if (j.inf) { memset(&a.x, 0, 64); return a; } N256 zi = finv(j.z), z2 = fsqr(zi); a.x = fmul(j.x, z2); a.y = fmul(j.y, fmul(z2, zi)); return a; }
Jac dbl(const Jac& p) {
    if (p.inf || is0(p.y)) { Jac r = p; r.inf = true; return r; }
    N256 A = fsqr(p.x), B = fsqr(p.y), C = fsqr(B);
    N256 D = fsub(fsub(fsqr(fadd(p.x, B)), A), C); D = fadd(D, D);
    N256 E = fadd(fadd(A, A), A), F = fsqr(E);
    Jac r; r.inf = false;
    r.x = fsub(F, fadd(D, D));
    N256 C8 = fadd(C, C); C8 = fadd(C8, C8); C8 = fadd(C8, C8);
    r.y = fsub(fmul(E, fsub(D, r.x)), C8);
    N256 yz = fmul(p.y, p.z); r.z = fadd(yz, yz);
    return r;
}
Jac add(const Jac& a, const Jac& b) {
    if (a.inf) return b; if (b.inf) return a;
    N256 z1 = fsqr(a.z), z2 = fsqr(b.z);
    N256 u1 = fmul(a.x, z2), u2 = fmul(b.x, z1);
    N256 s1 = fmul(a.y, fmul(z2, b.z)), s2 = fmul(b.y, fmul(z1, a.z));
    N256 H = fsub(u2, u1), R = fsub(s2, s1);
    if (is0(H)) { if (is0(R)) return dbl(a); Jac r = a; r.inf = true; return r; }
    N256 H2 = fsqr(H), H3 = fmul(H2, H), V = fmul(u1, H2);
    Jac r; r.inf = false;
    r.x = fsub(fsub(fsqr(R), H3), fadd(V, V));
    r.y = fsub(fmul(R, fsub(V, r.x)), fmul(s1, H3));
    r.z = fmul(fmul(a.z, b.z), H);
    return r;
}
Jac neg(Jac a) { a.y = fneg(a.y); return a; }
Jac jinf() { Jac j; memset(&j, 0, sizeof j); j.inf = true; return j; }
Jac mul(const Jac& p, const N256& k) {
    Jac t[16]; t[0] = jinf(); t[1] = p; for (int i = 2; i < 16; i++) t[i] = add(t[i - 1], p);
    Jac r = jinf();
    for (int i = 63; i >= 0; i--) { if (!r.inf) { r = dbl(dbl(dbl(dbl(r)))); } int d = (k.v[i >> 4] >> ((i & 15) * 4)) & 15; if (d) r = add(r, t[d]); }
    return r;
}
struct Table { Jac t[64][16]; void build(const Aff& a) { Jac b = toJac(a); for (int i = 0; i < 64; i++) { t[i][0] = jinf(); for (int j = 1; j < 16; j++) t[i][j] = toJac(toAff(add(t[i][j - 1], b))); b = add(t[i][15], b); b = toJac(toAff(b)); } }
    Jac mul(const N256& k) const { Jac r = jinf(); for (int i = 0; i < 64; i++) { int d = (k.v[i >> 4] >> ((i & 15) * 4)) & 15; if (d) r = add(r, t[i][d]); } return r; } };
bool liftX(const N256& x, Aff& a) { if (cmp(x, P) >= 0) return false; N256 y2 = fadd(fmul(fsqr(x), x), SEVEN); a.x = x; a.inf = false; return fsqrt(y2, a.y); }

const unsigned char GX[32] = { 0x79,0xBE,0x66,0x7E,0xF9,0xDC,0xBB,0xAC,0x55,0xA0,0x62,0x95,0xCE,0x87,0x0B,0x07,0x02,0x9B,0xFC,0xDB,0x2D,0xCE,0x28,0xD9,0x59,0xF2,0x81,0x5B,0x16,0xF8,0x17,0x98 };
const unsigned char GY[32] = { 0x48,0x3A,0xDA,0x77,0x26,0xA3,0xC4,0x65,0x5D,0xA4,0xFB,0xFC,0x0E,0x11,0x08,0xA8,0xFD,0x17,0xB4,0x48,0xA6,0x85,0x54,0x19,0x9C,0x47,0xD0,0x8F,0xFB,0x10,0xD4,0xB8 };
const unsigned char HX[32] = { 0x50,0x92,0x9b,0x74,0xc1,0xa0,0x49,0x54,0xb7,0x8b,0x4b,0x60,0x35,0xe9,0x7a,0x5e,0x07,0x8a,0x5a,0x0f,0x28,0xec,0x96,0xd5,0x47,0xbf,0xee,0x9a,0xce,0x80,0x3a,0xc0 };
const unsigned char HY[32] = { 0x31,0xd3,0xc6,0x86,0x39,0x73,0x92,0x6e,0x04,0x9e,0x63,0x7c,0xb1,0xb5,0xf4,0x0a,0x36,0xda,0xc2,0x8a,0xf1,0x76,0x69,0x68,0xc3,0x0c,0x23,0x13,0xf3,0xa3,0x89,0x04 };
struct Tables { Table g, h; Tables() { Aff a; a.inf = false; a.x = fromBE(GX); a.y = fromBE(GY); g.build(a); a.x = fromBE(HX); a.y = fromBE(HY); h.build(a); } };
const Tables& T() { static const Tables t; return t; }
Jac mulG(const N256& k) { return T().g.mul(k); }
Jac mulH(const N256& k) { return T().h.mul(k); }

// opaque points: x LE || y LE
void savePt(unsigned char* d, const Aff& a) { toLE(a.x, d); toLE(a.y, d + 32); }
Aff loadPt(const unsigned char* d) { Aff a; a.x = fromLE(d); a.y = fromLE(d + 32); a.inf = false; return a; }
void compress(const Aff& a, unsigned char* o) { o[0] = (a.y.v[0] & 1) ? 3 : 2; toBE(a.x, o + 1); }
void commit33(const Aff& a, unsigned char* o) { o[0] = (unsigned char)(9 ^ (fquad(a.y) ? 1 : 0)); toBE(a.x, o + 1); }
void sha(std::initializer_list<std::pair<const void*, size_t>> parts, unsigned char* out) { SHA256_CTX c; SHA256_Init(&c); for (auto& p : parts) SHA256_Update(&c, p.first, p.second); SHA256_Final(out, &c); }
N256 sighash(const N256& rx, const Aff* pk, const unsigned char* msg) {
    unsigned char x[32], p[33], h[32]; toBE(rx, x);
    if (pk) { compress(*pk, p); sha({ { x, 32 }, { p, 33 }, { msg, 32 } }, h); } else sha({ { x, 32 }, { msg, 32 } }, h);
    return sreduce(fromBE(h));
}
bool scalarOk(const unsigned char* b, N256& s) { s = fromBE(b); return cmp(s, Nn) < 0; }
}  // namespace

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
extern "C" {
const secp256k1_generator secp256k1_generator_const_g = { { 1 } };
const secp256k1_generator secp256k1_generator_const_h = { { 2 } };

secp256k1_context* secp256k1_context_create(unsigned int) { return new secp256k1_context(); }
void secp256k1_context_destroy(secp256k1_context* c) { delete c; }
int secp256k1_context_randomize(secp256k1_context*, const unsigned char*) { return 1; }
secp256k1_scratch_space* secp256k1_scratch_space_create(const secp256k1_context*, size_t n) { return new secp256k1_scratch_space{ n }; }
void secp256k1_scratch_space_destroy(secp256k1_scratch_space* s) { delete s; }

int secp256k1_ec_seckey_verify(const secp256k1_context*, const unsigned char* k) { N256 s; return scalarOk(k, s) && !is0(s); }
int secp256k1_ec_pubkey_create(const secp256k1_context*, secp256k1_pubkey* o, const unsigned char* k) {
    N256 s; memset(o, 0, sizeof *o); if (!scalarOk(k, s) || is0(s)) return 0; savePt(o->data, toAff(mulG(s))); return 1;
}
int secp256k1_ec_pubkey_parse(const secp256k1_context*, secp256k1_pubkey* o, const unsigned char* in, size_t len) {
    memset(o, 0, sizeof *o);
    Aff a;
    if (len == 33 && (in[0] == 2 || in[0] == 3)) {
        if (!liftX(fromBE(in + 1), a)) return 0;
        if ((a.y.v[0] & 1) != (u64)(in[0] & 1)) a.y = fneg(a.y);
    } else if (len == 65 && in[0] == 4) {
        a.x = fromBE(in + 1); a.y = fromBE(in + 33); a.inf = false;
        if (cmp(a.x, P) >= 0 || cmp(a.y, P) >= 0) return 0;
        if (cmp(fsqr(a.y), fadd(fmul(fsqr(a.x), a.x), SEVEN)) != 0) return 0;
    } else return 0;
    savePt(o->data, a);
    return 1;
}
int secp256k1_ec_pubkey_serialize(const secp256k1_context*, unsigned char* out, size_t* len, const secp256k1_pubkey* k, unsigned int flags) {
    Aff a = loadPt(k->data);
    if (flags == SECP256K1_EC_COMPRESSED) { if (*len < 33) return 0; compress(a, out); *len = 33; return 1; }
    if (*len < 65) return 0;
    out[0] = 4; toBE(a.x, out + 1); toBE(a.y, out + 33); *len = 65; return 1;
}
int secp256k1_ec_pubkey_combine(const secp256k1_context*, secp256k1_pubkey* o, const secp256k1_pubkey* const* ins, size_t n) {
    Jac j = jinf(); for (size_t i = 0; i < n; i++) j = add(j, toJac(loadPt(ins[i]->data)));
    memset(o, 0, sizeof *o); if (j.inf) return 0; savePt(o->data, toAff(j)); return 1;
}
int secp256k1_ec_privkey_tweak_add(const secp256k1_context*, unsigned char* k, const unsigned char* t) {
    N256 s = sreduce(fromBE(k)), w; if (!scalarOk(t, w)) return 0; N256 r = sadd(s, w); if (is0(r)) { memset(k, 0, 32); return 0; } toBE(r, k); return 1;
}
int secp256k1_ecdsa_signature_parse_compact(const secp256k1_context*, secp256k1_ecdsa_signature* o, const unsigned char* in) {
    N256 r, s; if (!scalarOk(in, r) || !scalarOk(in + 32, s)) { memset(o, 0, sizeof *o); return 0; } toLE(r, o->data); toLE(s, o->data + 32); return 1;
}
int secp256k1_ecdsa_signature_serialize_compact(const secp256k1_context*, unsigned char* o, const secp256k1_ecdsa_signature* s) { toBE(fromLE(s->data), o); toBE(fromLE(s->data + 32), o + 32); return 1; }

int secp256k1_pedersen_commitment_parse(const secp256k1_context*, secp256k1_pedersen_commitment* o, const unsigned char* in) {
    Aff a; if ((in[0] & 0xFE) != 8 || !liftX(fromBE(in + 1), a)) return 0;
    // liftX returns the quadratic-residue root (p = 3 mod 4)
    if (in[0] & 1) a.y = fneg(a.y);
    savePt(o->data, a); return 1;
}
int secp256k1_pedersen_commitment_serialize(const secp256k1_context*, unsigned char* o, const secp256k1_pedersen_commitment* c) { commit33(loadPt(c->data), o); return 1; }
int secp256k1_pedersen_commit(const secp256k1_context*, secp256k1_pedersen_commitment* o, const unsigned char* blind, uint64_t value, const secp256k1_generator*, const secp256k1_generator*) {
    N256 b; if (!scalarOk(blind, b)) return 0;
    N256 v = { { value, 0, 0, 0 } };
    Jac j = add(mulG(b), mulH(v)); if (j.inf) return 0; savePt(o->data, toAff(j)); return 1;
}
int secp256k1_pedersen_commit_sum(const secp256k1_context*, secp256k1_pedersen_commitment* o, const secp256k1_pedersen_commitment* const* pos, size_t np, const secp256k1_pedersen_commitment* const* ng, size_t nn) {
    Jac j = jinf(); for (size_t i = 0; i < np; i++) j = add(j, toJac(loadPt(pos[i]->data))); for (size_t i = 0; i < nn; i++) j = add(j, neg(toJac(loadPt(ng[i]->data))));
    if (j.inf) return 0; savePt(o->data, toAff(j)); return 1;
}
int secp256k1_pedersen_blind_sum(const secp256k1_context*, unsigned char* out, const unsigned char* const* b, size_t n, size_t npos) {
    N256 acc = { { 0, 0, 0, 0 } }; for (size_t i = 0; i < n; i++) { N256 s; if (!scalarOk(b[i], s)) return 0; acc = sadd(acc, i < npos ? s : sneg(s)); } toBE(acc, out); return 1;
}
int secp256k1_blind_switch(const secp256k1_context*, unsigned char* out, const unsigned char* blind, uint64_t value, const secp256k1_generator*, const secp256k1_generator*, const secp256k1_pubkey* J) {
    N256 b; if (!scalarOk(blind, b)) return 0;
    N256 v = { { value, 0, 0, 0 } }; Jac c = add(mulG(b), mulH(v)); if (c.inf) return 0;
    unsigned char c33[33], j33[33], h[32]; commit33(toAff(c), c33);
    Jac jb = mul(toJac(loadPt(J->data)), b); if (jb.inf) return 0; compress(toAff(jb), j33);
    sha({ { c33, 33 }, { j33, 33 } }, h); N256 t; if (!scalarOk(h, t)) return 0; toBE(sadd(b, t), out); return 1;
}
int secp256k1_pedersen_commitment_to_pubkey(const secp256k1_context*, secp256k1_pubkey* p, const secp256k1_pedersen_commitment* c) { memcpy(p->data, c->data, 64); return 1; }
int secp256k1_pubkey_to_pedersen_commitment(const secp256k1_context*, secp256k1_pedersen_commitment* c, const secp256k1_pubkey* p) { memcpy(c->data, p->data, 64); return 1; }

int secp256k1_aggsig_export_secnonce_single(const secp256k1_context*, unsigned char* out, const unsigned char* seed) {
    unsigned char h[32]; sha({ { "aggsig-nonce", 12 }, { seed, 32 } }, h); N256 k = sreduce(fromBE(h)); if (is0(k)) return 0;
    if (!fquad(toAff(mulG(k)).y)) k = sneg(k); toBE(k, out); return 1;
}
int secp256k1_aggsig_sign_single(const secp256k1_context*, unsigned char* sig, const unsigned char* msg, const unsigned char* sk, const unsigned char* nonce, const unsigned char*, const secp256k1_pubkey* pn_e, const secp256k1_pubkey* pn_total, const secp256k1_pubkey* pk_e, const unsigned char* seed) {
    N256 x, k; if (!scalarOk(sk, x) || is0(x)) return 0;
    if (nonce) { if (!scalarOk(nonce, k) || is0(k)) return 0; }
    else { unsigned char h[32]; sha({ { "aggsig-sign", 11 }, { seed, 32 }, { msg, 32 }, { sk, 32 } }, h); k = sreduce(fromBE(h)); if (is0(k)) return 0; }
    Aff R = toAff(mulG(k));
    if (pn_total) { if (!fquad(loadPt(pn_total->data).y)) k = sneg(k); }
    else if (!fquad(R.y)) k = sneg(k);
    N256 rx = pn_e ? loadPt(pn_e->data).x : R.x;
    Aff pk; if (pk_e) pk = loadPt(pk_e->data);
    N256 e = sighash(rx, pk_e ? &pk : nullptr, msg);
    toBE(R.x, sig); toBE(sadd(k, smul(e, x)), sig + 32);
    return 1;
}
int secp256k1_aggsig_verify_single(const secp256k1_context*, const unsigned char* sig, const unsigned char* msg, const secp256k1_pubkey* pubnonce, const secp256k1_pubkey* pubkey, const secp256k1_pubkey* pk_total, const secp256k1_pubkey*, int is_partial) {
    N256 s, rx = fromBE(sig); if (!scalarOk(sig + 32, s) || cmp(rx, P) >= 0) return 0;
    Aff pkt; if (pk_total) pkt = loadPt(pk_total->data);
    N256 e = sighash(pubnonce ? loadPt(pubnonce->data).x : rx, pk_total ? &pkt : nullptr, msg);
    Jac r = add(mulG(s), neg(mul(toJac(loadPt(pubkey->data)), e))); if (r.inf) return 0;
    Aff ra = toAff(r); if (cmp(ra.x, rx) != 0) return 0;
    return is_partial ? 1 : (fquad(ra.y) ? 1 : 0);
}
int secp256k1_aggsig_add_signatures_single(const secp256k1_context*, unsigned char* sig, const unsigned char** sigs, size_t n, const secp256k1_pubkey* total) {
    N256 acc = { { 0, 0, 0, 0 } }; for (size_t i = 0; i < n; i++) { N256 s; if (!scalarOk(sigs[i] + 32, s)) return 0; acc = sadd(acc, s); }
    toBE(loadPt(total->data).x, sig); toBE(acc, sig + 32); return 1;
}
int secp256k1_schnorrsig_parse(const secp256k1_context*, secp256k1_schnorrsig* s, const unsigned char* in) { memcpy(s->data, in, 64); return 1; }
int secp256k1_schnorrsig_verify_batch(const secp256k1_context* c, secp256k1_scratch_space*, const secp256k1_schnorrsig* const* sig, const unsigned char* const* msg, const secp256k1_pubkey* const* pk, size_t n) {
    for (size_t i = 0; i < n; i++) if (!secp256k1_aggsig_verify_single(c, sig[i]->data, msg[i], nullptr, pk[i], pk[i], nullptr, 0)) return 0;
    return 1;
}

// ---- bulletproof stand-in: [0,8) value^pad [8,28) message^pad [28,44) rewind tag [44,76) salt
//      [76,108) blinding factor^pad of the private nonce [108,643) filler derived from salt   [643,675) SHA256("bp" || commitment || proof[0,643))
secp256k1_bulletproof_generators* secp256k1_bulletproof_generators_create(const secp256k1_context*, const secp256k1_generator*, size_t n) { return new secp256k1_bulletproof_generators{ n }; }
void secp256k1_bulletproof_generators_destroy(const secp256k1_context*, secp256k1_bulletproof_generators* g) { delete g; }
static const size_t BPLEN = 675;
static void bpbind(const unsigned char* c33, const unsigned char* proof, unsigned char* out) { sha({ { "bp", 2 }, { c33, 33 }, { proof, BPLEN - 32 } }, out); }
static void bppad(const unsigned char* nonce, const unsigned char* salt, unsigned char* pad) { sha({ { "pad", 3 }, { nonce, 32 }, { salt, 32 } }, pad); }
int secp256k1_bulletproof_rangeproof_prove(const secp256k1_context* ctx, secp256k1_scratch_space*, const secp256k1_bulletproof_generators*, unsigned char* proof, size_t* plen, unsigned char*, secp256k1_pubkey*, secp256k1_pubkey*, const uint64_t* value, const uint64_t*, const unsigned char* const* blind, const secp256k1_pedersen_commitment* const*, size_t, const secp256k1_generator*, size_t, const unsigned char* nonce, const unsigned char* private_nonce, const unsigned char*, size_t, const unsigned char* message) {
    if (*plen < BPLEN) return 0;
    secp256k1_pedersen_commitment c; unsigned char c33[33], pad[32], tag[32];
    if (!secp256k1_pedersen_commit(ctx, &c, blind[0], *value, nullptr, nullptr)) return 0;
    commit33(loadPt(c.data), c33);
    unsigned char* salt = proof + 44;
    sha({ { "salt", 4 }, { private_nonce ? private_nonce : nonce, 32 }, { c33, 33 } }, salt);
    bppad(nonce, salt, pad);
    for (int i = 0; i < 8; i++) proof[i] = (unsigned char)(*value >> (56 - 8 * i)) ^ pad[i];
    for (int i = 0; i < 20; i++) proof[8 + i] = (message ? message[i] : 0) ^ pad[8 + i];
    sha({ { "tag", 3 }, { nonce, 32 }, { c33, 33 }, { proof, 28 } }, tag); memcpy(proof + 28, tag, 16);
    unsigned char f[32]; memcpy(f, salt, 32);
    for (size_t o = 76; o < BPLEN - 32; o += 32) { sha({ { f, 32 } }, f); size_t m = BPLEN - 32 - o; memcpy(proof + o, f, m < 32 ? m : 32); }
    unsigned char bp[32]; sha({ { "bpad", 4 }, { private_nonce ? private_nonce : nonce, 32 }, { salt, 32 } }, bp); for (int i = 0; i < 32; i++) proof[76 + i] = blind[0][i] ^ bp[i];
    bpbind(c33, proof, proof + BPLEN - 32);
    *plen = BPLEN; return 1;
}
// real proofs that a harness knows to be valid (those of the genesis blocks); set before any thread is started
static std::set<std::string> bpknown;
extern "C" void secp_shim_accept(const unsigned char* c33, const unsigned char* proof) { bpknown.insert(std::string((const char*)c33, 33) + std::string((const char*)proof, BPLEN)); }
int secp256k1_bulletproof_rangeproof_verify_multi(const secp256k1_context*, secp256k1_scratch_space*, const secp256k1_bulletproof_generators*, const unsigned char* const* proof, size_t n, size_t plen, const uint64_t* const*, const secp256k1_pedersen_commitment* const* commit, size_t, size_t, const secp256k1_generator*, const unsigned char* const*, size_t*) {
    if (plen != BPLEN) return 0;
    for (size_t i = 0; i < n; i++) {
        unsigned char c33[33], h[32], copy[BPLEN]; volatile const unsigned char* vp = proof[i];
        for (size_t k = 0; k < BPLEN; k++) copy[k] = vp[k];
        commit33(loadPt(commit[i]->data), c33); bpbind(c33, copy, h); if (memcmp(h, copy + BPLEN - 32, 32) != 0 && (bpknown.empty() || !bpknown.count(std::string((const char*)c33, 33) + std::string((const char*)copy, BPLEN)))) return 0;
    }
    return 1;
}
int secp256k1_bulletproof_rangeproof_rewind(const secp256k1_context*, uint64_t* value, unsigned char* blind, const unsigned char* proof, size_t plen, uint64_t, const secp256k1_pedersen_commitment* commit, const secp256k1_generator*, const unsigned char* nonce, const unsigned char*, size_t, unsigned char* message) {
    if (plen != BPLEN) return 0;
    unsigned char c33[33], pad[32], tag[32]; commit33(loadPt(commit->data), c33);
    sha({ { "tag", 3 }, { nonce, 32 }, { c33, 33 }, { proof, 28 } }, tag); if (memcmp(tag, proof + 28, 16) != 0) return 0;
    bppad(nonce, proof + 44, pad);
    u64 v = 0; for (int i = 0; i < 8; i++) v = (v << 8) | (unsigned char)(proof[i] ^ pad[i]); *value = v;
    for (int i = 0; i < 20; i++) message[i] = proof[8 + i] ^ pad[8 + i];
    // with separate rewind and private nonces this is, as in the real library, not the real blinding factor
    unsigned char bp[32]; sha({ { "bpad", 4 }, { nonce, 32 }, { proof + 44, 32 } }, bp); for (int i = 0; i < 32; i++) blind[i] = proof[76 + i] ^ bp[i];
    return 1;
}
}
