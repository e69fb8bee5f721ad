// Stand-in for secp256k1-zkp (absent in this sandbox). Same C API subset, real curve arithmetic
// on secp256k1 through OpenSSL; bulletproofs are a 675-byte stand-in (see ../secp_shim.cpp).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct secp256k1_context_struct { int dummy; } secp256k1_context;
typedef struct secp256k1_scratch_space_struct { size_t n; } secp256k1_scratch_space;
typedef struct { unsigned char data[64]; } secp256k1_pubkey;
typedef struct { unsigned char data[64]; } secp256k1_ecdsa_signature;
#define SECP256K1_CONTEXT_SIGN 1
#define SECP256K1_CONTEXT_VERIFY 2
#define SECP256K1_CONTEXT_NONE 0
#define SECP256K1_EC_COMPRESSED 258
#define SECP256K1_EC_UNCOMPRESSED 2
secp256k1_context* secp256k1_context_create(unsigned int flags);
void secp256k1_context_destroy(secp256k1_context* ctx);
int secp256k1_context_randomize(secp256k1_context* ctx, const unsigned char* seed32);
secp256k1_scratch_space* secp256k1_scratch_space_create(const secp256k1_context* ctx, size_t max_size);
void secp256k1_scratch_space_destroy(secp256k1_scratch_space* s);
int secp256k1_ec_seckey_verify(const secp256k1_context* ctx, const unsigned char* seckey);
int secp256k1_ec_pubkey_create(const secp256k1_context* ctx, secp256k1_pubkey* pubkey, const unsigned char* seckey);
int secp256k1_ec_pubkey_parse(const secp256k1_context* ctx, secp256k1_pubkey* pubkey, const unsigned char* input, size_t len);
int secp256k1_ec_pubkey_serialize(const secp256k1_context* ctx, unsigned char* out, size_t* outlen, const secp256k1_pubkey* pubkey, unsigned int flags);
int secp256k1_ec_pubkey_combine(const secp256k1_context* ctx, secp256k1_pubkey* out, const secp256k1_pubkey* const* ins, size_t n);
int secp256k1_ec_privkey_tweak_add(const secp256k1_context* ctx, unsigned char* seckey, const unsigned char* tweak);
int secp256k1_ecdsa_signature_parse_compact(const secp256k1_context* ctx, secp256k1_ecdsa_signature* sig, const unsigned char* input64);
int secp256k1_ecdsa_signature_serialize_compact(const secp256k1_context* ctx, unsigned char* out64, const secp256k1_ecdsa_signature* sig);
#ifdef __cplusplus
}
#endif
