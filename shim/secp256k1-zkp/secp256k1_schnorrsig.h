#pragma once
#include "secp256k1.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { unsigned char data[64]; } secp256k1_schnorrsig;
int secp256k1_schnorrsig_parse(const secp256k1_context* ctx, secp256k1_schnorrsig* sig, const unsigned char* in64);
int secp256k1_schnorrsig_verify_batch(const secp256k1_context* ctx, secp256k1_scratch_space* scratch, const secp256k1_schnorrsig* const* sig, const unsigned char* const* msg32, const secp256k1_pubkey* const* pk, size_t n_sigs);
#ifdef __cplusplus
}
#endif
