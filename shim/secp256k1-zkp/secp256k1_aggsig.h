#pragma once
#include "secp256k1.h"
#ifdef __cplusplus
extern "C" {
#endif
int secp256k1_aggsig_export_secnonce_single(const secp256k1_context* ctx, unsigned char* secnonce32, const unsigned char* seed);
int secp256k1_aggsig_sign_single(const secp256k1_context* ctx, unsigned char* sig64, const unsigned char* msg32, const unsigned char* seckey32, const unsigned char* secnonce32, const unsigned char* extra32, const secp256k1_pubkey* pubnonce_for_e, const secp256k1_pubkey* pubnonce_total, const secp256k1_pubkey* pubkey_for_e, const unsigned char* seed);
int secp256k1_aggsig_verify_single(const secp256k1_context* ctx, const unsigned char* sig64, const unsigned char* msg32, const secp256k1_pubkey* pubnonce, const secp256k1_pubkey* pubkey, const secp256k1_pubkey* pubkey_total, const secp256k1_pubkey* extra_pubkey, int is_partial);
int secp256k1_aggsig_add_signatures_single(const secp256k1_context* ctx, unsigned char* sig64, const unsigned char** sigs, size_t num_sigs, const secp256k1_pubkey* pubnonce_total);
#ifdef __cplusplus
}
#endif
