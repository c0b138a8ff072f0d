// Stand-in for secp256k1-zkp (absent here).  Same C interface as far as
// GrinPlusPlus uses it, implemented in toysecp.cpp over the additive group of
// integers modulo the secp256k1 group order: homomorphic, exact, NOT secure.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct secp256k1_context_struct { int dummy; } secp256k1_context;
typedef struct secp256k1_scratch_space_struct { int dummy; } secp256k1_scratch_space;
typedef struct { unsigned char data[64]; } secp256k1_pubkey;
typedef struct { unsigned char data[64]; } secp256k1_pedersen_commitment;
typedef struct { unsigned char data[64]; } secp256k1_generator;
typedef struct { unsigned char data[64]; } secp256k1_ecdsa_signature;
typedef struct { unsigned char data[64]; } secp256k1_schnorrsig;
typedef struct secp256k1_bulletproof_generators { int dummy; } secp256k1_bulletproof_generators;
#define SECP256K1_CONTEXT_VERIFY 1
#define SECP256K1_CONTEXT_SIGN 2
#define SECP256K1_EC_COMPRESSED 258
extern const secp256k1_generator secp256k1_generator_const_g;
extern const secp256k1_generator secp256k1_generator_const_h;
secp256k1_context* secp256k1_context_create(unsigned int);
void secp256k1_context_destroy(secp256k1_context*);
int secp256k1_context_randomize(secp256k1_context*, const unsigned char*);
secp256k1_scratch_space* secp256k1_scratch_space_create(const secp256k1_context*, size_t);
void secp256k1_scratch_space_destroy(secp256k1_scratch_space*);
int secp256k1_ec_seckey_verify(const secp256k1_context*, const unsigned char*);
int secp256k1_ec_privkey_tweak_add(const secp256k1_context*, unsigned char*, const unsigned char*);
int secp256k1_ec_pubkey_create(const secp256k1_context*, secp256k1_pubkey*, const unsigned char*);
int secp256k1_ec_pubkey_parse(const secp256k1_context*, secp256k1_pubkey*, const unsigned char*, size_t);
int secp256k1_ec_pubkey_serialize(const secp256k1_context*, unsigned char*, size_t*, const secp256k1_pubkey*, unsigned int);
int secp256k1_ec_pubkey_combine(const secp256k1_context*, secp256k1_pubkey*, const secp256k1_pubkey* const*, size_t);
int secp256k1_ecdsa_signature_parse_compact(const secp256k1_context*, secp256k1_ecdsa_signature*, const unsigned char*);
int secp256k1_ecdsa_signature_serialize_compact(const secp256k1_context*, unsigned char*, const secp256k1_ecdsa_signature*);
int secp256k1_pedersen_commitment_parse(const secp256k1_context*, secp256k1_pedersen_commitment*, const unsigned char*);
int secp256k1_pedersen_commitment_serialize(const secp256k1_context*, unsigned char*, const secp256k1_pedersen_commitment*);
int secp256k1_pedersen_commit(const secp256k1_context*, secp256k1_pedersen_commitment*, const unsigned char*, uint64_t, const secp256k1_generator*, const secp256k1_generator*);
int secp256k1_pedersen_commit_sum(const secp256k1_context*, secp256k1_pedersen_commitment*, const secp256k1_pedersen_commitment* const*, size_t, const secp256k1_pedersen_commitment* const*, size_t);
int secp256k1_pedersen_blind_sum(const secp256k1_context*, unsigned char*, const unsigned char* const*, size_t, size_t);
int secp256k1_pedersen_commitment_to_pubkey(const secp256k1_context*, secp256k1_pubkey*, const secp256k1_pedersen_commitment*);
int secp256k1_pubkey_to_pedersen_commitment(const secp256k1_context*, secp256k1_pedersen_commitment*, const secp256k1_pubkey*);
int secp256k1_blind_switch(const secp256k1_context*, unsigned char*, const unsigned char*, uint64_t, const secp256k1_generator*, const secp256k1_generator*, const secp256k1_pubkey*);
int secp256k1_aggsig_export_secnonce_single(const secp256k1_context*, unsigned char*, const unsigned char*);
int secp256k1_aggsig_sign_single(const secp256k1_context*, unsigned char*, const unsigned char*, const unsigned char*, const unsigned char*, const unsigned char*, const secp256k1_pubkey*, const secp256k1_pubkey*, const secp256k1_pubkey*, const unsigned char*);
int secp256k1_aggsig_verify_single(const secp256k1_context*, const unsigned char*, const unsigned char*, const secp256k1_pubkey*, const secp256k1_pubkey*, const secp256k1_pubkey*, const secp256k1_pubkey*, int);
int secp256k1_aggsig_add_signatures_single(const secp256k1_context*, unsigned char*, const unsigned char**, size_t, const secp256k1_pubkey*);
int secp256k1_schnorrsig_parse(const secp256k1_context*, secp256k1_schnorrsig*, const unsigned char*);
int secp256k1_schnorrsig_verify_batch(const secp256k1_context*, secp256k1_scratch_space*, const secp256k1_schnorrsig* const*, const unsigned char* const*, const secp256k1_pubkey* const*, size_t);
secp256k1_bulletproof_generators* secp256k1_bulletproof_generators_create(const secp256k1_context*, const secp256k1_generator*, size_t);
void secp256k1_bulletproof_generators_destroy(const secp256k1_context*, secp256k1_bulletproof_generators*);
int secp256k1_bulletproof_rangeproof_prove(const secp256k1_context*, secp256k1_scratch_space*, const secp256k1_bulletproof_generators*, unsigned char* proof, size_t* plen, unsigned char* tau_x, secp256k1_pubkey* t_one, secp256k1_pubkey* t_two, const uint64_t* value, const uint64_t* min_value, const unsigned char* const* blind, const secp256k1_pedersen_commitment* const* commits, size_t n_commits, const secp256k1_generator* value_gen, size_t nbits, const unsigned char* nonce, const unsigned char* private_nonce, const unsigned char* extra, size_t extra_len, const unsigned char* message);
int secp256k1_bulletproof_rangeproof_verify_multi(const secp256k1_context*, secp256k1_scratch_space*, const secp256k1_bulletproof_generators*, const unsigned char* const* proof, size_t n_proofs, size_t plen, const uint64_t* const* min_value, const secp256k1_pedersen_commitment* const* commit, size_t n_commits, size_t nbits, const secp256k1_generator* value_gen, const unsigned char* const* extra, size_t* extra_len);
int secp256k1_bulletproof_rangeproof_rewind(const secp256k1_context*, uint64_t* value, unsigned char* blind, const unsigned char* proof, size_t plen, uint64_t min_value, const secp256k1_pedersen_commitment* commit, const secp256k1_generator* value_gen, const unsigned char* nonce, const unsigned char* extra, size_t extra_len, unsigned char* message);
#ifdef __cplusplus
}
#endif
