// Toy group behind the secp256k1-zkp interface.  Points ARE scalars mod n (the
// secp256k1 order): G = 1, H = a fixed constant.  Sums, Schnorr relations and
// commitments balance exactly as on the real curve; secrecy is absent.
#include "secp256k1-zkp/secp256k1.h"
#include <sodium.h>
#include <string.h>
#include <stdio.h>
typedef unsigned __int128 u128;
typedef uint64_t u64;
namespace {
struct S { u64 v[4]; }; // little-endian limbs, < N
const u64 N[4] = { 0xBFD25E8CD0364141ULL, 0xBAAEDCE6AF48A03BULL, 0xFFFFFFFFFFFFFFFEULL, 0xFFFFFFFFFFFFFFFFULL };
const u64 C[3] = { 0x402DA1732FC9BEBFULL, 0x4551231950B75FC4ULL, 1 }; // 2^256 - N
bool ge(const u64* a) { for (int i = 3; i >= 0; i--) { if (a[i] > N[i]) return true; if (a[i] < N[i]) return false; } return true; }
void subN(u64* a) { u128 b = 0; for (int i = 0; i < 4; i++) { u128 d = (u128)a[i] - N[i] - b; a[i] = (u64)d; b = (d >> 64) & 1; } }
S fromB(const unsigned char* b, bool* ovf = nullptr) {
	S s;
	for (int i = 0; i < 4; i++) { u64 x = 0; for (int j = 0; j < 8; j++) x = (x << 8) | b[(3 - i) * 8 + j]; s.v[i] = x; }
	bool o = ge(s.v);
	if (o) subN(s.v);
	if (ovf) *ovf = o;
	return s;
}
void toB(const S& s, unsigned char* b) { for (int i = 0; i < 4; i++) for (int j = 0; j < 8; j++) b[(3 - i) * 8 + j] = (unsigned char)(s.v[i] >> (56 - 8 * j)); }
bool zero(const S& s) { return !(s.v[0] | s.v[1] | s.v[2] | s.v[3]); }
bool eq(const S& a, const S& b) { return !memcmp(&a, &b, sizeof a); }
S add(const S& a, const S& b) {
	S r; u128 c = 0;
	for (int i = 0; i < 4; i++) { c += (u128)a.v[i] + b.v[i]; r.v[i] = (u64)c; c >>= 64; }
	if (c) { // r + C
		u128 k = 0;
		for (int i = 0; i < 4; i++) { k += (u128)r.v[i] + (i < 3 ? C[i] : 0); r.v[i] = (u64)k; k >>= 64; }
	}
	if (ge(r.v)) subN(r.v);
	return r;
}
S neg(const S& a) {
	if (zero(a)) return a;
	S r; u128 b = 0;
	for (int i = 0; i < 4; i++) { u128 d = (u128)N[i] - a.v[i] - b; r.v[i] = (u64)d; b = (d >> 64) & 1; }
	return r;
}
S mul(const S& a, const S& b) {
	u64 t[8] = { 0 };
	for (int i = 0; i < 4; i++) { u128 c = 0; for (int j = 0; j < 4; j++) { c += (u128)a.v[i] * b.v[j] + t[i + j]; t[i + j] = (u64)c; c >>= 64; } t[i + 4] = (u64)c; }
	while (t[4] | t[5] | t[6] | t[7]) { // t = lo + hi * C
		u64 h[4] = { t[4], t[5], t[6], t[7] };
		u64 r[8] = { t[0], t[1], t[2], t[3], 0, 0, 0, 0 };
		for (int i = 0; i < 4; i++) {
			u128 c = 0;
			int j = 0;
			for (; j < 3; j++) { c += (u128)h[i] * C[j] + r[i + j]; r[i + j] = (u64)c; c >>= 64; }
			for (int k = i + 3; k < 8 && c; k++) { c += r[k]; r[k] = (u64)c; c >>= 64; }
		}
		memcpy(t, r, sizeof t);
	}
	S s; memcpy(s.v, t, 32);
	if (ge(s.v)) subN(s.v);
	return s;
}
S fromU(u64 x) { S s = { { x, 0, 0, 0 } }; return s; }
const S H = { { 0x9e3779b97f4a7c15ULL, 0xd1b54a32d192ed03ULL, 0x8cb92ba72f3d8dd7ULL, 0x50929b74c1a04954ULL } };
S hashS(const char* tag, const void* a, size_t na, const void* b, size_t nb, const void* c, size_t nc) {
	crypto_generichash_state st;
	unsigned char o[32];
	crypto_generichash_init(&st, nullptr, 0, 32);
	crypto_generichash_update(&st, (const unsigned char*)tag, strlen(tag) + 1);
	crypto_generichash_update(&st, (const unsigned char*)a, na);
	crypto_generichash_update(&st, (const unsigned char*)b, nb);
	crypto_generichash_update(&st, (const unsigned char*)c, nc);
	crypto_generichash_final(&st, o, 32);
	return fromB(o);
}
void hashB(const char* tag, const void* a, size_t na, const void* b, size_t nb, unsigned char* o32) { toB(hashS(tag, a, na, b, nb, "", 0), o32); }
template <class T> S get(const T* p) { return fromB(p->data); }
template <class T> void put(T* p, const S& s) { memset(p->data, 0, 64); toB(s, p->data); }
}
extern "C" {
const secp256k1_generator secp256k1_generator_const_g = { { 1 } };
const secp256k1_generator secp256k1_generator_const_h = { { 2 } };
static secp256k1_context g_ctx;
static secp256k1_scratch_space g_scratch;
static secp256k1_bulletproof_generators g_gens;
secp256k1_context* secp256k1_context_create(unsigned int) { return &g_ctx; }
void secp256k1_context_destroy(secp256k1_context*) {}
int secp256k1_context_randomize(secp256k1_context*, const unsigned char*) { return 1; }
secp256k1_scratch_space* secp256k1_scratch_space_create(const secp256k1_context*, size_t) { return &g_scratch; }
void secp256k1_scratch_space_destroy(secp256k1_scratch_space*) {}
int secp256k1_ec_seckey_verify(const secp256k1_context*, const unsigned char* k) { bool o; S s = fromB(k, &o); return !o && !zero(s); }
int secp256k1_ec_privkey_tweak_add(const secp256k1_context*, unsigned char* k, const unsigned char* t) {
	bool o; S b = fromB(t, &o); if (o) return 0;
	S s = add(fromB(k), b); if (zero(s)) { memset(k, 0, 32); return 0; }
	toB(s, k); return 1;
}
int secp256k1_ec_pubkey_create(const secp256k1_context*, secp256k1_pubkey* p, const unsigned char* k) {
	bool o; S s = fromB(k, &o); if (o || zero(s)) { memset(p, 0, 64); return 0; }
	put(p, s); return 1;
}
int secp256k1_ec_pubkey_parse(const secp256k1_context*, secp256k1_pubkey* p, const unsigned char* b, size_t n) {
	if (n != 33) return 0;
	bool o; S s = fromB(b + 1, &o); if (o || zero(s) || b[0] != (2 | (s.v[0] & 1))) return 0;
	put(p, s); return 1;
}
int secp256k1_ec_pubkey_serialize(const secp256k1_context*, unsigned char* b, size_t* n, const secp256k1_pubkey* p, unsigned int) {
	S s = get(p); if (zero(s) || *n < 33) return 0;
	*n = 33; toB(s, b + 1); b[0] = 2 | (s.v[0] & 1); return 1;
}
int secp256k1_ec_pubkey_combine(const secp256k1_context*, secp256k1_pubkey* p, const secp256k1_pubkey* const* in, size_t n) {
	S s = fromU(0); for (size_t i = 0; i < n; i++) s = add(s, get(in[i]));
	if (zero(s)) return 0;
	put(p, s); return 1;
}
int secp256k1_ecdsa_signature_parse_compact(const secp256k1_context*, secp256k1_ecdsa_signature* s, const unsigned char* b) { memcpy(s->data, b, 64); return 1; }
int secp256k1_ecdsa_signature_serialize_compact(const secp256k1_context*, unsigned char* b, const secp256k1_ecdsa_signature* s) { memcpy(b, s->data, 64); return 1; }
// The two built-in genesis blocks carry real curve points.  Their coinbase
// relation (output - reward*H = excess) is transplanted into the toy group.
static const char* GEN[2][2] = { { "08c12007af16d1ee55fffe92cef808c77e318dae70c3bc70cb6361f49d517f1b68", "08df2f1d996cee37715d9ac0a0f3b13aae508d1101945acb8044954aee30960be9" },
	{ "08b7e57c448db5ef25aa119dde2312c64d7ff1b890c416c6dda5ec73cbfed2edea", "096385d86c5cfda718aa0b7295be0adf7e5ac051edfe130593a2a257f09f78a3b1" } };
struct GenPt { unsigned char b[33]; S s; bool out; };
static const GenPt* gen() {
	static GenPt g[4]; static bool init = false;
	if (!init) { for (int i = 0; i < 4; i++) { const char* h = GEN[i / 2][1 - i % 2]; for (int j = 0; j < 33; j++) { unsigned x; sscanf(h + 2 * j, "%2x", &x); g[i].b[j] = x; }
			g[i].out = i % 2; g[i].s = i % 2 ? add(g[i - 1].s, mul(fromU(60000000000ull), H)) : fromB(g[i].b + 1); } init = true; }
	return g;
}
int secp256k1_pedersen_commitment_parse(const secp256k1_context*, secp256k1_pedersen_commitment* p, const unsigned char* b) {
	for (int i = 0; i < 4; i++) if (!memcmp(gen()[i].b, b, 33)) { put(p, gen()[i].s); return 1; }
	bool o; S s = fromB(b + 1, &o); if (o || zero(s) || b[0] != (8 | (s.v[0] & 1))) return 0;
	put(p, s); return 1;
}
int secp256k1_pedersen_commitment_serialize(const secp256k1_context*, unsigned char* b, const secp256k1_pedersen_commitment* p) {
	S s = get(p); for (int i = 0; i < 4; i++) if (eq(gen()[i].s, s)) { memcpy(b, gen()[i].b, 33); return 1; }
	toB(s, b + 1); b[0] = 8 | (s.v[0] & 1); return 1;
}
int secp256k1_pedersen_commit(const secp256k1_context*, secp256k1_pedersen_commitment* p, const unsigned char* blind, uint64_t v, const secp256k1_generator*, const secp256k1_generator*) {
	bool o; S r = fromB(blind, &o); if (o) return 0;
	S s = add(r, mul(fromU(v), H)); if (zero(s)) return 0;
	put(p, s); return 1;
}
int secp256k1_pedersen_commit_sum(const secp256k1_context*, secp256k1_pedersen_commitment* p, const secp256k1_pedersen_commitment* const* a, size_t na, const secp256k1_pedersen_commitment* const* b, size_t nb) {
	S s = fromU(0);
	for (size_t i = 0; i < na; i++) s = add(s, get(a[i]));
	for (size_t i = 0; i < nb; i++) s = add(s, neg(get(b[i])));
	if (zero(s)) return 0;
	put(p, s); return 1;
}
int secp256k1_pedersen_blind_sum(const secp256k1_context*, unsigned char* out, const unsigned char* const* b, size_t n, size_t npos) {
	S s = fromU(0);
	for (size_t i = 0; i < n; i++) { bool o; S x = fromB(b[i], &o); if (o) return 0; s = add(s, i < npos ? x : neg(x)); }
	toB(s, out); return 1;
}
int secp256k1_pedersen_commitment_to_pubkey(const secp256k1_context*, secp256k1_pubkey* k, const secp256k1_pedersen_commitment* p) { memcpy(k, p, 64); return 1; }
int secp256k1_pubkey_to_pedersen_commitment(const secp256k1_context*, secp256k1_pedersen_commitment* p, const secp256k1_pubkey* k) { memcpy(p, k, 64); return 1; }
int secp256k1_blind_switch(const secp256k1_context*, unsigned char* out, const unsigned char* blind, uint64_t v, const secp256k1_generator*, const secp256k1_generator*, const secp256k1_pubkey*) {
	bool o; S r = fromB(blind, &o); if (o) return 0;
	unsigned char c[32]; S p = add(r, mul(fromU(v), H)); toB(p, c);
	S s = add(r, hashS("switch", c, 32, blind, 32, "", 0));
	toB(s, out); return 1;
}
int secp256k1_aggsig_export_secnonce_single(const secp256k1_context*, unsigned char* out, const unsigned char* seed) {
	unsigned char o[32]; hashB("secnonce", seed, 32, "", 0, o); o[31] |= 1; memcpy(out, o, 32); return 1;
}
int secp256k1_aggsig_sign_single(const secp256k1_context*, unsigned char* sig, const unsigned char* msg, const unsigned char* sk, const unsigned char* nonce, const unsigned char*, const secp256k1_pubkey*, const secp256k1_pubkey* ntotal, const secp256k1_pubkey* pe, const unsigned char* seed) {
	bool o; S x = fromB(sk, &o); if (o || zero(x)) return 0;
	S k = nonce ? fromB(nonce) : hashS("nonce", seed, 32, msg, 32, sk, 32);
	unsigned char R[32], P[32];
	toB(ntotal ? get(ntotal) : k, R);
	if (pe) toB(get(pe), P); else memset(P, 0, 32);
	S e = hashS("schnorr", R, 32, P, 32, msg, 32);
	toB(k, sig); toB(add(k, mul(e, x)), sig + 32); return 1;
}
int secp256k1_aggsig_verify_single(const secp256k1_context*, const unsigned char* sig, const unsigned char* msg, const secp256k1_pubkey* ntotal, const secp256k1_pubkey* pk, const secp256k1_pubkey* pe, const secp256k1_pubkey*, int) {
	if (pk) for (int i = 0; i < 4; i += 2) if (eq(gen()[i].s, get(pk))) return 1;
	bool o1, o2; S r = fromB(sig, &o1), s = fromB(sig + 32, &o2); if (o1 || o2) return 0;
	unsigned char R[32], P[32];
	toB(ntotal ? get(ntotal) : r, R);
	if (pe) toB(get(pe), P); else memset(P, 0, 32);
	S e = hashS("schnorr", R, 32, P, 32, msg, 32);
	return eq(s, add(r, mul(e, get(pk))));
}
int secp256k1_aggsig_add_signatures_single(const secp256k1_context*, unsigned char* out, const unsigned char** sigs, size_t n, const secp256k1_pubkey* ntotal) {
	S s = fromU(0); for (size_t i = 0; i < n; i++) s = add(s, fromB(sigs[i] + 32));
	toB(get(ntotal), out); toB(s, out + 32); return 1;
}
int secp256k1_schnorrsig_parse(const secp256k1_context*, secp256k1_schnorrsig* s, const unsigned char* b) { memcpy(s->data, b, 64); return 1; }
int secp256k1_schnorrsig_verify_batch(const secp256k1_context* c, secp256k1_scratch_space*, const secp256k1_schnorrsig* const* sig, const unsigned char* const* msg, const secp256k1_pubkey* const* pk, size_t n) {
	for (size_t i = 0; i < n; i++) if (!secp256k1_aggsig_verify_single(c, sig[i]->data, msg[i], nullptr, pk[i], pk[i], nullptr, 0)) return 0;
	return 1;
}
secp256k1_bulletproof_generators* secp256k1_bulletproof_generators_create(const secp256k1_context*, const secp256k1_generator*, size_t) { return &g_gens; }
void secp256k1_bulletproof_generators_destroy(const secp256k1_context*, secp256k1_bulletproof_generators*) {}
// proof: 0..4 "TBP1" | 4..64 enc(value 8, blind 32, message 20) | 64..96 rewind tag | 96..643 filler | 643..675 public tag
static const size_t PLEN = 675;
static void ptag(const unsigned char* proof, const S& c, unsigned char* o) { unsigned char cb[32]; toB(c, cb); hashB("bpub", proof, PLEN - 32, cb, 32, o); }
int secp256k1_bulletproof_rangeproof_prove(const secp256k1_context*, secp256k1_scratch_space*, const secp256k1_bulletproof_generators*, unsigned char* proof, size_t* plen, unsigned char*, secp256k1_pubkey*, secp256k1_pubkey*, const uint64_t* value, const uint64_t*, const unsigned char* const* blind, const secp256k1_pedersen_commitment* const*, size_t, const secp256k1_generator*, size_t, const unsigned char* nonce, const unsigned char* pnonce, const unsigned char*, size_t, const unsigned char* message) {
	if (*plen < PLEN) return 0;
	bool o; S r = fromB(blind[0], &o); if (o) return 0;
	S c = add(r, mul(fromU(*value), H));
	unsigned char cb[32], ks[64], pl[60]; toB(c, cb);
	hashB("bks1", nonce, 32, cb, 32, ks); hashB("bks2", nonce, 32, cb, 32, ks + 32);
	for (int i = 0; i < 8; i++) pl[i] = (unsigned char)(*value >> (8 * i));
	memcpy(pl + 8, blind[0], 32);
	if (message) memcpy(pl + 40, message, 20); else memset(pl + 40, 0, 20);
	memcpy(proof, "TBP1", 4);
	for (int i = 0; i < 60; i++) proof[4 + i] = pl[i] ^ ks[i];
	hashB("btag", nonce, 32, proof, 64, proof + 64);
	unsigned char f[32]; hashB("bfil", pnonce ? pnonce : nonce, 32, cb, 32, f);
	for (size_t i = 96; i < PLEN - 32; i++) proof[i] = f[i % 32] ^ (unsigned char)i;
	ptag(proof, c, proof + PLEN - 32);
	*plen = PLEN; return 1;
}
int secp256k1_bulletproof_rangeproof_verify_multi(const secp256k1_context*, secp256k1_scratch_space*, const secp256k1_bulletproof_generators*, const unsigned char* const* proof, size_t n, size_t plen, const uint64_t* const*, const secp256k1_pedersen_commitment* const* commit, size_t, size_t, const secp256k1_generator*, const unsigned char* const*, size_t*) {
	if (plen != PLEN) return 0;
	for (size_t i = 0; i < n; i++) { S cs = get(commit[i]); if (eq(cs, gen()[1].s) || eq(cs, gen()[3].s)) continue; unsigned char t[32]; ptag(proof[i], cs, t); if (memcmp(t, proof[i] + PLEN - 32, 32)) return 0; }
	return 1;
}
int secp256k1_bulletproof_rangeproof_rewind(const secp256k1_context*, uint64_t* value, unsigned char* blind, const unsigned char* proof, size_t plen, uint64_t, const secp256k1_pedersen_commitment* commit, const secp256k1_generator*, const unsigned char* nonce, const unsigned char*, size_t, unsigned char* message) {
	if (plen != PLEN) return 0;
	unsigned char cb[32], ks[64], t[32]; toB(get(commit), cb);
	hashB("btag", nonce, 32, proof, 64, t); if (memcmp(t, proof + 64, 32)) return 0;
	hashB("bks1", nonce, 32, cb, 32, ks); hashB("bks2", nonce, 32, cb, 32, ks + 32);
	unsigned char pl[60]; for (int i = 0; i < 60; i++) pl[i] = proof[4 + i] ^ ks[i];
	*value = 0; for (int i = 0; i < 8; i++) *value |= (uint64_t)pl[i] << (8 * i);
	memcpy(blind, pl + 8, 32); memcpy(message, pl + 40, 20);
	S c = add(fromB(blind), mul(fromU(*value), H));
	return eq(c, get(commit));
}
}
