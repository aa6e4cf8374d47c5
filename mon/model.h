/* Independent executable specification of the Saber family (oracle).
 * Nothing here includes or calls code of /repo. SHA-2 and AES come from OpenSSL;
 * Keccak is a plain textbook implementation cross-checked with OpenSSL at start-up. */
#ifndef MODEL_H
#define MODEL_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#define MAXL 4
#define MAX_PK 2048
#define MAX_SK 4096
#define MAX_CT 2048

typedef struct {
  int L, MU, ET, EQ, uniform, nineties;
  int polyq, polyp, polyT, pk, isk, sk, ct, coin;
  int old; /* first-round Saber: no rounding constant in v' */
} mparams;

void m_params(mparams *P, int L, int uniform, int nineties);

/* symmetric */
void m_keccak(uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen, unsigned rate, uint8_t pad);
void m_keccak_f(uint64_t A[25]);
void m_shake128(uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen);
void m_shake256(uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen);
void m_sha3_256(uint8_t *out, const uint8_t *in, size_t inlen);
void m_sha3_512(uint8_t *out, const uint8_t *in, size_t inlen);
void m_sha256(uint8_t *out, const uint8_t *in, size_t inlen);
void m_sha512(uint8_t *out, const uint8_t *in, size_t inlen);
/* AES-256 in counter mode over a 16-byte big-endian counter block */
void m_aes256ctr(uint8_t *out, size_t outlen, const uint8_t key[32], const uint8_t iv[16]);
void m_aes256ecb(uint8_t out[16], const uint8_t in[16], const uint8_t key[32]);
void m_H(const mparams *P, uint8_t *out, const uint8_t *in, size_t inlen);
void m_G(const mparams *P, uint8_t *out, const uint8_t *in, size_t inlen);
void m_prf(const mparams *P, uint8_t *out, size_t outlen, const uint8_t seed[32]);

/* encodings: nbits little-endian bit string */
void m_pack(uint8_t *out, const uint16_t *c, int n, int bits);
void m_unpack(uint16_t *c, const uint8_t *in, int n, int bits);

/* ring */
void m_polymul_acc(uint16_t res[256], const uint16_t a[256], const uint16_t b[256]);
void m_gen_matrix(const mparams *P, uint16_t A[MAXL][MAXL][256], const uint8_t seed[32]);
void m_cbd(const mparams *P, uint16_t s[256], const uint8_t *buf);
void m_gen_secret(const mparams *P, uint16_t s[MAXL][256], const uint8_t seed[32]);

/* IND-CPA PKE and KEM */
void m_pke_keypair(const mparams *P, uint8_t *pk, uint8_t *isk, const uint8_t rndA[32], const uint8_t rndS[32]);
void m_pke_enc(const mparams *P, uint8_t *ct, const uint8_t m[32], const uint8_t coins[32], const uint8_t *pk);
void m_pke_dec(const mparams *P, uint8_t m[32], const uint8_t *ct, const uint8_t *isk);
void m_kem_keypair(const mparams *P, uint8_t *pk, uint8_t *sk, const uint8_t rnd[96]);
void m_kem_enc_m(const mparams *P, uint8_t *ct, uint8_t ss[32], const uint8_t *pk, const uint8_t m[32]);
void m_kem_enc(const mparams *P, uint8_t *ct, uint8_t ss[32], const uint8_t *pk, const uint8_t rnd[32]);
/* returns 1 when the ciphertext is accepted, 0 when it is implicitly rejected */
int m_kem_dec(const mparams *P, uint8_t ss[32], const uint8_t *ct, const uint8_t *sk);
void m_reject(const mparams *P, uint8_t ss[32], const uint8_t *ct, const uint8_t *sk);

/* NIST CTR_DRBG (AES-256, no df) */
typedef struct { uint8_t key[32], v[16]; } mdrbg;
void m_drbg_init(mdrbg *d, const uint8_t ent[48], const uint8_t *pers);
void m_drbg(mdrbg *d, uint8_t *out, size_t n);

/* workload PRNG (splitmix/xoshiro) */
typedef struct { uint64_t s[4]; } wrng;
void w_seed(wrng *r, uint64_t seed, uint64_t stream);
uint64_t w_u64(wrng *r);
static inline uint32_t w_below(wrng *r, uint32_t n) { return n ? (uint32_t)((w_u64(r) >> 11) % n) : 0; }
void w_bytes(wrng *r, uint8_t *p, size_t n);
/* byte strings of hostile shapes; returns the shape index */
int w_shape(wrng *r, uint8_t *p, size_t n);
#define W_NSHAPES 20

void m_selfcheck(void);
#endif
