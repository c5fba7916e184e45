/*
 * Stand-in for wots.c in the builds that run lives of a million signatures and
 * more: a one-time "signature" that costs one hash call.  Trees, their
 * traversal, addresses, indices and layout do not depend on which one-time
 * scheme is at the leaves; that one is examined with the real thing.
 */
#include <string.h>
#include "params.h"
#include "wots.h"
extern unsigned char *SHA256(const unsigned char *d, size_t n, unsigned char *md);


/* The two secrets of a one-time key, each a hash in the form of PRF_keygen (with SHA2 sets). */
static void secrets(const xmss_params *params, unsigned char *s, const unsigned char *seed,
                    const unsigned char *pub_seed, const uint32_t addr[8])
{
    const size_t n = params->n, pad = params->padding_len;
    unsigned char in[pad + 2 * n + 32], out[32];
    memset(in, 0, pad); in[pad - 1] = 4;
    memcpy(in + pad, seed, n); memcpy(in + pad + n, pub_seed, n);
    memset(in + pad + 2 * n, 0, 32); memcpy(in + pad + 2 * n, addr, 20);
    for (unsigned c = 0; c < params->wots_len; c++) {
        in[pad + 2 * n + 23] = c;
        SHA256(in, sizeof in, out);
        for (size_t i = 0; i < n; i++) s[c * n + i] = out[i & 31];
    }
}
void wots_pkgen(const xmss_params *params, unsigned char *pk, const unsigned char *seed,
                const unsigned char *pub_seed, uint32_t addr[8])
{
    secrets(params, pk, seed, pub_seed, addr);
}
/* "Signature": the public key, with the message added to its first part. */
void wots_sign(const xmss_params *params, unsigned char *sig, const unsigned char *msg,
               const unsigned char *seed, const unsigned char *pub_seed, uint32_t addr[8])
{
    unsigned char m[params->n];
    memcpy(m, msg, params->n);
    secrets(params, sig, seed, pub_seed, addr);
    for (unsigned i = 0; i < params->n; i++) sig[i] ^= m[i];
}
void wots_pk_from_sig(const xmss_params *params, unsigned char *pk, const unsigned char *sig,
                      const unsigned char *msg, const unsigned char *pub_seed, uint32_t addr[8])
{
    unsigned char m[params->n];
    (void)pub_seed; (void)addr;
    memcpy(m, msg, params->n);
    memmove(pk, sig, params->wots_len * params->n);
    for (unsigned i = 0; i < params->n; i++) pk[i] ^= m[i];
}
