/*
 * Stand-in for OpenSSL's one-shot SHA256/SHA512, used only in the "life" builds
 * that run whole key lifetimes: a 256-bit (512-bit) mixing function that is
 * about ten times cheaper.  Nothing about tree traversal, index handling or
 * signature layout depends on which hash it is; everything about hashes
 * themselves is checked with the real ones.  Calls are counted.
 */
#include <stdint.h>
#include <string.h>
#include <stddef.h>
#include <stdlib.h>

/* Calls of all primitives, and those that derive the start of a WOTS+ chain
 * (domain separator 4, fixed input length): `len' of the latter are one leaf or
 * one one-time signature. */
static unsigned long long calls, kgcalls;
static size_t kg_pad, kg_len;
unsigned long long hx_hash_calls(void) { return calls; }
unsigned long long hx_hash_kgcalls(void) { return kgcalls; }
void hx_hash_reset(size_t pad, size_t n)
{
    calls = kgcalls = 0; kg_pad = pad; kg_len = pad + 2 * n + 32;
}
/* Something else happens while a call is under way: at its `at'-th primitive hash. */
static void (*hook)(void); static unsigned long long hook_at;
void hx_hash_hook(void (*f)(void), unsigned long long at) { hook = f; hook_at = at; }
static inline void count(const unsigned char *d, size_t n)
{
    if (hook_at && !--hook_at) { hook(); }
    calls++;
    if (kg_len && n == kg_len && d[kg_pad - 1] == 4) kgcalls++;
}

/* A log of the calls: input length, stored part of the input (at most 256 bytes), first 64 bytes of output. */
static int logging; static unsigned char *lg; static size_t lg_n, lg_cap;
void hx_hash_log(int on) { logging = on; if (on) lg_n = 0; }
unsigned char *hx_hash_log_get(size_t *n) { *n = lg_n; return lg; }
/* A part of the calls: PRF calls for addresses of tree nodes (type 2) whose last index word has the value
 * given in its low bits, and calls of H under the keys that these gave. */
static size_t sm_pad, sm_n; static uint32_t sm_mask, sm_val;
static unsigned char sm_keys[64][64]; static unsigned sm_at;
void hx_hash_log_sample(size_t pad, size_t n, uint32_t mask, uint32_t val)
{
    sm_pad = pad; sm_n = n; sm_mask = mask; sm_val = val; memset(sm_keys, 0, sizeof sm_keys);
}
static int sampled(const unsigned char *d, size_t n, const unsigned char *out)
{
    const unsigned char *a = d + sm_pad + sm_n;
    if (n == sm_pad + sm_n + 32 && d[sm_pad - 1] == 3) {
        uint32_t w = (uint32_t)a[24] << 24 | a[25] << 16 | a[26] << 8 | a[27];
        if (a[15] != 2 || (w & sm_mask) != sm_val) return 0;
        if (a[31] == 0) memcpy(sm_keys[sm_at++ & 63], out, sm_n);
        return 1;
    }
    if (n == sm_pad + 3 * sm_n && d[sm_pad - 1] == 1)
        for (int i = 0; i < 64; i++) if (!memcmp(sm_keys[i], d + sm_pad, sm_n)) return 1;
    return 0;
}
static void note(const unsigned char *d, size_t n, const unsigned char *out, size_t outlen)
{
    uint32_t h[2];
    if (!logging) return;
    if (sm_mask && !sampled(d, n, out)) return;
    if (lg_n + 400 > lg_cap) { lg_cap = 2 * lg_cap + 4096; lg = realloc(lg, lg_cap); }
    h[0] = (uint32_t)n; h[1] = n < 256 ? (uint32_t)n : 256;
    memcpy(lg + lg_n, h, 8); memcpy(lg + lg_n + 8, d, h[1]); lg_n += 8 + h[1];
    memset(lg + lg_n, 0, 64); memcpy(lg + lg_n, out, outlen < 64 ? outlen : 64); lg_n += 64;
}

static inline uint64_t rotl(uint64_t x, int r) { return (x << r) | (x >> (64 - r)); }

static void mix(const unsigned char *d, size_t n, uint64_t s[4])
{
    uint64_t a = 0x243F6A8885A308D3ULL ^ n, b = 0x13198A2E03707344ULL,
             c = 0xA4093822299F31D0ULL, e = 0x082EFA98EC4E6C89ULL, w;
    while (n >= 8) {
        memcpy(&w, d, 8); d += 8; n -= 8;
        a = (a ^ w) * 0x9FB21C651E98DF25ULL; a ^= a >> 29;
        b = rotl(b + a, 31) * 0xD6E8FEB86659FD93ULL;
        c = rotl(c ^ b, 27) + w; e = (e + c) * 0xC2B2AE3D27D4EB4FULL; e ^= e >> 32; a += e;
    }
    w = 0;
    if (n) { memcpy(&w, d, n); }
    a = (a ^ w ^ ((uint64_t)n << 56)) * 0x9FB21C651E98DF25ULL;
    for (int i = 0; i < 3; i++) {
        a ^= rotl(e, 17); a *= 0x9E3779B97F4A7C15ULL; a ^= a >> 31;
        b += a; b *= 0xBF58476D1CE4E5B9ULL; b ^= b >> 30;
        c ^= b; c *= 0x94D049BB133111EBULL; c ^= c >> 29;
        e += c; e *= 0xD6E8FEB86659FD93ULL; e ^= e >> 32;
    }
    s[0] = a; s[1] = b; s[2] = c; s[3] = e;
}
unsigned char *SHA256(const unsigned char *d, size_t n, unsigned char *md)
{
    uint64_t s[4]; count(d, n); unsigned char in[256]; size_t k = n < 256 ? n : 256;
    if (logging) memcpy(in, d, k);     /* (output may overlap input) */
    mix(d, n, s); memcpy(md, s, 32); if (logging) { note(in, n, md, 32); } return md;
}
static void long_hash(const unsigned char *d, size_t n, unsigned char *out, size_t outlen, uint64_t tag)
{
    uint64_t s[4];
    unsigned char in[256], *out0 = out; size_t n0 = outlen;
    count(d, n);
    if (logging) memcpy(in, d, n < 256 ? n : 256);
    mix(d, n, s);
    s[0] ^= tag; mix((unsigned char *)s, 32, s);
    while (outlen) {
        size_t k = outlen < 32 ? outlen : 32;
        memcpy(out, s, k); out += k; outlen -= k;
        if (outlen) { s[0] ^= 0x5555555555555555ULL; mix((unsigned char *)s, 32, s); }
    }
    if (logging) note(in, n, out0, n0);
}
unsigned char *SHA512(const unsigned char *d, size_t n, unsigned char *md)
{
    long_hash(d, n, md, 64, 0x512); return md;
}
void shake128(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen)
{
    long_hash(in, inlen, out, outlen, 0x128);
}
void shake256(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen)
{
    long_hash(in, inlen, out, outlen, 0x256);
}
