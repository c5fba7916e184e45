/*
 * Harness shim: linked with /repo's sources into one shared object per
 * implementation (xmss_core.c / xmss_core_fast.c).  It touches the library only
 * through its own headers (params.h, xmss.h, xmss_core.h, randombytes.h, and wots.h
 * where one-time signatures themselves are checked); everything else is observation.
 *
 *  - hx_*  accessors, so that the driver never needs the layout of xmss_params;
 *  - open/read/sleep are defined here (the object is linked -Bsymbolic), so the
 *    random source the library reads is a script chosen by the driver and every
 *    call is recorded.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/syscall.h>
#include <stdio.h>
#include <time.h>
#include <dlfcn.h>

#include "params.h"
#include "xmss.h"
#include "xmss_core.h"
#ifdef HX_WOTS
#include "wots.h"
#endif
#include "randombytes.h"

/* ---------------------------------------------------------------- params */

void *hx_new(void)
{
    xmss_params *p = malloc(sizeof *p);
    memset(p, 0xA5, sizeof *p);     /* a field nobody sets is seen as garbage */
    return p;
}
void hx_free(void *p) { free(p); }
int hx_parse_oid(void *p, int mt, uint32_t oid)
{
    return mt ? xmssmt_parse_oid(p, oid) : xmss_parse_oid(p, oid);
}
int hx_str_to_oid(int mt, uint32_t *oid, const char *s)
{
    return mt ? xmssmt_str_to_oid(oid, s) : xmss_str_to_oid(oid, s);
}
/* Which of the n identifiers from lo on are accepted?  Up to max of them into out. */
unsigned hx_scan(int mt, uint32_t lo, uint64_t n, uint32_t *out, unsigned max)
{
    xmss_params p;
    unsigned k = 0;
    uint64_t i;
    for (i = 0; i < n; i++) {
        uint32_t oid = lo + (uint32_t)i;
        if ((mt ? xmssmt_parse_oid(&p, oid) : xmss_parse_oid(&p, oid)) == 0) {
            if (k < max)
                out[k] = oid;
            k++;
        }
    }
    return k;
}
int hx_init(void *vp, unsigned func, unsigned n, unsigned padding_len,
            unsigned w, unsigned h, unsigned d, unsigned k)
{
    xmss_params *p = vp;
    p->func = func; p->n = n; p->padding_len = padding_len; p->wots_w = w;
    p->full_height = h; p->d = d; p->bds_k = k;
    return xmss_xmssmt_initialize_params(p);
}
/* Two-element one-time signatures, for the builds with thinwots.c. */
int hx_init_thin(void *vp, unsigned func, unsigned n, unsigned padding_len,
                 unsigned w, unsigned h, unsigned d, unsigned k)
{
    xmss_params *p = vp;
    if (hx_init(vp, func, n, padding_len, w, h, d, k)) return -1;
    p->wots_len1 = p->wots_len2 = 1;
    p->wots_len = 2;
    p->wots_sig_bytes = 2 * p->n;
    p->sig_bytes = p->index_bytes + p->n + p->d * p->wots_sig_bytes + p->full_height * p->n;
    p->sk_bytes = xmss_xmssmt_core_sk_bytes(p);
    return 0;
}
unsigned long long hx_get(const void *vp, int f)
{
    const xmss_params *p = vp;
    switch (f) {
    case 0: return p->func;
    case 1: return p->n;
    case 2: return p->padding_len;
    case 3: return p->wots_w;
    case 4: return p->wots_log_w;
    case 5: return p->wots_len1;
    case 6: return p->wots_len2;
    case 7: return p->wots_len;
    case 8: return p->wots_sig_bytes;
    case 9: return p->full_height;
    case 10: return p->tree_height;
    case 11: return p->d;
    case 12: return p->index_bytes;
    case 13: return p->sig_bytes;
    case 14: return p->pk_bytes;
    case 15: return p->sk_bytes;
    case 16: return p->bds_k;
    }
    return ~0ULL;
}
unsigned hx_func_code(int which)
{
    return which == 0 ? XMSS_SHA2 : which == 1 ? XMSS_SHAKE128 : XMSS_SHAKE256;
}

/* ------------------------------------------------------------ key API */

int hx_core_keypair(const void *p, int mt, unsigned char *pk, unsigned char *sk)
{
    return mt ? xmssmt_core_keypair(p, pk, sk) : xmss_core_keypair(p, pk, sk);
}
int hx_core_sign(const void *p, int mt, unsigned char *sk, unsigned char *sm,
                 unsigned long long *smlen, const unsigned char *m,
                 unsigned long long mlen)
{
    return mt ? xmssmt_core_sign(p, sk, sm, smlen, m, mlen)
              : xmss_core_sign(p, sk, sm, smlen, m, mlen);
}
int hx_core_open(const void *p, int mt, unsigned char *m,
                 unsigned long long *mlen, const unsigned char *sm,
                 unsigned long long smlen, const unsigned char *pk)
{
    return mt ? xmssmt_core_sign_open(p, m, mlen, sm, smlen, pk)
              : xmss_core_sign_open(p, m, mlen, sm, smlen, pk);
}
/* Signs `n' times in a row; every `every'-th signature (if not 0) is verified.  Returns how many went as they
 * should: accepted, the index in the signature that of the key, the key's index one more afterwards.
 * most (if given): for each number of trees left by a call, the most chain starts and hash calls that it took. */
extern unsigned long long hx_hash_calls(void), hx_hash_kgcalls(void);
extern void hx_hash_reset(size_t pad, size_t n);
unsigned long long hx_core_many(const void *vp, int mt, unsigned char *sk, const unsigned char *pk,
                                unsigned char *sm, unsigned char *mo, unsigned long long n, unsigned long long every,
                                unsigned long long *most)
{
    const xmss_params *p = vp;
    unsigned long long i, len, mlen;
    unsigned char msg[8], was[8];
    int j, c, go_on = every >> 62 & 1;     /* (whatever verification says) */
    every &= ~(1ULL << 62);
    for (i = 0; i < n; i++) {
        memset(msg, (int)(i & 255), 8);
        memcpy(was, sk, p->index_bytes);
        if (most) hx_hash_reset(p->padding_len, p->n);
        if (hx_core_sign(vp, mt, sk, sm, &len, msg, 8)) break;
        if (most) {
            unsigned long long next = 0, k = hx_hash_kgcalls(), a = hx_hash_calls();
            unsigned l, left = 0;
            for (j = 0; j < (int)p->index_bytes; j++) next = next << 8 | was[j];
            next++;
            for (l = 1; l < p->d; l++) left += !(next & ((1ULL << (p->full_height / p->d * l)) - 1));
            if (k > most[2 * left]) most[2 * left] = k;
            if (a > most[2 * left + 1]) most[2 * left + 1] = a;
        }
        if (len != p->sig_bytes + 8 || memcmp(sm, was, p->index_bytes)) break;
        for (j = (int)p->index_bytes - 1, c = 1; j >= 0; j--) { c += was[j]; was[j] = (unsigned char)c; c >>= 8; }
        if (memcmp(sk, was, p->index_bytes)) break;
        if (every && i % every == 0) {
            if (hx_core_open(vp, mt, mo, &mlen, sm, len, pk) || mlen != 8 || memcmp(mo, msg, 8)) {
                if (!go_on) break;
            }
        }
    }
    return i;
}
int hx_keypair(int mt, unsigned char *pk, unsigned char *sk, uint32_t oid)
{
    return mt ? xmssmt_keypair(pk, sk, oid) : xmss_keypair(pk, sk, oid);
}
int hx_sign(int mt, unsigned char *sk, unsigned char *sm,
            unsigned long long *smlen, const unsigned char *m,
            unsigned long long mlen)
{
    return mt ? xmssmt_sign(sk, sm, smlen, m, mlen)
              : xmss_sign(sk, sm, smlen, m, mlen);
}
int hx_open(int mt, unsigned char *m, unsigned long long *mlen,
            const unsigned char *sm, unsigned long long smlen,
            const unsigned char *pk)
{
    return mt ? xmssmt_sign_open(m, mlen, sm, smlen, pk)
              : xmss_sign_open(m, mlen, sm, smlen, pk);
}

/* Key pairs from a given seed: only where the implementation has that. */
extern int xmssmt_core_seed_keypair(const xmss_params *params, unsigned char *pk, unsigned char *sk,
                                    unsigned char *seed) __attribute__((weak));
int hx_has_seed_keypair(void) { return xmssmt_core_seed_keypair != 0; }
int hx_core_seed_keypair(const void *p, unsigned char *pk, unsigned char *sk, unsigned char *seed)
{
    return xmssmt_core_seed_keypair(p, pk, sk, seed);
}

/* ----------------------------------------------------------- WOTS */

#ifdef HX_WOTS
void hx_wots_pkgen(const void *p, unsigned char *pk, const unsigned char *seed,
                   const unsigned char *pub_seed, uint32_t *addr)
{
    wots_pkgen(p, pk, seed, pub_seed, addr);
}
void hx_wots_sign(const void *p, unsigned char *sig, const unsigned char *msg,
                  const unsigned char *seed, const unsigned char *pub_seed,
                  uint32_t *addr)
{
    wots_sign(p, sig, msg, seed, pub_seed, addr);
}
void hx_wots_pk_from_sig(const void *p, unsigned char *pk,
                         const unsigned char *sig, const unsigned char *msg,
                         const unsigned char *pub_seed, uint32_t *addr)
{
    wots_pk_from_sig(p, pk, sig, msg, pub_seed, addr);
}

#endif

/* ------------------------------------------------------- random source
 * A scripted device.  mode 0: the real one.  mode 1: bytes from a
 * deterministic stream (mode 2: bytes given by the driver); each open/read consumes one entry of the script (when
 * there is any left) and is logged.
 *   open script entry:  0 = succeed, -1 = fail
 *   read script entry:  k >= 1: at most k bytes; 0: end of file; -1: error
 */
static int rng_mode = 0;
static uint64_t rng_state;
static const unsigned char *rng_given; static long rng_given_n;   /* mode 2 */
static int *open_script, open_n, open_i;
static long *read_script; static int read_n, read_i;
typedef struct { int kind; long req; long res; } rng_event;
static rng_event *rng_log; static int rng_logn, rng_logcap;
#define FAKE_FD 1000077

void hx_rng_script(int mode, uint64_t seed, int *os, int on, long *rs, int rn)
{
    rng_mode = mode; rng_state = seed;
    open_script = os; open_n = on; open_i = 0;
    read_script = rs; read_n = rn; read_i = 0;
    rng_logn = 0;
}
void hx_rng_given(const unsigned char *b, long n)
{
    hx_rng_script(2, 0, 0, 0, 0, 0);
    rng_given = b; rng_given_n = n;
}
static void rlog(int kind, long req, long res)
{
    if (rng_logn == rng_logcap) {
        rng_logcap = rng_logcap ? 2 * rng_logcap : 64;
        rng_log = realloc(rng_log, rng_logcap * sizeof *rng_log);
    }
    rng_log[rng_logn].kind = kind; rng_log[rng_logn].req = req;
    rng_log[rng_logn].res = res; rng_logn++;
}
int hx_rng_logn(void) { return rng_logn; }
int hx_rng_log(int i, long *req, long *res)
{
    *req = rng_log[i].req; *res = rng_log[i].res; return rng_log[i].kind;
}
static unsigned char stream_byte(void)
{
    uint64_t z = (rng_state += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return (unsigned char)((z ^ (z >> 31)) >> 24);
}
void hx_randombytes(unsigned char *x, unsigned long long n) { randombytes(x, n); }
/* The same stream, for the driver to know what was handed out. */
void hx_stream(uint64_t seed, unsigned char *x, unsigned long long n)
{
    uint64_t save = rng_state; rng_state = seed;
    while (n--) *x++ = stream_byte();
    rng_state = save;
}

static int do_open(const char *path, int flags, mode_t mode)
{
    if (rng_mode && path && !strncmp(path, "/dev/", 5)) {
        int r = 0;
        if (open_i < open_n) r = open_script[open_i++];
        rlog(1, 0, r ? -1 : 0);
        if (r) { errno = EMFILE; return -1; }
        return FAKE_FD;
    }
    return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open(const char *path, int flags, ...)
{
    va_list ap; mode_t m = 0;
    if (flags & O_CREAT) { va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return do_open(path, flags, m);
}
int open64(const char *path, int flags, ...)
{
    va_list ap; mode_t m = 0;
    if (flags & O_CREAT) { va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return do_open(path, flags, m);
}
int __open_2(const char *path, int flags) { return do_open(path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(path, flags, 0); }

static ssize_t do_read(int fd, void *buf, size_t n)
{
    if (rng_mode) {           /* whatever descriptor: the device is scripted */
        long k = (long)n, i;
        unsigned char *b = buf;
        if (read_i < read_n) {
            k = read_script[read_i++];
            if (k > (long)n) k = (long)n;
        }
        rlog(2, (long)n, k);
        if (k < 0) { errno = EINTR; return -1; }
        if (rng_mode == 2 && k > rng_given_n) k = rng_given_n;
        for (i = 0; i < k; i++) b[i] = rng_mode == 2 ? *rng_given++ : stream_byte();
        if (rng_mode == 2) rng_given_n -= k;
        return k;
    }
    return syscall(SYS_read, fd, buf, n);
}
ssize_t read(int fd, void *buf, size_t n) { return do_read(fd, buf, n); }
ssize_t __read_chk(int fd, void *buf, size_t n, size_t bl)
{
    (void)bl; return do_read(fd, buf, n);
}
/* Other ways to the same source. */
ssize_t getrandom(void *buf, size_t n, unsigned flags)
{
    if (rng_mode) return do_read(FAKE_FD, buf, n);
    return syscall(SYS_getrandom, buf, n, flags);
}
int getentropy(void *buf, size_t n)
{
    if (n > 256) { errno = EIO; return -1; }
    return getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1;
}
static ssize_t cookie_read(void *c, char *buf, size_t n) { (void)c; return do_read(FAKE_FD, buf, n); }
FILE *fopen(const char *path, const char *how)
{
    static FILE *(*real)(const char *, const char *);
    cookie_io_functions_t io = { cookie_read, NULL, NULL, NULL };
    if (rng_mode && path && !strncmp(path, "/dev/", 5)) {
        FILE *f;
        if (do_open(path, 0, 0) < 0) return NULL;
        f = fopencookie(NULL, "r", io);
        if (f) setvbuf(f, NULL, _IONBF, 0);
        return f;
    }
    if (!real) real = (FILE *(*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen");
    return real(path, how);
}
int usleep(useconds_t us)
{
    struct timespec ts = { us / 1000000, us % 1000000 * 1000L };
    if (rng_mode) { rlog(3, 0, 0); return 0; }
    syscall(SYS_nanosleep, &ts, 0);
    return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *rest)
{
    if (rng_mode) { rlog(3, 0, 0); return 0; }
    return (int)syscall(SYS_nanosleep, ts, rest);
}
unsigned int sleep(unsigned int s)
{
    if (rng_mode) { rlog(3, (long)s, 0); return 0; }
    struct timespec ts = { (time_t)s, 0 };
    syscall(SYS_nanosleep, &ts, 0);
    return 0;
}
