/* msim: executes one modem-simulation plan (text on stdin or argv[1]); writes an event log on stdout.
 *
 * The plan is the only input: sample streams ("air"), receivers ("station"), and the schedule that
 * interleaves opening, feeding, querying and closing them.  The receivers are the real /repo/src code.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <malloc.h>
#include <unistd.h>
#include <sys/resource.h>
#include "horus_api.h"
#include "horus_l2.h"

extern int horus_packet_version(struct horus *h) __attribute__((weak));

#define MAXA 64
#define MAXS 128

/* ---------- deterministic PRNG for noise ---------- */
typedef struct { uint64_t s; int have; double sp; } rng_t;
static uint64_t rnd(rng_t *r) { r->s += 0x9E3779B97F4A7C15ull; uint64_t z = r->s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static double uni(rng_t *r) { return (rnd(r) >> 11) * (1.0 / 9007199254740992.0); }
static double gauss(rng_t *r) {
    if (r->have) { r->have = 0; return r->sp; }
    double u, v, s;
    do { u = 2*uni(r)-1; v = 2*uni(r)-1; s = u*u+v*v; } while (s >= 1 || s == 0);
    double m = sqrt(-2*log(s)/s); r->sp = v*m; r->have = 1; return u*m;
}

/* ---------- air ---------- */
typedef struct { int fs, quad; float *re, *im; long n, cap; double phase; double sigma; rng_t nr; double ifreq, iamp, iph; } air_t;
static air_t airs[MAXA];

static void put(air_t *a, double re, double im) {
    if (a->n == a->cap) { a->cap = a->cap ? 2*a->cap : 65536; a->re = realloc(a->re, a->cap*sizeof(float)); a->im = realloc(a->im, a->cap*sizeof(float)); }
    if (a->sigma > 0) { re += a->sigma*gauss(&a->nr); if (a->quad) im += a->sigma*gauss(&a->nr); }
    if (a->iamp > 0) { a->iph = fmod(a->iph + 2*M_PI*a->ifreq/a->fs, 2*M_PI); re += a->iamp*cos(a->iph); if (a->quad) im += a->iamp*sin(a->iph); }
    a->re[a->n] = re; a->im[a->n] = im; a->n++;
}
static void osc(air_t *a, double f, double amp) {
    a->phase += 2*M_PI*f/a->fs; if (a->phase > 2*M_PI) a->phase -= 2*M_PI; if (a->phase < -2*M_PI) a->phase += 2*M_PI;
    put(a, amp*cos(a->phase), a->quad ? amp*sin(a->phase) : 0);
}
static void seg(air_t *a, char *line) {
    char k[16]; int off = 0;
    if (sscanf(line, "%15s%n", k, &off) != 1) return;
    char *p = line + off;
    if (!strcmp(k, "fsk")) {                    /* fsk Rs f1 sp amp ppm frac drift symbols(hex digit per symbol) */
        double rs, f1, sp, amp, ppm, frac, drift; int o2 = 0;
        if (sscanf(p, "%lf %lf %lf %lf %lf %lf %lf %n", &rs, &f1, &sp, &amp, &ppm, &frac, &drift, &o2) < 7) { fprintf(stderr, "bad fsk\n"); exit(3); }
        char *s = p + o2; double T = a->fs/rs*(1.0 + ppm*1e-6), pos = frac; long i = 0;
        /* frac: part of a sample by which the first symbol starts late; those samples are tone 0's carry-on */
        long start = a->n; double end = pos;
        for (; *s && *s != '\n' && *s != ' '; s++) {
            if (*s == 'M') { printf("mark %ld\n", a->n); continue; }
            if (*s == 'D') { s++; int nd = (int)strtol(s, &s, 10); a->n = a->n > nd ? a->n - nd : 0; continue; }   /* D<n>; : n samples lost */
            if (*s == 'R') { s++; int nd = (int)strtol(s, &s, 10); if (nd > a->n) nd = a->n; long b = a->n - nd; double sg = a->sigma; a->sigma = 0; for (long q = 0; q < nd; q++) put(a, a->re[b+q], a->im[b+q]); a->sigma = sg; continue; }
            int sym = *s <= '9' ? *s - '0' : *s - 'a' + 10;
            end += T;
            while (i < end) { osc(a, f1 + sym*sp + drift*(a->n - start)/(double)a->fs, amp); i++; }
        }
    } else if (!strcmp(k, "noise")) {           /* noise n sigma seed */
        long n; double sg; unsigned long long sd; if (sscanf(p, "%ld %lf %llu", &n, &sg, &sd) != 3) exit(3);
        rng_t r = { sd, 0, 0 }; for (long i = 0; i < n; i++) { double x = sg*gauss(&r), y = a->quad ? sg*gauss(&r) : 0; put(a, x, y); }
    } else if (!strcmp(k, "zero")) { long n = atol(p); for (long i = 0; i < n; i++) put(a, 0, 0);
    } else if (!strcmp(k, "dc")) { long n; double l; if (sscanf(p, "%ld %lf", &n, &l) != 2) exit(3); for (long i = 0; i < n; i++) put(a, l, a->quad ? -l : 0);
    } else if (!strcmp(k, "tone")) { long n; double f, am; if (sscanf(p, "%ld %lf %lf", &n, &f, &am) != 3) exit(3); for (long i = 0; i < n; i++) osc(a, f, am);
    } else if (!strcmp(k, "sweep")) { long n; double f0, f1, am; if (sscanf(p, "%ld %lf %lf %lf", &n, &f0, &f1, &am) != 4) exit(3); for (long i = 0; i < n; i++) osc(a, f0 + (f1-f0)*i/n, am);
    } else if (!strcmp(k, "square")) { long n, per; double am; if (sscanf(p, "%ld %ld %lf", &n, &per, &am) != 3) exit(3); for (long i = 0; i < n; i++) { double v = ((i/per)&1) ? -am : am; put(a, v, v); }
    } else if (!strcmp(k, "pcm")) { long n; double am; unsigned long long sd; if (sscanf(p, "%ld %lf %llu", &n, &am, &sd) != 3) exit(3); rng_t r = { sd, 0, 0 }; for (long i = 0; i < n; i++) { double x = am*(2*uni(&r)-1), y = am*(2*uni(&r)-1); put(a, x, y); }
    } else if (!strcmp(k, "pm")) { long n; unsigned long long sd; if (sscanf(p, "%ld %llu", &n, &sd) != 2) exit(3); rng_t r = { sd, 0, 0 }; for (long i = 0; i < n; i++) { double x = (rnd(&r)&1) ? 32767 : -32768; double y = (rnd(&r)&1) ? 32767 : -32768; put(a, x, y); }
    } else if (!strcmp(k, "impulse")) { long n, per; double am; if (sscanf(p, "%ld %ld %lf", &n, &per, &am) != 3) exit(3); for (long i = 0; i < n; i++) put(a, (i % per) ? 0 : am, 0);
    } else if (!strcmp(k, "drop")) { long n = atol(p); a->n = a->n > n ? a->n - n : 0;
    } else if (!strcmp(k, "dup")) { long n = atol(p); if (n > a->n) n = a->n; long b = a->n - n; double s = a->sigma; a->sigma = 0; for (long i = 0; i < n; i++) put(a, a->re[b+i], a->im[b+i]); a->sigma = s;
    } else if (!strcmp(k, "awgn")) { double s; unsigned long long sd; if (sscanf(p, "%lf %llu", &s, &sd) != 2) exit(3); a->sigma = s; a->nr = (rng_t){ sd, 0, 0 };
    } else if (!strcmp(k, "intf")) { if (sscanf(p, "%lf %lf", &a->ifreq, &a->iamp) != 2) exit(3);      /* a carrier under everything that follows */
    } else if (!strcmp(k, "raw")) {             /* raw <hex of little endian int16> : exact samples */
        while (*p == ' ') p++;
        for (; p[0] > ' ' && p[1] > ' ' && p[2] > ' ' && p[3] > ' '; p += 4) { unsigned v; char b[5] = { p[2], p[3], p[0], p[1], 0 }; sscanf(b, "%x", &v); put(a, (int16_t)v, 0); }
    } else if (!strcmp(k, "mark")) {            /* mark <name>: logs the current sample position */
        while (*p == ' ') p++;
        printf("mark %ld %s", a->n, p);
        if (!strchr(p, '\n')) printf("\n");
    } else { fprintf(stderr, "bad segment %s\n", k); exit(3); }
}
static short clip(float x) { if (!(x > -32768)) return -32768; if (x > 32767) return 32767; return (short)lrintf(x); }

/* ---------- stations ---------- */
typedef struct { struct horus *h; int open, mode, rs, sp, fs, P, air, quad; double lo, hi; int lim; long pos, blk, npk; int dump; } st_t;
static st_t sts[MAXS];
#define CANARY 64
static int maxout_slack = 0;

static void showtext(const char *s, int n) { for (int i = 0; i < n; i++) { unsigned char c = s[i]; if (c > 32 && c < 127 && c != '\\') putchar(c); else printf("\\x%02x", c); } }

static void st_open(int i) {
    st_t *s = &sts[i];
    s->h = horus_open_advanced_sample_rate(s->mode, s->rs, s->sp, s->fs, s->P);
    if (s->lim) horus_set_freq_est_limits(s->h, s->lo, s->hi);
    s->open = 1; s->blk = 0;
    printf("open %d maxin %d maxout %d\n", i, horus_get_max_demod_in(s->h), horus_get_max_ascii_out_len(s->h));
}
static int st_feed(int i) {
    st_t *s = &sts[i]; air_t *a = &airs[s->air];
    uint32_t nin = horus_nin(s->h); int maxin = horus_get_max_demod_in(s->h)/(int)sizeof(short), maxout = horus_get_max_ascii_out_len(s->h);
    if ((int)nin <= 0 || (int)nin > maxin) { printf("BADNIN %d blk %ld nin %d max %d\n", i, s->blk, (int)nin, maxin); fflush(stdout); return 0; }
    if (s->pos + (long)nin > a->n) return 0;
    short *in = malloc(sizeof(short)*nin*(s->quad ? 2 : 1));           /* exact size: ASan sees over-reads */
    for (uint32_t k = 0; k < nin; k++) {
        if (s->quad) { in[2*k] = clip(a->re[s->pos+k]); in[2*k+1] = clip(a->im[s->pos+k]); }
        else in[k] = clip(a->re[s->pos+k]);
    }
    s->pos += nin;
    char *out = malloc(maxout + CANARY);                               /* canary region after the advertised length */
    memset(out, 0xA5, maxout + CANARY); out[0] = 0;
    int r = horus_rx(s->h, out, in, s->quad);
    s->blk++;
    for (int k = 0; k < CANARY; k++) if ((unsigned char)out[maxout+k] != 0xA5) { printf("OVERRUN %d blk %ld off %d\n", i, s->blk, k); break; }
    if (r) {
        int crc = horus_crc_ok(s->h), len = strnlen(out, maxout + CANARY);
        if (len >= maxout + 0 && out[maxout-1] != 0) printf("UNTERMINATED %d blk %ld len %d\n", i, s->blk, len);
        if (len > maxout) len = maxout;
        printf("pkt %d blk %ld pos %ld crc %d ver %d bits %d text ", i, s->blk, s->pos, crc, (s->mode == 0 && horus_packet_version) ? horus_packet_version(s->h) : 0, horus_get_total_payload_bits(s->h));
        showtext(out, len); printf("\n"); s->npk++;
    }
    if (!r && out[0] && horus_crc_ok(s->h)) {                            /* text left behind by a block whose status says good */
        int len = strnlen(out, maxout);
        printf("left %d blk %ld pos %ld crc 1 text ", i, s->blk, s->pos); showtext(out, len); printf("\n");
    }
    if (s->dump & 2) {                                                 /* status after every block */
        printf("st %d blk %ld r %d crc %d\n", i, s->blk, r, horus_crc_ok(s->h));
    }
    free(in); free(out);
    return 1;
}
static void st_stats(int i, int ext, int show) {
    st_t *s = &sts[i]; 
    if (!ext) { int sync = -999; float snr = 0; horus_get_modem_stats(s->h, &sync, &snr); if (show) printf("snr %d blk %ld pos %ld sync %d snr %.9g\n", i, s->blk, s->pos, sync, snr); return; }
    struct MODEM_STATS *m = malloc(sizeof *m); memset(m, 0x5A, sizeof *m);
    horus_get_modem_extended_stats(s->h, m);
    if (show) {
        int M = horus_get_mFSK(s->h); int bad = 0; double emax = 0;
        int et = m->neyetr, es = m->neyesamp;
        if (et < 0 || et > MODEM_STATS_ET_MAX || es < 0 || es > MODEM_STATS_EYE_IND_MAX) bad = 2;
        else for (int r = 0; r < et; r++) for (int c = 0; c < es; c++) { if (!isfinite(m->rx_eye[r][c])) bad = 1; else if (fabs(m->rx_eye[r][c]) > emax) emax = fabs(m->rx_eye[r][c]); }
        printf("xst %d blk %ld pos %ld snr %.9g ppm %.9g foff %.9g timing %.9g nr %d nc %d et %d es %d eyebad %d eyemax %.6g f", i, s->blk, s->pos, m->snr_est, m->clock_offset, m->foff, m->rx_timing, m->nr, m->Nc, et, es, bad, emax);
        for (int k = 0; k < M; k++) printf(" %.9g", m->f_est[k]);
        printf("\n");
    }
    free(m);
}
static long heap_used(void) { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }

/* Whether four equally spaced tones stand out of the spectrum of a stretch of signal.  Random symbols may by chance leave a tone
 * weaker than the lobes between the tones for a block: nothing which picks the strongest peaks can then find all four, and bits
 * are lost on the channel, not in the receiver.  A plain windowed average (this file's own transform) over every alignment of the
 * blocks; the tones must win with a margin. */
static void fft(double *re, double *im, int n) {
    for (int i = 1, j = 0; i < n; i++) { int b = n >> 1; for (; j & b; b >>= 1) j ^= b; j ^= b; if (i < j) { double t = re[i]; re[i] = re[j]; re[j] = t; t = im[i]; im[i] = im[j]; im[j] = t; } }
    for (int l = 2; l <= n; l <<= 1) for (int k = 0; k < l/2; k++) {
        double c = cos(-2*M_PI*k/l), d = sin(-2*M_PI*k/l);
        for (int i = k; i < n; i += l) { int j = i + l/2; double x = re[j]*c - im[j]*d, y = re[j]*d + im[j]*c; re[j] = re[i] - x; im[j] = im[i] - y; re[i] += x; im[i] += y; }
    }
}
static int stands_out(air_t *a, long s0, long s1, int rs, double f1, double sp, double lo, double hi) {
    int ts = a->fs/rs, N = 50*ts, n = 1;
    while (n < 10*ts) n *= 2;
    double *re = malloc(n*sizeof(double)), *im = malloc(n*sizeof(double)), *S = malloc(n*sizeof(double)), *W = malloc(n*sizeof(double)), bin = (double)a->fs/n;
    int ok = 1;
    for (int ph = 0; ph < 8 && ok; ph++) {
        memset(S, 0, n*sizeof(double));
        for (long b = s0 - 6*N + ph*N/8; b < s1 + N && ok; b += N) {
            for (int j = 0; j < N/(n/2) - 1; j++) {
                for (int i = 0; i < n; i++) { long q = b + j*(n/2) + i; double w = 0.5 - 0.5*cos(2*M_PI*i/(n-1)); int in = q >= 0 && q < a->n; re[i] = in ? w*a->re[q] : 0; im[i] = in && a->quad ? w*a->im[q] : 0; }
                fft(re, im, n);
                for (int i = 0; i < n; i++) S[i] = 0.9*S[i] + 0.1*sqrt(re[i]*re[i] + im[i]*im[i]);
            }
            if (b + N <= s0) continue;
            int left = 4;
            double hit[4] = {0};
            for (int i = 0; i < n; i++) {
                double f = (i < n/2 ? i : i - n)*bin;
                W[i] = f < lo || f >= hi ? 0 : S[i];
                for (int t = 0; t < 4; t++) if (fabs(f - f1 - t*sp) < 0.4*rs) W[i] *= 0.88;
            }
            while (left--) {
                int m = 0;
                for (int i = 1; i < n; i++) if (W[i] > W[m]) m = i;
                double f = (m < n/2 ? m : m - n)*bin;
                for (int t = 0; t < 4; t++) if (fabs(f - f1 - t*sp) < 0.4*rs) hit[t] = 1;
                for (int i = 0; i < n; i++) { double g = (i < n/2 ? i : i - n)*bin; if (fabs(g - f) <= 0.75*rs) W[i] = 0; }
            }
            if (!(hit[0] && hit[1] && hit[2] && hit[3])) ok = 0;
        }
    }
    free(re); free(im); free(S); free(W);
    return ok;
}

#ifdef MT
#include "fibers.h"
#endif

static void hexout(const unsigned char *b, int n) { for (int i = 0; i < n; i++) printf("%02x", b[i]); }
static int hexin(const char *p, unsigned char *b, int cap) { int n = 0, x, c; while (n < cap && sscanf(p, " %2x%n", &x, &c) == 1) { b[n++] = x; p += c; } return n; }
/* one packet through the library's encoder and, when asked, with bit errors back through its decoder */
static void codec(int id, const char *hex, int back, const char *flips) {
    unsigned char p[256]; int n = hexin(hex, p, 256), m = horus_l2_get_num_tx_data_bytes(n);
    unsigned char *in = malloc(n), *tx = malloc(m), *out = malloc(n);
    memcpy(in, p, n);
    int r = horus_l2_encode_tx_packet(tx, in, n);
    printf("enc %d n %d hex ", id, r); hexout(tx, m); printf("\n");
    for (int f, c; sscanf(flips, "%d%n", &f, &c) == 1; flips += c + (flips[c] == ',')) if (f >= 0 && f < 8*m) tx[f >> 3] ^= 128 >> (f & 7);
    if (back) { horus_l2_decode_rx_packet(out, tx, n); printf("dec %d hex ", id); hexout(out, n); printf("\n"); }
    free(in); free(tx); free(out);
}

static air_t *cur;
/* one line of the plan: 0, or the exit status with which the plan is refused */
static int doop(char *line) {
    char k[32]; int off = 0; if (sscanf(line, "%31s%n", k, &off) != 1) return 0;
    char *p = line + off; int i, n, v;
    if (k[0] == '#') return 0;
    if (!strcmp(k, "air")) { int fs, q; if (sscanf(p, "%d %d %d", &i, &fs, &q) != 3 || i < 0 || i >= MAXA) return 3; cur = &airs[i]; memset(cur, 0, sizeof *cur); cur->fs = fs; cur->quad = q; }
    else if (!strcmp(k, "seg")) seg(cur, p);
    else if (!strcmp(k, "station")) {   /* station i air mode rs sp P [lo hi] */
        st_t s = {0}; double lo, hi; int c = sscanf(p, "%d %d %d %d %d %d %lf %lf", &i, &s.air, &s.mode, &s.rs, &s.sp, &s.P, &lo, &hi);
        if (c < 6 || i < 0 || i >= MAXS) return 3; s.fs = airs[s.air].fs; s.quad = airs[s.air].quad; if (c == 8) { s.lim = 1; s.lo = lo; s.hi = hi; } sts[i] = s; }
    else if (!strcmp(k, "open")) st_open(atoi(p));
    else if (!strcmp(k, "close")) { i = atoi(p); if (sts[i].open) { horus_close(sts[i].h); sts[i].h = NULL; sts[i].open = 0; printf("close %d\n", i); } }
    else if (!strcmp(k, "feed")) { if (sscanf(p, "%d %d", &i, &n) != 2) return 3; while (n-- > 0 && sts[i].open && st_feed(i)); }
    else if (!strcmp(k, "feedall")) { i = atoi(p); while (sts[i].open && st_feed(i)); printf("end %d pos %ld blk %ld pkts %ld\n", i, sts[i].pos, sts[i].blk, sts[i].npk); }
    else if (!strcmp(k, "feedstat")) { int every; if (sscanf(p, "%d %d", &i, &every) != 2) return 3; long c = 0; if (sts[i].open) st_stats(i, 1, 1); while (sts[i].open && st_feed(i)) if (++c % every == 0) st_stats(i, 1, 1); printf("end %d pos %ld blk %ld pkts %ld\n", i, sts[i].pos, sts[i].blk, sts[i].npk); }
    else if (!strcmp(k, "stats")) { i = atoi(p); if (sts[i].open) st_stats(i, 0, 1); }
    else if (!strcmp(k, "xstats")) { i = atoi(p); if (sts[i].open) st_stats(i, 1, 1); }
    else if (!strcmp(k, "poke")) { i = atoi(p); if (sts[i].open) { st_stats(i, 0, 0); st_stats(i, 1, 0); (void)horus_crc_ok(sts[i].h); (void)horus_get_version(); (void)horus_get_mode(sts[i].h); (void)horus_get_Fs(sts[i].h); (void)horus_get_mFSK(sts[i].h); (void)horus_get_total_payload_bits(sts[i].h); (void)horus_nin(sts[i].h); (void)horus_get_max_demod_in(sts[i].h); (void)horus_get_max_ascii_out_len(sts[i].h); } }
    else if (!strcmp(k, "verbose")) { if (sscanf(p, "%d %d", &i, &v) != 2) return 3; if (sts[i].open) horus_set_verbose(sts[i].h, v); }
    else if (!strcmp(k, "dump")) { if (sscanf(p, "%d %d", &i, &v) != 2) return 3; sts[i].dump = v; }
    else if (!strcmp(k, "rewind")) { i = atoi(p); sts[i].pos = 0; }
    else if (!strcmp(k, "fill")) mallopt(M_PERTURB, atoi(p));
    else if (!strcmp(k, "mmapoff")) mallopt(M_MMAP_THRESHOLD, 1<<30);
    else if (!strcmp(k, "pcm_out")) { char path[1024]; if (sscanf(p, "%d %1000s", &i, path) != 2) return 3; FILE *o = fopen(path, "wb"); if (!o) return 3; air_t *a = &airs[i];
        for (long q = 0; q < a->n; q++) { short v = clip(a->re[q]); fwrite(&v, 2, 1, o); if (a->quad) { v = clip(a->im[q]); fwrite(&v, 2, 1, o); } } fclose(o); }
    else if (!strcmp(k, "est")) { long s0, s1; int rs; double f1, sp, lo, hi; if (sscanf(p, "%d %ld %ld %d %lf %lf %lf %lf", &i, &s0, &s1, &rs, &f1, &sp, &lo, &hi) != 8) return 3; printf("est %d\n", stands_out(&airs[i], s0, s1, rs, f1, sp, lo, hi)); }
    else if (!strcmp(k, "l2init")) horus_l2_init();
    else if (!strcmp(k, "codec")) { char hex[513], fl[4096]; if (sscanf(p, "%d %d %512s %4095s", &i, &v, hex, fl) != 4) return 3; codec(i, hex, v, fl); }
#ifdef MT
    else if (!strcmp(k, "fib")) { int c; if (sscanf(p, "%d%n", &i, &c) != 1) return 3; return fib_add(i, p + c); }
    else if (!strcmp(k, "par")) { unsigned long long sd; long long last = -1; double lo, hi; int dir = 0, life = 5, hold = 5; if (sscanf(p, "%llu %lf %lf %lld %d %d %d", &sd, &lo, &hi, &last, &dir, &life, &hold) < 3) return 3; return fib_run(sd, lo, hi, last, dir, life, hold); }
#endif
    else if (!strcmp(k, "heap")) { fflush(stdout); printf("heap %ld\n", heap_used()); }
    else { fprintf(stderr, "bad op %s\n", k); return 3; }
    return 0;
}

int main(int argc, char **argv) {
    FILE *f = argc > 1 ? fopen(argv[1], "r") : stdin; if (!f) { perror("plan"); return 3; }
    static char obuf[1<<16]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
    struct rlimit rl = { 300, 300 }; setrlimit(RLIMIT_CPU, &rl);
    char *line = NULL; size_t cap = 0; ssize_t len;
    while ((len = getline(&line, &cap, f)) > 0) {
        int rc = doop(line); if (rc) return rc;
        if (ferror(stdout)) return 4;
    }
    printf("done\n"); fflush(stdout);
    return 0;
}
