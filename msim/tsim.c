/* tsim: a shell pipeline of the project's tools inside one process.
 *
 * Every stage is the real main() of a tool (or a channel stage written here, named @...), on its own thread; a baton lets exactly one
 * run at a time and a seeded scheduler passes it on at every read and write.  Pipes have a bounded capacity; how much a read returns
 * or a write takes, stalls, kills and read errors come from the plan, which is the only input.  Each tool is linked with its own
 * private copy of the library, so that stages share no more than processes would.
 *
 * plan lines:  seed S | sticky P(0-100) | steps N | node NAME arg...  | cap LINK n | rpat NODE n,n,.. | wpat NODE n,n,.. |
 *              kill NODE op | term NODE read | eio NODE read | stall NODE from len | late NODE bin bout | rec LINK path
 * link k connects node k to node k+1; the last link is a recorder.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <math.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <getopt.h>
#include <time.h>
#include <unistd.h>

#define MAXN 12
typedef struct { unsigned char *b; long cap, head, len, tw, tr; int wclosed, rclosed; uint64_t h; FILE *rec; } link_t;
enum { READY, WAIT_R, WAIT_W, DONE };
typedef struct {
    int argc; char *argv[64]; int state; pthread_t th; pthread_cond_t cv; int in, out;
    FILE *fi, *fo, *fe; int fi_closed, fo_closed;
    int rp[256], nrp, irp, wp[256], nwp, iwp; long ops, reads, kill_at, eio_at, term_at; void (*onterm)(int); long stall_from[8], stall_len[8]; int nst; long stalled_until;
    long late_in, late_out; int late_said; char *err; long errn, errcap; char end[64];
} node_t;
static node_t nd[MAXN]; static link_t lk[MAXN]; static int nn; static __thread node_t *me;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static int cur = -1, all_done; static pthread_cond_t main_cv = PTHREAD_COND_INITIALIZER;
static uint64_t rs; static int sticky = 50; static long step, step_max = 50000000, switches; static uint64_t sched_h = 1469598103934665603ull;
static FILE *lg;
static uint64_t rnd(void) { rs += 0x9E3779B97F4A7C15ull; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

static void report(void) {
    for (int i = 0; i < nn; i++) {
        fprintf(lg, "node %d %s %s reads %ld ops %ld\n", i, nd[i].argv[0], nd[i].end[0] ? nd[i].end : "running", nd[i].reads, nd[i].ops);
        for (char *p = nd[i].err; p && *p;) { char *q = strchr(p, '\n'); if (q) *q = 0; fprintf(lg, "err %d %s\n", i, p); if (!q) break; p = q + 1; }
        fprintf(lg, "link %d wrote %ld read %ld hash %016llx\n", i, lk[i].tw, lk[i].tr, (unsigned long long)lk[i].h);
        if (lk[i].rec) fflush(lk[i].rec);
    }
    fprintf(lg, "steps %ld switches %ld sched %016llx\n", step, switches, (unsigned long long)sched_h);
    fflush(lg);
}
static void stop(const char *why) { fprintf(lg, "STOP %s\n", why); report(); _exit(7); }

static int runnable(int i) {
    node_t *n = &nd[i];
    if (n->state == DONE) return 0;
    if (n->state == WAIT_R) { link_t *l = &lk[n->in]; if (!l->len && !l->wclosed) return 0; }
    if (n->state == WAIT_W) { link_t *l = &lk[n->out]; if (l->len >= l->cap && !l->rclosed) return 0; }
    return n->stalled_until > step ? 2 : 1;
}
/* choose who runs next; called with the baton held */
static int choose(void) {
    for (;;) {
        int c[MAXN], k = 0, st = 0; long soon = 0;
        for (int i = 0; i < nn; i++) { int r = runnable(i); if (r == 1) c[k++] = i; else if (r == 2 && (!st || nd[i].stalled_until < soon)) { soon = nd[i].stalled_until; st = 1; } }
        if (k) { int mine = me ? (int)(me - nd) : -1; if (mine >= 0 && runnable(mine) == 1 && (int)(rnd() % 100) < sticky) return mine; return c[rnd() % k]; }
        if (st) { step = soon; continue; }
        for (int i = 0; i < nn; i++) if (nd[i].state != DONE) stop("deadlock");
        return -1;
    }
}
static FILE *real_err;
static void take(int i) { stdin = nd[i].fi; stdout = nd[i].fo; stderr = nd[i].fe; nd[i].state = READY; }
static void pass(int wait_after) {
    if (++step > step_max) stop("limit");
    int j = choose();
    sched_h = (sched_h ^ (uint64_t)(j + 1)) * 1099511628211ull;
    if (j >= 0 && me == &nd[j]) { me->state = READY; return; }
    switches++;
    pthread_mutex_lock(&mx);
    cur = j;
    if (j < 0) { all_done = 1; pthread_cond_signal(&main_cv); }
    else { take(j); pthread_cond_signal(&nd[j].cv); }
    if (wait_after) { int i = me - nd; while (cur != i) pthread_cond_wait(&me->cv, &mx); }
    pthread_mutex_unlock(&mx);
}
static void finish(const char *how) {
    snprintf(me->end, sizeof me->end, "%s", how);
    if (me->in >= 0) lk[me->in].rclosed = 1;
    lk[me->out].wclosed = 1;
    me->state = DONE;
    pass(0);
    pthread_exit(NULL);
}
static void op(void) {
    me->ops++;
    if (me->kill_at && me->ops == me->kill_at) finish("killed");
    for (int s = 0; s < me->nst; s++) if (me->ops == me->stall_from[s]) me->stalled_until = step + me->stall_len[s];
    pass(1);
}
static long get(unsigned char *b, long n) {
    me->reads++;
    if (me->term_at && me->reads == me->term_at) { if (me->onterm) me->onterm(15); else finish("killed"); }
    if (me->in < 0) { op(); return 0; }
    link_t *l = &lk[me->in];
    if (me->late_in && !me->late_said && lk[me->out].tw < l->tr / me->late_in * me->late_out) { me->late_said = 1; fprintf(lg, "LATE %d %s read %ld delivered %ld\n", (int)(me - nd), me->argv[0], l->tr, lk[me->out].tw); }
    if (me->eio_at && me->reads >= me->eio_at) { op(); errno = EIO; return -1; }
    op();
    while (!l->len) { if (l->wclosed) return 0; me->state = WAIT_R; pass(1); }
    long k = me->nrp ? me->rp[me->irp++ % me->nrp] : 0; if (k <= 0 || k > n) k = n;
    if (k > l->len) k = l->len;
    for (long i = 0; i < k; i++) { b[i] = l->b[l->head]; if (++l->head == l->cap) l->head = 0; }
    l->len -= k; l->tr += k;
    return k;
}
static void put(const unsigned char *b, long n) {
    link_t *l = &lk[me->out]; int last = me->out == nn - 1;
    while (n > 0) {
        op();
        if (l->rclosed) finish("sigpipe");
        long k = me->nwp ? me->wp[me->iwp++ % me->nwp] : 0; if (k <= 0 || k > n) k = n;
        if (!last) { while (l->len >= l->cap && !l->rclosed) { me->state = WAIT_W; pass(1); } if (l->rclosed) finish("sigpipe"); if (k > l->cap - l->len) k = l->cap - l->len; }
        for (long i = 0; i < k; i++) { l->h = (l->h ^ b[i]) * 1099511628211ull; if (!last) { l->b[(l->head + l->len++) % l->cap] = b[i]; } }
        if (l->rec) fwrite(b, 1, k, l->rec);
        l->tw += k; b += k; n -= k;
    }
}
static ssize_t c_rd(void *c, char *b, size_t n) { return get((unsigned char *)b, n); }
static ssize_t c_wr(void *c, const char *b, size_t n) { put((const unsigned char *)b, n); return n; }
static int c_sk(void *c, off64_t *o, int w) { errno = ESPIPE; return -1; }
static int c_ci(void *c) { me->fi_closed = 1; if (me->in >= 0) lk[me->in].rclosed = 1; return 0; }
static int c_co(void *c) { me->fo_closed = 1; lk[me->out].wclosed = 1; return 0; }
static ssize_t c_er(void *c, const char *b, size_t n) {
    node_t *x = c; if (x->errn + (long)n + 1 > 4000000) return n;
    if (x->errn + (long)n + 1 > x->errcap) { x->errcap = 2 * (x->errn + n + 1); x->err = realloc(x->err, x->errcap); }
    memcpy(x->err + x->errn, b, n); x->errn += n; x->err[x->errn] = 0; return n;
}

/* seams of the tools */
void sim_exit(int rc) {
    if (!me->fo_closed) fflush(me->fo);
    char s[32]; snprintf(s, sizeof s, "exit %d", rc); finish(s);
}
void sim__exit(int rc) { char s[32]; snprintf(s, sizeof s, "exit %d", rc); finish(s); }      /* what is still buffered is lost */
time_t sim_time(time_t *t) { time_t v = 1700000000 + step / 1000; if (t) *t = v; return v; }
void *sim_signal(int a, void *b) { if (a == 15) me->onterm = b; return NULL; }
FILE *sim_fopen(const char *p, const char *m) {
    cookie_io_functions_t r = { c_rd, NULL, c_sk, c_ci }, w = { NULL, c_wr, NULL, c_co };
    if (!strcmp(p, "NAMED_IN") && *m == 'r') return fopencookie(me, "r", r);
    if (!strcmp(p, "NAMED_OUT") && *m == 'w') { FILE *f = fopencookie(me, "w", w); me->fo = f; return f; }
    errno = ENOENT; return NULL;
}

int gen_main(int, char **); int get_main(int, char **); int put_main(int, char **); int mod_main(int, char **); int demod_main(int, char **); int horus_main(int, char **);

/* channel stages */
static double argd(const char *k, double d) { int n = strlen(k); for (int i = 1; i < me->argc; i++) if (!strncmp(me->argv[i], k, n) && me->argv[i][n] == '=') return atof(me->argv[i] + n + 1); return d; }
static const char *args_(const char *k) { int n = strlen(k); for (int i = 1; i < me->argc; i++) if (!strncmp(me->argv[i], k, n) && me->argv[i][n] == '=') return me->argv[i] + n + 1; return ""; }
static uint64_t rn2; static double sp2; static int have2;
static double uni2(void) { rn2 += 0x9E3779B97F4A7C15ull; uint64_t z = rn2; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31; return (z >> 11) * (1.0 / 9007199254740992.0); }
static double gauss2(void) { if (have2) { have2 = 0; return sp2; } double u, v, s; do { u = 2*uni2()-1; v = 2*uni2()-1; s = u*u+v*v; } while (s >= 1 || s == 0); double q = sqrt(-2*log(s)/s); sp2 = v*q; have2 = 1; return u*q; }
static long getall(unsigned char *b, long n) { long t = 0; while (t < n) { long k = get(b + t, n - t); if (k <= 0) break; t += k; } return t; }
/* @file path: the bytes of a file */
static int s_file(void) { FILE *f = fopen(me->argv[1], "rb"); if (!f) return 3; unsigned char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) put(b, n); fclose(f); return 0; }
/* @bits flip=a,b,c cut=n lead=0101: bit errors on a one-bit-per-byte stream */
static int s_bits(void) {
    long cut = (long)argd("cut", -1), pos = 0; const char *fl = args_("flip"), *ld = args_("lead"); long nf = *fl ? strtol(fl, (char **)&fl, 10) : -1;
    for (; *ld == '0' || *ld == '1'; ld++) { unsigned char x = *ld - '0'; put(&x, 1); }
    unsigned char b[512]; long n;
    while ((n = get(b, sizeof b)) > 0) {
        for (long i = 0; i < n; i++, pos++) {
            if (pos == nf) { b[i] ^= 1; nf = *fl == ',' ? strtol(fl + 1, (char **)&fl, 10) : -1; }
            if (pos == cut) { put(b, i); return 0; }
        }
        put(b, n);
    }
    return 0;
}
static unsigned char obuf[16384]; static long on_;
static void flush1(void) { long n = on_; on_ = 0; put(obuf, n); }
static void send1(double y, double noise) { if (noise > 0) y += noise * gauss2(); if (y > 32767) y = 32767; if (y < -32768) y = -32768; int16_t s = (int16_t)lrint(y); memcpy(obuf + on_, &s, 2); on_ += 2; if (on_ > 16000) flush1(); }
/* @audio m= fs= rs= f1= sp= gain= noise= seed= lead= trail= cut=: watches a modulated stream, then sends it through a channel */
static int s_audio(void) {
    int m = argd("m", 4), fs = argd("fs", 48000), rsym = argd("rs", 100), ts = fs / rsym; double f1 = argd("f1", 1000), sp = argd("sp", 270), gain = argd("gain", 1), noise = argd("noise", 0);
    long lead = argd("lead", 0), trail = argd("trail", 0), cut = argd("cut", -1), pos = 0; rn2 = (uint64_t)argd("seed", 1);
    double acc[4][2] = {{0}}; long k = 0, nsym = 0; int mn = 99999, mxv = -99999; double worst = 0; int prev = 0; char *sym = calloc(1, 1); long cap = 0;
    double en = 0;
    for (long i = 0; i < lead; i++) { int v = (int)lrint(noise * gauss2()); int16_t s = v; put((unsigned char *)&s, 2); }
    double ppm = argd("ppm", 0), nextt = 0, last = 0;
    unsigned char b[4096]; long n, have = 0;
    for (;;) {
        n = get(b + have, sizeof b - have); if (n < 0) break; if (n == 0) break;
        have += n; long w = have / 2;
        for (long i = 0; i < w; i++) {
            int16_t s; memcpy(&s, b + 2*i, 2);
            if (cut >= 0 && pos >= cut) { if (cut & 1) { obuf[on_++] = 7; } flush1(); goto out; }
            double x = s; if (s < mn) mn = s; if (s > mxv) mxv = s; en += x * x;
            if (pos) { double d = fabs(x - prev); if (d > worst) worst = d; } prev = s;
            for (int q = 0; q < m; q++) { double ph = 2*M_PI*fmod((f1 + q*sp) * (double)pos / fs, 1.0); acc[q][0] += x*cos(ph); acc[q][1] -= x*sin(ph); }
            pos++;
            if (++k == ts) {
                int best = 0; double be = -1, tot = 0; for (int q = 0; q < m; q++) { double e = acc[q][0]*acc[q][0] + acc[q][1]*acc[q][1]; tot += e; if (e > be) { be = e; best = q; } acc[q][0] = acc[q][1] = 0; }
                if (nsym + 2 > cap) { cap = 2*(nsym + 1024); sym = realloc(sym, cap); }
                sym[nsym++] = '0' + best; sym[nsym] = 0; k = 0;
            }
            if (ppm == 0) send1(x * gain, noise);
            else { for (; nextt <= pos - 1; nextt += 1 + ppm * 1e-6) { double fr = nextt - (pos - 2); if (fr < 0) fr = 0; send1((last + (x - last) * fr) * gain, noise); } last = x; }
        }
        flush1(); have -= 2*w; if (have) memmove(b, b + 2*w, have);
    }
    for (long i = 0; i < trail; i++) { int v = (int)lrint(noise * gauss2()); int16_t s = v; put((unsigned char *)&s, 2); }
out:
    fprintf(lg, "audio samples %ld left %ld min %d max %d worst %.1f rms %.2f sym %s\n", pos, k, mn, mxv, worst, pos ? sqrt(en / pos) : 0, sym);
    return 0;
}
/* @cmod m= fs= rs= f1= sp= amp= noise= seed= u8=: a complex transmitter of its own for one-bit-per-byte input */
static int s_cmod(void) {
    int m = argd("m", 4), fs = argd("fs", 48000), rsym = argd("rs", 100), u8 = argd("u8", 0), bps = m == 4 ? 2 : 1; double f1 = argd("f1", 1000), sp = argd("sp", 270), amp = argd("amp", 8000), noise = argd("noise", 0), ph = 0;
    long lead = argd("lead", 0), trail = argd("trail", 0); rn2 = (uint64_t)argd("seed", 1); unsigned char b[2], o[8192]; long on = 0;
    double t = 0, T = (double)fs / rsym; long pos = 0;
    for (int phase = 0; phase < 3; phase++) for (;;) {
        int s = 0; double a = amp; long cnt;
        if (phase == 1) { if (getall(b, bps) != bps) break; for (int i = 0; i < bps; i++) s = s << 1 | (b[i] == 1); t += T; cnt = (long)t - pos; pos += cnt; }
        else { a = 0; cnt = phase ? trail : lead; }
        for (long i = 0; i < cnt; i++) {
            ph = fmod(ph + (f1 + s*sp) / fs, 1.0); double re = a*cos(2*M_PI*ph) + (noise > 0 ? noise*gauss2() : 0), im = a*sin(2*M_PI*ph) + (noise > 0 ? noise*gauss2() : 0);
            if (u8) { double x = 127 + re/256, y = 127 + im/256; o[on++] = x < 0 ? 0 : x > 255 ? 255 : (int)lrint(x); o[on++] = y < 0 ? 0 : y > 255 ? 255 : (int)lrint(y); }
            else { int16_t x = re, y = im; memcpy(o + on, &x, 2); memcpy(o + on + 2, &y, 2); on += 4; }
            if (on > 8000) { put(o, on); on = 0; }
        }
        if (phase != 1) break;
    }
    put(o, on);
    return 0;
}

static void *run(void *x) {
    int i = (int)(intptr_t)x; me = &nd[i];
    pthread_mutex_lock(&mx); while (cur != i) pthread_cond_wait(&me->cv, &mx); pthread_mutex_unlock(&mx);
    cookie_io_functions_t r = { c_rd, NULL, c_sk, c_ci }, w = { NULL, c_wr, NULL, c_co }, e = { NULL, c_er, NULL, NULL };
    me->fi = fopencookie(me, "r", r); me->fo = fopencookie(me, "w", w); me->fe = fopencookie(me, "w", e); setvbuf(me->fe, NULL, _IONBF, 0);
    take(i); optind = 0; optarg = NULL;
    char *t = me->argv[0]; int rc = 99; char *av[64]; memcpy(av, me->argv, sizeof av);
    if (!strcmp(t, "gen")) rc = gen_main(me->argc, av); else if (!strcmp(t, "get")) rc = get_main(me->argc, av); else if (!strcmp(t, "putb")) rc = put_main(me->argc, av);
    else if (!strcmp(t, "mod")) rc = mod_main(me->argc, av); else if (!strcmp(t, "demod")) rc = demod_main(me->argc, av); else if (!strcmp(t, "horus")) rc = horus_main(me->argc, av);
    else if (!strcmp(t, "@file")) rc = s_file(); else if (!strcmp(t, "@bits")) rc = s_bits(); else if (!strcmp(t, "@audio")) rc = s_audio(); else if (!strcmp(t, "@cmod")) rc = s_cmod();
    sim_exit(rc);
    return NULL;
}
static int csv(char *s, int *o) { int n = 0; for (char *t = strtok(s, ","); t && n < 256; t = strtok(NULL, ",")) o[n++] = atoi(t); return n; }
int main(void) {
    lg = fdopen(dup(1), "w"); real_err = stderr; static char line[1 << 20]; setvbuf(lg, NULL, _IOFBF, 1 << 16);
    for (int i = 0; i < MAXN; i++) { lk[i].cap = 65536; lk[i].h = 1469598103934665603ull; pthread_cond_init(&nd[i].cv, NULL); }
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0; char *p = line, *k = strsep(&p, " ");
        if (!strcmp(k, "seed")) rs = strtoull(p, NULL, 10); else if (!strcmp(k, "sticky")) sticky = atoi(p); else if (!strcmp(k, "steps")) step_max = atol(p);
        else if (!strcmp(k, "node")) { node_t *n = &nd[nn]; n->in = nn - 1; n->out = nn; for (char *t; (t = strsep(&p, " ")) && n->argc < 60;) if (*t) n->argv[n->argc++] = strdup(t); nn++; }
        else {
            int i = strtol(p, &p, 10); if (*p == ' ') p++;
            if (!strcmp(k, "cap")) lk[i].cap = atol(p); else if (!strcmp(k, "rpat")) nd[i].nrp = csv(p, nd[i].rp); else if (!strcmp(k, "wpat")) nd[i].nwp = csv(p, nd[i].wp);
            else if (!strcmp(k, "kill")) nd[i].kill_at = atol(p); else if (!strcmp(k, "term")) nd[i].term_at = atol(p); else if (!strcmp(k, "eio")) nd[i].eio_at = atol(p); else if (!strcmp(k, "rec")) lk[i].rec = fopen(p, "wb");
            else if (!strcmp(k, "late")) sscanf(p, "%ld %ld", &nd[i].late_in, &nd[i].late_out);
            else if (!strcmp(k, "stall")) { sscanf(p, "%ld %ld", &nd[i].stall_from[nd[i].nst], &nd[i].stall_len[nd[i].nst]); if (nd[i].nst < 7) nd[i].nst++; }
            else { fprintf(stderr, "bad plan line %s\n", k); return 3; }
        }
    }
    for (int i = 0; i < nn; i++) { lk[i].b = malloc(lk[i].cap); nd[i].state = READY; }
    for (int i = 0; i < nn; i++) pthread_create(&nd[i].th, NULL, run, (void *)(intptr_t)i);
    pthread_mutex_lock(&mx); cur = rnd() % nn; take(cur); pthread_cond_signal(&nd[cur].cv);
    while (!all_done) pthread_cond_wait(&main_cv, &mx);
    pthread_mutex_unlock(&mx);
    for (int i = 0; i < nn; i++) pthread_join(nd[i].th, NULL);
    stderr = real_err;
    report();
    for (int i = 0; i < nn; i++) if (lk[i].rec) fclose(lk[i].rec);
    _exit(0);
}
