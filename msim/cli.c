/* Runs the project's command-line demodulator with its standard streams under control.
   cli PCM PATTERN SEEK END OUT -- horus_demod arguments
   PATTERN  comma separated sizes of successive read results, repeated (0 = as much as asked)
   SEEK     1: input is seekable (a file), 0: a pipe
   END      e: end of file; i: read error
   OUT      path watched at every read (named output), or "-"
   stdout of this process: the event log.  "R delivered" at each read request, "W hex" for bytes written to the tool's stdout. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include <getopt.h>
#include <unistd.h>

static unsigned char *in; static long in_n, in_pos; static int pat[4096], npat, ipat, seekable; static char end_kind; static const char *pcm, *outp;
static FILE *logf_; static FILE *fake_in, *fake_out;

static void watch(void) {
    if (!strcmp(outp, "-")) return;
    FILE *f = fopen(outp, "rb"); if (!f) { fprintf(logf_, "F 0\n"); return; }
    fseek(f, 0, SEEK_END); fprintf(logf_, "F %ld\n", ftell(f)); fclose(f);
}
static ssize_t rd(void *c, char *buf, size_t n) {
    watch(); fprintf(logf_, "R %ld\n", in_pos);
    long k = pat[ipat++ % npat]; if (k <= 0 || k > (long)n) k = n;
    if (k > in_n - in_pos) k = in_n - in_pos;
    if (k == 0 && end_kind == 'i') { errno = EIO; return -1; }
    memcpy(buf, in + in_pos, k); in_pos += k;
    return k;
}
static int sk(void *c, off64_t *o, int w) {
    if (!seekable) { errno = ESPIPE; return -1; }
    long p = w == SEEK_SET ? *o : w == SEEK_CUR ? in_pos + *o : in_n + *o;
    if (p < 0) { errno = EINVAL; return -1; }
    in_pos = p; *o = p; return 0;
}
static ssize_t wr(void *c, const char *buf, size_t n) {
    fprintf(logf_, "W "); for (size_t i = 0; i < n; i++) fprintf(logf_, "%02x", (unsigned char)buf[i]); fprintf(logf_, "\n");
    return n;
}
static FILE *mkin(void) { cookie_io_functions_t f = { rd, NULL, sk, NULL }; return fake_in = fopencookie(NULL, "r", f); }
static FILE *sim_fopen(const char *p, const char *m) { if (!strcmp(p, pcm) && *m == 'r') return mkin(); return fopen(p, m); }

#define main horus_demod_main
#define fopen sim_fopen
#include "horus_demod.c"
#undef main
#undef fopen

static int ended;
static void fin_(void) { if (!ended) { ended = 1; if (fake_out) fflush(fake_out); fprintf(logf_, "EXITED\n"); fflush(logf_); } }

int main(int argc, char **argv) {
    if (argc < 8) return 3;
    pcm = argv[1]; outp = argv[5]; seekable = atoi(argv[3]); end_kind = argv[4][0];
    for (char *t = strtok(argv[2], ","); t && npat < 4096; t = strtok(NULL, ",")) pat[npat++] = atoi(t);
    FILE *f = fopen(pcm, "rb"); if (!f) return 3;
    fseek(f, 0, SEEK_END); in_n = ftell(f); rewind(f); in = malloc(in_n + 1); if (fread(in, 1, in_n, f) != in_n) return 3; fclose(f);
    logf_ = fdopen(dup(1), "w");
    cookie_io_functions_t w = { NULL, wr, NULL, NULL };
    fake_out = fopencookie(NULL, "w", w);
    stdin = mkin(); stdout = fake_out;
    int a = 7; char **av = argv + a - 1; av[0] = "horus_demod";
    atexit(fin_);
    int rc = horus_demod_main(argc - a + 1, av);
    fflush(NULL); watch(); ended = 1;
    fprintf(logf_, "RET %d\n", rc); fflush(logf_);
    return rc;
}
