/* receivers and packet coders, each in a thread of its own, against what each of them reports when alone */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <time.h>
#include <pthread.h>
#include "horus_api.h"
#include "horus_l2.h"

#define NT 8
typedef struct { int id, bad; short *air; int n; unsigned char p[4][22], tx[4][64]; int ntx; } work;
static volatile int stop;

static void make(work *w) {
    unsigned s = 12345u + 977u * w->id;
    char *sym = malloc(8000); int ns = 0;
    for (int i = 0; i < 250; i++) sym[ns++] = "0123"[i % 4] - '0';
    for (int k = 0; k < 4; k++) {
        for (int i = 0; i < 20; i++) { s = s * 1103515245u + 12345u; w->p[k][i] = s >> 16; }
        unsigned short c = horus_l2_gen_crc16(w->p[k], 20); w->p[k][20] = c & 255; w->p[k][21] = c >> 8;
        w->ntx = horus_l2_encode_tx_packet(w->tx[k], w->p[k], 22);
        unsigned char t[64]; memcpy(t, w->tx[k], 64); t[5 + k] ^= 0x10; t[20 + k] ^= 0x02;      /* two errors on the air */
        for (int i = 0; i < w->ntx; i++) for (int b = 6; b >= 0; b -= 2) sym[ns++] = (t[i] >> b) & 3;
        for (int i = 0; i < 60 + 13 * w->id; i++) sym[ns++] = i % 4;
    }
    w->n = ns * 16; w->air = malloc(sizeof(short) * (w->n + 4000));
    double ph = 0;
    for (int i = 0; i < w->n + 4000; i++) { double f = 1000 + 31 * w->id + 500 * (i < w->n ? sym[i / 16] : 0); ph += 2 * M_PI * f / 8000; w->air[i] = (short)(8000 * cos(ph)); }
    free(sym);
}
/* number of the packets it should have delivered, or -1 if it delivered something else */
static int receive(work *w) {
    struct horus *h = horus_open_advanced_sample_rate(HORUS_MODE_BINARY_V1, 500, 500, 8000, 8);
    char *out = malloc(horus_get_max_ascii_out_len(h)); int got = 0, pos = 0;
    while (pos + (int)horus_nin(h) <= w->n + 4000) {
        int n = horus_nin(h);
        if (horus_rx(h, out, w->air + pos, 0) && horus_crc_ok(h)) {
            char want[64] = ""; for (int i = 0; i < 22; i++) sprintf(want + 2 * i, "%02X", w->p[got][i]);
            if (strcmp(want, out)) { got = -1; break; }
            if (++got == 4) break;
        }
        pos += n;
    }
    free(out); horus_close(h);
    return got;
}
static int codec(work *w) {
    unsigned char tx[64], p[32];
    for (int k = 0; k < 4; k++) {
        horus_l2_encode_tx_packet(tx, w->p[k], 22);
        if (memcmp(tx, w->tx[k], w->ntx)) return 1;
        tx[7 + k] ^= 4;
        horus_l2_decode_rx_packet(p, tx, 22);
        if (memcmp(p, w->p[k], 22)) return 2;
    }
    return 0;
}
static void *rx_thread(void *a) { work *w = a; while (!stop) if (receive(w) != 4) { w->bad = 1; stop = 1; } return NULL; }
static void *co_thread(void *a) { work *w = a; while (!stop) if (codec(w)) { w->bad = 2; stop = 1; } return NULL; }

int main(int argc, char **argv) {
    int secs = argc > 1 ? atoi(argv[1]) : 20;
    static work w[NT]; pthread_t t[NT]; int bad = 0;
    horus_l2_init();
    for (int i = 0; i < NT; i++) { w[i].id = i; make(&w[i]); if (receive(&w[i]) != 4 || codec(&w[i])) { printf("thread %d does not even work alone\n", i); return 2; } }
    for (int i = 0; i < NT; i++) pthread_create(&t[i], NULL, i % 3 == 2 ? co_thread : rx_thread, &w[i]);
    for (int i = 0; i < secs * 10 && !stop; i++) nanosleep(&(struct timespec){0, 100000000}, NULL);
    stop = 1;
    for (int i = 0; i < NT; i++) { pthread_join(t[i], NULL); if (w[i].bad) { printf("thread %d: %s\n", i, w[i].bad == 1 ? "a packet was not delivered" : "a packet was coded wrongly"); bad = 1; } }
    return bad;
}
