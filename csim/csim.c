/* Payload/relay node simulator for the generated Horus Binary v3 codec (horusbinaryv3/clib).
   Reads a plan (one operation per line) on standard input, prints one result line per operation.
     rec N tokens...                    build record N with the payload's own structures
     enc N buf SIZE FAIL                uper_encode_to_buffer into a buffer of SIZE bytes
     enc N new 0 FAIL                   uper_encode_to_new_buffer
     enc N cb CALL FAIL                 uper_encode, the output refuses from call number CALL on (0: never)
     dec HEX FAIL STACK REUSE [again]   uper_decode_complete; REUSE 1: into the structure of the previous decode, after ASN_STRUCT_RESET
     chk N                              asn_check_constraints
   FAIL: 0 never, n: the n-th allocation made by the library fails, -n: that one and all after it. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include "Telemetry.h"
#include "AdditionalSensors.h"
#include "AdditionalSensorType.h"
#include "CustomFieldValues.h"
#include "TemperatureSensors.h"
#include "MilliVoltSensors.h"
#include "asn_internal.h"

void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t);
void __real_free(void *);
static int armed, nalloc, failat, failed;
static long live, livebytes, peak;
static unsigned char fillbyte = 0xa5;
#define HDR 16
static int fails(void) {
    nalloc++;
    if (failat > 0 && nalloc == failat) { failed++; return 1; }
    if (failat < 0 && nalloc >= -failat) { failed++; return 1; }
    return 0;
}
/* a block of the library under test is preceded by its size, so that what is held can be counted */
static void *blk(size_t n, int zero) {
    unsigned char *p;
    if (n > (1u << 24)) { failed++; errno = ENOMEM; return NULL; }     /* the node has 16 MB */
    p = __real_malloc(n + HDR);
    if (!p) abort();
    memset(p + HDR, zero ? 0 : fillbyte, n);
    memcpy(p, &n, sizeof n); memcpy(p + 8, "csimblk", 8);
    live++; livebytes += n; if (livebytes > peak) peak = livebytes;
    return p + HDR;
}
void *__wrap_malloc(size_t n) {
    if (!armed) return __real_malloc(n);
    if (fails()) { errno = ENOMEM; return NULL; }
    return blk(n, 0);
}
void *__wrap_calloc(size_t a, size_t b) {
    if (!armed) return __real_calloc(a, b);
    if (fails() || (b && a > (size_t)-1 / b)) { errno = ENOMEM; return NULL; }
    return blk(a * b, 1);
}
void __wrap_free(void *q) {
    size_t n; unsigned char *p = q;
    if (!armed || !q) { __real_free(q); return; }
    memcpy(&n, p - HDR, sizeof n);
    if (memcmp(p - 8, "csimblk", 8)) { printf("badfree\n"); fflush(stdout); abort(); }
    live--; livebytes -= n; __real_free(p - HDR);
}
void *__wrap_realloc(void *q, size_t n) {
    size_t o; void *r;
    if (!armed) return __real_realloc(q, n);
    if (fails()) { errno = ENOMEM; return NULL; }
    if (!q) return blk(n, 0);
    memcpy(&o, (unsigned char *)q - HDR, sizeof o);
    r = blk(n, 0); if (!r) return NULL;
    memcpy(r, q, o < n ? o : n);
    __wrap_free(q);
    return r;
}

#define MAXREC 64
static Telemetry_t *recs[MAXREC];
static char *tk[4096]; static int ntk;

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static unsigned char *unhex(const char *s, size_t *n) {        /* "-" is empty */
    size_t l = strcmp(s, "-") ? strlen(s) / 2 : 0, i;
    unsigned char *b = malloc(l ? l : 1);
    for (i = 0; i < l; i++) b[i] = hexv(s[2 * i]) * 16 + hexv(s[2 * i + 1]);
    *n = l; return b;
}
static void setstr(OCTET_STRING_t *o, const char *hex) { size_t n; o->buf = unhex(hex, &n); o->size = n; }
static long *newl(const char *s) { long *p = malloc(sizeof *p); *p = strtol(s, 0, 10); return p; }
static void addl(void *list, const char *csv) {
    char *s = strdup(csv), *t, *sv = NULL;
    for (t = strtok_r(s, ",", &sv); t; t = strtok_r(NULL, ",", &sv)) ASN_SEQUENCE_ADD(list, newl(t));
    free(s);
}
static Telemetry_t *build(void) {
    Telemetry_t *p = calloc(1, sizeof *p);
    AdditionalSensorType_t *s = NULL;
    int i;
    for (i = 2; i < ntk; i++) {
        char *k = tk[i], *v = strchr(k, '=');
        if (!v) abort();
        *v++ = 0;
        if (!strcmp(k, "call")) setstr(&p->payloadCallsign, v);
        else if (!strcmp(k, "seq")) p->sequenceNumber = atol(v);
        else if (!strcmp(k, "tod")) p->timeOfDaySeconds = atol(v);
        else if (!strcmp(k, "lat")) p->latitude = atol(v);
        else if (!strcmp(k, "lon")) p->longitude = atol(v);
        else if (!strcmp(k, "alt")) p->altitudeMeters = atol(v);
        else if (!strcmp(k, "vh")) p->velocityHorizontalKilometersPerHour = newl(v);
        else if (!strcmp(k, "sats")) p->gnssSatellitesVisible = newl(v);
        else if (!strcmp(k, "asc")) p->ascentRateCentimetersPerSecond = newl(v);
        else if (!strcmp(k, "pres")) p->pressurehPa_x10 = newl(v);
        else if (!strcmp(k, "hum")) p->humidityPercentage = newl(v);
        else if (!strcmp(k, "psm")) p->gnssPowerSaveState = newl(v);
        else if (!strcmp(k, "temp")) p->temperatureCelsius_x10 = calloc(1, sizeof *p->temperatureCelsius_x10);
        else if (!strcmp(k, "ti")) p->temperatureCelsius_x10->internal = newl(v);
        else if (!strcmp(k, "te")) p->temperatureCelsius_x10->external = newl(v);
        else if (!strcmp(k, "t1")) p->temperatureCelsius_x10->custom1 = newl(v);
        else if (!strcmp(k, "t2")) p->temperatureCelsius_x10->custom2 = newl(v);
        else if (!strcmp(k, "mv")) p->milliVolts = calloc(1, sizeof *p->milliVolts);
        else if (!strcmp(k, "mb")) p->milliVolts->battery = newl(v);
        else if (!strcmp(k, "ms")) p->milliVolts->solar = newl(v);
        else if (!strcmp(k, "m1")) p->milliVolts->custom1 = newl(v);
        else if (!strcmp(k, "m2")) p->milliVolts->custom2 = newl(v);
        else if (!strcmp(k, "cnt")) { p->counts = calloc(1, sizeof *p->counts); addl(&p->counts->list, v); }
        else if (!strcmp(k, "cd")) { p->customData = calloc(1, sizeof *p->customData); setstr(p->customData, v); }
        else if (!strcmp(k, "ex")) p->extraSensors = calloc(1, sizeof *p->extraSensors);
        else if (!strcmp(k, "s")) { s = calloc(1, sizeof *s); ASN_SEQUENCE_ADD(&p->extraSensors->list, s); }
        else if (!strcmp(k, "sn")) { s->name = calloc(1, sizeof *s->name); setstr(s->name, v); }
        else if (!strcmp(k, "si")) { s->values = calloc(1, sizeof *s->values); s->values->present = CustomFieldValues_PR_horusInt; addl(&s->values->choice.horusInt.list, v); }
        else if (!strcmp(k, "ss")) { s->values = calloc(1, sizeof *s->values); s->values->present = CustomFieldValues_PR_horusStr; setstr(&s->values->choice.horusStr, v); }
        else if (!strcmp(k, "sr")) {
            char *t, *sv = NULL, *c = strdup(v);
            s->values = calloc(1, sizeof *s->values); s->values->present = CustomFieldValues_PR_horusReal;
            for (t = strtok_r(c, ",", &sv); t; t = strtok_r(NULL, ",", &sv)) {
                double *d = malloc(sizeof *d); unsigned long long u = strtoull(t, 0, 16); memcpy(d, &u, 8);
                ASN_SEQUENCE_ADD(&s->values->choice.horusReal.list, d);
            }
            free(c);
        } else if (!strcmp(k, "sb")) {
            BitFlags_t *b; s->values = calloc(1, sizeof *s->values); s->values->present = CustomFieldValues_PR_horusBool; b = &s->values->choice.horusBool;
            b->b0 = v[0] != '0'; b->b1 = v[1] != '0'; b->b2 = v[2] != '0'; b->b3 = v[3] != '0'; b->b4 = v[4] != '0'; b->b5 = v[5] != '0'; b->b6 = v[6] != '0'; b->b7 = v[7] != '0';
        } else abort();
    }
    return p;
}
static void phex(const char *k, const unsigned char *b, size_t n) {
    size_t i; printf(" %s=", k); if (!n) printf("-"); for (i = 0; i < n; i++) printf("%02x", b[i]);
}
static void pl(const char *k, const long *v) { if (v) printf(" %s=%ld", k, *v); }
static void plist(const char *k, long **a, int n) { int i; printf(" %s=", k); for (i = 0; i < n; i++) printf("%s%ld", i ? "," : "", *a[i]); }
static void show(const Telemetry_t *p) {
    int i, j;
    phex("call", p->payloadCallsign.buf, p->payloadCallsign.size);
    printf(" seq=%ld tod=%ld lat=%ld lon=%ld alt=%ld", p->sequenceNumber, p->timeOfDaySeconds, p->latitude, p->longitude, p->altitudeMeters);
    if (p->extraSensors) {
        printf(" ex=1");
        for (i = 0; i < p->extraSensors->list.count; i++) {
            AdditionalSensorType_t *s = p->extraSensors->list.array[i];
            printf(" s=1");
            if (s->name) phex("sn", s->name->buf, s->name->size);
            if (s->values) switch (s->values->present) {
                case CustomFieldValues_PR_horusInt: plist("si", s->values->choice.horusInt.list.array, s->values->choice.horusInt.list.count); break;
                case CustomFieldValues_PR_horusStr: phex("ss", s->values->choice.horusStr.buf, s->values->choice.horusStr.size); break;
                case CustomFieldValues_PR_horusReal:
                    printf(" sr=");
                    for (j = 0; j < s->values->choice.horusReal.list.count; j++) { unsigned long long u; memcpy(&u, s->values->choice.horusReal.list.array[j], 8); printf("%s%016llx", j ? "," : "", u); }
                    break;
                case CustomFieldValues_PR_horusBool: { BitFlags_t *b = &s->values->choice.horusBool;
                    printf(" sb=%d%d%d%d%d%d%d%d", !!b->b0, !!b->b1, !!b->b2, !!b->b3, !!b->b4, !!b->b5, !!b->b6, !!b->b7); break; }
                default: printf(" sv=none");
            }
        }
    }
    pl("vh", p->velocityHorizontalKilometersPerHour); pl("sats", p->gnssSatellitesVisible); pl("asc", p->ascentRateCentimetersPerSecond); pl("pres", p->pressurehPa_x10);
    if (p->temperatureCelsius_x10) { printf(" temp=1"); pl("ti", p->temperatureCelsius_x10->internal); pl("te", p->temperatureCelsius_x10->external); pl("t1", p->temperatureCelsius_x10->custom1); pl("t2", p->temperatureCelsius_x10->custom2); }
    pl("hum", p->humidityPercentage);
    if (p->milliVolts) { printf(" mv=1"); pl("mb", p->milliVolts->battery); pl("ms", p->milliVolts->solar); pl("m1", p->milliVolts->custom1); pl("m2", p->milliVolts->custom2); }
    if (p->counts) plist("cnt", p->counts->list.array, p->counts->list.count);
    pl("psm", p->gnssPowerSaveState);
    if (p->customData) phex("cd", p->customData->buf, p->customData->size);
}
static unsigned char cbuf[8192]; static size_t clen; static int ccall, cfail;
static int consume(const void *b, size_t n, void *key) {
    (void)key;
    if (++ccall == cfail || (cfail && ccall > cfail)) return -1;
    if (clen + n > sizeof cbuf) return -1;
    memcpy(cbuf + clen, b, n); clen += n; return 0;
}
static void arm(int f) { failat = f; nalloc = failed = 0; live = livebytes = peak = 0; armed = 1; }

/* the library measures its own stack use by comparing addresses: no fake stack */
const char *__asan_default_options(void) { return "detect_stack_use_after_return=0:detect_leaks=0"; }
int main(void) {
    static char line[1 << 16]; Telemetry_t *kept = NULL; long keptlive = 0;
    while (fgets(line, sizeof line, stdin)) {
        char *sv = NULL, *t; ntk = 0;
        for (t = strtok_r(line, " \n", &sv); t && ntk < 4096; t = strtok_r(NULL, " \n", &sv)) tk[ntk++] = t;
        if (!ntk) continue;
        if (!strcmp(tk[0], "fill")) fillbyte = atoi(tk[1]);
        else if (!strcmp(tk[0], "rec")) recs[atoi(tk[1])] = build();
        else if (!strcmp(tk[0], "chk")) {
            char e[256]; size_t el = sizeof e; int r;
            arm(0); r = asn_check_constraints(&asn_DEF_Telemetry, recs[atoi(tk[1])], e, &el); armed = 0;
            printf("chk %d live=%ld\n", r, live);
        } else if (!strcmp(tk[0], "enc")) {
            Telemetry_t *p = recs[atoi(tk[1])]; int size = atoi(tk[3]); asn_enc_rval_t ec; size_t bytes = 0; unsigned char *b = NULL; void *nb = NULL; long held = 0;
            if (!strcmp(tk[2], "buf")) {
                b = malloc(size ? size : 1); memset(b, 0x5c, size);
                arm(atoi(tk[4])); ec = uper_encode_to_buffer(&asn_DEF_Telemetry, NULL, p, b, size); armed = 0; held = live;
                if (ec.encoded >= 0) { bytes = (ec.encoded + 7) / 8; if (bytes > (size_t)size) { printf("\n"); fflush(stdout); fprintf(stderr, "Assertion: %zu bytes reported in a buffer of %d\n", bytes, size); abort(); } memcpy(cbuf, b, bytes); }
                free(b);
            } else if (!strcmp(tk[2], "new")) {
                ssize_t r; arm(atoi(tk[4])); r = uper_encode_to_new_buffer(&asn_DEF_Telemetry, NULL, p, &nb);
                ec.encoded = r; ec.failed_type = NULL; if (r > 0) { bytes = r; memcpy(cbuf, nb, bytes); }
                if (nb) free(nb);
                armed = 0; held = live;
            } else {
                clen = 0; ccall = 0; cfail = size;
                arm(atoi(tk[4])); ec = uper_encode(&asn_DEF_Telemetry, NULL, p, consume, NULL); armed = 0; held = live;
                bytes = clen;
            }
            printf("enc %ld allocs=%d failed=%d live=%ld calls=%d", (long)ec.encoded, nalloc, failed, held, ccall);
            if (ec.encoded >= 0) phex("hex", cbuf, bytes);
            printf("\n");
        } else if (!strcmp(tk[0], "dec")) {
            size_t n; unsigned char *b = unhex(tk[1], &n), *q = malloc(n ? n : 1); int reuse = atoi(tk[4]); asn_codec_ctx_t ctx; Telemetry_t *p = NULL; asn_dec_rval_t r; long base;
            memcpy(q, b, n);
            memset(&ctx, 0, sizeof ctx); ctx.max_stack_size = atoi(tk[3]);
            if (reuse && kept) { p = kept; }
            base = keptlive;
            arm(0); live = base;
            if (p) { ASN_STRUCT_RESET(asn_DEF_Telemetry, p); }
            failat = atoi(tk[2]); nalloc = failed = 0;
            r = uper_decode_complete(ctx.max_stack_size ? &ctx : NULL, &asn_DEF_Telemetry, (void **)&p, q, n);
            armed = 0;
            printf("dec %d consumed=%ld allocs=%d failed=%d peak=%ld", (int)r.code, (long)r.consumed, nalloc, failed, peak);
            if (r.code == RC_OK) show(p);
            memset(q, 0xee, n); free(q); free(b);
            armed = 1; failat = 0;
            if (r.code == RC_OK && !asn_check_constraints(&asn_DEF_Telemetry, p, 0, 0)) {      /* passed on to the next node */
                void *nb = NULL; ssize_t k = uper_encode_to_new_buffer(&asn_DEF_Telemetry, NULL, p, &nb);
                if (k > 0) phex("re", nb, k); else printf(" re=refused");
                if (nb) free(nb);
            }
            if (!reuse || r.code != RC_OK) { ASN_STRUCT_FREE(asn_DEF_Telemetry, p); if (p == kept) { kept = NULL; keptlive = 0; base = 0; } }
            else { if (kept && kept != p) abort(); kept = p; keptlive = live; }
            armed = 0;
            printf(" live=%ld\n", reuse && r.code == RC_OK ? 0 : live - (kept ? keptlive : 0));
        }
        fflush(stdout);
    }
    armed = 1; failat = 0; live = keptlive;
    if (kept) ASN_STRUCT_FREE(asn_DEF_Telemetry, kept);
    armed = 0;
    printf("end live=%ld\n", live);
    return 0;
}
