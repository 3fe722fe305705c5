From 852cb241da694c2dd4a63a238bd5245744d95aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 01/38] fix: a full unique word table no longer hides the
 packets that follow

---
 src/horus_api.c | 11 ++++++++++-
 src/horus_api.h |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 01cd1a9..85a382b 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -293,8 +293,17 @@ void horus_find_uw(struct horus *hstates) {
         
         /* peak pick maximum */
         
-        if (corr >= hstates->uw_thresh && hstates->uw_count < MAX_UW_TO_TRACK) {
+        if (corr >= hstates->uw_thresh) {
             int pos = hstates->rx_bits_len-n+i;
+
+            /* if we are already tracking as many UWs as we can, forget the oldest one,
+               so that a run of UW-like bits can't hide the packet that follows it */
+            if (hstates->uw_count == MAX_UW_TO_TRACK) {
+                for (int h=1; h<hstates->uw_count; h++) {
+                    hstates->uw_loc[h-1] = hstates->uw_loc[h];
+                }
+                hstates->uw_count--;
+            }
             for (int h=0; h< hstates->uw_count;h++){
                 if (hstates->uw_loc[h] == pos){
                     if (hstates->verbose) {
diff --git a/src/horus_api.h b/src/horus_api.h
index b63a203..4e3f9f4 100644
--- a/src/horus_api.h
+++ b/src/horus_api.h
@@ -95,7 +95,7 @@
 #define MAX_UW_LENGTH                  100
 #define HORUS_API_VERSION                3    /* unique number that is bumped if API changes */
 
-#define MAX_UW_TO_TRACK 32
+#define MAX_UW_TO_TRACK 128
 
 struct horus {
     int         mode;
-- 
2.43.0


From 0566c1ae794d67bccbdd584e40f8bafb1bcb8dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 02/38] fix: RTTY extraction no longer reads or writes past its
 buffers when the checksum arrives late

---
 src/horus_api.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 85a382b..4f1b4f2 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -384,7 +384,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
             endpacket = 1;
             rtty_start = 0;
             // Find the end of the $$s
-            for(k = 0; k<8; k++){
+            for(k = 0; k<8 && k<nout; k++){
                 if(ascii_out[k] != 36){
                     rtty_start = k;
                     break;
@@ -399,8 +399,10 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
             if (hstates->verbose){
                 fprintf(stderr, "  begin endpacket\n");
             }
-            // Only process up to the next 5 characters (checksum + line ending)
-            en = i + (ascii_bits+stop_bits+1)*5;
+            // Only process up to the next 5 characters (checksum + line ending), but never past the max length packet
+            if (i + (ascii_bits+stop_bits+1)*5 < en) {
+                en = i + (ascii_bits+stop_bits+1)*5;
+            }
         }
 
         /* build up output array, really only need up to tx crc but
@@ -414,7 +416,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
     /* if we found the end of packet flag and have enough chars to compute checksum ... */
 
     //fprintf(stderr, "\n\ntx CRC...\n");
-    if (endpacket && (pout > (ptx_crc+3))) {
+    if (endpacket && (pout > (ptx_crc+3)) && (nout < horus_get_max_ascii_out_len(hstates))) {
         tx_crc = 0;
         for(i=0; i<4; i++) {
             tx_crc <<= 4;
@@ -439,12 +441,6 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
                 endpacket, nout, tx_crc, rx_crc);
     }
             
-    /* make sure we don't overrun storage */
-    
-    if(nout > horus_get_max_ascii_out_len(hstates)){
-        return 0;
-    }
-
     hstates->crc_ok = crc_ok;
     
     return crc_ok;
-- 
2.43.0


From a27a78eb91a743f4ede1b69f95ef2b95369f7c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 03/38] fix: RTTY checksums with non-hexadecimal characters are
 no longer accepted

---
 src/horus_api.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 4f1b4f2..859f1ca 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -417,15 +417,19 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
 
     //fprintf(stderr, "\n\ntx CRC...\n");
     if (endpacket && (pout > (ptx_crc+3)) && (nout < horus_get_max_ascii_out_len(hstates))) {
+        int crc_is_hex = 1;
         tx_crc = 0;
         for(i=0; i<4; i++) {
+            if (hex2int(ptx_crc[i]) < 0) {
+                crc_is_hex = 0;
+            }
             tx_crc <<= 4;
             tx_crc |= hex2int(ptx_crc[i]);
             if (hstates->verbose){
                 fprintf(stderr, "ptx_crc[%d] %c 0x%02X tx_crc: 0x%04X\n", i, ptx_crc[i], hex2int(ptx_crc[i]), tx_crc);
             }
         }
-        crc_ok = (tx_crc == rx_crc);
+        crc_ok = crc_is_hex && (tx_crc == rx_crc);
         *(ptx_crc+4) = 0;  /* terminate ASCII string */
 
         if (crc_ok) {
-- 
2.43.0


From f7c40e0ef45c589b9bcc858402d5366e96eadb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 04/38] fix: clear every unique word near a decoded RTTY
 sentence, so it is reported once

---
 src/horus_api.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 859f1ca..793779d 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -720,8 +720,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                int found_loc = hstates->uw_loc[uw_idx];
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear]  - found_loc < 100) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
@@ -737,8 +738,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                int found_loc = hstates->uw_loc[uw_idx];
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear]  - found_loc < 100) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
@@ -753,8 +755,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                int found_loc = hstates->uw_loc[uw_idx];
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear]  - found_loc < 100) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
-- 
2.43.0


From 45a5cbd50ee4e433d3d5ee780f5b9a3d248effa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 05/38] fix: the RTTY checksum is never taken over the leading
 $ characters

---
 src/horus_api.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 793779d..ee7b3e2 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -355,7 +355,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
         fprintf(stderr, "st: %d, en: %d %d %d\n", st, en, ascii_bits, stop_bits);
     }
 
-    int      i, j, k, endpacket, nout, crc_ok, rtty_start;
+    int      i, j, k, endpacket, nout, crc_ok, rtty_start = -1;
     uint8_t  char_dec;
     char    *pout, *ptx_crc;
     uint16_t rx_crc, tx_crc;
@@ -382,7 +382,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
 
         if (!endpacket && (char_dec == 42)) {
             endpacket = 1;
-            rtty_start = 0;
+            rtty_start = -1;
             // Find the end of the $$s
             for(k = 0; k<8 && k<nout; k++){
                 if(ascii_out[k] != 36){
@@ -394,7 +394,9 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
                 fprintf(stderr, "  Found %d $s\n", rtty_start);
             }
 
-            rx_crc = horus_l2_gen_crc16((uint8_t*)&ascii_out[rtty_start], nout-rtty_start);
+            if (rtty_start >= 0) {
+                rx_crc = horus_l2_gen_crc16((uint8_t*)&ascii_out[rtty_start], nout-rtty_start);
+            }
             ptx_crc = pout + 1; /* start of tx CRC */
             if (hstates->verbose){
                 fprintf(stderr, "  begin endpacket\n");
@@ -429,7 +431,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
                 fprintf(stderr, "ptx_crc[%d] %c 0x%02X tx_crc: 0x%04X\n", i, ptx_crc[i], hex2int(ptx_crc[i]), tx_crc);
             }
         }
-        crc_ok = crc_is_hex && (tx_crc == rx_crc);
+        crc_ok = crc_is_hex && (rtty_start >= 0) && (tx_crc == rx_crc);
         *(ptx_crc+4) = 0;  /* terminate ASCII string */
 
         if (crc_ok) {
-- 
2.43.0


From 5bcda183e353f4fe5a13bd163b6dbddc746d4196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 06/38] fix: RTTY extraction waits for all the bits of the last
 character

---
 src/horus_api.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index ee7b3e2..2a7562b 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -345,7 +345,8 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
     int st = uw_loc;                                    /* first bit of first char        */
     int en = st + hstates->max_packet_len - nfield;          /* last bit of max length packet  */
 
-    if (en > hstates->rx_bits_len){
+    /* the last character starts before en, so all bits of a max length packet are needed */
+    if (st + hstates->max_packet_len > hstates->rx_bits_len){
         if (hstates->verbose) {
             fprintf(stderr,"not enough data yet");
         }
-- 
2.43.0


From 689e85899f135ffd5ddda09d465e23e6cb415eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 07/38] fix: closing a receiver frees all the memory it
 allocated

---
 src/fsk.c       | 1 +
 src/horus_api.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/fsk.c b/src/fsk.c
index f88bb9c..05c5a09 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -252,6 +252,7 @@ struct FSK * fsk_create_hbr(int Fs, int Rs, int M, int P, int Nsym, int tx_f1, i
 void fsk_destroy(struct FSK *fsk){
     free(fsk->f_dc);
     free(fsk->fft_cfg);
+    free(fsk->Sf);
     free(fsk->stats);
     free(fsk->hann_table);
     free(fsk);
diff --git a/src/horus_api.c b/src/horus_api.c
index 2a7562b..99804e2 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -259,6 +259,7 @@ void horus_close (struct horus *hstates) {
     assert(hstates != NULL);
     fsk_destroy(hstates->fsk);
     free(hstates->rx_bits);
+    free(hstates->soft_bits);
     free(hstates);
 }
 
-- 
2.43.0


From 5e1487c0ceec56bb0cb941c6c557b64e2c6f7cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 08/38] fix: modem statistics and packet version are defined
 before the first block

---
 src/fsk.c       | 9 +++++++--
 src/horus_api.c | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fsk.c b/src/fsk.c
index 05c5a09..b3049c9 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -191,8 +191,10 @@ struct FSK * fsk_create_core(int Fs, int Rs, int M, int P, int Nsym, int tx_f1,
     /* Set up demod stats */
     fsk->EbNodB = 0;
     
-    for( i=0; i<M; i++)
+    for( i=0; i<M; i++) {
         fsk->f_est[i] = 0; 
+        fsk->f2_est[i] = 0;
+    }
     
     fsk->ppm = 0;
     
@@ -981,7 +983,10 @@ static void stats_init(struct FSK *fsk) {
     }
 
     fsk->stats->rx_timing = fsk->stats->snr_est = 0;
-    
+    fsk->stats->clock_offset = fsk->stats->foff = 0;
+    fsk->stats->nr = fsk->stats->Nc = 0;
+    for(m=0; m<M; m++)
+        fsk->stats->f_est[m] = 0;
 }
 
 
diff --git a/src/horus_api.c b/src/horus_api.c
index 99804e2..89d185f 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -250,6 +250,7 @@ struct horus *horus_open_advanced_sample_rate (int mode, int Rs, int tx_tone_spa
     }
 
     hstates->crc_ok = 0;
+    hstates->version = 0;
     hstates->total_payload_bits = 0;
     
     return hstates;
-- 
2.43.0


From 16e59c84a24af3d0c1857e65e9b90f61ac2c76bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 09/38] fix: the eye diagram of a silent input is zero, not NaN

---
 src/fsk.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fsk.c b/src/fsk.c
index b3049c9..8d38e95 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -913,9 +913,11 @@ void fsk_demod_core(struct FSK *fsk, uint8_t rx_bits[], float rx_sd[], COMP fsk_
                 if(fabsf(fsk->stats->rx_eye[i][j])>eye_max)
                     eye_max = fabsf(fsk->stats->rx_eye[i][j]);
         
-        for(i=0; i<M*eye_traces; i++)
-            for(j=0; j<neyesamp; j++)
-                fsk->stats->rx_eye[i][j] = fsk->stats->rx_eye[i][j]/eye_max;
+        if (eye_max > 0) {
+            for(i=0; i<M*eye_traces; i++)
+                for(j=0; j<neyesamp; j++)
+                    fsk->stats->rx_eye[i][j] = fsk->stats->rx_eye[i][j]/eye_max;
+        }
     }
 
     fsk->stats->nr = 0;
-- 
2.43.0


From 2c9632cb16e0d2b0886df8a67538a0e17e552ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 10/38] fix: RTTY text is cut at its terminator before it is
 decoded as ASCII

---
 horusdemodlib/demod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index 5b234e5..f64fbcd 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -211,7 +211,7 @@ class HorusLib():
             # Ascii
             try:
                 # Same thing here - we might have multiple bits of data
-                data_out = data_out.decode("ascii").split('\0')[0]
+                data_out = data_out.split(b'\0')[0].decode("ascii")
             except Exception as e:
                 logging.error(f"Couldn't decode ASCII - {str(e)} - {str(data_out)}")
                 data_out = ""
-- 
2.43.0


From fe853fa5121bb3c8a782bc20e350ee7b0de7ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:35 +0000
Subject: [PATCH 11/38] fix: add_samples processes a block as soon as it is
 complete

---
 horusdemodlib/demod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index f64fbcd..2e286d3 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -243,7 +243,7 @@ class HorusLib():
         while _processing:
             # Process data until we have less than _nin samples.
             _nin = int(self.nin*(self.audio_sample_rate/self.modem_sample_rate)) * (2 if self.stereo_iq else 1)
-            if len(self.input_buffer) > (_nin * 2):
+            if len(self.input_buffer) >= (_nin * 2):
                 # Demodulate
                 _frame = self.demodulate(self.input_buffer[:(_nin*2)])
 
-- 
2.43.0


From 0af8c97cef3c858d872494018ac352a52cbf19f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:35 +0000
Subject: [PATCH 12/38] fix: add_samples resamples the audio as one stream, so
 no block is short and nothing is lost

---
 horusdemodlib/demod.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index 2e286d3..fe239a9 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -124,7 +124,9 @@ class HorusLib():
 
         self.input_buffer = bytearray(b"")
 
-        
+        # Samples from input_buffer, resampled to the modem sample rate.
+        self.modem_buffer = bytearray(b"")
+
 
         # try to open the modem and set the verbosity
         self.hstates = horus_api.horus_open_advanced(
@@ -178,9 +180,15 @@ class HorusLib():
         demod_in : bytes
             16bit, signed for audio in. You'll need .nin frames in to work correctly.
         """
-        # resample to 48khz
-        (demod_in, self.resampler_state) = audioop.ratecv(demod_in, 2, 1+int(self.stereo_iq), self.audio_sample_rate, self.modem_sample_rate, self.resampler_state)
+        return self._demodulate_block(self._resample(demod_in))
 
+    def _resample(self, samples: bytes) -> bytes:
+        """ Resample whole audio frames to the modem sample rate (48 kHz) """
+        (samples, self.resampler_state) = audioop.ratecv(samples, 2, 1+int(self.stereo_iq), self.audio_sample_rate, self.modem_sample_rate, self.resampler_state)
+        return samples
+
+    def _demodulate_block(self, demod_in: bytes) -> Frame:
+        """ Demodulate one block of .nin frames of audio at the modem sample rate """
 
         audio_id_data = _horus_api_cffi.ffi.new("char[]",demod_in)
         data_in = _horus_api_cffi.ffi.cast( # cast bytes to short
@@ -238,17 +246,24 @@ class HorusLib():
         # Add samples to input buffer
         self.input_buffer.extend(samples)
 
+        # Resample all complete audio frames; part of a frame waits for the rest of it.
+        _frame_bytes = 2 * (2 if self.stereo_iq else 1)
+        _complete = len(self.input_buffer) - (len(self.input_buffer) % _frame_bytes)
+        if _complete > 0:
+            self.modem_buffer.extend(self._resample(bytes(self.input_buffer[:_complete])))
+            del self.input_buffer[:_complete]
+
         _processing = True
         _frame = None
         while _processing:
             # Process data until we have less than _nin samples.
-            _nin = int(self.nin*(self.audio_sample_rate/self.modem_sample_rate)) * (2 if self.stereo_iq else 1)
-            if len(self.input_buffer) >= (_nin * 2):
+            _nin = self.nin * (2 if self.stereo_iq else 1)
+            if len(self.modem_buffer) >= (_nin * 2):
                 # Demodulate
-                _frame = self.demodulate(self.input_buffer[:(_nin*2)])
+                _frame = self._demodulate_block(bytes(self.modem_buffer[:(_nin*2)]))
 
                 # Advance sample buffer.
-                self.input_buffer = self.input_buffer[(_nin*2):]
+                del self.modem_buffer[:(_nin*2)]
 
                 # If we have decoded a packet, send it on to the callback
                 if len(_frame.data) > 0:
-- 
2.43.0


From a6838e88c8eda00de3b9249993f4e118df02a87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:35 +0000
Subject: [PATCH 13/38] fix: a short block given to demodulate is completed
 with silence, not read past its end

---
 horusdemodlib/demod.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index fe239a9..3d46423 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -190,6 +190,11 @@ class HorusLib():
     def _demodulate_block(self, demod_in: bytes) -> Frame:
         """ Demodulate one block of .nin frames of audio at the modem sample rate """
 
+        # The modem always reads .nin frames: complete a short block with silence.
+        _block_bytes = self.nin * 2 * (2 if self.stereo_iq else 1)
+        if len(demod_in) < _block_bytes:
+            demod_in = bytes(demod_in) + bytes(_block_bytes - len(demod_in))
+
         audio_id_data = _horus_api_cffi.ffi.new("char[]",demod_in)
         data_in = _horus_api_cffi.ffi.cast( # cast bytes to short
             "short *",
-- 
2.43.0


From d880c04eda9ef01cf6a904ec40c8d1a275242b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:35 +0000
Subject: [PATCH 14/38] fix: horus_demod writes packets to the output file it
 was given, and flushes it after every block

---
 src/horus_demod.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/horus_demod.c b/src/horus_demod.c
index 45b3ac9..637c188 100644
--- a/src/horus_demod.c
+++ b/src/horus_demod.c
@@ -247,15 +247,15 @@ int main(int argc, char *argv[]) {
         }
 
         if (horus_rx(hstates, ascii_out, demod_in, quadrature)) {
-            fprintf(stdout, "%s", ascii_out);
+            fprintf(fout, "%s", ascii_out);
             if (crc_results) {
                 if (horus_crc_ok(hstates)) {
-                    fprintf(stdout, "  CRC OK");
+                    fprintf(fout, "  CRC OK");
                 } else {
-                    fprintf(stdout, "  CRC BAD");
+                    fprintf(fout, "  CRC BAD");
                 }
             }
-            fprintf(stdout, "\n");
+            fprintf(fout, "\n");
         }
         
         if (enable_stats && stats_ctr <= 0) {
@@ -318,8 +318,9 @@ int main(int argc, char *argv[]) {
 
         if (fin == stdin || fout == stdout){
             fflush(fin);
-            fflush(fout);
         }
+        fflush(fout);
+        fflush(stats_outfile);
     }
     
     horus_close(hstates);
-- 
2.43.0


From 6214b18e0ec60abdc5515eb09f4b153b23864714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:53 +0000
Subject: [PATCH 15/38] fix: a line with an odd number of hexadecimal digits no
 longer stops the uploader

---
 horusdemodlib/decoder.py  | 2 +-
 horusdemodlib/uploader.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index f53cd2e..5b30b15 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -360,7 +360,7 @@ def hex_to_bytes(data:str) -> bytes:
     try:
         _binary_string = codecs.decode(data, 'hex')
         return _binary_string
-    except TypeError as e:
+    except (TypeError, ValueError) as e:
         logging.error("Error parsing line as hexadecimal (%s): %s" % (str(e), data))
         return None
 
diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index bf0f4df..df0c6c6 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -214,7 +214,7 @@ def main():
                 logging.info(f"Received raw binary packet: {data}")
                 try:
                     _binary_string = codecs.decode(data, 'hex')
-                except TypeError as e:
+                except (TypeError, ValueError) as e:
                     logging.error("Error parsing line as hexadecimal (%s): %s" % (str(e), data))
                     continue
 
-- 
2.43.0


From 4c4bdd900f8afdf24c5e20b5feb200c621765594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:53 +0000
Subject: [PATCH 16/38] fix: undecodable bytes on stdin no longer stop the
 uploader

---
 horusdemodlib/uploader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index df0c6c6..7bad688 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -146,6 +146,11 @@ def main():
     demod_stats = FSKDemodStats(peak_hold=True)
 
     logging.info("Started Horus Demod Uploader. Hit CTRL-C to exit.")
+
+    # A corrupted line may not be valid text. Don't let that stop us from reading the lines that follow it.
+    if hasattr(sys.stdin, 'reconfigure'):
+        sys.stdin.reconfigure(errors='replace')
+
     # Main loop
     try:
         while True:
-- 
2.43.0


From 4c7e8bbf22fd264e954c1e0b6a19df94bdc3cf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:53 +0000
Subject: [PATCH 17/38] fix: statistics reports with missing, non-finite or
 wrongly typed values are discarded whole

---
 horusdemodlib/demodstats.py | 43 +++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/horusdemodlib/demodstats.py b/horusdemodlib/demodstats.py
index 9c37cb0..b4fe531 100644
--- a/horusdemodlib/demodstats.py
+++ b/horusdemodlib/demodstats.py
@@ -11,6 +11,7 @@
 import argparse
 import json
 import logging
+import re
 import socket
 import sys
 import time
@@ -77,10 +78,10 @@ class FSKDemodStats(object):
             # Attempt to parse string.
             try:
                 # Clean up any nan entries, which aren't valid JSON.
-                # For now we just replace these with 0, since they only seem to occur
-                # in the eye diagram data, which we don't use anyway.
+                # They usually only occur in the eye diagram data, which we don't use anyway.
+                # A nan in a field we do use is rejected below.
                 if 'nan' in data:
-                    data = data.replace('nan', '0.0')
+                    data = re.sub('-?nan', 'NaN', data)
 
                 _data = json.loads(data)
             except Exception as e:
@@ -98,21 +99,29 @@ class FSKDemodStats(object):
                 self.log_error("Missing Field %s" % _field)
                 return
 
+        # Check the values we are going to use are numbers, so that one bad report can't upset
+        # the statistics, or anything which uses them.
+        for _field in ['EbNodB', 'ppm', 'f1_est', 'f2_est', 'f3_est', 'f4_est']:
+            if _field in _data and not self.is_number(_data[_field]):
+                self.log_error("Field %s is not a number" % _field)
+                return
+
         # Now we can process the data.
         _time = time.time()
-        self.fft = _data['samp_fft']
-        self.fest = [0.0,0.0,0.0,0.0]
-        self.fest[0] = _data['f1_est']
-        self.fest[1] = _data['f2_est']
+        _fest = [0.0,0.0,0.0,0.0]
+        _fest[0] = _data['f1_est']
+        _fest[1] = _data['f2_est']
 
         if 'f3_est' in _data:
-            self.fest[2] = _data['f3_est']
+            _fest[2] = _data['f3_est']
 
             if 'f4_est' in _data:
-                self.fest[3] = _data['f4_est']
+                _fest[3] = _data['f4_est']
         else:
-            self.fest = self.fest[:2]
-        
+            _fest = _fest[:2]
+
+        self.fft = _data['samp_fft']
+        self.fest = _fest
         self.fest_mean = sum(self.fest) / len(self.fest) if self.fest else 0.0
 
         # Calculate the mean spacing between tones
@@ -153,6 +162,18 @@ class FSKDemodStats(object):
             self.snr = sum(_snrs) / len(_snrs)
 
 
+    @staticmethod
+    def is_number(value):
+        """ Check that a value is a number we can do statistics with.
+
+        Values beyond the range of a 32-bit float can't have been measured by the modem,
+        and might overflow when they are summed.
+        """
+        if isinstance(value, bool) or not isinstance(value, (int, float)):
+            return False
+        return -3.5e38 < value < 3.5e38
+
+
     def log_debug(self, line):
         """ Helper function to log a debug message with a descriptive heading. 
         Args:
-- 
2.43.0


From 946f22d99bd50fac483146161afe1d6f02342573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:53 +0000
Subject: [PATCH 18/38] fix: the uploader exits cleanly when uploading is
 disabled

---
 horusdemodlib/sondehubamateur.py | 4 ++++
 horusdemodlib/uploader.py        | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/sondehubamateur.py b/horusdemodlib/sondehubamateur.py
index a8a76e8..cfd5ce4 100644
--- a/horusdemodlib/sondehubamateur.py
+++ b/horusdemodlib/sondehubamateur.py
@@ -89,6 +89,10 @@ class SondehubAmateurUploader(object):
         # Input Queue.
         self.input_queue = Queue()
 
+        # The processing thread is not started if we are inhibited.
+        self.input_processing_running = False
+        self.input_process_thread = None
+
         # Record of when we last uploaded a user station position to Sondehub.
         self.last_user_position_upload = 0
 
diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index 7bad688..501d41e 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -291,7 +291,8 @@ def main():
         logging.info("Caught CTRL-C, exiting.")
 
     sondehub_uploader.close()
-    sondehub_uploader.input_process_thread.join()
+    if sondehub_uploader.input_process_thread is not None:
+        sondehub_uploader.input_process_thread.join()
 
 class HorusUploaderTests(unittest.TestCase):
     class mockArgs():
-- 
2.43.0


From 6d38e8ea255d8a84bf8a811403ba507f5ffbe80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:53 +0000
Subject: [PATCH 19/38] fix: telemetry accepted before the uploader is closed
 is still uploaded

---
 horusdemodlib/sondehubamateur.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/sondehubamateur.py b/horusdemodlib/sondehubamateur.py
index cfd5ce4..d1350c2 100644
--- a/horusdemodlib/sondehubamateur.py
+++ b/horusdemodlib/sondehubamateur.py
@@ -166,7 +166,11 @@ class SondehubAmateurUploader(object):
         """
         self.log_info("Started Sondehub Amateur Uploader Thread.")
 
-        while self.input_processing_running:
+        while True:
+
+            # Note if we have been closed before emptying the queue, so that everything
+            # added before then still gets uploaded.
+            _running = self.input_processing_running
 
             # Process everything in the queue.
             _to_upload = []
@@ -181,6 +185,9 @@ class SondehubAmateurUploader(object):
             if len(_to_upload) > 0:
                 self.upload_telemetry(_to_upload)
 
+            if not _running:
+                break
+
             # If we haven't uploaded our station position recently, re-upload it.
             if (
                 time.time() - self.last_user_position_upload
-- 
2.43.0


From 77812ddb90e62abd3f2ef66ec6a24678c01673fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:53 +0000
Subject: [PATCH 20/38] fix: telemetry without an altitude is not uploaded, but
 is still logged

---
 horusdemodlib/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/horusdemodlib/utils.py b/horusdemodlib/utils.py
index 6d89c32..c5a16f3 100644
--- a/horusdemodlib/utils.py
+++ b/horusdemodlib/utils.py
@@ -85,6 +85,12 @@ def telem_to_sondehub(telemetry, metadata=None, check_time=True):
     _output["frame"] = telemetry["sequence_number"]
 
     # Position
+    # A Horus Binary v3 payload without a GNSS fix does not have an altitude.
+    for _field in ["latitude", "longitude", "altitude"]:
+        if _field not in telemetry:
+            logging.error(f"SondeHub Data Reformatter - Telemetry does not have a {_field}. Not uploading.")
+            return None
+
     _output["lat"] = telemetry["latitude"]
     _output["lon"] = telemetry["longitude"]
     _output["alt"] = telemetry["altitude"]
-- 
2.43.0


From 1723d67a37a4788c89eacdb72e8a131231aaf3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:53 +0000
Subject: [PATCH 21/38] fix: NaN and infinite values are never sent as
 positions or JSON numbers

---
 horusdemodlib/decoder.py   | 5 +++++
 horusdemodlib/delegates.py | 3 ++-
 horusdemodlib/horusudp.py  | 4 +++-
 horusdemodlib/utils.py     | 9 ++++++++-
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index 5b30b15..ba7cfed 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -3,6 +3,7 @@
 #
 import codecs
 import datetime
+import math
 import struct
 import time
 from .delegates import *
@@ -428,6 +429,10 @@ def parse_ukhas_string(sentence:str) -> dict:
     #if _latitude == 0.0 or _longitude == 0.0:
     #    raise ValueError("Could not parse RTTY Sentence - Zero Lat/Long.")
 
+    # float() accepts 'nan' and 'inf', neither of which are positions.
+    if not (math.isfinite(_latitude) and math.isfinite(_longitude)):
+        raise ValueError("Could not parse RTTY Sentence - Invalid Latitude/Longitude.")
+
     # Place a limit on the altitude field. We generally store altitude on the payload as a uint16, so it shouldn't fall outside these values.
     if _altitude > 65535 or _altitude < 0:
         raise ValueError("Could not parse RTTY Sentence - Invalid Altitude.")
diff --git a/horusdemodlib/delegates.py b/horusdemodlib/delegates.py
index d6ba793..8e4a5fa 100644
--- a/horusdemodlib/delegates.py
+++ b/horusdemodlib/delegates.py
@@ -92,7 +92,8 @@ def decode_degree_float(data:float) -> str:
     if type(data) != float:
         raise ValueError("decimal_degrees - Invalid input type.")
 
-    if (data < -180.0) or (data > 180.0):
+    # (This comparison is also false if the value is NaN)
+    if not (-180.0 <= data <= 180.0):
         raise ValueError(f"decimal_degrees - Value ({data}) out of range -180 - 180.")
 
     return (data, f"{data:.5f}")
diff --git a/horusdemodlib/horusudp.py b/horusdemodlib/horusudp.py
index d9e06dd..259609d 100644
--- a/horusdemodlib/horusudp.py
+++ b/horusdemodlib/horusudp.py
@@ -9,6 +9,7 @@ import json
 import logging
 import socket
 import unittest
+from .utils import is_json_value
 
 
 def send_payload_summary(telemetry, port=55672, comment="HorusDemodLib"):
@@ -60,7 +61,8 @@ def send_payload_summary(telemetry, port=55672, comment="HorusDemodLib"):
         # Add in any field names from the custom field section
         if "custom_field_names" in telemetry:
             for _custom_field_name in telemetry["custom_field_names"]:
-                if _custom_field_name in telemetry:
+                # NaN and infinity have no representation in JSON.
+                if _custom_field_name in telemetry and is_json_value(telemetry[_custom_field_name]):
                     packet[_custom_field_name] = telemetry[_custom_field_name]
 
         # Set up our UDP socket
diff --git a/horusdemodlib/utils.py b/horusdemodlib/utils.py
index c5a16f3..4229e1b 100644
--- a/horusdemodlib/utils.py
+++ b/horusdemodlib/utils.py
@@ -9,10 +9,16 @@
 #
 import datetime
 import logging
+import math
 from .delegates import fix_datetime
 import unittest
 import traceback
 
+def is_json_value(value):
+    """ Check that a telemetry value can be sent as JSON, i.e. it is not NaN or infinite """
+    return not (isinstance(value, float) and not math.isfinite(value))
+
+
 def telem_to_sondehub(telemetry, metadata=None, check_time=True):
     """
     Take the output from the HorusDemodLib telemetry decoder, and reformat it 
@@ -143,7 +149,8 @@ def telem_to_sondehub(telemetry, metadata=None, check_time=True):
     # Add in any field names from the custom field section
     if "custom_field_names" in telemetry:
         for _custom_field_name in telemetry["custom_field_names"]:
-            if _custom_field_name in telemetry:
+            # NaN and infinity have no representation in JSON.
+            if _custom_field_name in telemetry and is_json_value(telemetry[_custom_field_name]):
                 _output[_custom_field_name] = telemetry[_custom_field_name]
 
     logging.debug(f"SondeHub Data Reformatter - Generated Packet: {str(_output)}")
-- 
2.43.0


From a93d5b0b202b67faf2b665c4a9a94cd59fc82e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:53 +0000
Subject: [PATCH 22/38] fix: samples from before a backward clock step are
 dropped from the modem statistics

---
 horusdemodlib/demodstats.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/horusdemodlib/demodstats.py b/horusdemodlib/demodstats.py
index b4fe531..dd108ca 100644
--- a/horusdemodlib/demodstats.py
+++ b/horusdemodlib/demodstats.py
@@ -136,16 +136,13 @@ class FSKDemodStats(object):
         else:
             _fest_spacing = 0.0
 
-        # Time-series data
-        self.samples.append((_time, _data['EbNodB'], _data['ppm'], _fest_spacing))
-
-        # Drop samples outside the averaging window.
+        # Drop samples outside the averaging window. This includes any which are now in the
+        # future, as the system clock has been set back since we received them.
         _cutoff = _time - self.averaging_time
-        while self.samples and self.samples[0][0] <= _cutoff:
-            self.samples.popleft()
+        self.samples = deque(_s for _s in self.samples if _cutoff < _s[0] <= _time)
 
-        if not self.samples:
-            return
+        # Time-series data
+        self.samples.append((_time, _data['EbNodB'], _data['ppm'], _fest_spacing))
 
         # Calculate SNR / PPM from recent samples.
         _, _snrs, _ppms, _spacing = zip(*self.samples)
-- 
2.43.0


From ac65d1d616da85738f13ce08c77eb627c53715b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:53 +0000
Subject: [PATCH 23/38] fix: an operator interrupt is no longer swallowed by
 bare excepts

---
 horusdemodlib/decoder.py    | 4 ++--
 horusdemodlib/demodstats.py | 2 +-
 horusdemodlib/horusudp.py   | 4 ++--
 horusdemodlib/payloads.py   | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index ba7cfed..965433e 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -412,13 +412,13 @@ def parse_ukhas_string(sentence:str) -> dict:
     if ':' in _time:
         try:
             _time_dt = datetime.datetime.strptime(_time, "%H:%M:%S")
-        except:
+        except Exception:
             raise ValueError("Could not parse RTTY Sentence - Invalid Time.")
     else:
         # Also handle cases where no :'s are used.
         try:
             _time_dt = datetime.datetime.strptime(_time, "%H%M%S")
-        except:
+        except Exception:
             raise ValueError("Could not parse RTTY Sentence - Invalid Time.")
 
     # Convert time back to something consistent.
diff --git a/horusdemodlib/demodstats.py b/horusdemodlib/demodstats.py
index dd108ca..84be50a 100644
--- a/horusdemodlib/demodstats.py
+++ b/horusdemodlib/demodstats.py
@@ -206,7 +206,7 @@ def send_modem_stats(stats, udp_port=55672):
         s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
         try:
             s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
-        except:
+        except Exception:
             pass
         s.bind(('',udp_port))
         try:
diff --git a/horusdemodlib/horusudp.py b/horusdemodlib/horusudp.py
index 259609d..3de6910 100644
--- a/horusdemodlib/horusudp.py
+++ b/horusdemodlib/horusudp.py
@@ -74,7 +74,7 @@ def send_payload_summary(telemetry, port=55672, comment="HorusDemodLib"):
         # Under OSX we also need to set SO_REUSEPORT to 1
         try:
             _s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
-        except:
+        except Exception:
             pass
 
         try:
@@ -115,7 +115,7 @@ def send_ozimux_message(telemetry, port=55683):
         # SO_REUSEPORT doesn't work on all platforms, so catch the exception if it fails
         try:
             _ozisock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
-        except:
+        except Exception:
             pass
         # Send!
         try:
diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index b068cb3..f1302dc 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -86,7 +86,7 @@ def parse_payload_list(text_data):
                                 logging.warning(f"Payload List Parser - Payload ID {_id} already in use by {_payload_list[_id]}")
 
                         _payload_list[_id] = _callsign
-                    except:
+                    except Exception:
                         logging.error(f"Payload List Parser - Error parsing line, skipping: {line}")
 
     except Exception as e:
@@ -257,7 +257,7 @@ def read_custom_field_list(filename="custom_field_list.json"):
             _f = open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..",filename),'r')
             _raw_data = _f.read()
             _f.close()
-        except:
+        except Exception:
             logging.error(f"Error loading custom field list file ({filename}), using defaults: {str(e)}")
             return _custom_field_list
 
-- 
2.43.0


From 71920f28d8401ca0b5f88626c609430c6fd8384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:53 +0000
Subject: [PATCH 24/38] fix: create_horus_v2_packet keeps the minutes it is
 given, and clips large descent rates

---
 horusdemodlib/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horusdemodlib/encoder.py b/horusdemodlib/encoder.py
index 97e19b8..820b579 100644
--- a/horusdemodlib/encoder.py
+++ b/horusdemodlib/encoder.py
@@ -218,7 +218,7 @@ class Encoder():
             minutes = int(minutes)
             if minutes < 0:
                 minutes = 0
-            elif minutes < 59:
+            elif minutes > 59:
                 minutes = 59
 
             seconds = int(seconds)
@@ -283,7 +283,7 @@ class Encoder():
         # Ascent rate is in the range -327.68 to 327.67 m/s
         ascent_rate_100 = int(ascent_rate*100)
         if ascent_rate_100 < -32768:
-            ascent_rate_100 = 32768
+            ascent_rate_100 = -32768
         elif ascent_rate_100 > 32767:
             ascent_rate_100 = 32767
 
-- 
2.43.0


From d26e72bfe2cbbada2b88c3ed63020059f2992a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 25/38] fix: downloaded lists replace the local ones in a
 single step

---
 horusdemodlib/payloads.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index f1302dc..7e028a8 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -55,6 +55,27 @@ HORUS_CUSTOM_FIELDS = {
 
 
 
+def write_list_file(filename, text_data):
+    """
+    Write a downloaded list out to a file. The existing file is replaced in a single step once the
+    new one is completely written, so it is never left empty or truncated by a crash or a full disk.
+    """
+    _temp_filename = f"{filename}.new"
+
+    try:
+        with open(_temp_filename, 'w') as f:
+            f.write(text_data)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(_temp_filename, filename)
+    except Exception:
+        try:
+            os.remove(_temp_filename)
+        except OSError:
+            pass
+        raise
+
+
 def parse_payload_list(text_data):
     """
     Parse payload list text data
@@ -147,8 +168,7 @@ def download_latest_payload_id_list(url=PAYLOAD_ID_LIST_URL, filename=None, time
     # Write out to file, if we have been given a filename.
     if filename != None:
         try:
-            with open(filename, 'w') as f:
-                f.write(_r.text)
+            write_list_file(filename, _r.text)
         except Exception as e:
             logging.error(f"Error writing payload list to file {filename} - {str(e)}")
 
@@ -291,8 +311,7 @@ def download_latest_custom_field_list(url=HORUS_CUSTOM_FIELD_URL, filename=None,
 
     if filename != None:
         try:
-            with open(filename, 'w') as f:
-                f.write(_r.text)
+            write_list_file(filename, _r.text)
             logging.info(f"Wrote latest custom field list data out to {filename}.")
         except Exception as e:
             logging.error(f"Error writing custom field list to file {filename} - {str(e)}")
-- 
2.43.0


From b8cba2b6b301d422ec6fdffd567e2ab939ea58de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 26/38] fix: a custom field list which is not JSON is not
 accepted as a download

---
 horusdemodlib/payloads.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index 7e028a8..b3b3ef6 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -307,6 +307,13 @@ def download_latest_custom_field_list(url=HORUS_CUSTOM_FIELD_URL, filename=None,
         logging.error("Downloaded custom field list is invalid.")
         return None
 
+    try:
+        if type(json.loads(_r.text)) != dict:
+            raise ValueError("not a JSON object")
+    except Exception as e:
+        logging.error(f"Downloaded custom field list is invalid: {str(e)}")
+        return None
+
     _custom_field_list = parse_custom_field_list(_r.text)
 
     if filename != None:
-- 
2.43.0


From e38ed213bd438ff149c01143171322d984262bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 27/38] fix: one unusable custom field description no longer
 affects the others, or replaces a usable one

---
 horusdemodlib/payloads.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index b3b3ef6..c3ffae2 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -196,6 +196,21 @@ def init_payload_id_list(filename="payload_id_list.txt", nodownload=False):
     return HORUS_PAYLOAD_LIST
 
 
+def check_custom_fields(struct_format, fields):
+    """ Check that a custom field description can be used to decode custom field data, and raise an exception if not. """
+    from .delegates import decode_field
+
+    _values = struct.unpack(struct_format, bytes(HORUS_CUSTOM_FIELD_LENGTH))
+
+    if len(fields) != len(_values):
+        raise ValueError(f"{len(fields)} fields defined, {len(_values)} in struct.")
+
+    for (_name, _type), _value in zip(fields, _values):
+        if type(_name) != str:
+            raise ValueError(f"Invalid field name: {_name}")
+        decode_field(_type, _value)
+
+
 def parse_custom_field_list(text_data):
     """
     Parse JSON containing descriptions of custom payload fields,
@@ -217,12 +232,18 @@ def parse_custom_field_list(text_data):
         for _payload in _field_data:
             _data = _field_data[_payload]
 
+            if type(_data) != dict:
+                logging.error(f"Custom Field List Parser - Custom field data for {_payload} is not a JSON object.")
+                continue
+
             if ("struct" in _data) and ("fields" in _data):
                 # Check the struct value has the right length
                 try:
                     _structsize = struct.calcsize(_data["struct"])
 
                     if _structsize == HORUS_CUSTOM_FIELD_LENGTH:
+                        check_custom_fields(_data["struct"], _data["fields"])
+
                         _custom_field_list[_payload] = {
                             "struct": _data["struct"],
                             "fields": _data["fields"]
-- 
2.43.0


From a63fef0780c666cb75cf81db4c0033df8c7e35a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 28/38] fix: a failed list refresh no longer reverts to older
 payload names or custom fields

---
 horusdemodlib/payloads.py | 23 +++++++++++++++++++++++
 horusdemodlib/uploader.py |  3 +--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index c3ffae2..8198ecc 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -364,6 +364,29 @@ def init_custom_field_list(filename="custom_field_list.json", nodownload=False):
     return HORUS_CUSTOM_FIELDS
 
 
+def refresh_payload_lists(payload_list_file="payload_id_list.txt", custom_fields_file="custom_field_list.json"):
+    """
+    Try and download new versions of the lists in use. If a list cannot be downloaded then the local version might
+    contain payloads we don't know about, but it is not newer than what we are already using.
+    """
+    global HORUS_PAYLOAD_LIST, HORUS_CUSTOM_FIELDS
+
+    _payload_list = download_latest_payload_id_list(filename=payload_list_file)
+    if not _payload_list:
+        logging.warning("Could not download Payload ID List - attempting to use local version.")
+        _payload_list = {**read_payload_list(filename=payload_list_file), **HORUS_PAYLOAD_LIST}
+
+    # Reading a custom field list updates the list in use, so take a copy of it.
+    _known_fields = HORUS_CUSTOM_FIELDS.copy()
+    _custom_fields = download_latest_custom_field_list(filename=custom_fields_file)
+    if not _custom_fields:
+        logging.warning("Could not download Custom Field List - attempting to use local version.")
+        _custom_fields = {**read_custom_field_list(filename=custom_fields_file), **_known_fields}
+
+    HORUS_PAYLOAD_LIST = _payload_list
+    HORUS_CUSTOM_FIELDS = _custom_fields
+
+
 def update_payload_lists(payload_list, custom_field_list):
     """ Helper function to get updated lists into the right namespace """
     global HORUS_PAYLOAD_LIST, HORUS_CUSTOM_FIELDS
diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index 501d41e..b68b237 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -233,8 +233,7 @@ def main():
                             logging.info("Observed unknown Payload ID, attempting to re-download lists.")
                             
                             # Download lists.
-                            horusdemodlib.payloads.HORUS_PAYLOAD_LIST = init_payload_id_list(filename=args.payload_list)
-                            horusdemodlib.payloads.HORUS_CUSTOM_FIELDS = init_custom_field_list(filename=args.custom_fields)
+                            refresh_payload_lists(payload_list_file=args.payload_list, custom_fields_file=args.custom_fields)
                             
                             # Update next_download_time so we don't re-attempt to download with every new packet.
                             next_download_time = time.time() + min_download_time
-- 
2.43.0


From 482bd53476652f76328e0383a4ab949ffed40dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 29/38] fix: an empty local list falls back to the list in the
 package

---
 horusdemodlib/payloads.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index 8198ecc..c216963 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -126,6 +126,8 @@ def read_payload_list(filename="payload_id_list.txt"):
     try:
         with open(filename,'r') as file:
             _text = file.read()
+            if not _text.strip():
+                raise ValueError("File is empty")
             payload_list = parse_payload_list(_text)
 
     except Exception as e:
@@ -291,6 +293,8 @@ def read_custom_field_list(filename="custom_field_list.json"):
         _f = open(filename, 'r')
         _raw_data = _f.read()
         _f.close()
+        if not _raw_data.strip():
+            raise ValueError("File is empty")
 
     except Exception as e:
         try:
-- 
2.43.0


From eef4245878e33cc9aacb9d347893d4bd3d0ba77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:08 +0000
Subject: [PATCH 30/38] fix: a replaced list file is on the disk before it is
 relied upon

---
 horusdemodlib/payloads.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index c216963..f4514fb 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -75,6 +75,16 @@ def write_list_file(filename, text_data):
             pass
         raise
 
+    # Where possible, also wait for the directory to be updated on the disk.
+    try:
+        _dir = os.open(os.path.dirname(os.path.abspath(filename)), os.O_RDONLY)
+        try:
+            os.fsync(_dir)
+        finally:
+            os.close(_dir)
+    except OSError:
+        pass
+
 
 def parse_payload_list(text_data):
     """
-- 
2.43.0


From 36355172d58d9952131cf7bd2da665d46e958a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:56 +0000
Subject: [PATCH 31/38] fix: a statistics line which is JSON but not an object
 is ignored, not a TypeError

---
 horusdemodlib/demodstats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horusdemodlib/demodstats.py b/horusdemodlib/demodstats.py
index 84be50a..a718c44 100644
--- a/horusdemodlib/demodstats.py
+++ b/horusdemodlib/demodstats.py
@@ -87,6 +87,10 @@ class FSKDemodStats(object):
             except Exception as e:
                 self.log_error("FSK Demod Stats - %s" % str(e))
                 return
+
+            if type(_data) != dict:
+                self.log_error("FSK Demod Stats - Not a JSON object.")
+                return
         elif type(data) == dict:
             _data = data
         
-- 
2.43.0


From af7decd86bad348996ce653cef1a39ce57d14aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:22 +0000
Subject: [PATCH 32/38] fix: a v1 or v2 packet which also matches the v3
 checksum is still decoded

---
 horusdemodlib/decoder.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index 965433e..55c47ae 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -107,6 +107,27 @@ HORUS_V3_NAME_CACHE = {
     #}
 }
 
+def is_older_packet(data:bytes) -> bool:
+    """
+    Check if a set of bytes, the start of which matches a v3 checksum, is really a v1 or v2 packet.
+
+    One v1 or v2 packet in 65536 has such a match by coincidence. Its own checksum matches too, and
+    it does not decode as a v3 packet.
+    """
+
+    if len(data) not in HORUS_LENGTH_TO_FORMAT:
+        return False
+
+    if not check_packet_crc(data, checksum=HORUS_PACKET_FORMATS[HORUS_LENGTH_TO_FORMAT[len(data)]]['checksum']):
+        return False
+
+    try:
+        HORUS_ASN.decode("Telemetry", data[2:], check_constraints=True)
+        return False
+    except Exception:
+        return True
+
+
 def decode_packet(data:bytes, packet_format:dict = None, ignore_crc:bool = False) -> dict:
     """ 
     Attempt to decode a set of bytes based on a provided packet format.
@@ -123,7 +144,7 @@ def decode_packet(data:bytes, packet_format:dict = None, ignore_crc:bool = False
     
 
     if packet_format is None:
-        if (_crc_ok := check_packet_crc(data, checksum='crc16',tail=False)):
+        if (_crc_ok := check_packet_crc(data, checksum='crc16',tail=False)) and not is_older_packet(data):
             packet_format = deepcopy(HORUS_PACKET_FORMATS['horus_binary_v3'])
         else:
             # Attempt to lookup the format based on the length of the data if it has not been provided.
-- 
2.43.0


From bda80b6d8f6a4a3aa353d3718ec90dddc5a6ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:19 +0000
Subject: [PATCH 33/38] fix: a v1 or v2 packet which also matches the v3
 checksum is not reported as a v3 packet

---
 horusdemodlib/decoder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index 55c47ae..43b6c59 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -112,7 +112,7 @@ def is_older_packet(data:bytes) -> bool:
     Check if a set of bytes, the start of which matches a v3 checksum, is really a v1 or v2 packet.
 
     One v1 or v2 packet in 65536 has such a match by coincidence. Its own checksum matches too, and
-    it does not decode as a v3 packet.
+    it is not what a v3 payload would send: an encoded packet, followed by nothing but zeros.
     """
 
     if len(data) not in HORUS_LENGTH_TO_FORMAT:
@@ -122,11 +122,13 @@ def is_older_packet(data:bytes) -> bool:
         return False
 
     try:
-        HORUS_ASN.decode("Telemetry", data[2:], check_constraints=True)
-        return False
+        _fields = HORUS_ASN.decode("Telemetry", data[2:], check_constraints=True)
+        _encoded = HORUS_ASN.encode("Telemetry", _fields)
     except Exception:
         return True
 
+    return bytes(data[2:]) != _encoded.ljust(len(data) - 2, b'\x00')
+
 
 def decode_packet(data:bytes, packet_format:dict = None, ignore_crc:bool = False) -> dict:
     """ 
-- 
2.43.0


From 115582abf3749d88fd71fbe429261cafd36f5ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:41 +0000
Subject: [PATCH 34/38] fix: telemetry from a payload whose listed name is not
 ASCII is decoded

---
 horusdemodlib/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index 43b6c59..429fba0 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -370,7 +370,7 @@ def decode_packet(data:bytes, packet_format:dict = None, ignore_crc:bool = False
     # Convert to a UKHAS-compliant string.
     if _output['modulation'] != 'Horus Binary v3':
         _ukhas_str = ",".join(_ukhas_fields)
-        _ukhas_crc = ukhas_crc(_ukhas_str.encode('ascii'))
+        _ukhas_crc = ukhas_crc(_ukhas_str.encode('utf-8'))
         _output['ukhas_str'] = "$$" + _ukhas_str + "*" + _ukhas_crc
 
     # Duplicate some fields for parsing later
-- 
2.43.0


From dfae5e23098c5cb6d08f6030920b990bf9649eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 35/38] fix: the C codec skips extension fields it does not
 know

---
 horusbinaryv3/clib/per_opentype.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusbinaryv3/clib/per_opentype.c b/horusbinaryv3/clib/per_opentype.c
index f86dad7..0cbdd48 100644
--- a/horusbinaryv3/clib/per_opentype.c
+++ b/horusbinaryv3/clib/per_opentype.c
@@ -295,7 +295,7 @@ uper_sot_suck(const asn_codec_ctx_t *ctx, const asn_TYPE_descriptor_t *td,
 	(void)constraints;
 	(void)sptr;
 
-	while(per_get_few_bits(pd, 24) >= 0);
+	while(per_get_few_bits(pd, 1) >= 0);
 
 	rv.code = RC_OK;
 	rv.consumed = pd->moved;
-- 
2.43.0


From 6a2951cddebf0d83f357577b4785c1023ff8e8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 36/38] fix: the C codec encodes subnormal reals as themselves

---
 horusbinaryv3/clib/REAL.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horusbinaryv3/clib/REAL.c b/horusbinaryv3/clib/REAL.c
index f1d0665..2699f5d 100644
--- a/horusbinaryv3/clib/REAL.c
+++ b/horusbinaryv3/clib/REAL.c
@@ -723,6 +723,10 @@ asn_double2REAL(REAL_t *st, double dbl_value) {
 		return 0;
 	}
 
+	/* A subnormal number has no implicit 1: make it normal, keep its exponent */
+	if(expval < DBL_MIN_EXP - 1)
+		dbl_value = ldexp(dbl_value, DBL_MANT_DIG);
+
 	if(float_big_endian) {
 		uint8_t *s = ((uint8_t *)&dbl_value) + 1;
 		uint8_t *end = ((uint8_t *)&dbl_value) + sizeof(double);
-- 
2.43.0


From 3326afcba0017359b5d67f7949441cd238917109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 37/38] fix: fsk_demod finds test frames in soft-decision 4FSK

The test-frame search took negative soft decisions as ones, which is the
2FSK convention; 4FSK soft decisions are positive for a 1, so with -s -f
no test frame was ever recognised.
---
 src/fsk_demod.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fsk_demod.c b/src/fsk_demod.c
index f245822..b92402a 100644
--- a/src/fsk_demod.c
+++ b/src/fsk_demod.c
@@ -317,7 +317,8 @@ int main(int argc,char *argv[]){
                     bitbuf_rx[i] = bitbuf_rx[i+1];
                 }
                 if (soft_dec_mode == 1) {
-                    bitbuf_rx[TEST_FRAME_SIZE-1] = sdbuf[j] < 0.0;
+                    /* the soft decisions are negative for a 1 with 2FSK, positive with 4FSK */
+                    bitbuf_rx[TEST_FRAME_SIZE-1] = (M == 4) ? sdbuf[j] > 0.0 : sdbuf[j] < 0.0;
                 }
                 else {
                     bitbuf_rx[TEST_FRAME_SIZE-1] = bitbuf[j];
-- 
2.43.0


From a70969c1e8fab784018a62b84d59e6c28b1a490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 38/38] fix: track enough unique words that a frame full of
 them is not lost

---
 src/horus_api.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/horus_api.h b/src/horus_api.h
index 4e3f9f4..607c503 100644
--- a/src/horus_api.h
+++ b/src/horus_api.h
@@ -95,7 +95,7 @@
 #define MAX_UW_LENGTH                  100
 #define HORUS_API_VERSION                3    /* unique number that is bumped if API changes */
 
-#define MAX_UW_TO_TRACK 128
+#define MAX_UW_TO_TRACK 1024
 
 struct horus {
     int         mode;
-- 
2.43.0

