From f938510eccb3dc23a31a9265d6bf6a59618601de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 01/79] fix: Novatel parser lost messages split across reads or
 still buffered at end of input

---
 c/nov2sbp/parser/parser.cc | 49 ++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/c/nov2sbp/parser/parser.cc b/c/nov2sbp/parser/parser.cc
index 77dbd1e..3254e85 100644
--- a/c/nov2sbp/parser/parser.cc
+++ b/c/nov2sbp/parser/parser.cc
@@ -54,19 +54,29 @@ Parser::Parser(ReadFunction readfn,
       context_(context) {}
 
 void Parser::process() {
+  bool end_of_input = false;
   do {
     // fill buffer_
-    int num_bytes_read = readfn_(buffer_ + num_bytes_in_buffer_,
-                                 sizeof(buffer_) - num_bytes_in_buffer_,
-                                 context_);
+    if (!end_of_input && num_bytes_in_buffer_ < sizeof(buffer_)) {
+      int num_bytes_read =
+          readfn_(buffer_ + num_bytes_in_buffer_,
+                  static_cast<uint32_t>(sizeof(buffer_) - num_bytes_in_buffer_),
+                  context_);
 
-    if (num_bytes_read < 0) {
-      warn("Read error");
-      return;
+      if (num_bytes_read < 0) {
+        warn("Read error");
+      }
+
+      if (num_bytes_read > 0) {
+        num_bytes_in_buffer_ += static_cast<uint32_t>(num_bytes_read);
+      } else {
+        // whatever is left in buffer_ still has to be parsed
+        end_of_input = true;
+      }
     }
 
-    num_bytes_in_buffer_ += num_bytes_read;
-    uint32_t num_bytes_consumed = 1;
+    // 0 means that more bytes are needed to tell
+    uint32_t num_bytes_consumed = 0;
 
     if (num_bytes_in_buffer_ >= sizeof(MSG_REGULAR_PREAMBLE)) {
       // check for regular preamble (0xAA, 0x44, 0x12)
@@ -78,19 +88,26 @@ void Parser::process() {
                              MSG_SHORT_PREAMBLE,
                              sizeof(MSG_SHORT_PREAMBLE))) {
         num_bytes_consumed = parse_short_message();
+      } else {
+        num_bytes_consumed = 1;
       }
     }
 
+    if (num_bytes_consumed == 0 && end_of_input && num_bytes_in_buffer_ > 0) {
+      // the rest of the message will not come, drop 1 byte and try again
+      num_bytes_consumed = 1;
+    }
+
     // drop consumed bytes from buffer_
     assert(num_bytes_consumed <= num_bytes_in_buffer_);
     num_bytes_in_buffer_ -= num_bytes_consumed;
     memmove(buffer_, buffer_ + num_bytes_consumed, num_bytes_in_buffer_);
-  } while (num_bytes_in_buffer_ > 0);
+  } while (!end_of_input || num_bytes_in_buffer_ > 0);
 }
 
 /*
  * Attempt to parse buffer_ as a regular Novatel Binary Message, return number
- * of bytes consumed
+ * of bytes consumed (0 if the message is not complete yet)
  */
 uint32_t Parser::parse_regular_message() const {
   if (num_bytes_in_buffer_ >= MSG_REGULAR_HEADER_LEN + MSG_CRC_LEN) {
@@ -111,6 +128,9 @@ uint32_t Parser::parse_regular_message() const {
           return MSG_REGULAR_HEADER_LEN + MSG_CRC_LEN + header.message_len;
         }
         warn("Unexpected CRC %.8x vs %.8x", crc_expected, crc_calculated);
+      } else if (header.message_len <=
+                 kBufferSize - MSG_REGULAR_HEADER_LEN - MSG_CRC_LEN) {
+        return 0;
       } else {
         warn("Unexpectedly large message length %i", header.message_len);
       }
@@ -118,6 +138,8 @@ uint32_t Parser::parse_regular_message() const {
       warn("Unexpected header length %i",
            buffer_[sizeof(MSG_REGULAR_PREAMBLE)]);
     }
+  } else {
+    return 0;
   }
 
   // parsing failed, drop 1 byte and try again
@@ -126,7 +148,7 @@ uint32_t Parser::parse_regular_message() const {
 
 /*
  * Attempt to parse buffer_ as a short Novatel Binary Message, return number
- * of bytes consumed
+ * of bytes consumed (0 if the message is not complete yet)
  */
 uint32_t Parser::parse_short_message() const {
   if (num_bytes_in_buffer_ >= MSG_SHORT_HEADER_LEN + MSG_CRC_LEN) {
@@ -146,8 +168,11 @@ uint32_t Parser::parse_short_message() const {
       }
       warn("Unexpected CRC %.8x vs %.8x", crc_expected, crc_calculated);
     } else {
-      warn("Unexpectedly large message length %i", header.message_len);
+      // a short message always fits into buffer_
+      return 0;
     }
+  } else {
+    return 0;
   }
 
   // parsing failed, drop 1 byte and try again
-- 
2.43.0


From 7304032710b1820533d5b2579b58f998444c6fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 02/79] fix: Novatel messages of unexpected length aborted the
 parser or were read past their end

---
 c/nov2sbp/parser/parser.cc | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/c/nov2sbp/parser/parser.cc b/c/nov2sbp/parser/parser.cc
index 3254e85..2e28d00 100644
--- a/c/nov2sbp/parser/parser.cc
+++ b/c/nov2sbp/parser/parser.cc
@@ -179,11 +179,47 @@ uint32_t Parser::parse_short_message() const {
   return 1;
 }
 
+/**
+ * Check that the body of a message is as long as its definition says, the body
+ * parsers depend on it.
+ */
+static bool body_length_valid(const BinaryHeader &header, const uint8_t *data) {
+  const size_t len = header.message_len;
+  switch (header.message_id) {
+    case Message::Id::GPSEPHEM:
+      return len == 224;
+    case Message::Id::BESTPOS:
+      return len == 72;
+    case Message::Id::BESTVEL:
+      return len == 44;
+    case Message::Id::RANGECMP:
+      return len >= sizeof(uint32_t) &&
+             len - sizeof(uint32_t) ==
+                 static_cast<uint64_t>(Util::read_le_uint32(data)) *
+                     Message::RANGECMP_record_t::kRecordBinarySize;
+    case Message::Id::INSATT:
+      return len == 40;
+    case Message::Id::GLOEPHEMERIS:
+      return len == 144;
+    case Message::Id::RAWIMUSX:
+      return len == 40;
+    default:
+      return true;
+  }
+}
+
 /**
  * This function dispatches to the appropriate body parser depending on the
  * message ID.
  */
 void Parser::parse_body(const BinaryHeader &header, const uint8_t *data) const {
+  if (!body_length_valid(header, data)) {
+    warn("Unexpected length %i of message %i",
+         header.message_len,
+         header.message_id);
+    return;
+  }
+
   switch (header.message_id) {
     case Message::Id::GPSEPHEM: {
       Message::GPSEPHEM_t msg;
-- 
2.43.0


From dfc40c234c59ef5766c89f7666303da2f201925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 03/79] fix: librtcm: check the MSM cell mask size before
 reading the mask

---
 c/librtcm/src/decode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 25e6ce3..9de9545 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -247,6 +247,10 @@ static rtcm3_rc rtcm3_read_msm_header(swiftnav_bitstream_t *buff,
       count_mask_values(MSM_SATELLITE_MASK_SIZE, header->satellite_mask);
   uint8_t num_sigs =
       count_mask_values(MSM_SIGNAL_MASK_SIZE, header->signal_mask);
+  if (num_sats * num_sigs > MSM_MAX_CELLS) {
+    /* Too large cell mask, most probably a parsing error */
+    return RC_INVALID_MESSAGE;
+  }
   uint8_t cell_mask_size = num_sats * num_sigs;
 
   for (uint8_t i = 0; i < cell_mask_size; i++) {
-- 
2.43.0


From 8218e5b58a8b56522cd3c16619b5ffcb0af322b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 04/79] fix: librtcm: room for every satellite of an MSM
 message

---
 c/librtcm/include/rtcm3/messages.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/librtcm/include/rtcm3/messages.h b/c/librtcm/include/rtcm3/messages.h
index 9178463..59aa698 100644
--- a/c/librtcm/include/rtcm3/messages.h
+++ b/c/librtcm/include/rtcm3/messages.h
@@ -132,7 +132,7 @@ typedef struct {
 
 typedef struct {
   rtcm_msm_header header;
-  rtcm_msm_sat_data sats[RTCM_MAX_SATS];
+  rtcm_msm_sat_data sats[MSM_SATELLITE_MASK_SIZE];
   rtcm_msm_signal_data signals[MSM_MAX_CELLS];
 } rtcm_msm_message;
 
-- 
2.43.0


From 5139c576adec04b7de772d8ec3f56967a6156bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 05/79] fix: librtcm: do not accept a 1006 message whose
 position is cut off

---
 c/librtcm/src/decode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 9de9545..dc417e0 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -615,7 +615,10 @@ rtcm3_rc rtcm3_decode_1006_bitstream(swiftnav_bitstream_t *buff,
     return RC_MESSAGE_TYPE_MISMATCH;
   }
 
-  rtcm3_decode_1005_base(buff, &msg_1006->msg_1005);
+  rtcm3_rc ret = rtcm3_decode_1005_base(buff, &msg_1006->msg_1005);
+  if (ret != RC_OK) {
+    return ret;
+  }
   uint32_t tmp;
   BITSTREAM_DECODE_U32(buff, tmp, 16);
   msg_1006->ant_height = (double)(tmp) / 10000.0;
-- 
2.43.0


From 6532bffe3091f3ad2cfa4af4104363169751e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 06/79] fix: librtcm: a GLONASS satellite of unknown frequency
 has no L2 phase in cycles either

---
 c/librtcm/src/decode.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index dc417e0..75ed61d 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -828,6 +828,7 @@ rtcm3_rc rtcm3_decode_1012_bitstream(swiftnav_bitstream_t *buff,
     l2_freq_data->flags.fields.valid_pr =
         construct_L2_code(l2_freq_data, l1_freq_data, l2_pr);
     l2_freq_data->flags.fields.valid_cp =
+        (msg_1012->sats[i].fcn <= MT1012_GLO_MAX_FCN) &&
         construct_L2_phase(l2_freq_data,
                            l1_freq_data,
                            phr_pr_diff,
-- 
2.43.0


From 1ef99ea851e0fde33c6b8a91dd673b53d86c1a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 07/79] fix: librtcm: Galileo health bits are unsigned

---
 c/librtcm/src/eph_decode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/eph_decode.c b/c/librtcm/src/eph_decode.c
index 781a114..e44ce85 100644
--- a/c/librtcm/src/eph_decode.c
+++ b/c/librtcm/src/eph_decode.c
@@ -357,7 +357,7 @@ rtcm3_rc rtcm3_decode_gal_eph_inav_bitstream(swiftnav_bitstream_t *buff,
 
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[0], 10);
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[1], 10);
-  BITSTREAM_DECODE_S8(buff, msg_eph->health_bits, 6);
+  BITSTREAM_DECODE_U8(buff, msg_eph->health_bits, 6);
   /* reserved */
   swiftnav_bitstream_remove(buff, 2);
 
@@ -390,7 +390,7 @@ rtcm3_rc rtcm3_decode_gal_eph_fnav_bitstream(swiftnav_bitstream_t *buff,
 
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[0], 10);
   msg_eph->data.kepler.tgd.gal_s[1] = 0;
-  BITSTREAM_DECODE_S8(buff, msg_eph->health_bits, 3);
+  BITSTREAM_DECODE_U8(buff, msg_eph->health_bits, 3);
   /* reserved */
   swiftnav_bitstream_remove(buff, 7);
 
-- 
2.43.0


From d39e1777b8ef4fd1db27aa03960343bb946f01a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 08/79] fix: librtcm: toc and toe were swapped in encoded GPS
 ephemerides

---
 c/librtcm/src/eph_encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/eph_encode.c b/c/librtcm/src/eph_encode.c
index 2e159a1..891a603 100644
--- a/c/librtcm/src/eph_encode.c
+++ b/c/librtcm/src/eph_encode.c
@@ -32,7 +32,7 @@ uint16_t rtcm3_encode_gps_eph(const rtcm_msg_eph *msg_1019, uint8_t buff[]) {
   bit += 14;
   rtcm_setbitu(buff, bit, 8, msg_1019->data.kepler.iode);
   bit += 8;
-  rtcm_setbitu(buff, bit, 16, msg_1019->toe);
+  rtcm_setbitu(buff, bit, 16, msg_1019->data.kepler.toc);
   bit += 16;
   rtcm_setbits(buff, bit, 8, msg_1019->data.kepler.af2);
   bit += 8;
@@ -56,7 +56,7 @@ uint16_t rtcm3_encode_gps_eph(const rtcm_msg_eph *msg_1019, uint8_t buff[]) {
   bit += 16;
   rtcm_setbitu(buff, bit, 32, msg_1019->data.kepler.sqrta);
   bit += 32;
-  rtcm_setbitu(buff, bit, 16, msg_1019->data.kepler.toc);
+  rtcm_setbitu(buff, bit, 16, msg_1019->toe);
   bit += 16;
   rtcm_setbits(buff, bit, 16, msg_1019->data.kepler.cic);
   bit += 16;
-- 
2.43.0


From cce5b1ba9b80f4c2b0b846234e29f0ddb6a13d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 09/79] fix: librtcm: do not accept SSR clock corrections that
 are cut off

---
 c/librtcm/src/ssr_decode.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/ssr_decode.c b/c/librtcm/src/ssr_decode.c
index e0e2566..802a9a7 100644
--- a/c/librtcm/src/ssr_decode.c
+++ b/c/librtcm/src/ssr_decode.c
@@ -281,7 +281,9 @@ rtcm3_rc rtcm3_decode_clock_bitstream(swiftnav_bitstream_t *buff,
     }
 
     clock->sat_id = sat_id;
-    decode_ssr_clock(buff, clock);
+    if (!(RC_OK == decode_ssr_clock(buff, clock))) {
+      return RC_INVALID_MESSAGE;
+    }
   }
   return RC_OK;
 }
@@ -323,7 +325,9 @@ rtcm3_rc rtcm3_decode_orbit_clock_bitstream(
                        buff, msg_orbit_clock->header.constellation, orbit))) {
       return RC_INVALID_MESSAGE;
     }
-    decode_ssr_clock(buff, clock);
+    if (!(RC_OK == decode_ssr_clock(buff, clock))) {
+      return RC_INVALID_MESSAGE;
+    }
   }
   return RC_OK;
 }
-- 
2.43.0


From 0a65d5669e2654abc9932b90c1f51141c2ad08ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 10/79] fix: librtcm: the bias indicator of an encoded 1230
 message was lost

---
 c/librtcm/src/encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 1acf326..9bd7203 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -819,7 +819,7 @@ uint16_t rtcm3_encode_1230(const rtcm_msg_1230 *msg_1230, uint8_t buff[]) {
   bit += 12;
   rtcm_setbitu(buff, bit, 12, msg_1230->stn_id);
   bit += 12;
-  rtcm_setbitu(buff, bit, 8, msg_1230->bias_indicator);
+  rtcm_setbitu(buff, bit, 1, msg_1230->bias_indicator);
   bit += 1;
   /* 3 reserved bits */
   rtcm_setbitu(buff, bit, 3, 0);
-- 
2.43.0


From d86e1e45cf8e4d95ce930c7cb2b4f67ed64e9fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 11/79] fix: librtcm: phase ranges at the end of their range
 were encoded as invalid or wrapped

---
 c/librtcm/src/encode.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 9bd7203..2b071d3 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -109,7 +109,9 @@ uint8_t rtcm3_encode_lock_time(double time) {
 /* Encode PhaseRange – L1 Pseudorange (DF012, DF018 ,DF042, DF048) */
 static int32_t encode_diff_phaserange(double cp_pr, double freq) {
   double phase_unit = (GPS_C / freq) / 0.0005;
-  int32_t ppr = lround(cp_pr * phase_unit);
+  /* -2^19 marks an invalid phase */
+  const double limit = C_2P19 - 1;
+  double ppr = round(cp_pr * phase_unit);
 
   /* From specification: "Certain ionospheric conditions might cause the GPS
    * L1 Phaserange – L1 Pseudorange to diverge over time across the range
@@ -117,16 +119,16 @@ static int32_t encode_diff_phaserange(double cp_pr, double freq) {
    * adjusted (rolled over) by the equivalent of 1500 cycles in order to bring
    * the value back within the range" */
 
-  if (ppr <= -C_2P19) {
+  if (ppr < -limit) {
     /* add multiples of 1500 cycles */
-    cp_pr += 1500 * ceil((-C_2P19 / phase_unit - cp_pr) / 1500);
-    ppr = lround(cp_pr * phase_unit);
-  } else if (ppr >= C_2P19) {
+    cp_pr += 1500 * ceil((-limit / phase_unit - cp_pr) / 1500);
+    ppr = round(cp_pr * phase_unit);
+  } else if (ppr > limit) {
     /* substract multiples of 1500 cycles */
-    cp_pr -= 1500 * ceil((cp_pr - C_2P19 / phase_unit) / 1500);
-    ppr = lround(cp_pr * phase_unit);
+    cp_pr -= 1500 * ceil((cp_pr - limit / phase_unit) / 1500);
+    ppr = round(cp_pr * phase_unit);
   }
-  return ppr;
+  return (int32_t)ppr;
 }
 
 static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
-- 
2.43.0


From a0be9b6510bf117c54cb76277b1765c9136fbb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 12/79] fix: librtcm: an L2 pseudorange too far from L1 was
 encoded truncated

---
 c/librtcm/include/rtcm3/constants.h |  2 ++
 c/librtcm/src/encode.c              | 41 ++++++++++++++++-------------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/c/librtcm/include/rtcm3/constants.h b/c/librtcm/include/rtcm3/constants.h
index 8f9b33f..2ded348 100644
--- a/c/librtcm/include/rtcm3/constants.h
+++ b/c/librtcm/include/rtcm3/constants.h
@@ -63,6 +63,8 @@
 #define C_1_2P29 1.862645149230957e-09
 /** 2^-31 */
 #define C_1_2P31 4.656612873077393e-10
+/** 2^13 */
+#define C_2P13 8192
 /** 2^14 */
 #define C_2P14 16384
 /** 2^19 */
diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 2b071d3..ca5dc5d 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -131,6 +131,15 @@ static int32_t encode_diff_phaserange(double cp_pr, double freq) {
   return (int32_t)ppr;
 }
 
+/* Encode L2 - L1 Pseudorange (DF017, DF047) */
+static int32_t encode_diff_pseudorange(const rtcm_freq_data *freq_data,
+                                       double diff) {
+  if (!freq_data->flags.fields.valid_pr || fabs(diff) >= C_2P13) {
+    return (int32_t)PR_L2_INVALID;
+  }
+  return (int32_t)diff;
+}
+
 static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
                                    const freq_t freq_enum,
                                    const double *l1_pr,
@@ -143,8 +152,7 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
   uint32_t calc_l1_pr = (uint32_t)round((*l1_pr - amb * PRUNIT_GPS) / 0.02);
 
   /* Calculate GPS Pseudorange (DF011/DF016). */
-  uint32_t pr =
-      (uint32_t)round((freq_data->pseudorange - amb * PRUNIT_GPS) / 0.02);
+  double pr = round((freq_data->pseudorange - amb * PRUNIT_GPS) / 0.02);
 
   double l1_prc = calc_l1_pr * 0.02 + amb * PRUNIT_GPS;
 
@@ -154,18 +162,17 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
     rtcm_setbitu(buff, *bit, 1, 0);
     *bit += 1;
     rtcm_setbitu(
-        buff, *bit, 24, freq_data->flags.fields.valid_pr ? pr : PR_L1_INVALID);
+        buff,
+        *bit,
+        24,
+        freq_data->flags.fields.valid_pr ? (uint32_t)pr : PR_L1_INVALID);
     *bit += 24;
   } else {
     freq = GPS_L2_HZ;
     rtcm_setbitu(buff, *bit, 2, 0);
     *bit += 2;
-    rtcm_setbits(buff,
-                 *bit,
-                 14,
-                 freq_data->flags.fields.valid_pr
-                     ? (int32_t)pr - (int32_t)calc_l1_pr
-                     : (int32_t)PR_L2_INVALID);
+    rtcm_setbits(
+        buff, *bit, 14, encode_diff_pseudorange(freq_data, pr - calc_l1_pr));
     *bit += 14;
   }
 
@@ -201,8 +208,7 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
   uint32_t calc_l1_pr = (uint32_t)round((*l1_pr - amb * PRUNIT_GLO) / 0.02);
 
   /* Calculate GLO Pseudorange (DF041/DF046). */
-  uint32_t pr =
-      (uint32_t)round((freq_data->pseudorange - amb * PRUNIT_GLO) / 0.02);
+  double pr = round((freq_data->pseudorange - amb * PRUNIT_GLO) / 0.02);
 
   double l1_prc = calc_l1_pr * 0.02 + amb * PRUNIT_GLO;
 
@@ -215,19 +221,18 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
     rtcm_setbitu(buff, *bit, 5, fcn);
     *bit += 5;
     rtcm_setbitu(
-        buff, *bit, 25, freq_data->flags.fields.valid_pr ? pr : PR_L1_INVALID);
+        buff,
+        *bit,
+        25,
+        freq_data->flags.fields.valid_pr ? (uint32_t)pr : PR_L1_INVALID);
     *bit += 25;
   } else {
     glo_freq = GLO_L2_HZ + (fcn - MT1012_GLO_FCN_OFFSET) * GLO_L2_DELTA_HZ;
 
     rtcm_setbitu(buff, *bit, 2, 0);
     *bit += 2;
-    rtcm_setbits(buff,
-                 *bit,
-                 14,
-                 freq_data->flags.fields.valid_pr
-                     ? (int32_t)pr - (int32_t)calc_l1_pr
-                     : (int32_t)PR_L2_INVALID);
+    rtcm_setbits(
+        buff, *bit, 14, encode_diff_pseudorange(freq_data, pr - calc_l1_pr));
     *bit += 14;
   }
 
-- 
2.43.0


From dc1b2a9c88f13f34ea8cca7cd85510fdf0279987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 13/79] fix: librtcm: 32 satellites were encoded as none

---
 c/librtcm/include/rtcm3/constants.h |  2 ++
 c/librtcm/src/encode.c              | 12 ++++++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/c/librtcm/include/rtcm3/constants.h b/c/librtcm/include/rtcm3/constants.h
index 2ded348..d5c6784 100644
--- a/c/librtcm/include/rtcm3/constants.h
+++ b/c/librtcm/include/rtcm3/constants.h
@@ -16,6 +16,8 @@
 #define PRUNIT_GPS 299792.458 /**< RTCM v3 Unit of GPS Pseudorange (m) */
 #define PRUNIT_GLO 599584.916 /**< RTCM v3 Unit of GLO Pseudorange (m) */
 #define RTCM_MAX_SATS 32
+/** Most satellites the 5 bit count of an observation message can express */
+#define RTCM_MAX_ENCODED_SATS 31
 #define CP_INVALID 0xFFF80000      /* Unsigned bit pattern 0x80000 */
 #define PR_L1_INVALID 0xFFF80000   /* Unsigned bit pattern 0x80000 */
 #define PR_L2_INVALID 0xFFFFE000   /* Unsigned bit pattern 0x20000 */
diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index ca5dc5d..fdd11ec 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -392,7 +392,7 @@ uint16_t rtcm3_encode_1001(const rtcm_obs_message *msg_1001, uint8_t buff[]) {
                              buff,
                              &bit);
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
+      if (num_sats >= RTCM_MAX_ENCODED_SATS) {
         /* sanity */
         break;
       }
@@ -446,7 +446,7 @@ uint16_t rtcm3_encode_1002(const rtcm_obs_message *msg_1002, uint8_t buff[]) {
                    (uint8_t)round(msg_1002->sats[i].obs[L1_FREQ].cnr * 4.0));
       bit += 8;
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
+      if (num_sats >= RTCM_MAX_ENCODED_SATS) {
         /* sanity */
         break;
       }
@@ -482,7 +482,7 @@ uint16_t rtcm3_encode_1003(const rtcm_obs_message *msg_1003, uint8_t buff[]) {
                              buff,
                              &bit);
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
+      if (num_sats >= RTCM_MAX_ENCODED_SATS) {
         /* sanity */
         break;
       }
@@ -534,7 +534,7 @@ uint16_t rtcm3_encode_1004(const rtcm_obs_message *msg_1004, uint8_t buff[]) {
                    (uint8_t)round(msg_1004->sats[i].obs[L2_FREQ].cnr * 4.0));
       bit += 8;
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
+      if (num_sats >= RTCM_MAX_ENCODED_SATS) {
         /* sanity */
         break;
       }
@@ -676,7 +676,7 @@ uint16_t rtcm3_encode_1010(const rtcm_obs_message *msg_1010, uint8_t buff[]) {
           buff, bit, 8, (uint8_t)round(sat_obs->obs[L1_FREQ].cnr * 4.0));
       bit += 8;
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
+      if (num_sats >= RTCM_MAX_ENCODED_SATS) {
         /* sanity */
         break;
       }
@@ -726,7 +726,7 @@ uint16_t rtcm3_encode_1012(const rtcm_obs_message *msg_1012, uint8_t buff[]) {
           buff, bit, 8, (uint8_t)round(sat_obs->obs[L2_FREQ].cnr * 4.0));
       bit += 8;
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
+      if (num_sats >= RTCM_MAX_ENCODED_SATS) {
         /* sanity */
         break;
       }
-- 
2.43.0


From d4120b161606cfb854e5494b38f911d420ea15b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 14/79] fix: librtcm: do not encode the CNR of a signal without
 a valid one

---
 c/librtcm/src/encode.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index fdd11ec..9cec962 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -140,6 +140,13 @@ static int32_t encode_diff_pseudorange(const rtcm_freq_data *freq_data,
   return (int32_t)diff;
 }
 
+/* Encode CNR (DF015, DF020, DF045, DF050), 0 if there is none */
+static uint8_t encode_cnr(const rtcm_freq_data *freq_data) {
+  return freq_data->flags.fields.valid_cnr
+             ? (uint8_t)round(freq_data->cnr * 4.0)
+             : 0;
+}
+
 static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
                                    const freq_t freq_enum,
                                    const double *l1_pr,
@@ -440,10 +447,7 @@ uint16_t rtcm3_encode_1002(const rtcm_obs_message *msg_1002, uint8_t buff[]) {
 
       rtcm_setbitu(buff, bit, 8, amb);
       bit += 8;
-      rtcm_setbitu(buff,
-                   bit,
-                   8,
-                   (uint8_t)round(msg_1002->sats[i].obs[L1_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&msg_1002->sats[i].obs[L1_FREQ]));
       bit += 8;
       ++num_sats;
       if (num_sats >= RTCM_MAX_ENCODED_SATS) {
@@ -517,10 +521,7 @@ uint16_t rtcm3_encode_1004(const rtcm_obs_message *msg_1004, uint8_t buff[]) {
 
       rtcm_setbitu(buff, bit, 8, amb);
       bit += 8;
-      rtcm_setbitu(buff,
-                   bit,
-                   8,
-                   (uint8_t)round(msg_1004->sats[i].obs[L1_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&msg_1004->sats[i].obs[L1_FREQ]));
       bit += 8;
 
       encode_basic_freq_data(&msg_1004->sats[i].obs[L2_FREQ],
@@ -528,10 +529,7 @@ uint16_t rtcm3_encode_1004(const rtcm_obs_message *msg_1004, uint8_t buff[]) {
                              &msg_1004->sats[i].obs[L1_FREQ].pseudorange,
                              buff,
                              &bit);
-      rtcm_setbitu(buff,
-                   bit,
-                   8,
-                   (uint8_t)round(msg_1004->sats[i].obs[L2_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&msg_1004->sats[i].obs[L2_FREQ]));
       bit += 8;
       ++num_sats;
       if (num_sats >= RTCM_MAX_ENCODED_SATS) {
@@ -672,8 +670,7 @@ uint16_t rtcm3_encode_1010(const rtcm_obs_message *msg_1010, uint8_t buff[]) {
 
       rtcm_setbitu(buff, bit, 7, amb);
       bit += 7;
-      rtcm_setbitu(
-          buff, bit, 8, (uint8_t)round(sat_obs->obs[L1_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&sat_obs->obs[L1_FREQ]));
       bit += 8;
       ++num_sats;
       if (num_sats >= RTCM_MAX_ENCODED_SATS) {
@@ -712,8 +709,7 @@ uint16_t rtcm3_encode_1012(const rtcm_obs_message *msg_1012, uint8_t buff[]) {
 
       rtcm_setbitu(buff, bit, 7, amb);
       bit += 7;
-      rtcm_setbitu(
-          buff, bit, 8, (uint8_t)round(sat_obs->obs[L1_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&sat_obs->obs[L1_FREQ]));
       bit += 8;
 
       encode_basic_glo_freq_data(&sat_obs->obs[L2_FREQ],
@@ -722,8 +718,7 @@ uint16_t rtcm3_encode_1012(const rtcm_obs_message *msg_1012, uint8_t buff[]) {
                                  sat_obs->fcn,
                                  buff,
                                  &bit);
-      rtcm_setbitu(
-          buff, bit, 8, (uint8_t)round(sat_obs->obs[L2_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&sat_obs->obs[L2_FREQ]));
       bit += 8;
       ++num_sats;
       if (num_sats >= RTCM_MAX_ENCODED_SATS) {
-- 
2.43.0


From 8eb561fd936f2c204db5454e171f39e728e00a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 15/79] fix: librtcm: MSM rough ranges just below a millisecond
 were encoded 1 ms short

---
 c/librtcm/src/encode.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 9cec962..7f06e38 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -919,11 +919,13 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
                                 double rough_rate_m_s[num_sats],
                                 uint8_t buff[],
                                 uint16_t *bit) {
+  /* rough range in 1/1024 ms */
+  uint32_t rough_range[num_sats];
+
   /* number of integer milliseconds, DF397 */
-  uint8_t integer_ms[num_sats];
   for (uint8_t i = 0; i < num_sats; i++) {
-    integer_ms[i] = (uint8_t)floor(msg->sats[i].rough_range_ms);
-    rtcm_setbitu(buff, *bit, 8, integer_ms[i]);
+    rough_range[i] = (uint32_t)round(1024 * msg->sats[i].rough_range_ms);
+    rtcm_setbitu(buff, *bit, 8, rough_range[i] / 1024);
     *bit += 8;
   }
   if (MSM5 == msm_type) {
@@ -935,13 +937,9 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
 
   /* rough range modulo 1 ms, DF398 */
   for (uint8_t i = 0; i < num_sats; i++) {
-    double pr = msg->sats[i].rough_range_ms;
-    /* remove integer ms part */
-    double range_modulo_ms = pr - integer_ms[i];
-    uint16_t range_modulo_encoded = (uint16_t)round(1024 * range_modulo_ms);
-    rtcm_setbitu(buff, *bit, 10, range_modulo_encoded);
+    rtcm_setbitu(buff, *bit, 10, rough_range[i] % 1024);
     *bit += 10;
-    rough_range_ms[i] = integer_ms[i] + (double)range_modulo_encoded / 1024;
+    rough_range_ms[i] = (double)rough_range[i] / 1024;
   }
 
   /* range rate, m/s, DF399*/
-- 
2.43.0


From fa07075f0dea7373fc56d04c4b3256b0b68b11ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 16/79] fix: librtcm: MSM CNR above 63 dB-Hz wrapped to invalid

---
 c/librtcm/src/encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 7f06e38..6a76c4c 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -1020,7 +1020,7 @@ static void encode_msm_cnrs(const uint8_t num_cells,
   /* DF403 */
   for (uint16_t i = 0; i < num_cells; i++) {
     if (flags[i].fields.valid_cnr) {
-      rtcm_setbitu(buff, *bit, 6, (uint8_t)round(cnr[i]));
+      rtcm_setbitu(buff, *bit, 6, (uint8_t)fmin(round(cnr[i]), 63));
     } else {
       rtcm_setbitu(buff, *bit, 6, 0);
     }
-- 
2.43.0


From 0229581e399ca7be47865a04a7644046c2f2389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 17/79] fix: ubx2sbp: measurements SBP cannot represent were
 sent with undefined values and flagged valid

---
 c/gnss_converters/src/ubx_sbp.c | 60 +++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 64785fa..9bea0af 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -86,6 +86,8 @@
 
 #define UBX_SBP_PSEUDORANGE_SCALING (50)
 
+#define SBP_OBS_CODE_MASK (1 << 0)
+#define SBP_OBS_PHASE_MASK ((1 << 1) | (1 << 2))
 #define SBP_OBS_DOPPLER_MASK (1 << 3)
 #define SBP_OBS_TRACK_STATE_MASK (0x07)
 
@@ -295,19 +297,18 @@ static code_t convert_ubx_gnssid_sigid(u8 gnss_id, u8 sig_id) {
 
 static bool pack_carrier_phase(double L_in, sbp_carrier_phase_t *L_out) {
   double Li = floor(L_in);
-  if (Li < INT32_MIN || Li > INT32_MAX) {
+  double Lf = round((L_in - Li) * SBP_OBS_LF_MULTIPLIER);
+  if (Lf > UINT8_MAX) {
+    Lf = 0;
+    Li += 1;
+  }
+  /* also false for a value that is not a number */
+  if (!(Li >= INT32_MIN && Li <= INT32_MAX)) {
     return false;
   }
 
-  double Lf = L_in - Li;
-
   L_out->i = (s32)Li;
-  u16 frac_part_cp = (u16)round(Lf * SBP_OBS_LF_MULTIPLIER);
-  if (frac_part_cp > UINT8_MAX) {
-    frac_part_cp = 0;
-    L_out->i += 1;
-  }
-  L_out->f = frac_part_cp;
+  L_out->f = (u8)Lf;
 
   return true;
 }
@@ -315,19 +316,18 @@ static bool pack_carrier_phase(double L_in, sbp_carrier_phase_t *L_out) {
 /* TODO(STAR-920) Move pack_* functions into libsbp or libswitfnav */
 static bool pack_doppler(double D_in, sbp_doppler_t *D_out) {
   double Di = floor(D_in);
-  if (Di < INT16_MIN || Di > INT16_MAX) {
+  double Df = round((D_in - Di) * SBP_OBS_DF_MULTIPLIER);
+  if (Df > UINT8_MAX) {
+    Df = 0;
+    Di += 1;
+  }
+  /* also false for a value that is not a number */
+  if (!(Di >= INT16_MIN && Di <= INT16_MAX)) {
     return false;
   }
 
-  double Df = D_in - Di;
-
   D_out->i = (s16)Di;
-  u16 frac_part_d = (u16)round(Df * SBP_OBS_DF_MULTIPLIER);
-  if (frac_part_d > UINT8_MAX) {
-    frac_part_d = 0;
-    D_out->i += 1;
-  }
-  D_out->f = frac_part_d;
+  D_out->f = (u8)Df;
 
   return true;
 }
@@ -376,10 +376,24 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
   *n_obs = rxm_rawx->num_meas;
 
   for (int i = 0; i < *n_obs; i++) {
+    memset(&obs[i], 0, sizeof(obs[i]));
+    /* currently assumes all doppler are valid */
+    obs[i].flags |= SBP_OBS_DOPPLER_MASK;
+    obs[i].flags |= rxm_rawx->track_state[i] & SBP_OBS_TRACK_STATE_MASK;
+    /* a measurement SBP cannot represent must not be flagged as valid */
     /* convert units: meter -> 2 cm */
-    obs[i].P = (u32)(UBX_SBP_PSEUDORANGE_SCALING * rxm_rawx->pseudorange_m[i]);
-    pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &obs[i].L);
-    pack_doppler(rxm_rawx->doppler_hz[i], &obs[i].D);
+    double P = UBX_SBP_PSEUDORANGE_SCALING * rxm_rawx->pseudorange_m[i];
+    if (P >= 0 && P <= UINT32_MAX) {
+      obs[i].P = (u32)P;
+    } else {
+      obs[i].flags &= (u8)~SBP_OBS_CODE_MASK;
+    }
+    if (!pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &obs[i].L)) {
+      obs[i].flags &= (u8)~SBP_OBS_PHASE_MASK;
+    }
+    if (!pack_doppler(rxm_rawx->doppler_hz[i], &obs[i].D)) {
+      obs[i].flags &= (u8)~SBP_OBS_DOPPLER_MASK;
+    }
     /* check for overflow */
     if (rxm_rawx->cno_dbhz[i] > 0x3F) {
       obs[i].cn0 = 0xFF;
@@ -390,10 +404,6 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
      * internally converts back to u32 ms.
      */
     obs[i].lock = encode_lock_time((double)rxm_rawx->lock_time[i] / SECS_MS);
-    obs[i].flags = 0;
-    /* currently assumes all doppler are valid */
-    obs[i].flags |= SBP_OBS_DOPPLER_MASK;
-    obs[i].flags |= rxm_rawx->track_state[i] & SBP_OBS_TRACK_STATE_MASK;
     obs[i].sid.sat = rxm_rawx->sat_id[i];
     obs[i].sid.code =
         convert_ubx_gnssid_sigid(rxm_rawx->gnss_id[i], rxm_rawx->sig_id[i]);
-- 
2.43.0


From 8e5a3298d3825399b556d617e331d0bb0499bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 18/79] fix: ubx2sbp: more than 15 OBS messages overflowed the
 message count of the header

---
 c/gnss_converters/src/ubx_sbp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 9bea0af..f312ae3 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -103,6 +103,9 @@ static const double ubx_sensortime_scale = 39.0625e-6;
  */
 #define SBP_MAX_NUM_OBS 14
 
+/* The observation header has four bits for the number of messages */
+#define SBP_MAX_OBS_MESSAGES 15
+
 /* Syncs data between HNR_PVT and NAV_PVT */
 struct ubx_pvt_state {
   u8 num_sats;
@@ -373,7 +376,7 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
   /* Not proper SBP n_obs. Needed to pass total number of measurements
    * to handle_rxm_rawx
    */
-  *n_obs = rxm_rawx->num_meas;
+  *n_obs = MIN(rxm_rawx->num_meas, SBP_MAX_NUM_OBS * SBP_MAX_OBS_MESSAGES);
 
   for (int i = 0; i < *n_obs; i++) {
     memset(&obs[i], 0, sizeof(obs[i]));
-- 
2.43.0


From 7bdc9ef5a132df12e87f1a722afe492438a3f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 19/79] fix: ubx2sbp: rounding a receiver time up could give a
 time of week of a whole week

---
 c/gnss_converters/src/ubx_sbp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index f312ae3..3df4e3e 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -372,6 +372,11 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
     obs_time->wn = -1;
   } else {
     obs_time->wn = rxm_rawx->rcv_wn;
+    if (obs_time->tow == WEEK_MS) {
+      /* rounded up into the next week */
+      obs_time->tow = 0;
+      obs_time->wn++;
+    }
   }
   /* Not proper SBP n_obs. Needed to pass total number of measurements
    * to handle_rxm_rawx
-- 
2.43.0


From 76dd8fe7100a3eb0f1e4897ac03f08a22a09ce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 20/79] fix: ubx2sbp: NAV-SAT CNR above 63 dB-Hz wrapped

---
 c/gnss_converters/src/ubx_sbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 3df4e3e..b1cf9a5 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -1089,7 +1089,7 @@ static void handle_nav_sat(struct ubx_sbp_state *state,
     msg_meas_state->states[msg_meas_state->n_states].mesid.sat = sat_id;
     msg_meas_state->states[msg_meas_state->n_states].mesid.code = code;
     msg_meas_state->states[msg_meas_state->n_states].cn0 =
-        lround((double)data->cno * 4.0);
+        data->cno > 0x3F ? 0xFF : 4 * data->cno;
     msg_meas_state->n_states++;
 
     /* send SBP_MSG_SV_AZ_EL if full */
-- 
2.43.0


From 77288ae0799413fb958de41b6e5a6d357075de7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 21/79] fix: ubx2sbp: odometry time jumped when the calibrated
 time tag wrapped

---
 c/gnss_converters/src/ubx_sbp.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index b1cf9a5..cd70fcc 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -664,8 +664,7 @@ static void handle_esf_meas(struct ubx_sbp_state *state,
       // cached in the state object and would cause wrap around and
       // errors down the processing chain
       if ((state->esf_state.running_odo_msss != -1) &&
-          ((uint64_t)esf_meas.calib_tag -
-           (uint64_t)state->esf_state.running_odo_msss) > 1000) {
+          (esf_meas.calib_tag - state->esf_state.last_odo_msss) > 1000) {
         state->esf_state.running_odo_msss = -1;
         // The first packet after a reset appears to contain bad data so just
         // drop it, the next packet to arrive should be valid
-- 
2.43.0


From 50e6a7b59983332966e58eba9e9e951e8906bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 22/79] fix: ubx2sbp: the wheels shared one tick counter

---
 .../include/gnss-converters/ubx_sbp.h         |  7 ++++--
 c/gnss_converters/src/ubx_sbp.c               | 25 +++++++++++--------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/c/gnss_converters/include/gnss-converters/ubx_sbp.h b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
index e24ffcb..dd6e3a6 100644
--- a/c/gnss_converters/include/gnss-converters/ubx_sbp.h
+++ b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
@@ -46,6 +46,8 @@ extern "C" {
 
 #define UBX_UNKNOWN_PRN 255
 
+#define UBX_NUM_WHEELTICK_SOURCES 4
+
 /* Stores state for ESF-* messages */
 struct ubx_esf_state {
   gps_time_t last_obs_time_gnss;
@@ -55,8 +57,9 @@ struct ubx_esf_state {
   u32 last_imu_msss;
   u32 last_odo_msss;
   u32 imu_raw_msgs_sent;
-  u32 last_input_tick_count;
-  s32 output_tick_count;
+  /* per SBP wheeltick source */
+  u32 last_input_tick_count[UBX_NUM_WHEELTICK_SOURCES];
+  s32 output_tick_count[UBX_NUM_WHEELTICK_SOURCES];
   double last_imu_temp;
   bool temperature_set;
   bool weeknumber_set;
diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index cd70fcc..65954cd 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -692,22 +692,25 @@ static void handle_esf_meas(struct ubx_sbp_state *state,
       } else {
         u32 tick_count = data_value & 0x3FFFFF;
         bool reverse = (data_value & (1 << 23)) >> 23;
-        if (state->esf_state.last_input_tick_count == UINT32_MAX) {
-          state->esf_state.last_input_tick_count = tick_count;
-          state->esf_state.output_tick_count = tick_count;
+        u8 source = get_wheeltick_velocity_source(data_type);
+        u32 *last_input = &state->esf_state.last_input_tick_count[source];
+        s32 *output = &state->esf_state.output_tick_count[source];
+        if (*last_input == UINT32_MAX) {
+          *last_input = tick_count;
+          *output = tick_count;
         } else {
-          u32 increment = tick_count - state->esf_state.last_input_tick_count;
-          state->esf_state.last_input_tick_count = tick_count;
+          u32 increment = tick_count - *last_input;
+          *last_input = tick_count;
           if (reverse) {
-            state->esf_state.output_tick_count -= increment;
+            *output -= increment;
           } else {
-            state->esf_state.output_tick_count += increment;
+            *output += increment;
           }
         }
         sbp_msg_wheeltick_t *msg_wheeltick = &msg.wheeltick;
         set_wheeltick_time(state->esf_state.running_odo_msss, msg_wheeltick);
-        msg_wheeltick->source = get_wheeltick_velocity_source(data_type);
-        msg_wheeltick->ticks = state->esf_state.output_tick_count;
+        msg_wheeltick->source = source;
+        msg_wheeltick->ticks = *output;
         state->cb_ubx_to_sbp(
             state->sender_id, SbpMsgWheeltick, &msg, state->context);
       }
@@ -1400,7 +1403,9 @@ void ubx_sbp_init(struct ubx_sbp_state *state,
   state->esf_state.running_imu_msss = -1;
   state->esf_state.running_odo_msss = -1;
 
-  state->esf_state.last_input_tick_count = UINT32_MAX;
+  for (int i = 0; i < UBX_NUM_WHEELTICK_SOURCES; i++) {
+    state->esf_state.last_input_tick_count[i] = UINT32_MAX;
+  }
 
   state->leap_second_known = false;
 }
-- 
2.43.0


From 3c24f1bb251f7fc094b0ffede6bdd9fb3c6ae006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 23/79] fix: ubx2sbp: SBAS message time was wrong in the first
 second of the week

---
 c/gnss_converters/src/ubx_sbp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 65954cd..9b8deca 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -1286,10 +1286,10 @@ static void handle_rxm_sfrbx(struct ubx_sbp_state *state,
     /* Fill in the approximate time of transmission of the start of the SBAS
      * message. The best guess for it we have is the current solution time
      * minus 1 s (length of the message) minus 120 ms (~= 36000km / 3e8m/s). */
-    tow_ms -= 1120;
-    if (tow_ms < 0.0) {
+    if (tow_ms < 1120) {
       tow_ms += WEEK_MS;
     }
+    tow_ms -= 1120;
 
     sbas_decode_subframe(&state->eph_data,
                          tow_ms,
-- 
2.43.0


From f08d09d42da23951a775703bc0e58b154119ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 24/79] fix: ubx2sbp: GLONASS string number 0 wrote outside the
 strings

---
 c/gnss_converters/src/ubx_ephemeris/glo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_ephemeris/glo.c b/c/gnss_converters/src/ubx_ephemeris/glo.c
index ed80926..1c0315a 100644
--- a/c/gnss_converters/src/ubx_ephemeris/glo.c
+++ b/c/gnss_converters/src/ubx_ephemeris/glo.c
@@ -92,7 +92,7 @@ void glo_decode_string(
   }
 
   u8 string_num = (words[0] >> 27U) & 0xFU;
-  if (string_num > GLO_MAX_STRING_NUM) {
+  if ((string_num < 1) || (string_num > GLO_MAX_STRING_NUM)) {
     /* only strings 1-5 needed for ephemeris */
     return;
   }
-- 
2.43.0


From 27d2cd5663a6203da24cd0f100470539e71dc2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 25/79] fix: ubx2sbp: wheel ticks jumped when the tick counter
 wrapped

---
 c/gnss_converters/src/ubx_sbp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 9b8deca..670214d 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -690,7 +690,8 @@ static void handle_esf_meas(struct ubx_sbp_state *state,
         state->cb_ubx_to_sbp(
             state->sender_id, SbpMsgOdometry, &msg, state->context);
       } else {
-        u32 tick_count = data_value & 0x3FFFFF;
+        const u32 kTickMask = 0x3FFFFF;
+        u32 tick_count = data_value & kTickMask;
         bool reverse = (data_value & (1 << 23)) >> 23;
         u8 source = get_wheeltick_velocity_source(data_type);
         u32 *last_input = &state->esf_state.last_input_tick_count[source];
@@ -699,7 +700,7 @@ static void handle_esf_meas(struct ubx_sbp_state *state,
           *last_input = tick_count;
           *output = tick_count;
         } else {
-          u32 increment = tick_count - *last_input;
+          u32 increment = (tick_count - *last_input) & kTickMask;
           *last_input = tick_count;
           if (reverse) {
             *output -= increment;
-- 
2.43.0


From f284dcd0fefd16897ee038f83ed6c8e048dfa788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 26/79] fix: ubx2sbp: GNSS time offset was wrong once the
 milliseconds since startup wrapped

---
 c/gnss_converters/src/ubx_sbp.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 670214d..292dbf8 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -1163,8 +1163,15 @@ static void handle_nav_status(struct ubx_sbp_state *state,
     }
 
     if (gps_time_valid(&state->esf_state.last_imu_time_msss)) {
+      /* the time since startup, continued past the wrap of the 32 bit value the
+       * same way as for the IMU times */
+      s64 msss = nav_status.msss;
+      if (state->esf_state.running_imu_msss != -1) {
+        msss = state->esf_state.running_imu_msss +
+               (s32)(nav_status.msss - state->esf_state.last_imu_msss);
+      }
       gps_time_t nav_status_time_local;
-      nav_status_time_local.tow = 0.001 * nav_status.msss;
+      nav_status_time_local.tow = 0.001 * msss;
       nav_status_time_local.wn = 0;
       if (!normalize_gps_time_safe(&nav_status_time_local)) {
         return;
-- 
2.43.0


From e98e8247e96a181fde88f3499456e140774fc37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 27/79] fix: ixcom2sbp: an impossible message length aborted
 the converter or ended the conversion

---
 c/gnss_converters/src/ixcom_sbp.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/c/gnss_converters/src/ixcom_sbp.c b/c/gnss_converters/src/ixcom_sbp.c
index d55b09a..e6fb04f 100644
--- a/c/gnss_converters/src/ixcom_sbp.c
+++ b/c/gnss_converters/src/ixcom_sbp.c
@@ -45,6 +45,19 @@ static int read_ixcom_bytes(struct ixcom_sbp_state *state, size_t num_bytes) {
   return ret;
 }
 
+/* Drops the SYNC byte at the start of the buffer and everything up to the next
+ * one, if there is another */
+static void skip_to_next_sync(struct ixcom_sbp_state *state) {
+  for (size_t i = 1; i < state->index; i++) {
+    if (state->read_buffer[i] == XCOM_SYNC_BYTE) {
+      state->index -= i;
+      memmove(state->read_buffer, state->read_buffer + i, state->index);
+      return;
+    }
+  }
+  state->index = 0;
+}
+
 /** IXCOM Frame:
  * SYNC byte | Message ID | Frame Counter | Reserved | Message Length (2 bytes)
  * | GPS Week (2 bytes) | GPS TOW (8 bytes) | Payload (variable) | CRC16 (2
@@ -78,6 +91,13 @@ static int read_ixcom_frame(struct ixcom_sbp_state *state) {
       size_t message_length =
           state->read_buffer[4] + (state->read_buffer[5] << 8);
 
+      if (message_length < header_size + sizeof(XCOMFooter) ||
+          message_length >= IXCOM_BUFFER_SIZE) {
+        /* no message is that short or that long, this was not a SYNC byte */
+        skip_to_next_sync(state);
+        continue;
+      }
+
       ret = read_ixcom_bytes(state, message_length - state->index);
       if (ret <= 0) {
         break;
-- 
2.43.0


From 22d439c7a3fad25d5c364bab4d110e01ee8c92c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 28/79] fix: libixcom: the length of a message was trusted, its
 checksum read outside the message

---
 c/libixcom/src/decode.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/libixcom/src/decode.c b/c/libixcom/src/decode.c
index e5f780e..7687328 100644
--- a/c/libixcom/src/decode.c
+++ b/c/libixcom/src/decode.c
@@ -139,7 +139,8 @@ ixcom_rc ixcom_decode_imuraw(const uint8_t buff[], XCOMmsg_IMURAW *msg_imuraw) {
   }
   byte_offset += sizeof(msg_imuraw->header);
 
-  if (msg_imuraw->header.msg_id != XCOM_MSGID_IMURAW) {
+  if (msg_imuraw->header.msg_id != XCOM_MSGID_IMURAW ||
+      msg_imuraw->header.msg_len != sizeof(*msg_imuraw)) {
     return IXCOM_RC_INVALID_MESSAGE;
   }
 
@@ -181,7 +182,8 @@ ixcom_rc ixcom_decode_wheeldata(const uint8_t buff[],
   }
   byte_offset += sizeof(msg_wheeldata->header);
 
-  if (msg_wheeldata->header.msg_id != XCOM_MSGID_WHEELDATA) {
+  if (msg_wheeldata->header.msg_id != XCOM_MSGID_WHEELDATA ||
+      msg_wheeldata->header.msg_len != sizeof(*msg_wheeldata)) {
     return IXCOM_RC_INVALID_MESSAGE;
   }
 
-- 
2.43.0


From ee6c5023e8201ec85b0f9c0bca6e010b5ae1d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 29/79] fix: do not send an observation message without a time
 when no epoch is open

The last MSM of an epoch flushes the observation buffer even if none of the
epoch's messages were accepted, which sent an empty MSG_OBS of week 0.
---
 c/gnss_converters/src/rtcm3_sbp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 067487d..ec42a0f 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -629,7 +629,11 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
     if (bitstream.len < MSM_MULTIPLE_BIT_OFFSET) {
       return;
     }
-    if (rtcm_getbitu(bitstream.data, MSM_MULTIPLE_BIT_OFFSET, 1) == 0) {
+    const bool epoch_open = (state->obs_to_send > 0) ||
+                            (state->obs_time.wn != 0) ||
+                            (state->obs_time.tow != 0);
+    if (epoch_open &&
+        rtcm_getbitu(bitstream.data, MSM_MULTIPLE_BIT_OFFSET, 1) == 0) {
       send_observations(state);
     }
   }
-- 
2.43.0


From 7db27b2a9ae9ae7c1754a7db954dcd01dd0baa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 30/79] fix: rtcm3tosbp: a very strong MSM6/7 signal was
 reported with no signal strength

---
 c/gnss_converters/src/rtcm3_sbp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index ec42a0f..0e707e9 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1621,7 +1621,9 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
           }
 
           if (data->flags.fields.valid_cnr) {
-            sbp_freq->cn0 = (u8)rint(data->cnr * MSG_OBS_CN0_MULTIPLIER);
+            /* MSM6 and MSM7 carry values up to a quarter dB beyond the field */
+            sbp_freq->cn0 =
+                (u8)rint(MIN(data->cnr * MSG_OBS_CN0_MULTIPLIER, UINT8_MAX));
           } else {
             sbp_freq->cn0 = 0;
           }
-- 
2.43.0


From 4c2f54676929ee61e048ace554fc361fa8f8a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 31/79] fix: rtcm3tosbp: a Doppler beyond the SBP field was
 sent wrapped, as valid

---
 c/gnss_converters/src/rtcm3_sbp.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 0e707e9..b3aee82 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1632,9 +1632,13 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
             sbp_freq->lock = rtcm3_encode_lock_time(data->lock_time_s);
           }
 
-          if (data->flags.fields.valid_dop && freq_valid) {
-            /* flip Doppler sign to Piksi sign convention */
-            double doppler_Hz = -data->range_rate_m_s * freq / GPS_C;
+          /* flip Doppler sign to Piksi sign convention */
+          double doppler_Hz =
+              freq_valid ? -data->range_rate_m_s * freq / GPS_C : 0;
+          /* the SBP field has 16 bits, the fraction may be rounded up */
+          bool doppler_fits =
+              doppler_Hz >= INT16_MIN && doppler_Hz < INT16_MAX;
+          if (data->flags.fields.valid_dop && freq_valid && doppler_fits) {
             sbp_freq->D.i = (s16)floor(doppler_Hz);
             u16 frac_part = (u16)rint((doppler_Hz - (double)sbp_freq->D.i) *
                                       MSG_OBS_DF_MULTIPLIER);
-- 
2.43.0


From 1f14679c2857a2f1380c165d7c2ea54ec06ce2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 32/79] fix: rtcm3tosbp: a long 1029 text could end within a
 character

---
 c/gnss_converters/src/rtcm3_sbp.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index b3aee82..660f397 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1307,21 +1307,17 @@ void send_1029(rtcm_msg_1029 *msg_1029, struct rtcm3_sbp_state *state) {
          msg_1029->utf8_code_units,
          message_size - preamble_size);
 
-  /* Check if we've had to truncate the string - we can check for the bit
-   * pattern that denotes a 4 byte code unit as it is the super set of all bit
-   * patterns (2,3 and 4 byte code units) */
-  if (message_size == SBP_MSG_LOG_TEXT_MAX) {
-    if ((message[message_size - 1] & 0xF8) == 0xF0 ||
-        (message[message_size - 1] & 0xE0) == 0xE0 ||
-        (message[message_size - 1] & 0xE0) == 0xC0) {
-      /* We've truncated a 2, 3 or 4 byte code unit */
+  /* If we've had to truncate the string, don't leave a part of a 2, 3 or 4 byte
+   * character at its end */
+  if (preamble_size + msg_1029->utf8_code_units_n > SBP_MSG_LOG_TEXT_MAX) {
+    if ((message[message_size - 1] & 0xC0) == 0xC0) {
+      /* We've truncated a 2, 3 or 4 byte character after its first byte */
       message_size--;
-    } else if ((message[message_size - 1] & 0xF8) == 0xF0 ||
-               (message[message_size - 1] & 0xE0) == 0xE0) {
-      /* We've truncated a 3 or 4 byte code unit */
+    } else if ((message[message_size - 2] & 0xE0) == 0xE0) {
+      /* We've truncated a 3 or 4 byte character after its second byte */
       message_size -= 2;
-    } else if ((message[message_size - 1] & 0xF8) == 0xF0) {
-      /* We've truncated a 4 byte code unit */
+    } else if ((message[message_size - 3] & 0xF8) == 0xF0) {
+      /* We've truncated a 4 byte character after its third byte */
       message_size -= 3;
     }
   }
-- 
2.43.0


From ed9ce6add452aa91978902cb159c91c10c04f488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 33/79] fix: rtcm3tosbp: the warning about MSM1-3 had the wrong
 station

---
 c/gnss_converters/src/rtcm3_sbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 660f397..f2fc1e3 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1356,7 +1356,7 @@ void send_MSM_warning(const swiftnav_bitstream_t *bitstream,
     state->sent_msm_warning = true;
     /* Get the stn ID as well */
     uint32_t stn_id = 0;
-    if (swiftnav_bitstream_getbitu(bitstream, &stn_id, 12, 24)) {
+    if (swiftnav_bitstream_getbitu(bitstream, &stn_id, 12, 12)) {
       uint8_t msg[39] = "MSM1-3 Messages currently not supported";
       send_sbp_log_message(
           RTCM_MSM_LOGGING_LEVEL, msg, sizeof(msg), stn_id, state);
-- 
2.43.0


From 5350179e54ca71e9c436429daba9410c3f8c50e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 34/79] fix: rtcm3tosbp: rtcm2sbp_init left the cache of SSR
 corrections uninitialised

---
 c/gnss_converters/src/rtcm3_sbp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index f2fc1e3..09e2d31 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -127,6 +127,8 @@ void rtcm2sbp_init(struct rtcm3_sbp_state *state,
   sbp_state_init(&state->sbp_state);
   sbp_state_set_io_context(&state->sbp_state, context);
 
+  memset(state->orbit_clock_cache, 0, sizeof(state->orbit_clock_cache));
+
   fifo_init(&(state->fifo), state->fifo_buf, RTCM3_FIFO_SIZE);
 }
 
-- 
2.43.0


From 05e282ad1f3d8ba4d27b4dfa501e7517e7167c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 35/79] fix: rtcm3tosbp: clock corrections without orbit pushed
 the last satellites of an SSR epoch out

---
 c/gnss_converters/src/rtcm3_sbp_ssr.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp_ssr.c b/c/gnss_converters/src/rtcm3_sbp_ssr.c
index 6709874..bd1a7e7 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ssr.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ssr.c
@@ -93,8 +93,7 @@ void rtcm3_ssr_separate_orbit_clock_to_sbp(rtcm_msg_clock *msg_clock,
   sbp_msg_t msg;
   sbp_msg_ssr_orbit_clock_t *sbp_orbit_clock = &msg.ssr_orbit_clock;
 
-  for (int sat_count = 0; (sat_count < msg_clock->header.num_sats) &&
-                          (sat_count < msg_orbit->header.num_sats);
+  for (int sat_count = 0; sat_count < msg_clock->header.num_sats;
        ++sat_count) {
     memset(sbp_orbit_clock, 0, sizeof(*sbp_orbit_clock));
 
@@ -103,9 +102,9 @@ void rtcm3_ssr_separate_orbit_clock_to_sbp(rtcm_msg_clock *msg_clock,
     // for a given satellite
     int clock_index = sat_count;
     int orbit_index = 0;
-    while (msg_orbit->orbit[orbit_index].sat_id !=
-               msg_clock->clock[clock_index].sat_id &&
-           orbit_index < msg_orbit->header.num_sats) {
+    while (orbit_index < msg_orbit->header.num_sats &&
+           msg_orbit->orbit[orbit_index].sat_id !=
+               msg_clock->clock[clock_index].sat_id) {
       orbit_index++;
     }
     if (orbit_index >= msg_orbit->header.num_sats) {
-- 
2.43.0


From d7e67be7a2a393217cd4e315aa8dc8ef1206d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 36/79] fix: rtcm3tosbp: option -S swallowed the argument after
 it

---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index d21762b..80bd80d 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -147,7 +147,7 @@ int rtcm3tosbp_main(int argc,
   rtcm3tosbp_writefn = writefn;
 
   int opt;
-  while ((opt = getopt(argc, argv, "hb:c:l:tw:d:soGRECJS:v")) != -1) {
+  while ((opt = getopt(argc, argv, "hb:c:l:tw:d:soGRECJSv")) != -1) {
     if (optarg && *optarg == '=') {
       optarg++;
     }
-- 
2.43.0


From 741b1929d6786eaa23f6f330929f722b83b6fbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 37/79] fix: rtcm3tosbp: a negative code given to -b was
 written outside the table

---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index 80bd80d..d6618a2 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -276,7 +276,7 @@ static void parse_biases(char *arg) {
   char *tok = strtok(arg, ",");
   while (NULL != tok) {
     n = sscanf(tok, "%d:%f", &code, &bias);
-    if ((n != 2) || (code >= CODE_COUNT)) {
+    if ((n != 2) || (code < 0) || (code >= CODE_COUNT)) {
       break;
     }
     sbp_signal_biases[code] = bias;
-- 
2.43.0


From 57632df9b7db1601fc7b326dbb6563de977abd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:07 +0000
Subject: [PATCH 38/79] fix: rtcm3tosbp: a date of before 2015 aborted the
 converter when the time comes from observations

---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index d6618a2..0d62588 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -257,8 +257,14 @@ int rtcm3tosbp_main(int argc,
       help(argv[0], additional_opts_help);
       return -1;
     }
+    enum time_truth_state time_truth_state;
+    time_truth_get(
+        &time_truth, &time_truth_state, &state.time_from_input_data);
+    if (time_truth_state != TIME_TRUTH_SOLVED) {
+      fprintf(stderr, "The date specified is too early to be used.\n");
+      return -1;
+    }
     state.use_time_from_input_obs = true;
-    time_truth_get(&time_truth, NULL, &state.time_from_input_data);
   }
 
   /* todo: Do we want to return a non-zero value on an error? */
-- 
2.43.0


From bdc1a2bca796b0b0b3ee7db016e325a7cd9340d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 39/79] fix: rtcm3tosbp: raw navigation frames were read beyond
 the end of their message

---
 c/gnss_converters/src/rtcm3_sbp.c |  2 +-
 c/librtcm/include/rtcm3/decode.h  | 10 +++++-
 c/librtcm/src/decode.c            | 54 +++++++++++++------------------
 3 files changed, 32 insertions(+), 34 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 09e2d31..8e21839 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -615,7 +615,7 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
     }
     case 4075: {
       rtcm_msg_ndf ndf_msg;
-      if (RC_OK == rtcm3_decode_4075(payload, &ndf_msg)) {
+      if (RC_OK == rtcm3_decode_4075_bitstream(&bitstream, &ndf_msg)) {
         handle_ndf_frame(&ndf_msg, state);
       }
       break;
diff --git a/c/librtcm/include/rtcm3/decode.h b/c/librtcm/include/rtcm3/decode.h
index f02340a..9f23f1d 100644
--- a/c/librtcm/include/rtcm3/decode.h
+++ b/c/librtcm/include/rtcm3/decode.h
@@ -58,7 +58,8 @@ rtcm3_rc rtcm3_decode_msm7_bitstream(swiftnav_bitstream_t *buff,
                                      rtcm_msm_message *msg);
 rtcm3_rc rtcm3_decode_4062_bitstream(swiftnav_bitstream_t *buff,
                                      rtcm_msg_swift_proprietary *msg);
-rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg);
+rtcm3_rc rtcm3_decode_4075_bitstream(swiftnav_bitstream_t *buff,
+                                     rtcm_msg_ndf *msg);
 
 double rtcm3_decode_lock_time(uint8_t lock);
 
@@ -191,6 +192,13 @@ static inline rtcm3_rc rtcm3_decode_4062(const uint8_t buff[],
   return rtcm3_decode_4062_bitstream(&bitstream, msg);
 }
 
+static inline rtcm3_rc rtcm3_decode_4075(const uint8_t buff[],
+                                         rtcm_msg_ndf *msg) {
+  swiftnav_bitstream_t bitstream;
+  swiftnav_bitstream_init(&bitstream, buff, UINT32_MAX);
+  return rtcm3_decode_4075_bitstream(&bitstream, msg);
+}
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 75ed61d..42fef4f 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -1490,21 +1490,19 @@ rtcm3_rc rtcm3_decode_4062_bitstream(swiftnav_bitstream_t *buff,
  *          - RC_MESSAGE_TYPE_MISMATCH : Message type mismatch
  *          - RC_INVALID_MESSAGE : Nonzero reserved bits (invalid format)
  */
-rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
+rtcm3_rc rtcm3_decode_4075_bitstream(swiftnav_bitstream_t *buff,
+                                     rtcm_msg_ndf *msg) {
   assert(msg);
-  uint16_t bit = 0;
-  msg->msg_type = rtcm_getbitu(buff, bit, 12);
-  bit += 12;
+  BITSTREAM_DECODE_U16(buff, msg->msg_type, 12);
 
   if (msg->msg_type != 4075) { /* Unexpected message type. */
     return RC_MESSAGE_TYPE_MISMATCH;
   }
 
-  msg->stn_id = rtcm_getbitu(buff, bit, 12);
-  bit += 12;
+  BITSTREAM_DECODE_U16(buff, msg->stn_id, 12);
 
-  uint8_t reserved_bits = rtcm_getbitu(buff, bit, 2);
-  bit += 2;
+  uint8_t reserved_bits;
+  BITSTREAM_DECODE_U8(buff, reserved_bits, 2);
 
   /* These bits are reserved for future use, if they aren't 0 it must be a
      new format we don't know how to handle. */
@@ -1512,34 +1510,22 @@ rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
     return RC_INVALID_MESSAGE;
   }
 
-  msg->frame_count = rtcm_getbitu(buff, bit, 6);
-  bit += 6;
+  BITSTREAM_DECODE_U8(buff, msg->frame_count, 6);
 
   if (msg->frame_count > MAX_NDF_FRAMES) {
     return RC_INVALID_MESSAGE;
   }
 
   for (uint8_t i = 0; i < msg->frame_count; i++) {
-    msg->frames[i].sat_sys = rtcm_getbitu(buff, bit, 4);
-    bit += 4;
-
-    msg->frames[i].sat_num = rtcm_getbitu(buff, bit, 6);
-    bit += 6;
-
-    msg->frames[i].ext_sat_info = rtcm_getbitu(buff, bit, 4);
-    bit += 4;
-
-    msg->frames[i].sig_type = rtcm_getbitu(buff, bit, 5);
-    bit += 5;
-
-    msg->frames[i].epoch_time = rtcm_getbitu(buff, bit, 30);
-    bit += 30;
-
-    msg->frames[i].continuous_tracking = rtcm_getbitu(buff, bit, 1);
-    bit += 1;
-
-    msg->frames[i].frame_data_size_bits = rtcm_getbitu(buff, bit, 12);
-    bit += 12;
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].sat_sys, 4);
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].sat_num, 6);
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].ext_sat_info, 4);
+    BITSTREAM_DECODE_U8(buff, msg->frames[i].sig_type, 5);
+    BITSTREAM_DECODE_U32(buff, msg->frames[i].epoch_time, 30);
+    uint32_t continuous_tracking;
+    BITSTREAM_DECODE_U32(buff, continuous_tracking, 1);
+    msg->frames[i].continuous_tracking = continuous_tracking;
+    BITSTREAM_DECODE_U16(buff, msg->frames[i].frame_data_size_bits, 12);
 
     uint16_t remaining_bits = msg->frames[i].frame_data_size_bits;
     if (remaining_bits > MAX_NDF_FRAME_SIZE_BITS) {
@@ -1549,8 +1535,12 @@ rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
     uint16_t j = 0;
     while (remaining_bits > 0) {
       uint32_t next_bits = remaining_bits < 32 ? remaining_bits : 32;
-      msg->frames[i].frame_data[j++] = rtcm_getbitu(buff, bit, next_bits);
-      bit += next_bits;
+      if (!swiftnav_bitstream_getbitu(
+              buff, &msg->frames[i].frame_data[j], 0, next_bits)) {
+        return RC_INVALID_MESSAGE;
+      }
+      swiftnav_bitstream_remove(buff, next_bits);
+      j++;
       remaining_bits -= next_bits;
     }
   }
-- 
2.43.0


From f2cd8c6926b8bfc37aa8637b40e49a9f23544f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 40/79] fix: sbp2rtcm: observations that MSM cannot carry
 aborted the converter or took the place of others

A signal that has no place in the MSM signal mask was written beyond the mask
or tripped an assertion, and one refused because the message was full was
written into the cell of another satellite or signal.
---
 c/gnss_converters/src/rtcm3_utils.c     |  7 +++++--
 c/gnss_converters_extra/src/sbp_rtcm3.c | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_utils.c b/c/gnss_converters/src/rtcm3_utils.c
index ec2a750..46df452 100644
--- a/c/gnss_converters/src/rtcm3_utils.c
+++ b/c/gnss_converters/src/rtcm3_utils.c
@@ -634,6 +634,10 @@ bool msm_add_to_header(rtcm_msm_header *header, code_t code, u8 prn) {
 
   u8 sat_id = prn_to_msm_sat_id(prn, cons);
   u8 signal_id = code_to_msm_signal_id(code, cons);
+  if (signal_id >= MSM_SIGNAL_MASK_SIZE) {
+    msm_add_to_header_err(code, prn, "no such MSM signal");
+    return false;
+  }
 
   u8 num_sats = msm_get_num_satellites(header);
   u8 num_signals = msm_get_num_signals(header);
@@ -667,7 +671,6 @@ bool msm_add_to_header(rtcm_msm_header *header, code_t code, u8 prn) {
  * given signal and satellite */
 bool msm_add_to_cell_mask(rtcm_msm_header *header, code_t code, u8 prn) {
   uint8_t num_sigs = msm_get_num_signals(header);
-  assert(num_sigs > 0);
 
   rtcm_constellation_t cons = to_constellation(header->msg_num);
 
@@ -687,7 +690,7 @@ bool msm_add_to_cell_mask(rtcm_msm_header *header, code_t code, u8 prn) {
   }
 
   u8 signal_id = code_to_msm_signal_id(code, cons);
-  if (!header->signal_mask[signal_id]) {
+  if (signal_id >= MSM_SIGNAL_MASK_SIZE || !header->signal_mask[signal_id]) {
     msm_add_to_header_err(code, prn, "not in signal mask");
     return false;
   }
diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index a4c7526..03b12e1 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -672,6 +672,10 @@ void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
   /* loop through observations once to generate satellite and signal masks */
   for (u8 i = 0; i < state->n_sbp_obs; i++) {
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
+    if (!code_valid(sbp_obs->sid.code)) {
+      log_info("Ignoring observation of unknown signal %u", sbp_obs->sid.code);
+      continue;
+    }
     rtcm_constellation_t cons =
         (rtcm_constellation_t)code_to_constellation(sbp_obs->sid.code);
     msm_add_to_header(&obs[cons].header, sbp_obs->sid.code, sbp_obs->sid.sat);
@@ -679,16 +683,24 @@ void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
 
   /* using the complete satellite and signal masks, loop through observations
    * again to generate the cell mask */
+  bool has_cell[MAX_OBS_PER_EPOCH] = {false};
   for (u8 i = 0; i < state->n_sbp_obs; i++) {
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
+    if (!code_valid(sbp_obs->sid.code)) {
+      continue;
+    }
     rtcm_constellation_t cons =
         (rtcm_constellation_t)code_to_constellation(sbp_obs->sid.code);
-    msm_add_to_cell_mask(
+    has_cell[i] = msm_add_to_cell_mask(
         &obs[cons].header, sbp_obs->sid.code, sbp_obs->sid.sat);
   }
 
   /* loop through observations once more to generate the actual signal data */
   for (u8 i = 0; i < state->n_sbp_obs; i++) {
+    if (!has_cell[i]) {
+      /* unknown signal, or no room for it in the message */
+      continue;
+    }
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
     rtcm_constellation_t cons =
         (rtcm_constellation_t)code_to_constellation(sbp_obs->sid.code);
-- 
2.43.0


From 4ba3beb691d0d401d7620e26f8f9fffe1ddf4bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 41/79] fix: sbp2rtcm: a signal observed twice in an epoch
 aborted the converter

---
 c/gnss_converters/src/rtcm3_utils.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_utils.c b/c/gnss_converters/src/rtcm3_utils.c
index 46df452..e2938ba 100644
--- a/c/gnss_converters/src/rtcm3_utils.c
+++ b/c/gnss_converters/src/rtcm3_utils.c
@@ -701,7 +701,10 @@ bool msm_add_to_cell_mask(rtcm_msm_header *header, code_t code, u8 prn) {
   /* Mark the cell defined by this satellite/signal pair in the cell mask */
   u8 cell_id = sat_index * num_sigs + signal_index;
   assert(cell_id < MSM_MAX_CELLS);
-  assert(!header->cell_mask[cell_id]);
+  if (header->cell_mask[cell_id]) {
+    msm_add_to_header_err(code, prn, "already in cell mask");
+    return false;
+  }
   header->cell_mask[cell_id] = true;
 
   return true;
-- 
2.43.0


From 4e218c8bb9dc6ba9f7ee72cc6a4966e1912f23df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 42/79] fix: sbp2rtcm: observations beyond the maximum of an
 epoch were written past the buffer

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 03b12e1..59fc835 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -908,17 +908,17 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
        * flagged by RAIM */
       continue;
     }
-    /* add incoming sbp observation into sbp buffer */
-    state->sbp_obs_buffer[state->n_sbp_obs] = sbp_obs->obs[i];
-    state->n_sbp_obs++;
-    if (state->n_sbp_obs == MAX_OBS_PER_EPOCH) {
+    if (state->n_sbp_obs >= MAX_OBS_PER_EPOCH) {
       log_info(
           "Reached max observations per epoch %u, ignoring the remaining %u "
           "obs",
           (u16)MAX_OBS_PER_EPOCH,
-          n_meas - i - 1);
+          n_meas - i);
       break;
     }
+    /* add incoming sbp observation into sbp buffer */
+    state->sbp_obs_buffer[state->n_sbp_obs] = sbp_obs->obs[i];
+    state->n_sbp_obs++;
   }
   state->sbp_header = sbp_obs->header;
 
-- 
2.43.0


From 587dad0f618c28d7339f3c199417288c25747599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 43/79] fix: sbp2rtcm: an observation message shorter than its
 header was read past its end

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 59fc835..f319102 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -843,6 +843,11 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
                          struct rtcm3_out_state *state) {
   const msg_obs_t *sbp_obs = (const msg_obs_t *)msg;
 
+  if (len < sizeof(observation_header_t)) {
+    log_info("Ignoring SBP obs of only %u bytes", len);
+    return;
+  }
+
   if (state->sender_id != sender_id) {
     /* sender changed, send existing buffer and reset */
     sbp_buffer_to_rtcm3(state);
-- 
2.43.0


From 81bf6628caec34d670aac1f0b6db0d7936513dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 44/79] fix: sbp2rtcm: observations without a valid time of
 week aborted the converter

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index f319102..f0e192a 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -848,6 +848,11 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
     return;
   }
 
+  if (sbp_obs->header.t.tow >= WEEK_MS) {
+    log_info("Ignoring SBP obs with unknown time");
+    return;
+  }
+
   if (state->sender_id != sender_id) {
     /* sender changed, send existing buffer and reset */
     sbp_buffer_to_rtcm3(state);
-- 
2.43.0


From 70245ef0375ae97700149c3724a2b2abb4660271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:43 +0000
Subject: [PATCH 45/79] fix: sbp2rtcm: buffered observations went out under the
 station of another message's sender

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index f0e192a..1ea684e 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -412,16 +412,20 @@ void sbp2rtcm_base_pos_ecef_cb(const u16 sender_id,
   rtcm_msg_1033 msg_1033;
   u8 frame[RTCM3_MAX_MSG_LEN];
 
-  state->sender_id = sender_id;
+  /* state->sender_id is the sender of the buffered observations, which this
+   * message need not share */
+  const u16 stn_id = sbp_sender_to_rtcm_stn_id(sender_id);
 
   /* generate and send the base position message */
   sbp_to_rtcm3_1006((const msg_base_pos_ecef_t *)msg, &msg_1006, state);
+  msg_1006.msg_1005.stn_id = stn_id;
   u16 frame_size = encode_rtcm3_frame(&msg_1006, 1006, frame);
   state->cb_sbp_to_rtcm(frame, frame_size, state->context);
 
   if (state->ant_known) {
     /* generate and send the receiver and antenna description messages */
     generate_rtcm3_1033(&msg_1033, state);
+    msg_1033.stn_id = stn_id;
     rtcm3_1033_to_1008(&msg_1033, &msg_1008);
 
     frame_size = encode_rtcm3_frame(&msg_1008, 1008, frame);
@@ -437,10 +441,10 @@ void sbp2rtcm_glo_biases_cb(const u16 sender_id,
                             const u8 msg[],
                             struct rtcm3_out_state *state) {
   (void)len;
-  state->sender_id = sender_id;
 
   rtcm_msg_1230 msg_1230;
   sbp_to_rtcm3_1230((const msg_glo_biases_t *)msg, &msg_1230, state);
+  msg_1230.stn_id = sbp_sender_to_rtcm_stn_id(sender_id);
 
   u8 frame[RTCM3_MAX_MSG_LEN];
   u16 frame_size = encode_rtcm3_frame(&msg_1230, 1230, frame);
@@ -1128,8 +1132,7 @@ void sbp2rtcm_sbp_log_cb(const u16 sender_id,
   const msg_log_t *sbp_msg_log = (const msg_log_t *)msg;
   rtcm_msg_1029 rtcm_msg_log;
 
-  state->sender_id = sender_id;
-  rtcm_msg_log.stn_id = sender_id;
+  rtcm_msg_log.stn_id = sbp_sender_to_rtcm_stn_id(sender_id);
   rtcm_msg_log.mjd_num = 0;
   rtcm_msg_log.utc_sec_of_day = 0;
   rtcm_msg_log.unicode_chars = 0;
-- 
2.43.0


From 6196176c2fff42f9bf561dad9e719d545d5d20e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:43 +0000
Subject: [PATCH 46/79] fix: sbp2rtcm: an ephemeris of another constellation or
 of an unknown source aborted the converter

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 29 +++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 1ea684e..331050f 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -1055,6 +1055,12 @@ void sbp2rtcm_sbp_gps_eph_cb(const u16 sender_id,
   (void)sender_id;
   const msg_ephemeris_gps_t *sbp_gps_eph = (const msg_ephemeris_gps_t *)msg;
 
+  if (!is_gps(sbp_gps_eph->common.sid.code)) {
+    log_info("Ignoring GPS ephemeris of code %u",
+             sbp_gps_eph->common.sid.code);
+    return;
+  }
+
   rtcm_msg_eph msg_gps_eph;
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
 
@@ -1072,6 +1078,12 @@ void sbp2rtcm_sbp_glo_eph_cb(const u16 sender_id,
   (void)sender_id;
   const msg_ephemeris_glo_t *sbp_glo_eph = (const msg_ephemeris_glo_t *)msg;
 
+  if (!is_glo(sbp_glo_eph->common.sid.code)) {
+    log_info("Ignoring GLONASS ephemeris of code %u",
+             sbp_glo_eph->common.sid.code);
+    return;
+  }
+
   rtcm_msg_eph msg_glo_eph;
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
 
@@ -1089,6 +1101,12 @@ void sbp2rtcm_sbp_bds_eph_cb(const u16 sender_id,
   (void)sender_id;
   const msg_ephemeris_bds_t *sbp_bds_eph = (const msg_ephemeris_bds_t *)msg;
 
+  if (!is_bds2(sbp_bds_eph->common.sid.code)) {
+    log_info("Ignoring BeiDou ephemeris of code %u",
+             sbp_bds_eph->common.sid.code);
+    return;
+  }
+
   rtcm_msg_eph msg_bds_eph;
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
 
@@ -1108,6 +1126,15 @@ void sbp2rtcm_sbp_gal_eph_cb(const u16 sender_id,
   (void)sender_id;
   const msg_ephemeris_gal_t *sbp_gal_eph = (const msg_ephemeris_gal_t *)msg;
 
+  if (!is_gal(sbp_gal_eph->common.sid.code) ||
+      (sbp_gal_eph->source != EPH_SOURCE_GAL_INAV &&
+       sbp_gal_eph->source != EPH_SOURCE_GAL_FNAV)) {
+    log_info("Ignoring Galileo ephemeris of code %u, source %u",
+             sbp_gal_eph->common.sid.code,
+             sbp_gal_eph->source);
+    return;
+  }
+
   rtcm_msg_eph msg_gal_eph;
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
 
@@ -1115,8 +1142,6 @@ void sbp2rtcm_sbp_gal_eph_cb(const u16 sender_id,
    * source */
   sbp_to_rtcm3_gal_eph(sbp_gal_eph, &msg_gal_eph, state);
 
-  assert((sbp_gal_eph->source == EPH_SOURCE_GAL_INAV) ||
-         (sbp_gal_eph->source == EPH_SOURCE_GAL_FNAV));
   u16 message_type = sbp_gal_eph->source == EPH_SOURCE_GAL_INAV ? 1046 : 1045;
   u16 frame_size = encode_rtcm3_frame(&msg_gal_eph, message_type, frame);
   state->cb_sbp_to_rtcm(frame, frame_size, state->context);
-- 
2.43.0


From feb46c4b18765ebd5d70b26aed700db8ad2634e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:43 +0000
Subject: [PATCH 47/79] fix: sbp2rtcm: a GLONASS ephemeris of midnight got a
 reference time of 24 h

---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index 15323b2..e9084bf 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -93,7 +93,7 @@ static bool compute_glo_time_of_day(const gps_time_t *obs_time,
   s32 tod_glo_s = (s32)(obs_time->tow - state->leap_seconds) % DAY_SECS;
   tod_glo_s += UTC_SU_OFFSET * HOUR_SECS;
 
-  if (tod_glo_s > DAY_SECS) {
+  if (tod_glo_s >= DAY_SECS) {
     tod_glo_s -= DAY_SECS;
   }
 
-- 
2.43.0


From 5a528699db0bccbaf923c87240f9d17a727c8159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:43 +0000
Subject: [PATCH 48/79] fix: sbp2rtcm: a BeiDou ephemeris of the start of the
 BeiDou week got the week before

---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index e9084bf..118dcfa 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -156,7 +156,7 @@ static void get_bds_wn_tow(const gps_time_t *input,
                            const u32 time_resolution,
                            uint16_t *wn,
                            uint32_t *tow) {
-  if (input->tow > BDS_SECOND_TO_GPS_SECOND) {
+  if (input->tow >= BDS_SECOND_TO_GPS_SECOND) {
     *wn = (input->wn - BDS_WEEK_TO_GPS_WEEK);
     *tow = (uint32_t)round((input->tow - BDS_SECOND_TO_GPS_SECOND) /
                            time_resolution);
-- 
2.43.0


From 95ea91308f131914552e3778e15771cb1d9a3404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 49/79] fix: sbp2rtcm: a GLONASS ephemeris without a valid time
 aborted the converter or sent uninitialized data

---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index 118dcfa..4d7d6ef 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -86,10 +86,10 @@ void sbp_to_rtcm3_gps_eph(const msg_ephemeris_gps_t *sbp_gps_eph,
 static bool compute_glo_time_of_day(const gps_time_t *obs_time,
                                     const struct rtcm3_out_state *state,
                                     u8 *t_b) {
-  if (!state->leap_second_known) {
+  *t_b = 0;
+  if (!state->leap_second_known || !gps_time_valid(obs_time)) {
     return false;
   }
-  assert(gps_time_valid(obs_time));
   s32 tod_glo_s = (s32)(obs_time->tow - state->leap_seconds) % DAY_SECS;
   tod_glo_s += UTC_SU_OFFSET * HOUR_SECS;
 
-- 
2.43.0


From da0fe59fd0a3fba1ad4313717d420fbab6410602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 50/79] fix: sbp2rtcm: legacy observations of many, repeated or
 invalid satellites overran the message

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 32 +++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 331050f..e4fde29 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -44,6 +44,9 @@
 
 #define RTCM3_PREAMBLE 0xD3
 
+/* DF006 and DF035, the number of satellites, are of 5 bits */
+#define LEGACY_OBS_MAX_SATS 31
+
 void sbp2rtcm_init(struct rtcm3_out_state *state,
                    s32 (*cb_sbp_to_rtcm)(u8 *buffer, u16 length, void *context),
                    void *context) {
@@ -666,6 +669,21 @@ static u8 sat_index_from_obs(rtcm_sat_data sats[], u8 n_sats, u8 svId) {
   return n_sats;
 }
 
+/* Can a satellite be added to a 1004/1012 message: a valid one that is not
+ * there yet, and whose addition the 5-bit satellite count still can express */
+static bool legacy_sat_addable(
+    rtcm_sat_data sats[], u8 n_sats, u8 sat, u8 first_prn, u8 num_sats) {
+  if (sat < first_prn || sat >= first_prn + num_sats) {
+    log_info("Ignoring observation of invalid satellite %u", sat);
+    return false;
+  }
+  if (n_sats >= LEGACY_OBS_MAX_SATS) {
+    log_info("No room for satellite %u in the observation message", sat);
+    return false;
+  }
+  return sat_index_from_obs(sats, n_sats, sat) == n_sats;
+}
+
 void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
   /* message for each constellation */
   rtcm_msm_message obs[RTCM_CONSTELLATION_COUNT];
@@ -758,6 +776,13 @@ static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
     switch (sbp_obs->sid.code) {
       case CODE_GPS_L1CA:
       case CODE_GPS_L1P: {
+        if (!legacy_sat_addable(gps_obs.sats,
+                                n_gps,
+                                sbp_obs->sid.sat,
+                                GPS_FIRST_PRN,
+                                NUM_SATS_GPS)) {
+          break;
+        }
         /* add a new sat */
         gps_obs.sats[n_gps].fcn = 0;
         gps_obs.sats[n_gps].svId = sbp_obs->sid.sat;
@@ -780,6 +805,13 @@ static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
       }
       case CODE_GLO_L1OF:
       case CODE_GLO_L1P: {
+        if (!legacy_sat_addable(glo_obs.sats,
+                                n_glo,
+                                sbp_obs->sid.sat,
+                                GLO_FIRST_PRN,
+                                NUM_SATS_GLO)) {
+          break;
+        }
         u8 fcn = state->glo_sv_id_fcn_map[sbp_obs->sid.sat];
         if (MSM_GLO_FCN_UNKNOWN != fcn) {
           /* add a new sat */
-- 
2.43.0


From 3765244b31b820d032ce14a7a7481268ddd63e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 51/79] fix: sbp2rtcm: GLONASS observations were sent with a
 bogus time while the leap second is unknown

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index e4fde29..b4361d9 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -700,6 +700,10 @@ void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
     }
     rtcm_constellation_t cons =
         (rtcm_constellation_t)code_to_constellation(sbp_obs->sid.code);
+    if (RTCM_CONSTELLATION_GLO == cons && !state->leap_second_known) {
+      /* the time of the GLO message is not known */
+      continue;
+    }
     msm_add_to_header(&obs[cons].header, sbp_obs->sid.code, sbp_obs->sid.sat);
   }
 
@@ -813,7 +817,7 @@ static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
           break;
         }
         u8 fcn = state->glo_sv_id_fcn_map[sbp_obs->sid.sat];
-        if (MSM_GLO_FCN_UNKNOWN != fcn) {
+        if (MSM_GLO_FCN_UNKNOWN != fcn && state->leap_second_known) {
           /* add a new sat */
           glo_obs.sats[n_glo].fcn = fcn;
           glo_obs.sats[n_glo].svId = sbp_obs->sid.sat;
-- 
2.43.0


From 024cc2c4bb37412b28a394780eb865ba3ff095e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 52/79] fix: sbp_conv: the frames of a large epoch did not fit
 in the buffer and were cut off

---
 c/gnss_converters_extra/src/sbp_conv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_conv.c b/c/gnss_converters_extra/src/sbp_conv.c
index 909cb73..45adc6e 100644
--- a/c/gnss_converters_extra/src/sbp_conv.c
+++ b/c/gnss_converters_extra/src/sbp_conv.c
@@ -24,7 +24,8 @@
 struct sbp_conv_s {
   struct rtcm3_out_state state;
   fifo_t fifo;
-  uint8_t buf[2048];
+  /* room for the messages of an epoch of the most observations */
+  uint8_t buf[4096];
 };
 
 static s32 sbp_conv_cb(uint8_t *buf, uint16_t len, void *context) {
-- 
2.43.0


From 26eff0d3e6837c2bce827aaa211b80bcdbf5b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 53/79] fix: librtcm: MSM rough ranges and range rates too
 large for their fields were encoded as other values

---
 c/librtcm/src/encode.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 6a76c4c..4493ba4 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -925,6 +925,10 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
   /* number of integer milliseconds, DF397 */
   for (uint8_t i = 0; i < num_sats; i++) {
     rough_range[i] = (uint32_t)round(1024 * msg->sats[i].rough_range_ms);
+    if (rough_range[i] / 1024 >= MSM_ROUGH_RANGE_INVALID) {
+      /* too large for the field */
+      rough_range[i] = MSM_ROUGH_RANGE_INVALID * 1024;
+    }
     rtcm_setbitu(buff, *bit, 8, rough_range[i] / 1024);
     *bit += 8;
   }
@@ -945,7 +949,10 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
   /* range rate, m/s, DF399*/
   if (MSM5 == msm_type) {
     for (uint8_t i = 0; i < num_sats; i++) {
-      int16_t range_rate = (int16_t)msg->sats[i].rough_range_rate_m_s;
+      double rough_rate = msg->sats[i].rough_range_rate_m_s;
+      int16_t range_rate = (fabs(rough_rate) > -(MSM_ROUGH_RATE_INVALID + 1))
+                               ? MSM_ROUGH_RATE_INVALID
+                               : (int16_t)rough_rate;
       rtcm_setbits(buff, *bit, 14, range_rate);
       *bit += 14;
       rough_rate_m_s[i] = range_rate;
-- 
2.43.0


From c1f224487d93f890e91543c2aafbd3348f656ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 54/79] fix: sbp2rtcm: a GLONASS ephemeris of an unhealthy
 satellite could be sent as of a healthy one

---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index 4d7d6ef..8b408f4 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -117,7 +117,8 @@ void sbp_to_rtcm3_glo_eph(const msg_ephemeris_glo_t *sbp_glo_eph,
 
   msg_eph->fit_interval =
       rtcm3_encode_fit_interval_glo(sbp_glo_eph->common.fit_interval);
-  msg_eph->health_bits = sbp_glo_eph->common.health_bits;
+  /* DF104 is a single bit */
+  msg_eph->health_bits = (0 != sbp_glo_eph->common.health_bits) ? 1 : 0;
   gps_time_t time = sbp_gps_time_2_gps_time(&sbp_glo_eph->common.toe);
   if (!compute_glo_time_of_day(&time, state, &msg_eph->data.glo.t_b)) {
     msg_eph->health_bits = 1;
-- 
2.43.0


From bcaa8344ecc43ad86cff21995c448d2e5fbc1b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 55/79] fix: librtcm: legacy observation messages always said
 C/A code, also of P code observations

---
 c/librtcm/src/encode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 4493ba4..144e219 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -166,7 +166,7 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
   double freq = 0;
   if (L1_FREQ == freq_enum) {
     freq = GPS_L1_HZ;
-    rtcm_setbitu(buff, *bit, 1, 0);
+    rtcm_setbitu(buff, *bit, 1, freq_data->code);
     *bit += 1;
     rtcm_setbitu(
         buff,
@@ -176,7 +176,7 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
     *bit += 24;
   } else {
     freq = GPS_L2_HZ;
-    rtcm_setbitu(buff, *bit, 2, 0);
+    rtcm_setbitu(buff, *bit, 2, freq_data->code);
     *bit += 2;
     rtcm_setbits(
         buff, *bit, 14, encode_diff_pseudorange(freq_data, pr - calc_l1_pr));
@@ -223,7 +223,7 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
   if (L1_FREQ == freq_enum) {
     glo_freq = GLO_L1_HZ + (fcn - MT1012_GLO_FCN_OFFSET) * GLO_L1_DELTA_HZ;
 
-    rtcm_setbitu(buff, *bit, 1, 0);
+    rtcm_setbitu(buff, *bit, 1, freq_data->code);
     *bit += 1;
     rtcm_setbitu(buff, *bit, 5, fcn);
     *bit += 5;
@@ -236,7 +236,7 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
   } else {
     glo_freq = GLO_L2_HZ + (fcn - MT1012_GLO_FCN_OFFSET) * GLO_L2_DELTA_HZ;
 
-    rtcm_setbitu(buff, *bit, 2, 0);
+    rtcm_setbitu(buff, *bit, 2, freq_data->code);
     *bit += 2;
     rtcm_setbits(
         buff, *bit, 14, encode_diff_pseudorange(freq_data, pr - calc_l1_pr));
-- 
2.43.0


From 26e5025af4522db32a9fa9b5c04ebe30feb65e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:41 +0000
Subject: [PATCH 56/79] fix: sbp2rtcm: the time of the last epoch was used
 uninitialized and could abort the converter

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index b4361d9..d630359 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -56,6 +56,8 @@ void sbp2rtcm_init(struct rtcm3_out_state *state,
   state->cb_sbp_to_rtcm = cb_sbp_to_rtcm;
   state->context = context;
 
+  state->sender_id = 0;
+  memset(&state->sbp_header, 0, sizeof(state->sbp_header));
   state->n_sbp_obs = 0;
 
   for (u8 i = 0; i < sizeof(state->glo_sv_id_fcn_map); i++) {
-- 
2.43.0


From 74caba34bddae31aa124ab1c32bedb96f4180780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:45 +0000
Subject: [PATCH 57/79] fix: sbp2rtcm: an SBAS observation aborted the
 converter

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index d630359..d745979 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -150,6 +150,7 @@ static u16 encode_rtcm3_payload(const void *rtcm_msg,
     case 1074:
     case 1084:
     case 1094:
+    case 1104:
     case 1114:
     case 1124: {
       const rtcm_msm_message *msg_msm = (const rtcm_msm_message *)rtcm_msg;
@@ -158,6 +159,7 @@ static u16 encode_rtcm3_payload(const void *rtcm_msg,
     case 1075:
     case 1085:
     case 1095:
+    case 1105:
     case 1115:
     case 1125: {
       const rtcm_msm_message *msg_msm = (const rtcm_msm_message *)rtcm_msg;
-- 
2.43.0


From d2cd8497a7e6dc7bad59a0dc46a54403ea38aaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 58/79] fix: saturate accuracies that do not fit 16 bits in
 nov2sbp

float_to_u16 limited the value after converting it, when it had already
wrapped: a standard deviation of 65.6 m became an accuracy of 64 mm.
---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 7881993..3837d5e 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -23,7 +23,11 @@ static const uint32_t kMsPerWeek = 7 * 24 * 60 * 60 * 1000;
  * Helpers for rounding and truncating values.
  */
 static inline uint16_t float_to_u16(float value) {
-  return MIN(static_cast<uint16_t>(round(value)), UINT16_MAX);
+  value = roundf(value);
+  if (value >= UINT16_MAX) {
+    return UINT16_MAX;
+  }
+  return static_cast<uint16_t>(value);
 }
 
 static inline int16_t double_to_s16(double value) {
-- 
2.43.0


From e34d63021786f115e1a65d96d45a4773c8df95a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 59/79] fix: use the sample's own week for the IMU rate in
 nov2sbp

compute_imu_rate compared the previous sample's week with itself, so a
sample with the same week number was always assumed: after a gap of a week
or more the rate was derived from the wrong interval, and across a week end
the nominal rate was used instead of the observed one.
---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 3837d5e..7137057 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -353,7 +353,7 @@ static bool compute_imu_rate(const msg_gps_time_t *last_imu_time,
                              double &rate) {
   uint16_t week_prev = last_imu_time->wn;
   uint32_t tow_prev = last_imu_time->tow;
-  uint16_t week_cur = last_imu_time->wn;
+  uint16_t week_cur = header->week;
   uint32_t tow_cur = static_cast<uint32_t>(header->ms);
 
   if (week_prev != 0 && week_cur != 0 && tow_prev != 0 && tow_cur != 0) {
-- 
2.43.0


From 8c2625647a1b80b98174eabbc4955099948032e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 60/79] fix: keep sending IMU_AUX after the end of a week in
 nov2sbp

The one second spacing was decided from the times of week alone, so after
the end of a week no IMU_AUX message was sent until the time of week had
reached that of the last one again.
---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 7137057..6655731 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -983,8 +983,13 @@ bool convert_rawimu_to_imu_aux(const BinaryHeader *header,
 
   // don't send if it has been less than 1 second since the last message
   if (last_aux_time->wn != 0 && header->week != 0 && last_aux_time->tow != 0 &&
-      cur_time != 0 && cur_time < last_aux_time->tow + 1000) {
-    return false;
+      cur_time != 0) {
+    int64_t elapsed =
+        (static_cast<int64_t>(header->week) - last_aux_time->wn) * kMsPerWeek +
+        cur_time - last_aux_time->tow;
+    if (elapsed < 1000) {
+      return false;
+    }
   }
 
   imu_aux->imu_type = 1;  // ST Microelectronics ASM330LLH
-- 
2.43.0


From f28f4af802e7315ec10c10a015b2d9ef2a269657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 61/79] fix: skip unusable IMU samples instead of aborting in
 nov2sbp

The error and encryption bits of RAWIMUSX come from the receiver; a sample
that has one of them set stopped the converter through an assertion.
---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 6655731..c58382f 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -889,8 +889,10 @@ bool convert_rawimu_to_angular_rate(const BinaryHeader *header,
 
   angular_rate->tow = static_cast<uint32_t>(header->ms);
 
-  assert(!(rawimu->imu_info & IMU_INFO_ERROR));      // no IMU error
-  assert(!(rawimu->imu_info & IMU_INFO_ENCRYPTED));  // IMU is not encrypted
+  // samples with an IMU error or encrypted data are not usable
+  if ((rawimu->imu_info & (IMU_INFO_ERROR | IMU_INFO_ENCRYPTED)) != 0) {
+    return false;
+  }
 
   if (!compute_imu_rate(last_imu_time, header, rate) &&
       !get_imu_rate_from_type(static_cast<imu_type_t>(rawimu->imu_type),
@@ -929,8 +931,10 @@ bool convert_rawimu_to_imu_raw(const BinaryHeader *header,
   imu_raw->tow = static_cast<uint32_t>(header->ms);
   imu_raw->tow_f = 0;
 
-  assert(!(rawimu->imu_info & IMU_INFO_ERROR));      // no IMU error
-  assert(!(rawimu->imu_info & IMU_INFO_ENCRYPTED));  // IMU is not encrypted
+  // samples with an IMU error or encrypted data are not usable
+  if ((rawimu->imu_info & (IMU_INFO_ERROR | IMU_INFO_ENCRYPTED)) != 0) {
+    return false;
+  }
 
   if (!compute_imu_rate(last_imu_time, header, rate) &&
       !get_imu_rate_from_type(static_cast<imu_type_t>(rawimu->imu_type),
-- 
2.43.0


From d7b50d9031a7f67baaeba56e1f2ae829faaa8c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 62/79] fix: skip ephemerides that SBP cannot represent in
 nov2sbp

The PRN, week and times of GPSEPHEM come from the receiver; values outside
the ranges of EPHEMERIS_GPS stopped the converter through an assertion.
---
 c/nov2sbp/src/nov2sbp.cc                     |  4 +++-
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 15 ++++++++++-----
 c/nov2sbp/src/swiftnav_conversion_helpers.h  |  4 +++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/c/nov2sbp/src/nov2sbp.cc b/c/nov2sbp/src/nov2sbp.cc
index 2bb0a1f..3b0e9d4 100644
--- a/c/nov2sbp/src/nov2sbp.cc
+++ b/c/nov2sbp/src/nov2sbp.cc
@@ -130,7 +130,9 @@ static void write_sbp_gps_ephem(const BinaryHeader *header, const void *data) {
   const auto *gpsephem =
       reinterpret_cast<const Message::GPSEPHEM_t *>(data);  // NOLINT
   msg_ephemeris_gps_t ephem_msg;
-  convert_gpsephem_to_ephemeris_gps(gpsephem, &ephem_msg);
+  if (!convert_gpsephem_to_ephemeris_gps(gpsephem, &ephem_msg)) {
+    return;
+  }
   auto ret =
       sbp_send_message(&sbp,
                        SBP_MSG_EPHEMERIS_GPS,
diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index c58382f..35a6525 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -645,13 +645,16 @@ bool gps_time_compare(const msg_gps_time_t *a, const msg_gps_time_t *b) {
  * We assign all PRNs to GPS_L1CA.
  *
  * Everything else is pretty straight forward.
+ *
+ * \return false if the ephemeris does not fit the SBP message
  */
-void convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
+bool convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
                                        msg_ephemeris_gps_t *ephem) {
-  assert(gpsephem->prn <= UINT8_MAX);
-  assert(gpsephem->toe <= UINT32_MAX);
-  assert(gpsephem->toc <= UINT32_MAX);
-  assert(gpsephem->week <= UINT16_MAX);
+  if (gpsephem->prn > UINT8_MAX || gpsephem->week > UINT16_MAX ||
+      !(gpsephem->toe >= 0 && gpsephem->toe <= UINT32_MAX) ||
+      !(gpsephem->toc >= 0 && gpsephem->toc <= UINT32_MAX)) {
+    return false;
+  }
   ephem->common.sid.sat = static_cast<uint8_t>(gpsephem->prn);
   ephem->common.sid.code = 0x0;  // 0x0 = GPS_L1CA
   ephem->common.toe.tow = static_cast<uint32_t>(gpsephem->toe);
@@ -683,6 +686,8 @@ void convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
   ephem->toc.wn = static_cast<uint16_t>(gpsephem->week);
   ephem->iode = static_cast<uint8_t>(gpsephem->iode1);
   ephem->iodc = static_cast<uint16_t>(gpsephem->iodc);
+
+  return true;
 }
 
 /**
diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.h b/c/nov2sbp/src/swiftnav_conversion_helpers.h
index 2714776..5cb45c8 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.h
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.h
@@ -74,8 +74,10 @@ bool gps_time_compare(const msg_gps_time_t *a, const msg_gps_time_t *b);
  * We assign all PRNs to GPS_L1CA.
  *
  * Everything else is pretty straight forward.
+ *
+ * \return false if the ephemeris does not fit the SBP message
  */
-void convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
+bool convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
                                        msg_ephemeris_gps_t *ephem);
 
 /**
-- 
2.43.0


From cc38317bb81786dd5ef1a4e74b5e03a6a3459606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 63/79] fix: correct the accelerometer scale of Epson IMUs in
 nov2sbp

A thousandth of g is g divided by 1000, not multiplied by it: with the
Epson units every acceleration was too large by a million and saturated.
---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 35a6525..cc730f6 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -79,7 +79,7 @@ static inline double arcseconds_to_radians(double val) {
 }
 
 static inline double milligee_to_metres(double val) {
-  return val * 1000. * kStandardGravity;
+  return val / 1000. * kStandardGravity;
 }
 
 static inline double feet_to_metres(double val) { return val * 0.3048; }
-- 
2.43.0


From d20b02be73ac2f4684f1cb08a02f3b682e3c3b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 64/79] fix: convert GLONASS observations in nov2sbp

NovAtel receivers number GLONASS satellites from 38; without subtracting
the offset no such signal was valid and all of them were dropped.
---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index cc730f6..cf52814 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -856,6 +856,10 @@ void convert_rangecmp_record_to_mini_navmeas(
   nm->lock_time = static_cast<double>(record->lock_time) / 32.0;
   nm->sid.sat = record->prn_slot;
   nm->sid.code = convert_tracking_status_to_gnss_code(record->tracking_status);
+  if (nm->sid.code == CODE_GLO_L1OF || nm->sid.code == CODE_GLO_L2OF) {
+    // GLONASS satellites are reported as slot number plus 37
+    nm->sid.sat = static_cast<uint8_t>(record->prn_slot - 37);
+  }
   nm->flags = convert_tracking_status_to_navmeas_flags(record->tracking_status);
 }
 
-- 
2.43.0


From 44bc47d2a0e296a24297e43f99f9ef85a8d65a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 65/79] fix: time of empty observation messages in nov2sbp

A RANGECMP without records became an OBS message with the values of an
unknown time forced into the unsigned fields of the header.
---
 c/nov2sbp/src/send_sbp_obs_messages.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/send_sbp_obs_messages.cc b/c/nov2sbp/src/send_sbp_obs_messages.cc
index 682cb2b..336b811 100644
--- a/c/nov2sbp/src/send_sbp_obs_messages.cc
+++ b/c/nov2sbp/src/send_sbp_obs_messages.cc
@@ -193,7 +193,10 @@ void send_sbp_obs_messages(uint8_t n,
 
   if ((0 == n) || (nullptr == m) || (nullptr == t)) {
     gps_time_t t_dummy = GPS_TIME_UNKNOWN;
-    pack_obs_header(&t_dummy, 1, 0, (observation_header_t *)buff);  // NOLINT
+    pack_obs_header((nullptr != t) ? t : &t_dummy,
+                    1,
+                    0,
+                    (observation_header_t *)buff);  // NOLINT
     sbp_send_msg(SBP_MSG_OBS, sizeof(observation_header_t), buff);
     return;
   }
-- 
2.43.0


From 302854f312e09cd6f0779f863b8fc963c7712c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:36 +0000
Subject: [PATCH 66/79] fix: mask the time source in NMEA times

The other bits of the SBP flags do not say whether the time is known.
---
 c/gnss_converters/src/nmea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 7ed5a44..bf99e46 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -247,7 +247,7 @@ void get_utc_time_string(bool time,
                          u8 size) {
   char *buf_end = utc_str + size;
 
-  if (sbp_utc_time->flags == 0) {
+  if ((sbp_utc_time->flags & TIME_SOURCE_MASK) == NO_TIME) {
     /* print empty fields */
     if (time) {
       vsnprintf_wrap(&utc_str, buf_end, ",");
-- 
2.43.0


From 94783cb1ae048adf50283264514bb3e7a35f9278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:36 +0000
Subject: [PATCH 67/79] fix: leave observations excluded by RAIM out of NMEA
 sentences

The flag is bit 7 of the observation's 8-bit flags; 0x1000000 is never set.
---
 c/gnss_converters/src/sbp_nmea.c          | 2 +-
 c/gnss_converters/src/sbp_nmea_internal.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index 0d78f9d..82fb993 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -369,7 +369,7 @@ void sbp2nmea_obs(sbp2nmea_t *state, const sbp_msg_obs_t *sbp_obs) {
   state->obs_time = obs_time;
 
   for (int i = 0; i < sbp_obs->n_obs; i++) {
-    if (!(sbp_obs->obs[i].flags & OBSERVATION_VALID)) {
+    if (!(sbp_obs->obs[i].flags & OBSERVATION_RAIM_EXCLUDED)) {
       state->nav_sids[state->num_obs] = sbp_obs->obs[i].sid;
       state->num_obs++;
     }
diff --git a/c/gnss_converters/src/sbp_nmea_internal.h b/c/gnss_converters/src/sbp_nmea_internal.h
index 66be47c..e5bc302 100644
--- a/c/gnss_converters/src/sbp_nmea_internal.h
+++ b/c/gnss_converters/src/sbp_nmea_internal.h
@@ -16,7 +16,7 @@
 
 #define TIME_SOURCE_MASK 0x07       /* Bits 0-2 */
 #define POSITION_MODE_MASK 0x07     /* Bits 0-2 */
-#define OBSERVATION_VALID 0x1000000 /* Bits 0-7 */
+#define OBSERVATION_RAIM_EXCLUDED 0x80 /* Bit 7 */
 #define NO_TIME 0
 #define TOW_INVALID 0xFFFFFFFF
 
-- 
2.43.0


From 927b8c34e89e166a62b7dc77d44c982fd56ba039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:36 +0000
Subject: [PATCH 68/79] fix: keep the length of the observation sequence when a
 message is dropped

A message that does not continue the sequence does not belong to it.
---
 c/gnss_converters/src/sbp_nmea.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index 82fb993..a1d7099 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -352,8 +352,9 @@ static void unpack_obs_header(const sbp_observation_header_t *header,
 
 void sbp2nmea_obs(sbp2nmea_t *state, const sbp_msg_obs_t *sbp_obs) {
   uint8_t count;
+  uint8_t total;
   sbp_v4_gps_time_t obs_time;
-  unpack_obs_header(&sbp_obs->header, &obs_time, &state->obs_seq_total, &count);
+  unpack_obs_header(&sbp_obs->header, &obs_time, &total, &count);
 
   /* Count zero means it's the first message in a sequence */
   if (count == 0) {
@@ -366,6 +367,7 @@ void sbp2nmea_obs(sbp2nmea_t *state, const sbp_msg_obs_t *sbp_obs) {
     return;
   }
   state->obs_seq_count = count;
+  state->obs_seq_total = total;
   state->obs_time = obs_time;
 
   for (int i = 0; i < sbp_obs->n_obs; i++) {
-- 
2.43.0


From 59f251426adca31a20296a40cd6922f60c3c8d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:36 +0000
Subject: [PATCH 69/79] fix: use the fused solution when the fused NMEA mode is
 requested

The actual mode never became fused, so that the GNSS-only solution was sent.
---
 c/gnss_converters/src/sbp_nmea.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index a1d7099..bdf718e 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -425,7 +425,8 @@ void sbp2nmea_init(sbp2nmea_t *state,
   state->cb_sbp_to_nmea = cb_sbp_to_nmea;
   state->ctx = ctx;
   state->requested_mode = mode;
-  state->actual_mode = SBP2NMEA_MODE_GNSS;
+  state->actual_mode = (mode == SBP2NMEA_MODE_FUSED) ? SBP2NMEA_MODE_FUSED
+                                                     : SBP2NMEA_MODE_GNSS;
   state->last_non_stationary_cog = 0;
   state->cog_update_threshold_mps = NMEA_COG_STATIC_LIMIT_MPS;
 }
-- 
2.43.0


From 91fc1a7d9f05e8af608920c51ee31daf03d6eaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:36 +0000
Subject: [PATCH 70/79] fix: do not abort on a reserved position mode in NMEA
 sentences

It is the input's, and the defaults are there.
---
 c/gnss_converters/src/nmea.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index bf99e46..cae2c6c 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1384,7 +1384,7 @@ char get_nmea_status(u8 flags) {
     case POSITION_MODE_FIXED:
       return 'A';
     default:
-      assert(!"Unsupported position type indicator");
+      log_error("NMEA: Unsupported position type indicator");
       return 'V';
   }
 }
@@ -1408,7 +1408,7 @@ char get_nmea_mode_indicator(u8 flags) {
     case POSITION_MODE_DEAD_RECKONING:
       return 'E';
     default:
-      assert(!"Unsupported position type indicator");
+      log_error("NMEA: Unsupported position type indicator");
       return 'N';
   }
 }
@@ -1434,7 +1434,7 @@ u8 get_nmea_quality_indicator(u8 flags) {
     case POSITION_MODE_DEAD_RECKONING:
       return NMEA_GGA_QI_EST;
     default:
-      assert(!"Unsupported position type indicator");
+      log_error("NMEA: Unsupported position type indicator");
       return NMEA_GGA_QI_INVALID;
   }
 }
-- 
2.43.0


From 85e91328e88a294a7c765af254da5f5fcbf73669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:36 +0000
Subject: [PATCH 71/79] fix: no array of length zero in send_gsv

---
 c/gnss_converters/src/nmea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index cae2c6c..49cd5ad 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1147,7 +1147,7 @@ void send_gsv(sbp2nmea_t *state) {
   const u8 sbp_n_state = sbp_meas_state->n_states;
 
   /* Group by constellation */
-  nmea_gsv_element_t sv_grouped[TALKER_ID_COUNT][n_used];
+  nmea_gsv_element_t sv_grouped[TALKER_ID_COUNT][(n_used > 0) ? n_used : 1];
   memset(&sv_grouped, 0, sizeof(sv_grouped));
   u8 num_sv[TALKER_ID_COUNT] = {0};
   memset(&sv_grouped, 0, sizeof(sv_grouped));
-- 
2.43.0


From 3c925c1d8c24dc9a79496c0df200f97badf61de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:21 +0000
Subject: [PATCH 72/79] fix: error ellipse of the NMEA GST sentence

The determinant is rounded to single precision, so that the semi-minor axis
could be the root of a negative number, and an ellipse that lies east-west got
an orientation of 0 instead of 90 degrees.
---
 c/gnss_converters/src/nmea.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 49cd5ad..7328a73 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1052,13 +1052,14 @@ void send_gpgst(sbp2nmea_t *state) {
   double eigenval_2 = (trace / 2 - sqrt(fmax(0, ((trace * trace) / 4) - det)));
 
   double semi_major = sqrt(eigenval_1);
-  double semi_minor = sqrt(eigenval_2);
+  double semi_minor = sqrt(fmax(0, eigenval_2));
 
+  double cov_n_e = sbp_pos_llh_cov->cov_n_e;
+  double half_diff =
+      ((double)sbp_pos_llh_cov->cov_n_n - sbp_pos_llh_cov->cov_e_e) / 2;
   double orientation = 0.0;
-  if (eigenval_1 > 0 && sbp_pos_llh_cov->cov_e_e < eigenval_1) {
-    orientation = atan(sbp_pos_llh_cov->cov_n_e /
-                       (eigenval_1 - sbp_pos_llh_cov->cov_e_e)) *
-                  R2D;
+  if (half_diff != 0 || cov_n_e != 0) {
+    orientation = atan2(cov_n_e, half_diff) / 2 * R2D;
   } else if (eigenval_1 > 0) {
     orientation = 90.0;
   }
-- 
2.43.0


From 9e55fd61151b5a1318b8e640861b76786d0caa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:36 +0000
Subject: [PATCH 73/79] fix: period of slow solution rates for NMEA

1000 / 0.2f is less than 5000 and was truncated to 4999 ms.
---
 c/gnss_converters/src/nmea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 7328a73..e2c6cf9 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1360,7 +1360,7 @@ bool check_nmea_rate(u32 rate, u32 gps_tow_ms, float soln_freq) {
    * output period is less than 1/2 the solution period we should send the NMEA
    * message.
    * This way, we still send no_fix messages when receiver clock is drifting. */
-  u32 soln_period_ms = (u32)(1.0 / soln_freq * 1e3);
+  u32 soln_period_ms = (u32)lround(1.0 / soln_freq * 1e3);
   u32 output_period_ms = soln_period_ms * rate;
   if (((gps_tow_ms) % output_period_ms) < (soln_period_ms / 2)) {
     return true;
-- 
2.43.0


From 98ac24420aad31a1de69058963ba97803aad503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:36 +0000
Subject: [PATCH 74/79] fix: NMEA ids of QZSS satellites

Their SBP satellite numbers are the NMEA ids, 193 to 202, already.
---
 c/gnss_converters/src/nmea.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index e2c6cf9..e7c11d9 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -46,8 +46,8 @@
 /* BDS NMEA SV IDs are from 401 to 437 */
 #define NMEA_SV_ID_OFFSET_BDS2 (400)
 
-/* QZSS NMEA SV IDs are from 193 to 197 */
-#define NMEA_SV_ID_OFFSET_QZSS (192)
+/* QZSS NMEA SV IDs are from 193 to 202, as the satellite numbers in SBP */
+#define NMEA_SV_ID_OFFSET_QZSS (0)
 
 /* Max SVs reported per GSA message */
 #define GSA_MAX_SV 12
-- 
2.43.0


From 82ff38c2edb2cc0480dca0bdd446153f87e3acc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:05 +0000
Subject: [PATCH 75/79] fix: room for long values in the NMEA PUBX sentence

High speeds, large accuracies or DOPs cut off its last fields.
---
 c/gnss_converters/src/nmea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index e7c11d9..4f03479 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1254,7 +1254,7 @@ void send_pubx(sbp2nmea_t *state) {
     fix_type = get_nmea_quality_indicator(sbp_pos_llh_cov->flags);
   }
 
-  NMEA_SENTENCE_START(120);
+  NMEA_SENTENCE_START(200);
   NMEA_SENTENCE_PRINTF("$PUBX,00,");
 
   // UTC
-- 
2.43.0


From 985d8906262866fef40bffc383402977e8618faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:35 +0000
Subject: [PATCH 76/79] fix: disabled constellations in legacy observations

---
 c/gnss_converters/src/rtcm3_sbp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 8e21839..dcb3dc3 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -864,6 +864,10 @@ void add_obs_to_buffer(const rtcm_obs_message *new_rtcm_obs,
           }
         }
 
+        if (constellation_mask[code_to_constellation(sbp_freq->sid.code)]) {
+          continue;
+        }
+
         if (rtcm_freq->flags.fields.valid_pr == 1) {
           double pseudorange = rtcm_freq->pseudorange;
           pseudorange += sbp_signal_biases[sbp_freq->sid.code];
-- 
2.43.0


From 7a775983837b9a81e8fde90b3a5b9bbc00907590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:33 +0000
Subject: [PATCH 77/79] fix: no byte past the firmware version's buffer

A version as long as the buffer, or longer, had its NUL written one byte
past the buffer's end.
---
 c/librtcm/src/sta_decode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/librtcm/src/sta_decode.c b/c/librtcm/src/sta_decode.c
index fe15f9e..5f677c0 100644
--- a/c/librtcm/src/sta_decode.c
+++ b/c/librtcm/src/sta_decode.c
@@ -54,6 +54,7 @@ rtcm3_rc sta_decode_rcc_config(const uint8_t buff[],
 
 rtcm3_rc sta_decode_fwver(const uint8_t buff[], char *fw_ver, uint8_t len) {
   assert(fw_ver);
+  assert(len > 0);
   uint8_t fw_ver_strlen = 0;
   uint16_t bit = 0;
   uint16_t msg_num = rtcm_getbitu(buff, bit, 12);
@@ -66,10 +67,9 @@ rtcm3_rc sta_decode_fwver(const uint8_t buff[], char *fw_ver, uint8_t len) {
   assert(msg_num == 999 && subtype_id == 25);
   fw_ver_strlen = rtcm_getbitu(buff, bit, 8);
   bit += 8;
-  /* if fw_ver_strlen is bigger then our len, use the smaller
-   * of the two*/
-  if (fw_ver_strlen > len) {
-    fw_ver_strlen = len;
+  /* use as much of the version as fits, leaving room for the terminating NUL */
+  if (fw_ver_strlen >= len) {
+    fw_ver_strlen = len - 1;
   }
   GET_STR(buff, bit, fw_ver_strlen, fw_ver);
   fw_ver[fw_ver_strlen] = '\0';
-- 
2.43.0


From bc225e45f2322fbf977c58de58f073e47809d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:26 +0000
Subject: [PATCH 78/79] fix: a program given an input file and no more reads it

---
 rust/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rust/lib.rs b/rust/lib.rs
index 9ecf542..9ce3128 100644
--- a/rust/lib.rs
+++ b/rust/lib.rs
@@ -166,6 +166,15 @@ pub fn fetch_io(_prog_name: &str) -> (Box<dyn Read>, Box<dyn Write>) {
         }
     }
 
+    // Case for: <prog> [-x] <input_file>
+    if_chain! {
+        if args.len() == 1;
+        if Path::new(&args[0]).is_file();
+        then {
+            return file_in_stdout(args[0]);
+        }
+    }
+
     // Otherwise return stdin and stdout
     stdin_stdout()
 }
-- 
2.43.0


From ffd54d426f5f5720503d2462cb6d9c876726c8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:26 +0000
Subject: [PATCH 79/79] fix: SSR corrections of BeiDou epochs past the end of
 the week were sent

---
 c/gnss_converters/src/rtcm3_sbp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index dcb3dc3..45e63c0 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1214,6 +1214,10 @@ void compute_gps_message_time(u32 tow_ms,
 }
 
 void beidou_tow_to_gps_tow(u32 *tow_ms) {
+  if (*tow_ms >= WEEK_SECS * SECS_MS) {
+    /* Not a time of week, leave it to be refused */
+    return;
+  }
   /* BDS system time has a constant offset */
   *tow_ms += BDS_SECOND_TO_GPS_SECOND * SECS_MS;
   if (*tow_ms >= WEEK_SECS * SECS_MS) {
-- 
2.43.0

