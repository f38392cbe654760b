From 9197101d370ad2003f1812b6e7a4c6abb98a39d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:38 +0000
Subject: [PATCH 01/55] fix: consume end-of-content octets of BER indefinite
 length form

The end-of-content octets were excluded from the number of bytes consumed,
such that they were decoded again as a separate field with tag zero, and
such that nested indefinite length fields were cut short.
---
 src/iso8825_ber.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index ed64e25..f9b322a 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -86,6 +86,7 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 	int r;
 	const uint8_t* buf = ptr;
 	size_t offset = 0;
+	size_t eoc_len = 0;
 
 	if (!ptr || !tlv) {
 		return -1;
@@ -143,6 +144,7 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 
 			// Check for end-of-content
 			if (inner_tlv.tag == ASN1_EOC) {
+				eoc_len = r;
 				break;
 			}
 
@@ -191,9 +193,9 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 		return -11;
 	}
 
-	// Consume content
+	// Consume content, as well as end-of-content if indefinite length form
 	tlv->value = &buf[offset];
-	offset += tlv->length;
+	offset += tlv->length + eoc_len;
 
 	// Capture class and primitive/constructed bits as flags
 	tlv->flags = buf[0] & (ISO8825_BER_CLASS_MASK | ISO8825_BER_CONSTRUCTED);
-- 
2.43.0


From f5127f9806bfeea40596c9ba0e96290ed84dd76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:38 +0000
Subject: [PATCH 02/55] fix: avoid record number overflow when reading records

Reading of PSE records, or AFL records up to record 255, never terminated
if the card continued to provide records, because the record number
overflowed back to zero.
---
 src/emv_tal.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 644e602..64ce1ef 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -149,7 +149,8 @@ int emv_tal_read_pse(
 
 	// Read all records from PSE AEF using the SFI
 	// See EMV 4.4 Book 1, 12.2.3
-	for (uint8_t record_number = 1; ; ++record_number) {
+	// NOTE: Record number is limited to a single byte
+	for (unsigned int record_number = 1; record_number <= 0xFF; ++record_number) {
 		uint8_t aef_record[EMV_RAPDU_DATA_MAX];
 		size_t aef_record_len = sizeof(aef_record);
 
@@ -754,7 +755,7 @@ static int emv_tal_read_sfi_records(
 		return EMV_TAL_ERROR_INVALID_PARAMETER;
 	}
 
-	for (uint8_t record_number = afl_entry->first_record; record_number <= afl_entry->last_record; ++record_number) {
+	for (unsigned int record_number = afl_entry->first_record; record_number <= afl_entry->last_record; ++record_number) {
 		uint8_t record[EMV_RAPDU_DATA_MAX];
 		size_t record_len = sizeof(record);
 		uint16_t sw1sw2;
-- 
2.43.0


From 1714dee0f54b739370dee5799325f00922662c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:38 +0000
Subject: [PATCH 03/55] fix: reject empty record without reading uninitialised
 record data

If READ RECORD succeeded without any data, the stale first byte of the
record buffer determined whether the record was considered valid.
---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 64ce1ef..12f29f4 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -793,7 +793,7 @@ static int emv_tal_read_sfi_records(
 
 		// Therefore, any record that is not encoded as field 70 should not be
 		// parsed for EMV fields and invalidates offline data authentication.
-		if (record[0] != EMV_TAG_70_DATA_TEMPLATE) {
+		if (!record_len || record[0] != EMV_TAG_70_DATA_TEMPLATE) {
 			if (afl_entry->sfi >= 1 && afl_entry->sfi <= 10) {
 				// Invalid record for SFIs 1 - 10
 				// EMV 4.4 Book 3, 6.5.11.4
-- 
2.43.0


From dd0b4db3fc4cc492a603a78b0f24a70fe0d304e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:38 +0000
Subject: [PATCH 04/55] fix: do not output freed AIP field if GET PROCESSING
 OPTIONS fails

If the AFL is missing from the GPO response, the AIP output pointed to a
field that had already been freed.
---
 src/emv_tal.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 12f29f4..0b05653 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -738,6 +738,15 @@ int emv_tal_get_processing_options(
 
 exit:
 	emv_tlv_list_clear(&gpo_list);
+	if (r) {
+		// GPO output is no longer available
+		if (aip) {
+			*aip = NULL;
+		}
+		if (afl) {
+			*afl = NULL;
+		}
+	}
 	return r;
 }
 
-- 
2.43.0


From ea74886cb9954b943857319a2cedfa1fb59d9160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:38 +0000
Subject: [PATCH 05/55] fix: log tag of unexpected PSE AEF record instead of
 uninitialised value

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 0b05653..b3ab857 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -241,7 +241,7 @@ static int emv_tal_parse_aef_record(
 	}
 	if (aef_template_tlv.tag != EMV_TAG_70_DATA_TEMPLATE) {
 		// No AEF template in PSE record; ignore and continue
-		emv_debug_error("Unexpected data element 0x%02X in PSE AEF record", tlv.tag);
+		emv_debug_error("Unexpected data element 0x%02X in PSE AEF record", aef_template_tlv.tag);
 		return EMV_TAL_RESULT_PSE_AEF_INVALID;
 	}
 
-- 
2.43.0


From 3104ce14793a662dfb675fdad51275f8cdf49e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:38 +0000
Subject: [PATCH 06/55] fix: compare procedure byte to INS of most recent
 command

After transmitting command data in TPDU mode, the second data byte (which
does not exist when only a single byte was transmitted) was mistaken for
the INS of the most recent command.
---
 src/emv_ttl.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 20657d0..1ccc67e 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -45,6 +45,9 @@ int emv_ttl_trx(
 	// C-TPDU data: found after P3; NULL if absent
 	const void* c_tpdu_data = NULL;
 
+	// INS of most recent command
+	uint8_t INS;
+
 	// Next buffer to transmit
 	const void* tx_buf;
 	size_t tx_buf_len;
@@ -113,12 +116,14 @@ int emv_ttl_trx(
 		return -3;
 	}
 
+	// Store INS for later use
+	INS = *((uint8_t*)(c_apdu + 1));
+
 	// Clear SW1-SW2 to allow it to be checked later
 	*sw1sw2 = 0;
 
 	do {
 		int r;
-		uint8_t INS;
 		uint8_t rx_buf[EMV_RAPDU_MAX];
 		size_t rx_len = sizeof(rx_buf);
 		uint8_t SW1;
@@ -140,9 +145,6 @@ int emv_ttl_trx(
 
 		emv_debug_rtpdu(rx_buf, rx_len);
 
-		// Store INS of most recent tx for later use
-		INS = *((uint8_t*)(tx_buf + 1));
-
 		// Extract SW1-SW2 status bytes
 		if (rx_len > 1) {
 			SW1 = *((uint8_t*)(rx_buf + rx_len - 2));
@@ -387,7 +389,7 @@ int emv_ttl_trx(
 			// See ISO 7816-4:2005, 7.6.1
 			// See EMV Contact Interface Specification v1.0, 9.3.1.3
 			c_tpdu_header[0] = 0x00; // CLA
-			c_tpdu_header[1] = 0xC0; // INS: GET RESPONSE
+			c_tpdu_header[1] = INS = 0xC0; // INS: GET RESPONSE
 			c_tpdu_header[2] = 0x00; // P1
 			c_tpdu_header[3] = 0x00; // P2
 			c_tpdu_header[4] = Le;   // Le
-- 
2.43.0


From 83e50efc914c8ed2b4dd447f55fece4aaede666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:38 +0000
Subject: [PATCH 07/55] fix: transmit only remaining TPDU data after
 byte-by-byte transmission

If the card requested individual bytes before requesting the remaining
data, the full Lc bytes were transmitted from the current position, which
included bytes beyond the end of the command data.
---
 src/emv_ttl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 1ccc67e..3d9b7a5 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -201,7 +201,8 @@ int emv_ttl_trx(
 				}
 
 				tx_buf = c_tpdu_data;
-				tx_buf_len = c_tpdu_header[4]; // Next transmit length is Lc
+				// Next transmit length is the remainder of Lc
+				tx_buf_len = c_tpdu_header[4] - (c_tpdu_data - c_apdu - 5);
 
 				// No more data available
 				c_tpdu_data = NULL;
-- 
2.43.0


From bf70a451f40f80d6a39f6dc6c26233cd9c0ab314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:38 +0000
Subject: [PATCH 08/55] fix: repeat command header, not command data, for
 status 6CXX

If status 6CXX was received after transmitting command data in TPDU mode,
the command data was used as the header of the next transmission.
---
 src/emv_ttl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 3d9b7a5..feb7144 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -404,7 +404,9 @@ int emv_ttl_trx(
 		if (tx_update_le) {
 			// Update Le for next transmission
 			// See EMV Contact Interface Specification v1.0, 9.2.2.3.1, table 25
-			memcpy(c_tpdu_header, tx_buf, 4);
+			if (tx_buf == c_apdu) {
+				memcpy(c_tpdu_header, c_apdu, 4);
+			}
 			c_tpdu_header[4] = SW2; // P3 = Le
 			tx_buf = c_tpdu_header;
 			tx_buf_len = sizeof(c_tpdu_header);
-- 
2.43.0


From 87df0c8c156dd68fe7e40efb7d68c79c986dc48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:38 +0000
Subject: [PATCH 09/55] fix: require R-APDU buffer to have enough capacity for
 SW1-SW2

SW1-SW2 was written beyond the end of a single byte R-APDU buffer.
---
 src/emv_ttl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index feb7144..ea448e0 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -55,7 +55,7 @@ int emv_ttl_trx(
 	// Current position in R-APDU output
 	uint8_t* r_apdu_ptr = r_apdu;
 
-	if (!ctx || !c_apdu || !c_apdu_len || !r_apdu || !r_apdu_len || !*r_apdu_len || !sw1sw2) {
+	if (!ctx || !c_apdu || !c_apdu_len || !r_apdu || !r_apdu_len || *r_apdu_len < 2 || !sw1sw2) {
 		return -1;
 	}
 
-- 
2.43.0


From 7e4edc55091bf8841251cf4d24631eb6b09306e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:38 +0000
Subject: [PATCH 10/55] fix: allow R-TPDU with maximum response data length

The leading INS byte of an R-TPDU was not taken into account, such that a
response with 256 data bytes could not be received in TPDU mode.
---
 src/emv_ttl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index ea448e0..166e410 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -124,7 +124,7 @@ int emv_ttl_trx(
 
 	do {
 		int r;
-		uint8_t rx_buf[EMV_RAPDU_MAX];
+		uint8_t rx_buf[1 + EMV_RAPDU_MAX]; // R-TPDU has leading INS byte
 		size_t rx_len = sizeof(rx_buf);
 		uint8_t SW1;
 		uint8_t SW2;
-- 
2.43.0


From d93f2ddcbf714b6bf23558cbce4a17100f46e586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:38 +0000
Subject: [PATCH 11/55] fix: prevent use of freed AID when initiating
 application processing again

Upon success, the selected application's fields are moved to the ICC data
list. If emv_initiate_application_processing() was called again without
selecting an application, the ICC data list was cleared before the AID in
it was used. Also avoid dereferencing a NULL context for debug output.
---
 src/emv.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/emv.c b/src/emv.c
index 0d456bf..682735e 100644
--- a/src/emv.c
+++ b/src/emv.c
@@ -502,10 +502,15 @@ int emv_initiate_application_processing(
 	struct emv_tlv_list_t gpo_output = EMV_TLV_LIST_INIT;
 
 	if (!ctx || !ctx->selected_app) {
-		emv_debug_trace_msg("ctx=%p, selected_app=%p", ctx, ctx->selected_app);
+		emv_debug_trace_msg("ctx=%p, selected_app=%p", ctx, ctx ? ctx->selected_app : NULL);
 		emv_debug_error("Invalid parameter");
 		return EMV_ERROR_INVALID_PARAMETER;
 	}
+	if (emv_tlv_list_is_empty(&ctx->selected_app->tlv_list)) {
+		// Application data has already been moved to ICC data list
+		emv_debug_error("Application processing already initiated");
+		return EMV_ERROR_INVALID_PARAMETER;
+	}
 
 	// Clear existing ICC data and terminal data lists to avoid ambiguity
 	emv_tlv_list_clear(&ctx->icc);
-- 
2.43.0


From 816bb3f94ab79fdc1f5b6cce093a20352a251286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:38 +0000
Subject: [PATCH 12/55] fix: report success for JCB AID

emv_aid_get_info() identified JCB as the scheme but then failed, such that
no information was available for JCB applications.
---
 src/emv_fields.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/emv_fields.c b/src/emv_fields.c
index cd097a1..3c6e6a5 100644
--- a/src/emv_fields.c
+++ b/src/emv_fields.c
@@ -217,6 +217,7 @@ int emv_aid_get_info(
 	// JCB
 	if (emv_aid_match(aid, aid_len, jcb_aid)) {
 		info->scheme = EMV_CARD_SCHEME_JCB;
+		return 0;
 	}
 
 	// Dankort
-- 
2.43.0


From 834058815d3163e82bff2d5e7c6b5d438d619670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:38 +0000
Subject: [PATCH 13/55] fix: use bytes C6 and C7 for extended length of C-APDU

The first byte of a C-APDU is C1, such that C6 and C7 are at offsets 5 and 6.
---
 src/iso7816_apdu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso7816_apdu.h b/src/iso7816_apdu.h
index c8c860e..1877c80 100644
--- a/src/iso7816_apdu.h
+++ b/src/iso7816_apdu.h
@@ -118,8 +118,8 @@ static inline int iso7816_apdu_case(const void* c_apdu, size_t c_apdu_len)
 			if (c_apdu_len > 7) {
 				// Extract bytes C6C7 from header
 				// See ISO 7816-3:2006, 12.1.3, table 13
-				unsigned int C6 = *(uint8_t*)(c_apdu + 6);
-				unsigned int C7 = *(uint8_t*)(c_apdu + 7);
+				unsigned int C6 = *(uint8_t*)(c_apdu + 5);
+				unsigned int C7 = *(uint8_t*)(c_apdu + 6);
 				unsigned int C6C7 = (C6 << 8) + C7;
 
 				if (C6C7) {
-- 
2.43.0


From 13f17a1f522c1389451f995e14d0eb8f08c34946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:54 +0000
Subject: [PATCH 14/55] fix: do not transmit command data for GET RESPONSE or
 repeated command

If a status was received before the command data was requested, a procedure
byte for the subsequent GET RESPONSE, or repeated command, caused command
data to be transmitted using its Le as length.
---
 src/emv_ttl.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 166e410..56c8bca 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -397,6 +397,9 @@ int emv_ttl_trx(
 			tx_buf = c_tpdu_header;
 			tx_buf_len = sizeof(c_tpdu_header);
 
+			// No command data for next transmission
+			c_tpdu_data = NULL;
+
 			// Next transmission
 			continue;
 		}
@@ -411,6 +414,9 @@ int emv_ttl_trx(
 			tx_buf = c_tpdu_header;
 			tx_buf_len = sizeof(c_tpdu_header);
 
+			// No command data for next transmission
+			c_tpdu_data = NULL;
+
 			// Next transmission
 			continue;
 		}
-- 
2.43.0


From d7fc6623382d0adef5367e30c3d56b2ea28f2d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:45 +0000
Subject: [PATCH 15/55] fix: truncate UTF-8 output at character boundary

If the UTF-8 output buffer was too small, iso8859_to_utf8() truncated the
output in the middle of a multibyte character. This affects the application
display name if the Application Preferred Name exceeds 32 UTF-8 bytes.
---
 src/iso8859_boost.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/iso8859_boost.cpp b/src/iso8859_boost.cpp
index 5e5368b..af000bc 100644
--- a/src/iso8859_boost.cpp
+++ b/src/iso8859_boost.cpp
@@ -67,6 +67,15 @@ int iso8859_to_utf8(
 			return 2;
 		}
 
+		// Truncate at a UTF-8 character boundary
+		if (utf8_str.size() > utf8_len - 1) {
+			std::size_t len = utf8_len - 1;
+			while (len && (utf8_str[len] & 0xC0) == 0x80) {
+				--len;
+			}
+			utf8_str.resize(len);
+		}
+
 		std::strncpy(utf8, utf8_str.c_str(), utf8_len - 1);
 		utf8[utf8_len - 1] = 0;
 
-- 
2.43.0


From 646832ce691d07d286c26da056c61d22a6cbc0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:45 +0000
Subject: [PATCH 16/55] fix: prevent write beyond UTF-8 buffer by simple
 iso8859 implementation

Termination was written beyond the end of the output buffer if only two
bytes remained for a two byte UTF-8 character.
---
 src/iso8859_simple.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iso8859_simple.c b/src/iso8859_simple.c
index 9412595..cd04ed8 100644
--- a/src/iso8859_simple.c
+++ b/src/iso8859_simple.c
@@ -58,8 +58,9 @@ int iso8859_to_utf8(
 			break;
 		}
 
-		// Ensure that at least 2 output bytes are available
-		if (utf8_len - utf8_idx < 2) {
+		// Ensure that at least 2 output bytes are available, or 3 output bytes
+		// for higher characters, including null termination
+		if (utf8_len - utf8_idx < (iso8859[i] < 0x80 ? 2 : 3)) {
 			// Unsufficient space left in output buffer
 			break;
 		}
-- 
2.43.0


From c3b51e12cf4787ae4a829312c7a9d4bcf2885d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:45 +0000
Subject: [PATCH 17/55] fix: terminate UTF-8 output of iconv iso8859
 implementation

---
 src/iso8859_iconv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iso8859_iconv.c b/src/iso8859_iconv.c
index 7c00e44..8ac973c 100644
--- a/src/iso8859_iconv.c
+++ b/src/iso8859_iconv.c
@@ -52,7 +52,7 @@ int iso8859_to_utf8(
 	char* inbuf = (char*)iso8859;
 	size_t inbytesleft = iso8859_len;
 	char* outbuf = utf8;
-	size_t outbytesleft = utf8_len;
+	size_t outbytesleft = utf8_len - 1; // Ensure enough space for NULL termination
 
 	if (!iso8859 || !iso8859_len || !utf8 || !utf8_len) {
 		return -1;
@@ -70,6 +70,7 @@ int iso8859_to_utf8(
 	}
 	r = iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
 	iconv_close(cd);
+	*outbuf = 0; // NULL terminate
 	if (r == (size_t)-1) {
 		return 2;
 	}
-- 
2.43.0


From e4e285da8826b221272f61792a8ed9a447ba4992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:32 +0000
Subject: [PATCH 18/55] fix: keep discovery order of applications without
 priority

---
 src/emv_app.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/emv_app.c b/src/emv_app.c
index a76a46f..79a21c0 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -518,9 +518,12 @@ int emv_app_list_sort_priority(struct emv_app_list_t* list)
 		// without a priority indicator should be prioritised relative to an
 		// application with a priority indicator, and therefore this
 		// implementation chooses to favour applications with a priority
-		// indicator over those without.
+		// indicator over those without. Applications with the same priority, or
+		// without a priority, remain in the order in which they were encountered
+		// in the card.
+		// See EMV 4.4 Book 1, 12.4
 		for (struct emv_app_t* cur = sorted_list.front; cur != NULL; cur = cur->next) {
-			if (!cur->priority) {
+			if (app->priority && !cur->priority) {
 				break;
 			}
 			if (app->priority && app->priority < cur->priority) {
-- 
2.43.0


From e9a2878f24a9d86ca507bd7b8de3876af28f6683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:45 +0000
Subject: [PATCH 19/55] fix: bound number of decoded OID components and reject
 truncated OID

---
 src/iso8825_ber.c | 52 +++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index f9b322a..20a57c2 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -269,41 +269,26 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 {
 	const uint8_t* buf = ptr;
 
-	memset(oid, 0, sizeof(*oid));
-
 	if (!ptr || !oid || !len) {
 		return -1;
 	}
+	memset(oid, 0, sizeof(*oid));
 
 	if (len >= sizeof(oid->value)) {
 		// OID too long
 		return -2;
 	}
 
-	// See ISO 8825-1:2003, 8.19.4
-	if (buf[0] < 40) { // ITU-T
-		oid->value[0] = ASN1_OID_ITU_T;
-		oid->value[1] = buf[0];
-	} else if (buf[0] < 80) { // ISO
-		oid->value[0] = ASN1_OID_ISO;
-		oid->value[1] = buf[0] - 40;
-	} else { // joint-iso-itu-t
-		oid->value[0] = ASN1_OID_JOINT;
-		oid->value[1] = buf[0] - 80;
-	}
-	oid->length = 2;
-	++buf;
-	--len;
-
 	// See ISO 8825-1:2003, 8.19
-	while (len && oid->length < sizeof(oid->value)) {
+	while (len) {
 		uint32_t subid = 0;
+		bool last_octet = false;
 
 		// Decode multibyte subidentifier
-		while (len) {
+		while (len && !last_octet) {
 			// Determine whether it is the last octet of the subidentifier
 			// See ISO 8825-1:2003, 8.19.2
-			bool last_octet = !(*buf & 0x80); // TODO: use define
+			last_octet = !(*buf & 0x80); // TODO: use define
 
 			// Extract the next 7 bits of the subidentifier
 			// See ISO 8825-1:2003, 8.19.2
@@ -311,9 +296,32 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 			subid |= *buf & 0x7f; // TODO: use define
 			++buf;
 			--len;
+		}
+		if (!last_octet) {
+			// Subidentifier is incomplete
+			return -3;
+		}
 
-			if (last_octet)
-				break;
+		if (!oid->length) {
+			// First subidentifier provides first two components
+			// See ISO 8825-1:2003, 8.19.4
+			if (subid < 40) { // ITU-T
+				oid->value[0] = ASN1_OID_ITU_T;
+				oid->value[1] = subid;
+			} else if (subid < 80) { // ISO
+				oid->value[0] = ASN1_OID_ISO;
+				oid->value[1] = subid - 40;
+			} else { // joint-iso-itu-t
+				oid->value[0] = ASN1_OID_JOINT;
+				oid->value[1] = subid - 80;
+			}
+			oid->length = 2;
+			continue;
+		}
+
+		if (oid->length >= sizeof(oid->value) / sizeof(oid->value[0])) {
+			// Too many components
+			return -4;
 		}
 
 		// Store subidentifier
-- 
2.43.0


From e77c8d4c94ca01afade586455859ffeb2bd49f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:47 +0000
Subject: [PATCH 20/55] fix: consume TD4 before historical bytes when parsing
 ATR

---
 src/iso7816.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index 8fe6836..f733689 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -165,6 +165,16 @@ int iso7816_atr_parse(const uint8_t* atr, size_t atr_len, struct iso7816_atr_inf
 		}
 	}
 
+	if (atr_info->TD[4]) {
+		if (*atr_info->TD[4] & ~ISO7816_ATR_Tx_OTHER_MASK) {
+			// Interface bytes after TD4 are not supported
+			return 9;
+		}
+
+		// TD4 was not consumed by the loop
+		++atr_idx;
+	}
+
 	// Compute various derived parameters
 	iso7816_compute_gt(atr_info);
 	iso7816_compute_wt(atr_info);
-- 
2.43.0


From 84bd0d97a8d8e8567f8d9fa818eebd872e5d7c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:47 +0000
Subject: [PATCH 21/55] fix: reject ATR historical bytes too short for
 mandatory status indicator

---
 src/iso7816.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index f733689..10140f9 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -203,6 +203,11 @@ int iso7816_atr_parse(const uint8_t* atr, size_t atr_len, struct iso7816_atr_inf
 		// See ISO 7816-4:2005, 8.1.1
 		switch (atr_info->T1) {
 			case ISO7816_ATR_T1_COMPACT_TLV_SI:
+				if (atr_info->historical_bytes_len < 3) {
+					// Mandatory status indicator is missing
+					return 5;
+				}
+
 				// Store status indicator bytes for later parsing
 				atr_info->historical_bytes_len -= 3;
 				atr_info->status_indicator_bytes = atr_info->historical_bytes + atr_info->historical_bytes_len;
-- 
2.43.0


From ec0236b046941f24e18cb951fd46e549e3177458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:47 +0000
Subject: [PATCH 22/55] fix: allow ATR historical bytes without COMPACT-TLV
 data objects

---
 src/iso7816.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index 10140f9..02eeafb 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -216,6 +216,10 @@ int iso7816_atr_parse(const uint8_t* atr, size_t atr_len, struct iso7816_atr_inf
 				// Intentional fallthrough to COMPACT-TLV parsing
 
 			case ISO7816_ATR_T1_COMPACT_TLV:
+				if (!atr_info->historical_bytes_len) {
+					// COMPACT-TLV data objects are optional
+					break;
+				}
 				r = iso7816_atr_parse_historical_bytes(atr_info->historical_bytes, atr_info->historical_bytes_len, atr_info);
 				if (r) {
 					return 5;
-- 
2.43.0


From 58384c13083399b9571003a09be42929330c9e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:47 +0000
Subject: [PATCH 23/55] fix: avoid overflow when computing block waiting time

---
 src/iso7816.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso7816.c b/src/iso7816.c
index 02eeafb..285a1a7 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -724,7 +724,7 @@ static void iso7816_compute_wt(struct iso7816_atr_info_t* atr_info)
 	// BWT = (((2^BWI x 960 x 372 x D / F) + 11)etu; where D is Di and F is Fi
 
 	// And finally, after all that thinking...
-	atr_info->protocol_T1.BWT = 11 + (((1 << BWI) * 960 * 372 * Di) / Fi);
+	atr_info->protocol_T1.BWT = 11 + (((uint64_t)(1 << BWI) * 960 * 372 * Di) / Fi);
 }
 
 static int iso7816_atr_parse_historical_bytes(const void* historical_bytes, size_t historical_bytes_len, struct iso7816_atr_info_t* atr_info)
-- 
2.43.0


From cf6aa7b9f9ef6020cf6caffeafbf03f4c75bff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:47 +0000
Subject: [PATCH 24/55] fix: verify C-APDU length instead of string buffer
 length

---
 src/iso7816_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index ed23dde..4448fa0 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -418,7 +418,7 @@ const char* iso7816_capdu_get_string(
 	}
 	str[0] = 0; // NULL terminate
 
-	if (str_len < 4) {
+	if (c_apdu_len < 4) {
 		// C-APDU must be least 4 bytes
 		// See ISO 7816-4:2005, 5.1
 		return NULL;
-- 
2.43.0


From 9884a818ce914873132da57ad0810b7d0406c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:47 +0000
Subject: [PATCH 25/55] fix: avoid truncation of longest file identifier string

---
 src/iso7816_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index 4448fa0..b190f44 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -138,7 +138,7 @@ static const char* iso7816_capdu_select_get_string(
 		for (size_t i = 0; i < apdu_case_4s->Lc; ++i) {
 			snprintf(
 				file_id_str + (i * 2),
-				sizeof(file_id_str) - 1 - (i * 2),
+				sizeof(file_id_str) - (i * 2),
 				"%02X",
 				apdu_case_4s->data[i]
 			);
-- 
2.43.0


From 90af4ed35bba98e8e8fd8a2f859587ab7125105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:47 +0000
Subject: [PATCH 26/55] fix: terminate empty ISO 7816 string lists

---
 src/iso7816_strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index b190f44..614761b 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -35,6 +35,11 @@ static void iso7816_str_list_init(struct str_itr_t* itr, char* buf, size_t len)
 {
 	itr->ptr = buf;
 	itr->len = len;
+
+	// NULL terminate in case string list remains empty
+	if (buf && len) {
+		*buf = 0;
+	}
 }
 
 static void iso7816_str_list_add(struct str_itr_t* itr, const char* str)
-- 
2.43.0


From ce78435811661fb74e276112858eeea0715e78cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:56 +0000
Subject: [PATCH 27/55] fix: recognise PSE and PPSE names in DF Name field
 description

The comparison was inverted: any 14 byte DF name other than the PSE or
PPSE name was copied verbatim and the PSE and PPSE names were decoded as
AIDs. Also do not dereference an absent field value or string buffer.
---
 src/emv_strings.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 2848a90..ee103b4 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -245,10 +245,11 @@ int emv_tlv_get_info(
 				"Identifies the name of the Dedicated File (DF) as described "
 				"in ISO/IEC 7816-4";
 			info->format = EMV_FORMAT_B;
-			if ((tlv->length == strlen(EMV_PSE) && strncmp((const char*)tlv->value, EMV_PSE, strlen(EMV_PSE))) ||
-				(tlv->length == strlen(EMV_PPSE) && strncmp((const char*)tlv->value, EMV_PPSE, strlen(EMV_PPSE)))
-			) {
-				if (value_str_len > tlv->length) {
+			if (tlv->value && (
+				(tlv->length == strlen(EMV_PSE) && memcmp(tlv->value, EMV_PSE, strlen(EMV_PSE)) == 0) ||
+				(tlv->length == strlen(EMV_PPSE) && memcmp(tlv->value, EMV_PPSE, strlen(EMV_PPSE)) == 0)
+			)) {
+				if (value_str && value_str_len > tlv->length) {
 					memcpy(value_str, tlv->value, tlv->length);
 					value_str[tlv->length] = 0;
 				}
-- 
2.43.0


From cae0487ab538ac90e8ce0b2ddd4aaeba173ce657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:56 +0000
Subject: [PATCH 28/55] fix: avoid reading the first byte of empty fields

Zero length fields may have a value pointer that cannot be dereferenced.
---
 src/emv_strings.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index ee103b4..a8a1adc 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -398,7 +398,7 @@ int emv_tlv_get_info(
 				"The actual values to be used for the Transaction Type data "
 				"element are defined by the relevant payment system.";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -552,7 +552,7 @@ int emv_tlv_get_info(
 				"Indicates the type of account selected on the "
 				"terminal, coded as specified in Annex G";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -886,7 +886,7 @@ int emv_tlv_get_info(
 				"Indicates the type of cryptogram and the actions to be "
 				"performed by the terminal";
 			info->format = EMV_FORMAT_B;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -924,7 +924,7 @@ int emv_tlv_get_info(
 				"Indicates the environment of the terminal, its "
 				"communications capability, and its operational control";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -963,7 +963,7 @@ int emv_tlv_get_info(
 				"Indicates the method by which the PAN was entered, according "
 				"to the first two digits of the ISO 8583:1987 POS Entry Mode";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -1157,7 +1157,7 @@ int emv_tlv_get_info(
 					"resulting in a modified Tag '9F35', which is passed to "
 					"the card when requested.";
 				info->format = EMV_FORMAT_B;
-				if (!tlv->value) {
+				if (!tlv->value || !tlv->length) {
 					// Cannot use tlv->value[0], even if value_str is NULL.
 					// This is typically for Data Object List (DOL) entries that
 					// have been packed into TLV entries for this function to use.
-- 
2.43.0


From ebbab1bf036257c35c84a4bfbd7eca7097361816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:56 +0000
Subject: [PATCH 29/55] fix: avoid NULL dereference for Application Preferred
 Name

Data Object List (DOL) entries have no field value. Return the same error
as for the other string formats.
---
 src/emv_strings.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index a8a1adc..d0923d9 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1328,6 +1328,9 @@ static int emv_tlv_value_get_string(const struct emv_tlv_t* tlv, enum emv_format
 			}
 			else if (tlv->tag == EMV_TAG_9F12_APPLICATION_PREFERRED_NAME) {
 				// TODO: Convert EMV_TAG_9F12_APPLICATION_PREFERRED_NAME from the appropriate ISO/IEC 8859 code page to UTF-8
+				if (!tlv->value || !tlv->length) {
+					return -1;
+				}
 				memcpy(value_str, tlv->value, tlv->length);
 				value_str[tlv->length] = 0; // NULL terminate
 				return 0;
-- 
2.43.0


From 62eae767ae80bd3c4c351146e841eb0ece314384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:56 +0000
Subject: [PATCH 30/55] fix: terminate empty EMV string lists

---
 src/emv_strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index d0923d9..82fa266 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -2003,6 +2003,11 @@ static void emv_str_list_init(struct str_itr_t* itr, char* buf, size_t len)
 {
 	itr->ptr = buf;
 	itr->len = len;
+
+	// NULL terminate in case string list remains empty
+	if (buf && len) {
+		*buf = 0;
+	}
 }
 
 ATTRIBUTE_FORMAT_PRINTF(2, 3)
-- 
2.43.0


From 2f554628f24cc9ade07ade7d2eb6220c60b63ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:56 +0000
Subject: [PATCH 31/55] fix: avoid out-of-bounds write when converting number
 to string

When the digits of a number exactly filled the output buffer, the NULL
terminator was written beyond the end of the buffer.
---
 src/emv_strings.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 82fa266..5eb9580 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1609,18 +1609,18 @@ static int emv_uint_to_str(uint32_t value, char* str, size_t str_len)
 		c = '0' + digit;
 
 		if (digit != 0 || found_first_digit) {
+			if (str_len < 2) {
+				// No space left for digit and NULL termination
+				str[0] = 0;
+				return -3;
+			}
+
 			*str = c;
 			++str;
 			--str_len;
 			found_first_digit = true;
 		}
 
-		if (str_len == 0) {
-			// No space left to NULL terminate
-			str[0] = 0;
-			return -3;
-		}
-
 		value %= divider;
 		divider /= 10;
 	}
-- 
2.43.0


From 2ef5c10fadfb1f1e9294369f707ab2bb3e00739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:57 +0000
Subject: [PATCH 32/55] fix: avoid out-of-bounds write when formatting date and
 time

---
 src/emv_strings.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 5eb9580..e2889cf 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1810,7 +1810,7 @@ int emv_date_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t st
 		}
 		date_str[(i * 2) + 1] = '0' + digit;
 	}
-	date_str[(buf_len * 2) + 1] = 0;
+	date_str[buf_len * 2] = 0;
 
 	// Assume it's the 21st century; if it isn't, then hopefully we've at
 	// least addressed climate change...
@@ -1883,7 +1883,7 @@ int emv_time_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t st
 		}
 		time_str[(i * 2) + 1] = '0' + digit;
 	}
-	time_str[(buf_len * 2) + 1] = 0;
+	time_str[buf_len * 2] = 0;
 
 	// Hours
 	memcpy(str + offset, time_str, 2);
-- 
2.43.0


From f4eac3235ee923abb261b38a08ff48e2662b3ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:57 +0000
Subject: [PATCH 33/55] fix: verify string buffer length for Track 2 Equivalent
 Data

---
 src/emv_strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index e2889cf..fb80ac4 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -2865,6 +2865,11 @@ int emv_track2_equivalent_data_get_string(
 		return 0;
 	}
 
+	// Minimum string length
+	if (str_len < track2_len * 2 + 1) {
+		return -2;
+	}
+
 	// The easiest way to convert track2 data to a string is to simply extract
 	// each nibble and add 0x30 ('0') to create the equivalent ASCII character
 	// All ASCII digits from 0x30 to 0x3F are printable and it is only
-- 
2.43.0


From 56b39e028b72cabddb6b2665568b08fae3c4ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:57 +0000
Subject: [PATCH 34/55] fix: verify Third Party Data length before reading
 Device Type

---
 src/emv_strings.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index fb80ac4..7e49626 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -5221,6 +5221,17 @@ int emv_mastercard_third_party_data_get_string_list(
 
 	// Device Type is present when the most significant bit of the
 	// Unique Identifier is unset. The Device Type has format 'an'.
+	if ((unique_id & 0x8000) == 0) {
+		// If Device Type is present, minimum field length is 7
+		tpd_len_min = 7;
+	} else {
+		// If Device Type is absent, minimum field length is 5
+		tpd_len_min = 5;
+	}
+	if (tpd_len < tpd_len_min) {
+		// Invalid Mastercard Third Party Data (field 9F6E) length
+		return 1;
+	}
 	if ((unique_id & 0x8000) == 0) {
 		char device_type[3];
 		const char* device_type_str;
@@ -5236,18 +5247,7 @@ int emv_mastercard_third_party_data_get_string_list(
 			emv_str_list_add(&itr, "Device Type: %s", device_type);
 		}
 
-		// If Device Type is present, minimum field length is 7
-		tpd_len_min = 7;
-
 		tpd_ptr += 2;
-	} else {
-		// If Device Type is absent, minimum field length is 5
-		tpd_len_min = 5;
-	}
-
-	if (tpd_len < tpd_len_min) {
-		// Invalid Mastercard Third Party Data (field 9F6E) length
-		return 1;
 	}
 	remaining_len = tpd_len - (tpd_ptr - tpd);
 
-- 
2.43.0


From b4097dd7fbfe85e4173df6d4a98f5c7e13705740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:57 +0000
Subject: [PATCH 35/55] fix: correct Card Status Update text

---
 src/emv_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 7e49626..5a3c422 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -5837,7 +5837,7 @@ static int emv_csu_append_string_list(
 		emv_str_list_add(itr, "Card Status Update (CSU): Do Not Update Offline Counters");
 	}
 	if ((csu[1] & EMV_CSU_BYTE2_UPDATE_COUNTERS_MASK) == EMV_CSU_BYTE2_UPDATE_COUNTERS_UPPER_OFFLINE_LIMIT) {
-		emv_str_list_add(itr, "ard Status Update (CSU): Set Offline Counters to Upper Offline Limits");
+		emv_str_list_add(itr, "Card Status Update (CSU): Set Offline Counters to Upper Offline Limits");
 	}
 	if ((csu[1] & EMV_CSU_BYTE2_UPDATE_COUNTERS_MASK) == EMV_CSU_BYTE2_UPDATE_COUNTERS_RESET) {
 		emv_str_list_add(itr, "Card Status Update (CSU): Reset Offline Counters to Zero");
-- 
2.43.0


From b1c83500bfac2f9508b0b19b80a45d6e94c81228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:57 +0000
Subject: [PATCH 36/55] fix: verify C-APDU length instead of EMV string buffer
 length

---
 src/emv_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 5a3c422..caf95d5 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -5990,7 +5990,7 @@ int emv_capdu_get_string(
 
 	str[0] = 0; // NULL terminate
 
-	if (str_len < 4) {
+	if (c_apdu_len < 4) {
 		// C-APDU must be least 4 bytes
 		// See EMV Contact Interface Specification v1.0, 9.4.1
 		return -2;
-- 
2.43.0


From 34003326e3bf5ded6e7430507d8a675eba123674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:57 +0000
Subject: [PATCH 37/55] fix: correct CCD upper cumulative offline amount limit
 bit

See EMV 4.4 Book 3, Annex C7.3. The bit of the lower limit was also used
for the upper limit.
---
 src/emv_fields.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_fields.h b/src/emv_fields.h
index 375121e..4f89a8a 100644
--- a/src/emv_fields.h
+++ b/src/emv_fields.h
@@ -407,7 +407,7 @@ enum emv_iad_format_t {
 #define EMV_IAD_CCD_CVR_BYTE3_L_OFFLINE_TXN_CNT_LIMIT_EXCEEDED  (0x80) ///< Card Verification Results (CVR): Lower Offline Transaction Count Limit Exceeded
 #define EMV_IAD_CCD_CVR_BYTE3_U_OFFLINE_TXN_CNT_LIMIT_EXCEEDED  (0x40) ///< Card Verification Results (CVR): Upper Offline Transaction Count Limit Exceeded
 #define EMV_IAD_CCD_CVR_BYTE3_L_OFFLINE_AMOUNT_LIMIT_EXCEEDED   (0x20) ///< Card Verification Results (CVR): Lower Cumulative Offline Amount Limit Exceeded
-#define EMV_IAD_CCD_CVR_BYTE3_U_OFFLINE_AMOUNT_LIMIT_EXCEEDED   (0x20) ///< Card Verification Results (CVR): Upper Cumulative Offline Amount Limit Exceeded
+#define EMV_IAD_CCD_CVR_BYTE3_U_OFFLINE_AMOUNT_LIMIT_EXCEEDED   (0x10) ///< Card Verification Results (CVR): Upper Cumulative Offline Amount Limit Exceeded
 #define EMV_IAD_CCD_CVR_BYTE3_ISSUER_DISCRETIONARY_BIT1         (0x08) ///< Card Verification Results (CVR): Issuer-discretionary bit 1
 #define EMV_IAD_CCD_CVR_BYTE3_ISSUER_DISCRETIONARY_BIT2         (0x04) ///< Card Verification Results (CVR): Issuer-discretionary bit 2
 #define EMV_IAD_CCD_CVR_BYTE3_ISSUER_DISCRETIONARY_BIT3         (0x02) ///< Card Verification Results (CVR): Issuer-discretionary bit 3
-- 
2.43.0


From c854d9b6e35e2fd34c2b2bc56aef0cec93494cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:47 +0000
Subject: [PATCH 38/55] fix: stringify format "n" values that exceed 32 bits

The conversion used a 32-bit integer such that numeric amounts with more
than 9 digits, for example in field 9F02, produced an unrelated number.
---
 src/emv_strings.c | 48 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index caf95d5..a299079 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1572,15 +1572,51 @@ int emv_format_cn_get_string(const uint8_t* buf, size_t buf_len, char* str, size
 
 int emv_format_n_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t str_len)
 {
-	int r;
-	uint32_t value;
+	bool found_first_digit = false;
 
-	r = emv_format_n_to_uint(buf, buf_len, &value);
-	if (r) {
-		return r;
+	if (!buf || !buf_len || !str) {
+		return -1;
 	}
 
-	return emv_uint_to_str(value, str, str_len);
+	// Validate format "n"
+	for (size_t i = 0; i < buf_len; ++i) {
+		if ((buf[i] >> 4) > 9 || (buf[i] & 0xF) > 9) {
+			// Invalid digit
+			return 1;
+		}
+	}
+
+	if (str_len < 2) {
+		// Minimum length for zero string
+		return -2;
+	}
+
+	// Stringify digit by digit because the number of digits is not limited to
+	// what fits in an integer
+	for (size_t i = 0; i < buf_len * 2; ++i) {
+		uint8_t digit;
+
+		// Most significant nibble first
+		digit = (i & 0x1) ? buf[i / 2] & 0xF : buf[i / 2] >> 4;
+		if (digit == 0 && !found_first_digit && i + 1 < buf_len * 2) {
+			// Omit leading zeros
+			continue;
+		}
+		found_first_digit = true;
+
+		if (str_len < 2) {
+			// No space left for digit and NULL termination
+			str[0] = 0;
+			return -3;
+		}
+		*str = '0' + digit;
+		++str;
+		--str_len;
+	}
+
+	*str = 0; // NULL terminate string
+
+	return 0;
 }
 
 static int emv_uint_to_str(uint32_t value, char* str, size_t str_len)
-- 
2.43.0


From 3ff679b0077b5763ec9c905463a437c266431169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:47 +0000
Subject: [PATCH 39/55] fix: allow ISO codes to be initialised more than once

The lookup maps refer to list entries and a repeated initialisation
reallocated the lists, such that subsequent lookups used freed memory.
---
 src/isocodes_lookup.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/isocodes_lookup.cpp b/src/isocodes_lookup.cpp
index 689f2a5..8b1a0dc 100644
--- a/src/isocodes_lookup.cpp
+++ b/src/isocodes_lookup.cpp
@@ -320,6 +320,12 @@ static bool build_country_list(json_object* json_root) noexcept
 		return false;
 	}
 
+	// Discard any previous country list as well as the references to it
+	country_alpha2_map.clear();
+	country_alpha3_map.clear();
+	country_numeric_map.clear();
+	country_list.clear();
+
 	country_list.reserve(iso3166_1_array_length);
 	r = json_c_visit(iso3166_1_obj, 0, &json_array_visit_userfunc, (void*)&country_list_append);
 	if (r) {
@@ -379,6 +385,11 @@ static bool build_currency_list(json_object* json_root) noexcept
 		return false;
 	}
 
+	// Discard any previous currency list as well as the references to it
+	currency_alpha3_map.clear();
+	currency_numeric_map.clear();
+	currency_list.clear();
+
 	currency_list.reserve(iso4217_array_length);
 	r = json_c_visit(iso4217_obj, 0, &json_array_visit_userfunc, (void*)&currency_list_append);
 	if (r) {
@@ -433,6 +444,11 @@ static bool build_language_list(json_object* json_root) noexcept
 		return false;
 	}
 
+	// Discard any previous language list as well as the references to it
+	language_alpha2_map.clear();
+	language_alpha3_map.clear();
+	language_list.clear();
+
 	language_list.reserve(iso_639_2_array_length);
 	r = json_c_visit(iso_639_2_obj, 0, &json_array_visit_userfunc, (void*)language_list_append);
 	if (r) {
-- 
2.43.0


From 6cd7812238cbba7104066761408a25b3b60275e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:47 +0000
Subject: [PATCH 40/55] fix: reject invalid numeric ISO codes instead of
 terminating

The conversion throws an exception inside functions that are noexcept.
---
 src/isocodes_lookup.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/isocodes_lookup.cpp b/src/isocodes_lookup.cpp
index 8b1a0dc..54a44b0 100644
--- a/src/isocodes_lookup.cpp
+++ b/src/isocodes_lookup.cpp
@@ -22,6 +22,7 @@
 #include "isocodes_lookup.h"
 #include "emv_utils_config.h"
 
+#include <exception>
 #include <string>
 #include <vector>
 #include <map>
@@ -237,6 +238,17 @@ static bool language_list_append(json_object* jso)
 	return true;
 }
 
+static bool parse_numeric(const std::string& str, unsigned int& numeric) noexcept
+{
+	try {
+		numeric = std::stoul(str);
+		return true;
+	} catch (const std::exception&) {
+		// Not a number
+		return false;
+	}
+}
+
 static int json_array_visit_userfunc(
 	json_object* jso,
 	int flags,
@@ -344,7 +356,11 @@ static bool build_country_list(json_object* json_root) noexcept
 
 	// Build numeric->country map
 	for (auto&& country : country_list) {
-		country_numeric_map.emplace(std::stoul(country.numeric), country);
+		unsigned int numeric;
+		if (!parse_numeric(country.numeric, numeric)) {
+			return false;
+		}
+		country_numeric_map.emplace(numeric, country);
 	}
 
 	return true;
@@ -403,7 +419,11 @@ static bool build_currency_list(json_object* json_root) noexcept
 
 	// Build numeric->currency map
 	for (auto&& currency : currency_list) {
-		currency_numeric_map.emplace(std::stoul(currency.numeric), currency);
+		unsigned int numeric;
+		if (!parse_numeric(currency.numeric, numeric)) {
+			return false;
+		}
+		currency_numeric_map.emplace(numeric, currency);
 	}
 
 	return true;
-- 
2.43.0


From 503255b9d04baa54c32764cf21914b88fc8bfb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:24 +0000
Subject: [PATCH 41/55] fix: exclude DEL from ISO 8859 common character set

EMV 4.4 Book 4, Annex B ends the common character set at 0x7E. The control
character 0x7F was passed through to the output string instead of being
reported as a parse error.
---
 src/emv_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index a299079..0afd395 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1499,7 +1499,7 @@ int emv_format_ans_ccs_get_string(const uint8_t* buf, size_t buf_len, char* str,
 	while (buf_len) {
 		// Validate format "ans" (ISO/IEC 8859 common character set)
 		// See EMV 4.4 Book 4, Annex B
-		if (*buf >= 0x20 && *buf <= 0x7F) {
+		if (*buf >= 0x20 && *buf < 0x7F) {
 			// ISO/IEC 8859 common character set is identical to the first
 			// Unicode block and each character is encoded as a single byte
 			// UTF-8 character
-- 
2.43.0


From c98bc1ed458e8b3a88af314d368a1800dee1c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:06 +0000
Subject: [PATCH 42/55] fix: do not read beyond truncated reader properties

---
 src/pcsc.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index eec1720..ebcc30c 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -500,8 +500,13 @@ int pcsc_reader_get_property(
 			return 0;
 		}
 
-		tlv += (2 + tlv[1]);
+		if (tlv[1] > tlv_len - 2) {
+			// Ignore truncated property
+			break;
+		}
+
 		tlv_len -= (2 + tlv[1]);
+		tlv += (2 + tlv[1]);
 	}
 
 	// Otherwise, retrieve from IFD_PIN_PROPERTIES
-- 
2.43.0


From 2cf1dc2f371e41b45934b1c11875166a8066348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:06 +0000
Subject: [PATCH 43/55] fix: do not disconnect from reader that was not
 connected

---
 src/pcsc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index ebcc30c..88f6235 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -199,8 +199,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 	);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardConnect(SCARD_SHARE_DIRECT) failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
-		r = -2;
-		goto exit;
+		return -2;
 	}
 
 	// Request reader features
-- 
2.43.0


From d15d65e0c41a6769347f6fe578d03d1a4504b2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:06 +0000
Subject: [PATCH 44/55] fix: ignore reader features with invalid length

---
 src/pcsc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pcsc.c b/src/pcsc.c
index 88f6235..a14e925 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -232,6 +232,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 	while ((void*)pcsc_tlv - (void*)reader->features.buf < reader->features.buf_len) {
 		if (pcsc_tlv->length != 4) {
 			fprintf(stderr, "Failed to parse PC/SC reader features\n");
+			reader->features.buf_len = 0; // Invalidate buffer length
 			r = -5;
 			goto exit;
 		}
-- 
2.43.0


From 2f623432adda21350e172bfdbc13900866ad66fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:06 +0000
Subject: [PATCH 45/55] fix: disconnect from card if UID retrieval fails

---
 src/pcsc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pcsc.c b/src/pcsc.c
index a14e925..1ff7e6e 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -757,6 +757,7 @@ int pcsc_reader_connect(pcsc_reader_ctx_t reader_ctx)
 		);
 		if (r < 0) {
 			// Error during UID retrieval; assume card error
+			pcsc_reader_disconnect(reader);
 			return r;
 		} else if (r > 0) {
 			// Function not supported; assume contact card
-- 
2.43.0


From 1bc6e4eb7fa3d4b41170c5cc1e827aba9fc21ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:35 +0000
Subject: [PATCH 46/55] fix: do not decode card service data of zero length

---
 tools/print_helpers.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index e41caf1..bd535e6 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -226,6 +226,10 @@ void print_atr_historical_bytes(const struct iso7816_atr_info_t* atr_info)
 
 		switch (tlv.tag) {
 			case ISO7816_COMPACT_TLV_CARD_SERVICE_DATA:
+				if (tlv.length < 1) {
+					r = -1;
+					break;
+				}
 				r = iso7816_card_service_data_get_string_list(tlv.value[0], str, sizeof(str));
 				break;
 
-- 
2.43.0


From 4e225a487b47826f6e0b1fb2431c1ca6481dd8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:35 +0000
Subject: [PATCH 47/55] fix: report correct offset of invalid data within
 indefinite length field

---
 tools/print_helpers.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index bd535e6..207e324 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -369,9 +369,7 @@ static int print_ber_buf_internal(
 		printf("%02X : [%u]", tlv.tag, tlv.length);
 
 		if (iso8825_ber_is_constructed(&tlv)) {
-			// If the field is constructed, only consider the tag and length
-			// to be valid until the value has been parsed
-			valid_bytes += (r - tlv.length);
+			int field_length = r;
 
 			printf("\n");
 			r = print_ber_buf_internal(
@@ -386,13 +384,17 @@ static int print_ber_buf_internal(
 				// processing of the error by recursive callers
 				return r;
 			}
-			valid_bytes += r;
 			if (r < tlv.length) {
-				// If only part of the constructed field was valid, return here
-				// to avoid further processing of the data
-				return valid_bytes;
+				// If only part of the constructed field was valid, only consider
+				// the tag, length and valid part of the value to be valid and
+				// return here to avoid further processing of the data
+				return (tlv.value - (const uint8_t*)ptr) + r;
 			}
 
+			// Consider the whole field, including the end-of-content if the
+			// length form is indefinite, to be valid BER encoded data
+			valid_bytes += field_length;
+
 		} else {
 			// If the field is not constructed, consider all of the bytes to
 			// be valid BER encoded data
@@ -541,9 +543,7 @@ static int print_emv_buf_internal(
 		}
 
 		if (iso8825_ber_is_constructed(&tlv)) {
-			// If the field is constructed, only consider the tag and length
-			// to be valid until the value has been parsed
-			valid_bytes += (r - tlv.length);
+			int field_length = r;
 
 			printf("\n");
 			r = print_emv_buf_internal(
@@ -558,13 +558,17 @@ static int print_emv_buf_internal(
 				// processing of the error by recursive callers
 				return r;
 			}
-			valid_bytes += r;
 			if (r < tlv.length) {
-				// If only part of the constructed field was valid, return here
-				// to avoid further processing of the data
-				return valid_bytes;
+				// If only part of the constructed field was valid, only consider
+				// the tag, length and valid part of the value to be valid and
+				// return here to avoid further processing of the data
+				return (tlv.value - (const uint8_t*)ptr) + r;
 			}
 
+			// Consider the whole field, including the end-of-content if the
+			// length form is indefinite, to be valid BER encoded data
+			valid_bytes += field_length;
+
 		} else {
 			// If the field is not constructed, consider all of the bytes to
 			// be valid BER encoded data
-- 
2.43.0


From c4c80101c4d7ad52b6dcb0a476c188f4e374b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:35 +0000
Subject: [PATCH 48/55] fix: print remaining BER fields after invalid object
 identifier

---
 tools/print_helpers.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index 207e324..13fb6e8 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -419,16 +419,13 @@ static int print_ber_buf_internal(
 				struct iso8825_oid_t oid;
 
 				r = iso8825_ber_oid_decode(tlv.value, tlv.length, &oid);
-				if (r) {
-					// Failed to decode OID
-					break;
-				}
-
-				printf(" {");
-				for (unsigned int i = 0; i < oid.length; ++i) {
-					printf("%s%u", i ? " ": "", oid.value[i]);
+				if (r == 0) {
+					printf(" {");
+					for (unsigned int i = 0; i < oid.length; ++i) {
+						printf("%s%u", i ? " ": "", oid.value[i]);
+					}
+					printf("}");
 				}
-				printf("}");
 			}
 
 			printf("\n");
-- 
2.43.0


From fcc8d8b79bfbd5e91bd877d1e9a877850f07452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:35 +0000
Subject: [PATCH 49/55] fix: ignore AES padding of up to 15 bytes

---
 tools/print_helpers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index 13fb6e8..0ba971a 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -438,7 +438,7 @@ static int print_ber_buf_internal(
 			valid_bytes < len &&
 			(
 				((len & 0x7) == 0 && len - valid_bytes < 8) ||
-				((len & 0xF) == 0 && len - valid_bytes < 15)
+				((len & 0xF) == 0 && len - valid_bytes < 16)
 			)
 		) {
 			for (unsigned int i = 0; i < depth; ++i) {
@@ -612,7 +612,7 @@ static int print_emv_buf_internal(
 			valid_bytes < len &&
 			(
 				((len & 0x7) == 0 && len - valid_bytes < 8) ||
-				((len & 0xF) == 0 && len - valid_bytes < 15)
+				((len & 0xF) == 0 && len - valid_bytes < 16)
 			)
 		) {
 			for (unsigned int i = 0; i < depth; ++i) {
-- 
2.43.0


From 0b05004147e8941315fa3279e7e0efe51a0b8ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:43 +0000
Subject: [PATCH 50/55] fix: let emv-tool debug source ALL enable all debug
 sources

---
 tools/emv-tool.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index b332630..c244613 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -214,7 +214,11 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 				}
 
 				// Found debug source string in list; shift into mask
-				debug_sources_mask |= 1 << i;
+				if (strcmp(debug_source_str[i], "ALL") == 0) {
+					debug_sources_mask |= EMV_DEBUG_SOURCE_ALL;
+				} else {
+					debug_sources_mask |= 1 << i;
+				}
 
 				arg = NULL;
 			}
-- 
2.43.0


From d790993cada44b0bd6eeae2c102322956a46b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:43 +0000
Subject: [PATCH 51/55] fix: refuse emv-tool transaction without required
 amount

---
 tools/emv-tool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index c244613..93b6745 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -653,6 +653,7 @@ int main(int argc, char** argv)
 	) {
 		fprintf(stderr, "Transaction amount (--txn-amount) argument must be non-zero\n");
 		argp_help(&argp_config, stdout, ARGP_HELP_STD_HELP, argv[0]);
+		return 1;
 	}
 
 	if (txn_type == EMV_TRANSACTION_TYPE_CASHBACK &&
@@ -660,6 +661,7 @@ int main(int argc, char** argv)
 	) {
 		fprintf(stderr, "Secondary transaction amount (--txn-amount-other) must be non-zero for cashback transaction\n");
 		argp_help(&argp_config, stdout, ARGP_HELP_STD_HELP, argv[0]);
+		return 1;
 	}
 
 	r = emv_strings_init(isocodes_path, mcc_json);
-- 
2.43.0


From 2d4a81cfc904fafa864b76532f02be578089d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:43 +0000
Subject: [PATCH 52/55] fix: exit emv-tool if application selection has no
 further input

---
 tools/emv-tool.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index 93b6745..2702a4a 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -831,8 +831,9 @@ int main(int argc, char** argv)
 			}
 			printf("Enter number: ");
 			if (!fgets(s, sizeof(s), stdin)) {
-				printf("Invalid input. Try again.\n");
-				continue;
+				// No further input is possible
+				printf("No input; exiting\n");
+				goto emv_exit;
 			}
 			r = sscanf(s, "%u", &input);
 			if (r != 1) {
-- 
2.43.0


From bcfb00126be97838f61bf00f331f340ca554ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:43 +0000
Subject: [PATCH 53/55] fix: do not use remainder of invalid input as next
 application selection

---
 tools/emv-tool.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index 2702a4a..5f5a1fc 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -835,6 +835,20 @@ int main(int argc, char** argv)
 				printf("No input; exiting\n");
 				goto emv_exit;
 			}
+			if (!strchr(s, '\n')) {
+				int c;
+				bool too_long = false;
+
+				// Consume remainder of line such that it is not considered to
+				// be the next input
+				while ((c = getchar()) != '\n' && c != EOF) {
+					too_long = true;
+				}
+				if (too_long) {
+					printf("Invalid input. Try again.\n");
+					continue;
+				}
+			}
 			r = sscanf(s, "%u", &input);
 			if (r != 1) {
 				printf("Invalid input. Try again.\n");
-- 
2.43.0


From 25a254543bf60db2a1b2fcd697488df372441153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:20 +0000
Subject: [PATCH 54/55] fix: discard previous merchant category codes when
 loading again

---
 src/mcc_lookup.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mcc_lookup.cpp b/src/mcc_lookup.cpp
index 7933f8c..531c9e8 100644
--- a/src/mcc_lookup.cpp
+++ b/src/mcc_lookup.cpp
@@ -163,6 +163,9 @@ static bool build_mcc_list(json_object* json_root) noexcept
 		return false;
 	}
 
+	// Discard any previous MCC list
+	mcc_map.clear();
+
 	r = json_c_visit(json_root, 0, &json_array_visit_userfunc, (void*)&mcc_map_add);
 	if (r) {
 		return false;
-- 
2.43.0


From 8054a53b4ecadd1051f68bd85ccfac9046d52fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:21 +0000
Subject: [PATCH 55/55] fix: do not access last character of empty path

---
 src/isocodes_lookup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/isocodes_lookup.cpp b/src/isocodes_lookup.cpp
index 54a44b0..67902d1 100644
--- a/src/isocodes_lookup.cpp
+++ b/src/isocodes_lookup.cpp
@@ -502,7 +502,7 @@ int isocodes_init(const char* path)
 	} else {
 		path_str = ISOCODES_JSON_PATH;
 	}
-	if (path_str.back() != '/') {
+	if (path_str.empty() || path_str.back() != '/') {
 		path_str += "/";
 	}
 
-- 
2.43.0

