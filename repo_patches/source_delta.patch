From 351ef9285e008b17776588b54ca7ea7e79db9e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:11 +0000
Subject: [PATCH 01/44] fix: bound OID decoding by number of subidentifiers and
 check arguments first

---
 src/iso8825_ber.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index ed64e25..6edb6aa 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -266,13 +266,14 @@ int iso8825_ber_itr_next(struct iso8825_ber_itr_t* itr, struct iso8825_tlv_t* tl
 int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oid)
 {
 	const uint8_t* buf = ptr;
-
-	memset(oid, 0, sizeof(*oid));
+	const size_t value_count = sizeof(oid->value) / sizeof(oid->value[0]);
 
 	if (!ptr || !oid || !len) {
 		return -1;
 	}
 
+	memset(oid, 0, sizeof(*oid));
+
 	if (len >= sizeof(oid->value)) {
 		// OID too long
 		return -2;
@@ -294,7 +295,7 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 	--len;
 
 	// See ISO 8825-1:2003, 8.19
-	while (len && oid->length < sizeof(oid->value)) {
+	while (len && oid->length < value_count) {
 		uint32_t subid = 0;
 
 		// Decode multibyte subidentifier
@@ -318,6 +319,10 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 		oid->value[oid->length] = subid;
 		++oid->length;
 	}
+	if (len) {
+		// Too many subidentifiers
+		return -3;
+	}
 
 	return 0;
 }
-- 
2.43.0


From 4787049dcee2e544d39e2ddaef3692451e61b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:47 +0000
Subject: [PATCH 02/44] fix: consume end-of-contents octets of indefinite
 length BER elements

---
 src/iso8825_ber.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index 6edb6aa..fa1ea00 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -86,6 +86,7 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 	int r;
 	const uint8_t* buf = ptr;
 	size_t offset = 0;
+	size_t eoc_len = 0;
 
 	if (!ptr || !tlv) {
 		return -1;
@@ -143,6 +144,8 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 
 			// Check for end-of-content
 			if (inner_tlv.tag == ASN1_EOC) {
+				// Consume end-of-content together with this element
+				eoc_len = r;
 				break;
 			}
 
@@ -191,9 +194,9 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 		return -11;
 	}
 
-	// Consume content
+	// Consume content, as well as end-of-content for indefinite length form
 	tlv->value = &buf[offset];
-	offset += tlv->length;
+	offset += tlv->length + eoc_len;
 
 	// Capture class and primitive/constructed bits as flags
 	tlv->flags = buf[0] & (ISO8825_BER_CLASS_MASK | ISO8825_BER_CONSTRUCTED);
-- 
2.43.0


From 5a4470258e1eac9925d228091bb18bf44e68c2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:24 +0000
Subject: [PATCH 03/44] fix: reject ATR with too few historical bytes for
 mandatory status indicator

---
 src/iso7816.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index 8fe6836..47300cc 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -193,6 +193,11 @@ int iso7816_atr_parse(const uint8_t* atr, size_t atr_len, struct iso7816_atr_inf
 		// See ISO 7816-4:2005, 8.1.1
 		switch (atr_info->T1) {
 			case ISO7816_ATR_T1_COMPACT_TLV_SI:
+				if (atr_info->historical_bytes_len < 3) {
+					// Insufficient historical bytes for mandatory status indicator
+					return 4;
+				}
+
 				// Store status indicator bytes for later parsing
 				atr_info->historical_bytes_len -= 3;
 				atr_info->status_indicator_bytes = atr_info->historical_bytes + atr_info->historical_bytes_len;
-- 
2.43.0


From 9e9a458b1b87fe3ee4eb0fb21ad31ae4c77dbc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:24 +0000
Subject: [PATCH 04/44] fix: avoid overflow when computing block waiting time

---
 src/iso7816.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso7816.c b/src/iso7816.c
index 47300cc..93d52dc 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -710,7 +710,7 @@ static void iso7816_compute_wt(struct iso7816_atr_info_t* atr_info)
 	// BWT = (((2^BWI x 960 x 372 x D / F) + 11)etu; where D is Di and F is Fi
 
 	// And finally, after all that thinking...
-	atr_info->protocol_T1.BWT = 11 + (((1 << BWI) * 960 * 372 * Di) / Fi);
+	atr_info->protocol_T1.BWT = 11 + (((1ULL << BWI) * 960 * 372 * Di) / Fi);
 }
 
 static int iso7816_atr_parse_historical_bytes(const void* historical_bytes, size_t historical_bytes_len, struct iso7816_atr_info_t* atr_info)
-- 
2.43.0


From 2e22b48854d9657282e740fe1ab3ad01e69ba2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:24 +0000
Subject: [PATCH 05/44] fix: consume interface byte TD4 of ATR

---
 src/iso7816.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index 93d52dc..3aeda24 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -165,6 +165,16 @@ int iso7816_atr_parse(const uint8_t* atr, size_t atr_len, struct iso7816_atr_inf
 		}
 	}
 
+	if (atr_info->TD[4]) {
+		if (*atr_info->TD[4] & ~ISO7816_ATR_Tx_OTHER_MASK) {
+			// Interface bytes beyond TD4 are not supported
+			return 26;
+		}
+
+		// Consume TD4
+		++atr_idx;
+	}
+
 	// Compute various derived parameters
 	iso7816_compute_gt(atr_info);
 	iso7816_compute_wt(atr_info);
-- 
2.43.0


From 5c31379d355812b8815ef69958a60795addce256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:41 +0000
Subject: [PATCH 06/44] fix: use correct offset of extended C-APDU length field

---
 src/iso7816_apdu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso7816_apdu.h b/src/iso7816_apdu.h
index c8c860e..1877c80 100644
--- a/src/iso7816_apdu.h
+++ b/src/iso7816_apdu.h
@@ -118,8 +118,8 @@ static inline int iso7816_apdu_case(const void* c_apdu, size_t c_apdu_len)
 			if (c_apdu_len > 7) {
 				// Extract bytes C6C7 from header
 				// See ISO 7816-3:2006, 12.1.3, table 13
-				unsigned int C6 = *(uint8_t*)(c_apdu + 6);
-				unsigned int C7 = *(uint8_t*)(c_apdu + 7);
+				unsigned int C6 = *(uint8_t*)(c_apdu + 5);
+				unsigned int C7 = *(uint8_t*)(c_apdu + 6);
 				unsigned int C6C7 = (C6 << 8) + C7;
 
 				if (C6C7) {
-- 
2.43.0


From c643db78e0bc3381ddad5faa42ff897628ab1b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:11 +0000
Subject: [PATCH 07/44] fix: transmit only remaining C-TPDU data and use header
 of most recent command

---
 src/emv_ttl.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 20657d0..a370b1f 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -44,6 +44,8 @@ int emv_ttl_trx(
 	uint8_t c_tpdu_header[5];
 	// C-TPDU data: found after P3; NULL if absent
 	const void* c_tpdu_data = NULL;
+	// C-TPDU data length: number of C-TPDU data bytes not yet transmitted
+	size_t c_tpdu_data_len = 0;
 
 	// Next buffer to transmit
 	const void* tx_buf;
@@ -86,6 +88,9 @@ int emv_ttl_trx(
 		tx_buf = c_apdu;
 		tx_buf_len = c_apdu_len;
 
+		// Remember command header for later use
+		memcpy(c_tpdu_header, c_apdu, 4);
+
 	} else if (ctx->cardreader.mode == EMV_CARDREADER_MODE_TPDU) {
 		// For TPDU mode, transmit C-TPDU header and wait for procedure byte
 
@@ -103,6 +108,7 @@ int emv_ttl_trx(
 		) {
 			// Locate C-TPDU data
 			c_tpdu_data = c_apdu + 5;
+			c_tpdu_data_len = c_tpdu_header[4]; // Lc
 		}
 
 		tx_buf = c_tpdu_header;
@@ -140,8 +146,8 @@ int emv_ttl_trx(
 
 		emv_debug_rtpdu(rx_buf, rx_len);
 
-		// Store INS of most recent tx for later use
-		INS = *((uint8_t*)(tx_buf + 1));
+		// Store INS of most recent command for later use
+		INS = c_tpdu_header[1];
 
 		// Extract SW1-SW2 status bytes
 		if (rx_len > 1) {
@@ -199,10 +205,11 @@ int emv_ttl_trx(
 				}
 
 				tx_buf = c_tpdu_data;
-				tx_buf_len = c_tpdu_header[4]; // Next transmit length is Lc
+				tx_buf_len = c_tpdu_data_len; // Next transmit length is remaining data
 
 				// No more data available
 				c_tpdu_data = NULL;
+				c_tpdu_data_len = 0;
 
 				continue;
 			}
@@ -219,23 +226,11 @@ int emv_ttl_trx(
 				tx_buf = c_tpdu_data;
 				tx_buf_len = 1;
 				++c_tpdu_data;
+				--c_tpdu_data_len;
 
-				// Case 3: CLA INS P1 P2 Lc [Data(Lc)]
 				// If c_tpdu_data is at the end of [Data(Lc)],
 				// no more data is available
-				if (apdu_case == ISO7816_APDU_CASE_3S &&
-					c_tpdu_data - c_apdu >= c_apdu_len
-				) {
-					// No more data available
-					c_tpdu_data = NULL;
-				}
-
-				// Case 4: CLA INS P1 P2 Lc [Data(Lc)] Le
-				// If c_tpdu_data is at the end of [Data(Lc)],
-				// no more data is available
-				if (apdu_case == ISO7816_APDU_CASE_4S &&
-					c_tpdu_data - c_apdu >= c_apdu_len - 1
-				) {
+				if (!c_tpdu_data_len) {
 					// No more data available
 					c_tpdu_data = NULL;
 				}
@@ -401,7 +396,7 @@ int emv_ttl_trx(
 		if (tx_update_le) {
 			// Update Le for next transmission
 			// See EMV Contact Interface Specification v1.0, 9.2.2.3.1, table 25
-			memcpy(c_tpdu_header, tx_buf, 4);
+			// NOTE: c_tpdu_header still contains most recent command header
 			c_tpdu_header[4] = SW2; // P3 = Le
 			tx_buf = c_tpdu_header;
 			tx_buf_len = sizeof(c_tpdu_header);
-- 
2.43.0


From 5306d2a9c43ce5d1fd76f10723d25ec0c9e88474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:11 +0000
Subject: [PATCH 08/44] fix: ensure response capacity for status bytes

---
 src/emv_ttl.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index a370b1f..d77fce1 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -168,6 +168,11 @@ int emv_ttl_trx(
 				return 2;
 			}
 
+			// Ensure that R-APDU buffer has enough capacity for SW1-SW2
+			if (*r_apdu_len < rx_len) {
+				return -6;
+			}
+
 			// Copy data to R-APDU
 			memcpy(r_apdu, rx_buf, rx_len);
 			*r_apdu_len = rx_len;
@@ -405,6 +410,11 @@ int emv_ttl_trx(
 			continue;
 		}
 
+		// Ensure that R-APDU buffer has enough capacity for SW1-SW2
+		if (*r_apdu_len < 2) {
+			return -7;
+		}
+
 		// Finalise R-APDU using current SW1-SW2
 		r_apdu_ptr[0] = *sw1sw2 >> 8;
 		r_apdu_ptr[1] = *sw1sw2 & 0xFF;
-- 
2.43.0


From 752bdcdb148931a1c2e010d6f211d0b4488beaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:11 +0000
Subject: [PATCH 09/44] fix: refuse endless 61XX or 6CXX responses

---
 src/emv_ttl.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index d77fce1..f8724ca 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -54,6 +54,10 @@ int emv_ttl_trx(
 	// Current position in R-APDU output
 	uint8_t* r_apdu_ptr = r_apdu;
 
+	// State of most recent command
+	bool is_get_response = false; // Most recent command is GET RESPONSE
+	bool is_le_updated = false; // Most recent command has Le provided by card
+
 	if (!ctx || !c_apdu || !c_apdu_len || !r_apdu || !r_apdu_len || !*r_apdu_len || !sw1sw2) {
 		return -1;
 	}
@@ -268,6 +272,15 @@ int emv_ttl_trx(
 					return 7;
 				}
 
+				// Status 61XX without response data is not allowed for
+				// GET RESPONSE because the card would never provide the
+				// available bytes
+				if (is_get_response &&
+					rx_len <= (ctx->cardreader.mode == EMV_CARDREADER_MODE_TPDU ? 3 : 2)
+				) {
+					return 12;
+				}
+
 				// Build GET RESPONSE for next transmission
 				tx_get_response = true;
 				break;
@@ -282,6 +295,11 @@ int emv_ttl_trx(
 					return 8;
 				}
 
+				// Status 6CXX is not allowed if Le was already provided by card
+				if (is_le_updated) {
+					return 13;
+				}
+
 				// Update Le for next transmission
 				tx_update_le = true;
 				break;
@@ -393,6 +411,8 @@ int emv_ttl_trx(
 			c_tpdu_header[4] = Le;   // Le
 			tx_buf = c_tpdu_header;
 			tx_buf_len = sizeof(c_tpdu_header);
+			is_get_response = true;
+			is_le_updated = false;
 
 			// Next transmission
 			continue;
@@ -405,6 +425,7 @@ int emv_ttl_trx(
 			c_tpdu_header[4] = SW2; // P3 = Le
 			tx_buf = c_tpdu_header;
 			tx_buf_len = sizeof(c_tpdu_header);
+			is_le_updated = true;
 
 			// Next transmission
 			continue;
-- 
2.43.0


From 6d89a5002392a849d52b12282e65e64b4a9ca0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:59 +0000
Subject: [PATCH 10/44] fix: report tag that was actually decoded from PSE AEF
 record

The debug message used the tag of a not yet initialised variable.
---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 644e602..4303c82 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -240,7 +240,7 @@ static int emv_tal_parse_aef_record(
 	}
 	if (aef_template_tlv.tag != EMV_TAG_70_DATA_TEMPLATE) {
 		// No AEF template in PSE record; ignore and continue
-		emv_debug_error("Unexpected data element 0x%02X in PSE AEF record", tlv.tag);
+		emv_debug_error("Unexpected data element 0x%02X in PSE AEF record", aef_template_tlv.tag);
 		return EMV_TAL_RESULT_PSE_AEF_INVALID;
 	}
 
-- 
2.43.0


From a52dead212e4af01c504211a76df7433b0c8f944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:59 +0000
Subject: [PATCH 11/44] fix: stop reading PSE records after last possible
 record number

A card that never provides status 6A83 caused an endless loop.
---
 src/emv_tal.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 4303c82..f6964de 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -149,7 +149,10 @@ int emv_tal_read_pse(
 
 	// Read all records from PSE AEF using the SFI
 	// See EMV 4.4 Book 1, 12.2.3
-	for (uint8_t record_number = 1; ; ++record_number) {
+	// NOTE: Record numbers are limited to one byte and the loop therefore ends
+	// when the record number wraps, even if the card never indicates the last
+	// record
+	for (uint8_t record_number = 1; record_number != 0; ++record_number) {
 		uint8_t aef_record[EMV_RAPDU_DATA_MAX];
 		size_t aef_record_len = sizeof(aef_record);
 
-- 
2.43.0


From 482c7d6aada7753cbda68abd95e61d8ed25cf960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:59 +0000
Subject: [PATCH 12/44] fix: avoid endless loop when AFL entry ends with record
 255

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index f6964de..1da4b37 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -757,7 +757,7 @@ static int emv_tal_read_sfi_records(
 		return EMV_TAL_ERROR_INVALID_PARAMETER;
 	}
 
-	for (uint8_t record_number = afl_entry->first_record; record_number <= afl_entry->last_record; ++record_number) {
+	for (unsigned int record_number = afl_entry->first_record; record_number <= afl_entry->last_record; ++record_number) {
 		uint8_t record[EMV_RAPDU_DATA_MAX];
 		size_t record_len = sizeof(record);
 		uint16_t sw1sw2;
-- 
2.43.0


From b444d5521782933a1d5bd2ce9d0ee78162385819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:59 +0000
Subject: [PATCH 13/44] fix: do not interpret empty application data record

The content of an uninitialised buffer determined how an empty record was
processed.
---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 1da4b37..0abe22f 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -795,7 +795,7 @@ static int emv_tal_read_sfi_records(
 
 		// Therefore, any record that is not encoded as field 70 should not be
 		// parsed for EMV fields and invalidates offline data authentication.
-		if (record[0] != EMV_TAG_70_DATA_TEMPLATE) {
+		if (record_len < 1 || record[0] != EMV_TAG_70_DATA_TEMPLATE) {
 			if (afl_entry->sfi >= 1 && afl_entry->sfi <= 10) {
 				// Invalid record for SFIs 1 - 10
 				// EMV 4.4 Book 3, 6.5.11.4
-- 
2.43.0


From 68ac18ac8be5cb55ab8e3940e280dbbce29d6b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:59 +0000
Subject: [PATCH 14/44] fix: limit number of partial matches for each supported
 AID

A card that answers every SELECT next with another partial match caused an
endless loop and unbounded memory use.
---
 src/emv_tal.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 0abe22f..cb02808 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -306,6 +306,7 @@ int emv_tal_find_supported_apps(
 	int r;
 	struct emv_tlv_t* aid;
 	bool exact_match;
+	unsigned int partial_match_count = 0;
 
 	if (!ttl || !supported_aids || !app_list) {
 		// Invalid parameters; terminate session
@@ -342,6 +343,8 @@ int emv_tal_find_supported_apps(
 				return EMV_TAL_ERROR_CARD_BLOCKED;
 			}
 
+			partial_match_count = 0;
+
 		} else {
 			// SELECT next application for partial AID match
 			// See EMV 4.4 Book 1, 12.3.3, step 7
@@ -432,6 +435,15 @@ int emv_tal_find_supported_apps(
 					app = NULL;
 				}
 
+				// Bad cards may provide endless partial matches; continue to
+				// next supported AID
+				if (++partial_match_count > 255) {
+					emv_debug_error("Too many partial matches");
+					aid = aid->next;
+					exact_match = true;
+					continue;
+				}
+
 				// See EMV 4.4 Book 1, 12.3.3, step 7
 				exact_match = false;
 				continue;
-- 
2.43.0


From 18c66bca18f00ad6af557fca5fb56f13dcb9f7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:59 +0000
Subject: [PATCH 15/44] fix: avoid dangling AIP pointer when GPO response has
 no AFL

---
 src/emv_tal.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index cb02808..20bfe0f 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -570,6 +570,7 @@ int emv_tal_get_processing_options(
 	struct iso8825_tlv_t gpo_tlv;
 	struct emv_tlv_list_t gpo_list = EMV_TLV_LIST_INIT;
 	const struct emv_tlv_t* tlv;
+	const struct emv_tlv_t* aip_tlv;
 
 	if (!ttl || !list) {
 		// Invalid parameters; terminate session
@@ -710,20 +711,16 @@ int emv_tal_get_processing_options(
 		}
 	}
 
-	// Populate AIP pointer
-	tlv = emv_tlv_list_find_const(&gpo_list, EMV_TAG_82_APPLICATION_INTERCHANGE_PROFILE);
-	if (!tlv) {
+	// Find AIP
+	aip_tlv = emv_tlv_list_find_const(&gpo_list, EMV_TAG_82_APPLICATION_INTERCHANGE_PROFILE);
+	if (!aip_tlv) {
 		// Mandatory field missing; terminate session
 		// See EMV 4.4 Book 3, 6.5.8.4
 		emv_debug_error("AIP not found in GPO response");
 		r = EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND;
 		goto exit;
 	}
-	if (aip) {
-		*aip = tlv;
-	}
-
-	// Populate AFL pointer
+	// Find AFL
 	tlv = emv_tlv_list_find_const(&gpo_list, EMV_TAG_94_APPLICATION_FILE_LOCATOR);
 	if (!tlv) {
 		// Mandatory field missing; terminate session
@@ -732,6 +729,10 @@ int emv_tal_get_processing_options(
 		r = EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND;
 		goto exit;
 	}
+	// Populate AIP and AFL pointers
+	if (aip) {
+		*aip = aip_tlv;
+	}
 	if (afl) {
 		*afl = tlv;
 	}
-- 
2.43.0


From 317d288382876c7b6d3885ead4964c7a4696af9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:59 +0000
Subject: [PATCH 16/44] fix: report empty AFL as card error instead of internal
 error

---
 src/emv_tal.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 20bfe0f..00548e4 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -906,10 +906,16 @@ int emv_tal_read_afl_records(
 	struct emv_afl_entry_t afl_entry;
 	bool oda_record_invalid = false;
 
-	if (!ttl || !afl || !afl_len || !list) {
+	if (!ttl || !afl || !list) {
 		// Invalid parameters; terminate session
 		return EMV_TAL_ERROR_INVALID_PARAMETER;
 	}
+	if (!afl_len) {
+		// Invalid AFL; terminate session
+		// See EMV 4.4 Book 3, 10.2
+		emv_debug_error("Invalid AFL");
+		return EMV_TAL_ERROR_AFL_INVALID;
+	}
 
 	r = emv_afl_itr_init(afl, afl_len, &afl_itr);
 	if (r) {
-- 
2.43.0


From b43a0ce50549b766db3040eef82ce0900d1e5e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:59 +0000
Subject: [PATCH 17/44] fix: do not dereference NULL context when initiating
 application

---
 src/emv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv.c b/src/emv.c
index 0d456bf..90e8b5e 100644
--- a/src/emv.c
+++ b/src/emv.c
@@ -502,7 +502,7 @@ int emv_initiate_application_processing(
 	struct emv_tlv_list_t gpo_output = EMV_TLV_LIST_INIT;
 
 	if (!ctx || !ctx->selected_app) {
-		emv_debug_trace_msg("ctx=%p, selected_app=%p", ctx, ctx->selected_app);
+		emv_debug_trace_msg("ctx=%p, selected_app=%p", ctx, ctx ? ctx->selected_app : NULL);
 		emv_debug_error("Invalid parameter");
 		return EMV_ERROR_INVALID_PARAMETER;
 	}
-- 
2.43.0


From bdb09390db0b691713e8766986a748773d957e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:59 +0000
Subject: [PATCH 18/44] fix: refuse to initiate application for which
 processing was already initiated

The application data, including the AID, belongs to the ICC data list after
successful initiation and was used after being cleared.
---
 src/emv.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/emv.c b/src/emv.c
index 90e8b5e..ed1d485 100644
--- a/src/emv.c
+++ b/src/emv.c
@@ -507,6 +507,14 @@ int emv_initiate_application_processing(
 		return EMV_ERROR_INVALID_PARAMETER;
 	}
 
+	if (emv_tlv_list_is_empty(&ctx->selected_app->tlv_list)) {
+		// Application data has already been moved to the ICC data list and
+		// the application must be selected again before it can be initiated
+		// again
+		emv_debug_error("Application processing already initiated");
+		return EMV_ERROR_INVALID_PARAMETER;
+	}
+
 	// Clear existing ICC data and terminal data lists to avoid ambiguity
 	emv_tlv_list_clear(&ctx->icc);
 	emv_tlv_list_clear(&ctx->terminal);
-- 
2.43.0


From 208b546e2a9c43083bffa2cd3f6cfca7af3d1809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:59 +0000
Subject: [PATCH 19/44] fix: do not dereference NULL when clearing TLV list

---
 src/emv_tlv.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emv_tlv.c b/src/emv_tlv.c
index 30496d6..d58782e 100644
--- a/src/emv_tlv.c
+++ b/src/emv_tlv.c
@@ -104,6 +104,9 @@ bool emv_tlv_list_is_empty(const struct emv_tlv_list_t* list)
 
 void emv_tlv_list_clear(struct emv_tlv_list_t* list)
 {
+	if (!list) {
+		return;
+	}
 	if (!emv_tlv_list_is_valid(list)) {
 		list->front = NULL;
 		list->back = NULL;
-- 
2.43.0


From 3a9b5b3979899f3aed2f01f811e6214974611dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:59 +0000
Subject: [PATCH 20/44] fix: do not dereference NULL when clearing application
 list

---
 src/emv_app.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emv_app.c b/src/emv_app.c
index a76a46f..75e27a5 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -345,6 +345,9 @@ bool emv_app_list_is_empty(const struct emv_app_list_t* list)
 
 void emv_app_list_clear(struct emv_app_list_t* list)
 {
+	if (!list) {
+		return;
+	}
 	if (!emv_app_list_is_valid(list)) {
 		list->front = NULL;
 		list->back = NULL;
-- 
2.43.0


From 912f1097903b0fd8be75a2ae8c8e984b5d24f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:47 +0000
Subject: [PATCH 21/44] fix: keep card order of applications without priority
 indicator

Sorting reversed the order of applications without a priority indicator.
See EMV 4.4 Book 1, 12.4, step 4
---
 src/emv_app.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/emv_app.c b/src/emv_app.c
index 75e27a5..66df9e3 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -523,10 +523,9 @@ int emv_app_list_sort_priority(struct emv_app_list_t* list)
 		// implementation chooses to favour applications with a priority
 		// indicator over those without.
 		for (struct emv_app_t* cur = sorted_list.front; cur != NULL; cur = cur->next) {
-			if (!cur->priority) {
-				break;
-			}
-			if (app->priority && app->priority < cur->priority) {
+			if (app->priority &&
+				(!cur->priority || app->priority < cur->priority)
+			) {
 				break;
 			}
 			pos = cur;
-- 
2.43.0


From 9c6a6d2c23d500d9cdf6d5c9a80dd65b2f95a84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:38 +0000
Subject: [PATCH 22/44] fix: reject empty FCI

iso8825_ber_decode() returns zero for empty data, which equals the length
of an empty FCI, such that the uninitialised element was used.
---
 src/emv_app.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_app.c b/src/emv_app.c
index 66df9e3..fcebfe5 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -99,7 +99,7 @@ struct emv_app_t* emv_app_create_from_fci(const void* fci, size_t fci_len)
 
 	// Parse FCI template
 	r = iso8825_ber_decode(fci, fci_len, &tlv);
-	if (r != fci_len) {
+	if (r <= 0 || r != fci_len) {
 		// Parse error
 		goto error;
 	}
-- 
2.43.0


From 6a19ddfed5de031685f2b5dc611fff955ef4e3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:53 +0000
Subject: [PATCH 23/44] fix: refuse format n value that exceeds 32 bits

Longer values, like 12 digit amounts, wrapped silently.
---
 src/emv_tlv.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/emv_tlv.c b/src/emv_tlv.c
index d58782e..d4cc2e8 100644
--- a/src/emv_tlv.c
+++ b/src/emv_tlv.c
@@ -475,6 +475,10 @@ int emv_format_n_to_uint(const uint8_t* buf, size_t buf_len, uint32_t* value)
 			// Invalid digit for EMV format "n"
 			return 1;
 		}
+		if (*value > (UINT32_MAX - digit) / 10) {
+			// Value exceeds 32-bit unsigned integer
+			return 3;
+		}
 		// Shift decimal digit into x
 		*value = (*value * 10) + digit;
 
@@ -484,6 +488,10 @@ int emv_format_n_to_uint(const uint8_t* buf, size_t buf_len, uint32_t* value)
 			// Invalid digit for EMV format "n"
 			return 2;
 		}
+		if (*value > (UINT32_MAX - digit) / 10) {
+			// Value exceeds 32-bit unsigned integer
+			return 3;
+		}
 		// Shift decimal digit into x
 		*value = (*value * 10) + digit;
 	}
-- 
2.43.0


From ecf3d3b824436805a90160e3ec113f9350598535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:53 +0000
Subject: [PATCH 24/44] fix: stringify format n values that exceed 32 bits

Amounts of more than 9 digits were displayed modulo 2^32.
---
 src/emv_strings.c | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 2848a90..f0339d7 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1568,15 +1568,48 @@ int emv_format_cn_get_string(const uint8_t* buf, size_t buf_len, char* str, size
 
 int emv_format_n_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t str_len)
 {
-	int r;
-	uint32_t value;
+	size_t offset = 0;
 
-	r = emv_format_n_to_uint(buf, buf_len, &value);
-	if (r) {
-		return r;
+	if (!buf || !buf_len || !str || !str_len) {
+		return -1;
 	}
 
-	return emv_uint_to_str(value, str, str_len);
+	if (str_len < 2) {
+		// Minimum length for zero string
+		return -2;
+	}
+
+	// Extract two decimal digits per byte. The value may exceed 32 bits and
+	// is therefore converted digit by digit
+	for (size_t i = 0; i < buf_len * 2; ++i) {
+		uint8_t digit;
+
+		if ((i & 0x1) == 0) { // i is even
+			// Most significant nibble
+			digit = buf[i / 2] >> 4;
+		} else { // i is odd
+			// Least significant nibble
+			digit = buf[i / 2] & 0xf;
+		}
+		if (digit > 9) {
+			// Invalid digit for EMV format "n"
+			return (i & 0x1) == 0 ? 1 : 2;
+		}
+
+		if (digit == 0 && offset == 0 && i + 1 < buf_len * 2) {
+			// Omit leading zeros
+			continue;
+		}
+		if (offset + 1 >= str_len) {
+			// No space left to NULL terminate
+			str[0] = 0;
+			return -3;
+		}
+		str[offset++] = '0' + digit;
+	}
+	str[offset] = 0; // NULL terminate
+
+	return 0;
 }
 
 static int emv_uint_to_str(uint32_t value, char* str, size_t str_len)
-- 
2.43.0


From 5746a14756de91a214593b53faef8c8888c75666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:53 +0000
Subject: [PATCH 25/44] fix: do not terminate integer string beyond its buffer

---
 src/emv_strings.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index f0339d7..10819ec 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1638,18 +1638,17 @@ static int emv_uint_to_str(uint32_t value, char* str, size_t str_len)
 		c = '0' + digit;
 
 		if (digit != 0 || found_first_digit) {
+			if (str_len < 2) {
+				// No space left to NULL terminate
+				*str = 0;
+				return -3;
+			}
 			*str = c;
 			++str;
 			--str_len;
 			found_first_digit = true;
 		}
 
-		if (str_len == 0) {
-			// No space left to NULL terminate
-			str[0] = 0;
-			return -3;
-		}
-
 		value %= divider;
 		divider /= 10;
 	}
-- 
2.43.0


From 16c2cfac30c621fdfd7c00ad19f9b99b64a5ef70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:53 +0000
Subject: [PATCH 26/44] fix: terminate date and time digits within their
 buffers

---
 src/emv_strings.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 10819ec..8a58376 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1838,7 +1838,7 @@ int emv_date_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t st
 		}
 		date_str[(i * 2) + 1] = '0' + digit;
 	}
-	date_str[(buf_len * 2) + 1] = 0;
+	date_str[buf_len * 2] = 0;
 
 	// Assume it's the 21st century; if it isn't, then hopefully we've at
 	// least addressed climate change...
@@ -1911,7 +1911,7 @@ int emv_time_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t st
 		}
 		time_str[(i * 2) + 1] = '0' + digit;
 	}
-	time_str[(buf_len * 2) + 1] = 0;
+	time_str[buf_len * 2] = 0;
 
 	// Hours
 	memcpy(str + offset, time_str, 2);
-- 
2.43.0


From 728bb03341e5c72b9904de85d71746b864db8fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:53 +0000
Subject: [PATCH 27/44] fix: validate string length for Track 2 Equivalent Data

---
 src/emv_strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 8a58376..fad88c2 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -2888,6 +2888,11 @@ int emv_track2_equivalent_data_get_string(
 		return 0;
 	}
 
+	// Minimum string length
+	if (str_len < track2_len * 2 + 1) {
+		return -2;
+	}
+
 	// The easiest way to convert track2 data to a string is to simply extract
 	// each nibble and add 0x30 ('0') to create the equivalent ASCII character
 	// All ASCII digits from 0x30 to 0x3F are printable and it is only
-- 
2.43.0


From 5099af644f8ec15b8cb18bbd6d5c18a094dc34eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:53 +0000
Subject: [PATCH 28/44] fix: only display DF Name as text if it is PSE or PPSE

Any other name of the same length was copied verbatim, and the output buffer
was assumed to be present.
---
 src/emv_strings.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index fad88c2..8da6c23 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -245,10 +245,10 @@ int emv_tlv_get_info(
 				"Identifies the name of the Dedicated File (DF) as described "
 				"in ISO/IEC 7816-4";
 			info->format = EMV_FORMAT_B;
-			if ((tlv->length == strlen(EMV_PSE) && strncmp((const char*)tlv->value, EMV_PSE, strlen(EMV_PSE))) ||
-				(tlv->length == strlen(EMV_PPSE) && strncmp((const char*)tlv->value, EMV_PPSE, strlen(EMV_PPSE)))
+			if ((tlv->length == strlen(EMV_PSE) && memcmp(tlv->value, EMV_PSE, strlen(EMV_PSE)) == 0) ||
+				(tlv->length == strlen(EMV_PPSE) && memcmp(tlv->value, EMV_PPSE, strlen(EMV_PPSE)) == 0)
 			) {
-				if (value_str_len > tlv->length) {
+				if (value_str && value_str_len > tlv->length) {
 					memcpy(value_str, tlv->value, tlv->length);
 					value_str[tlv->length] = 0;
 				}
-- 
2.43.0


From d2506ee1485c5d57a80ee56de0256d3ef6de3f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:53 +0000
Subject: [PATCH 29/44] fix: recognise JCB Application Identifier

---
 src/emv_fields.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/emv_fields.c b/src/emv_fields.c
index cd097a1..3c6e6a5 100644
--- a/src/emv_fields.c
+++ b/src/emv_fields.c
@@ -217,6 +217,7 @@ int emv_aid_get_info(
 	// JCB
 	if (emv_aid_match(aid, aid_len, jcb_aid)) {
 		info->scheme = EMV_CARD_SCHEME_JCB;
+		return 0;
 	}
 
 	// Dankort
-- 
2.43.0


From 4659cb0d2324bd3b1fc5d0b998a1b11eb1b7300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:53 +0000
Subject: [PATCH 30/44] fix: terminate empty string lists

The output was left untouched when there was nothing to list or when the
buffer was too small for any string.
---
 src/emv_strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 8da6c23..55744fc 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -2031,6 +2031,11 @@ static void emv_str_list_init(struct str_itr_t* itr, char* buf, size_t len)
 {
 	itr->ptr = buf;
 	itr->len = len;
+
+	// NULL terminate empty string list
+	if (len) {
+		*buf = 0;
+	}
 }
 
 ATTRIBUTE_FORMAT_PRINTF(2, 3)
-- 
2.43.0


From 77c280b8060b4fdef045f12b59893264b0eb8913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:16 +0000
Subject: [PATCH 31/44] fix: terminate empty ISO 7816 string lists

---
 src/iso7816_strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index ed23dde..0207f1b 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -35,6 +35,11 @@ static void iso7816_str_list_init(struct str_itr_t* itr, char* buf, size_t len)
 {
 	itr->ptr = buf;
 	itr->len = len;
+
+	// NULL terminate empty string list
+	if (len) {
+		*buf = 0;
+	}
 }
 
 static void iso7816_str_list_add(struct str_itr_t* itr, const char* str)
-- 
2.43.0


From aaa9d169c81c0b0a4f1372ac442ef5932a72c09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:16 +0000
Subject: [PATCH 32/44] fix: check C-APDU length instead of output length
 before reading ISO 7816 C-APDU header

---
 src/iso7816_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index 0207f1b..7d2867f 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -423,7 +423,7 @@ const char* iso7816_capdu_get_string(
 	}
 	str[0] = 0; // NULL terminate
 
-	if (str_len < 4) {
+	if (c_apdu_len < 4) {
 		// C-APDU must be least 4 bytes
 		// See ISO 7816-4:2005, 5.1
 		return NULL;
-- 
2.43.0


From 4070dbd9dccf1624c510b3003b270e615c56d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:16 +0000
Subject: [PATCH 33/44] fix: check C-APDU length instead of output length
 before reading C-APDU header

---
 src/emv_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 55744fc..6bfc482 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -6018,7 +6018,7 @@ int emv_capdu_get_string(
 
 	str[0] = 0; // NULL terminate
 
-	if (str_len < 4) {
+	if (c_apdu_len < 4) {
 		// C-APDU must be least 4 bytes
 		// See EMV Contact Interface Specification v1.0, 9.4.1
 		return -2;
-- 
2.43.0


From ce7588a1466ea74cfa7f505706be3320bb2dee5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:16 +0000
Subject: [PATCH 34/44] fix: keep last digit of longest file identifier when
 stringifying SELECT

---
 src/iso7816_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index 7d2867f..48c99b9 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -143,7 +143,7 @@ static const char* iso7816_capdu_select_get_string(
 		for (size_t i = 0; i < apdu_case_4s->Lc; ++i) {
 			snprintf(
 				file_id_str + (i * 2),
-				sizeof(file_id_str) - 1 - (i * 2),
+				sizeof(file_id_str) - (i * 2),
 				"%02X",
 				apdu_case_4s->data[i]
 			);
-- 
2.43.0


From 09052164c0c2261563b81b4b0fbafdea1023c232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:08 +0000
Subject: [PATCH 35/44] fix: check Third Party Data length before reading
 Device Type

---
 src/emv_strings.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 6bfc482..e44a4b0 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -5253,6 +5253,13 @@ int emv_mastercard_third_party_data_get_string_list(
 		char device_type[3];
 		const char* device_type_str;
 
+		// If Device Type is present, minimum field length is 7
+		tpd_len_min = 7;
+		if (tpd_len < tpd_len_min) {
+			// Invalid Mastercard Third Party Data (field 9F6E) length
+			return 1;
+		}
+
 		memcpy(device_type, tpd_ptr, 2);
 		device_type[2] = 0; // NULL terminate
 
@@ -5264,9 +5271,6 @@ int emv_mastercard_third_party_data_get_string_list(
 			emv_str_list_add(&itr, "Device Type: %s", device_type);
 		}
 
-		// If Device Type is present, minimum field length is 7
-		tpd_len_min = 7;
-
 		tpd_ptr += 2;
 	} else {
 		// If Device Type is absent, minimum field length is 5
-- 
2.43.0


From 9a2d194a8e027c811777c8fa9508fb903de7d462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:50 +0000
Subject: [PATCH 36/44] fix: do not read value of zero length fields when
 describing them

---
 src/emv_strings.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index e44a4b0..32277e8 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -397,7 +397,7 @@ int emv_tlv_get_info(
 				"The actual values to be used for the Transaction Type data "
 				"element are defined by the relevant payment system.";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -551,7 +551,7 @@ int emv_tlv_get_info(
 				"Indicates the type of account selected on the "
 				"terminal, coded as specified in Annex G";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -885,7 +885,7 @@ int emv_tlv_get_info(
 				"Indicates the type of cryptogram and the actions to be "
 				"performed by the terminal";
 			info->format = EMV_FORMAT_B;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -923,7 +923,7 @@ int emv_tlv_get_info(
 				"Indicates the environment of the terminal, its "
 				"communications capability, and its operational control";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -962,7 +962,7 @@ int emv_tlv_get_info(
 				"Indicates the method by which the PAN was entered, according "
 				"to the first two digits of the ISO 8583:1987 POS Entry Mode";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
-- 
2.43.0


From ed795bc1afe567140df7afe8e36ca89eb6e85906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:50 +0000
Subject: [PATCH 37/44] fix: do not dereference absent value when describing
 Data Object List entries

---
 src/emv_strings.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 32277e8..d24e46f 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -245,9 +245,10 @@ int emv_tlv_get_info(
 				"Identifies the name of the Dedicated File (DF) as described "
 				"in ISO/IEC 7816-4";
 			info->format = EMV_FORMAT_B;
-			if ((tlv->length == strlen(EMV_PSE) && memcmp(tlv->value, EMV_PSE, strlen(EMV_PSE)) == 0) ||
+			if (tlv->value && (
+				(tlv->length == strlen(EMV_PSE) && memcmp(tlv->value, EMV_PSE, strlen(EMV_PSE)) == 0) ||
 				(tlv->length == strlen(EMV_PPSE) && memcmp(tlv->value, EMV_PPSE, strlen(EMV_PPSE)) == 0)
-			) {
+			)) {
 				if (value_str && value_str_len > tlv->length) {
 					memcpy(value_str, tlv->value, tlv->length);
 					value_str[tlv->length] = 0;
@@ -1266,6 +1267,10 @@ static int emv_tlv_value_get_string(const struct emv_tlv_t* tlv, enum emv_format
 		// Caller didn't want the value string
 		return 0;
 	}
+	if (!tlv->value) {
+		// No value to stringify
+		return -1;
+	}
 
 	// Validate max format length
 	if (max_format_len) {
-- 
2.43.0


From 1034a5df712acdce04b926880f56a6f67e371b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:15 +0000
Subject: [PATCH 38/44] fix: leave space for NULL termination in simple ISO
 8859-1 conversion

---
 src/iso8859_simple.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iso8859_simple.c b/src/iso8859_simple.c
index 9412595..5e31d1e 100644
--- a/src/iso8859_simple.c
+++ b/src/iso8859_simple.c
@@ -58,8 +58,9 @@ int iso8859_to_utf8(
 			break;
 		}
 
-		// Ensure that at least 2 output bytes are available
-		if (utf8_len - utf8_idx < 2) {
+		// Ensure that output space is available for both the UTF-8 character
+		// and the NULL termination
+		if (utf8_len - utf8_idx < (iso8859[i] < 0x80 ? 2 : 3)) {
 			// Unsufficient space left in output buffer
 			break;
 		}
-- 
2.43.0


From 6a25c10f8e17b99c2ad6dbf84e7636d6318891ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:15 +0000
Subject: [PATCH 39/44] fix: NULL terminate iconv ISO 8859 conversion

---
 src/iso8859_iconv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iso8859_iconv.c b/src/iso8859_iconv.c
index 7c00e44..828860c 100644
--- a/src/iso8859_iconv.c
+++ b/src/iso8859_iconv.c
@@ -52,7 +52,7 @@ int iso8859_to_utf8(
 	char* inbuf = (char*)iso8859;
 	size_t inbytesleft = iso8859_len;
 	char* outbuf = utf8;
-	size_t outbytesleft = utf8_len;
+	size_t outbytesleft;
 
 	if (!iso8859 || !iso8859_len || !utf8 || !utf8_len) {
 		return -1;
@@ -68,8 +68,10 @@ int iso8859_to_utf8(
 	if (cd == (iconv_t)-1) {
 		return -2;
 	}
+	outbytesleft = utf8_len - 1; // Leave space for NULL termination
 	r = iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
 	iconv_close(cd);
+	*outbuf = 0; // NULL terminate
 	if (r == (size_t)-1) {
 		return 2;
 	}
-- 
2.43.0


From 15c359ff89021e1eaeb659e7027f7ffb7a4cf64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 40/44] fix: do not disconnect PC/SC reader when direct
 connection failed

---
 src/pcsc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index eec1720..0f79a58 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -199,8 +199,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 	);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardConnect(SCARD_SHARE_DIRECT) failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
-		r = -2;
-		goto exit;
+		return -2;
 	}
 
 	// Request reader features
-- 
2.43.0


From b3e8be0ccc2f0890577406fb11b39d3d6e9eca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 41/44] fix: do not release PC/SC context which was not
 established

---
 src/pcsc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index 0f79a58..9fa5cfb 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -116,7 +116,8 @@ int pcsc_init(pcsc_ctx_t* ctx)
 	result = SCardEstablishContext(SCARD_SCOPE_SYSTEM, NULL, NULL, &pcsc->context);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardEstablishContext() failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
-		pcsc_release(ctx);
+		free(pcsc);
+		*ctx = NULL;
 		return -1;
 	}
 
-- 
2.43.0


From 1cab9c0b34fc1277375e1716b97fb79bb3d0cfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 42/44] fix: handle allocation failure in pcsc_init()

---
 src/pcsc.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pcsc.c b/src/pcsc.c
index 9fa5cfb..266e0f9 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -109,6 +109,9 @@ int pcsc_init(pcsc_ctx_t* ctx)
 	}
 
 	*ctx = malloc(sizeof(struct pcsc_t));
+	if (!*ctx) {
+		return -1;
+	}
 	pcsc = *ctx;
 	memset(pcsc, 0, sizeof(*pcsc));
 
@@ -131,6 +134,10 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and retrieve the reader list
 	pcsc->reader_strings = malloc(pcsc->reader_strings_size);
+	if (!pcsc->reader_strings) {
+		pcsc_release(ctx);
+		return -1;
+	}
 	result = SCardListReaders(pcsc->context, NULL, pcsc->reader_strings, &pcsc->reader_strings_size);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardListReaders() failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
@@ -148,6 +155,10 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and populate reader objects
 	pcsc->readers = calloc(pcsc->reader_count, sizeof(struct pcsc_reader_t));
+	if (!pcsc->readers && pcsc->reader_count) {
+		pcsc_release(ctx);
+		return -1;
+	}
 	memset(pcsc->readers, 0, pcsc->reader_count * sizeof(struct pcsc_reader_t));
 	current_reader_name = pcsc->reader_strings;
 	for (size_t i = 0; i < pcsc->reader_count; ++i) {
@@ -158,6 +169,10 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and populate reader states
 	pcsc->reader_states = calloc(pcsc->reader_count, sizeof(SCARD_READERSTATE));
+	if (!pcsc->reader_states && pcsc->reader_count) {
+		pcsc_release(ctx);
+		return -1;
+	}
 	memset(pcsc->reader_states, 0, pcsc->reader_count * sizeof(SCARD_READERSTATE));
 	for (size_t i = 0; i < pcsc->reader_count; ++i) {
 		pcsc->reader_states[i].szReader = pcsc->readers[i].name;
-- 
2.43.0


From e7e04c0b5036cd7ea79930aa5dad1bfd055a34a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 43/44] fix: stop at PC/SC reader property which exceeds the
 property list

---
 src/pcsc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index 266e0f9..78fa0eb 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -515,8 +515,12 @@ int pcsc_reader_get_property(
 			return 0;
 		}
 
-		tlv += (2 + tlv[1]);
+		if (tlv[1] > tlv_len - 2) {
+			// Malformed property list
+			break;
+		}
 		tlv_len -= (2 + tlv[1]);
+		tlv += (2 + tlv[1]);
 	}
 
 	// Otherwise, retrieve from IFD_PIN_PROPERTIES
-- 
2.43.0


From 40f96ee4890a0e427b63f9d140f33f96c275faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 44/44] fix: disconnect card when contactless UID retrieval
 fails

---
 src/pcsc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pcsc.c b/src/pcsc.c
index 78fa0eb..f4a9e1e 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -771,6 +771,7 @@ int pcsc_reader_connect(pcsc_reader_ctx_t reader_ctx)
 		);
 		if (r < 0) {
 			// Error during UID retrieval; assume card error
+			pcsc_reader_disconnect(reader);
 			return r;
 		} else if (r > 0) {
 			// Function not supported; assume contact card
-- 
2.43.0

