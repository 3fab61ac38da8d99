#include "emv.h"
#include "emv_tal.h"
#include "emv_ttl.h"
#include "emv_app.h"
#include "emv_tlv.h"
#include "emv_tags.h"
#include "emv_debug.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int n_exch; static int limit = 100000;
/* scripted card: answer(tx, tx_len, out) -> out length including SW */
static size_t answer(const unsigned char* c, size_t l, unsigned char* o);
static int trx(void* x, const void* tx, size_t l, void* rx, size_t* rn) {
 if (++n_exch > limit) { printf("still exchanging after %d\n", limit); exit(1); }
 *rn = answer(tx, l, rx); return 0; }
static struct emv_ttl_t ttl = { { EMV_CARDREADER_MODE_APDU, NULL, trx } };
static size_t put(unsigned char* o, const char* hex) { size_t n = 0; unsigned b; while (*hex) { if (*hex == ' ') { ++hex; continue; } sscanf(hex, "%2x", &b); o[n++] = b; hex += 2; } return n; }
