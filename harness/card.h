/* The card and reader the driver presents to the transport layer.
 * Either a list of raw reader answers ("script"), or an APDU-level rule table behind a
 * transport personality.  Whatever it answers is logged, so it need not be faithful:
 * the specification judges the terminal's side for any answer. */
#ifndef CARD_H
#define CARD_H
#include "core.h"

struct reply { int rr; struct buf rx; };
struct rule { struct buf pfx; struct buf rapdu; int count; };

#define MAXREP 4096
static struct {
	bool tpdu;
	struct reply script[MAXREP];
	size_t nscript, iscript;
	struct rule rules[512];
	size_t nrules;
	/* personality */
	int style;       /* bit 0: 61XX, bit 1: 6CXX first, bit 2: byte-wise ACK, bit 3: mixed ACK,
	                    bit 4: 61XX with attached data, bit 5: warning before data */
	size_t chunk;    /* response bytes per GET RESPONSE */
	unsigned int budget;
	/* state */
	uint8_t cmd[300]; size_t cmdlen, cmdneed; /* TPDU command being collected */
	uint8_t rsp[600]; size_t rsplen, rspoff; uint16_t sw; /* response being delivered */
	int did6c;
	unsigned int exchanges;
	unsigned int nest;   /* before that exchange from now another terminal gets its turn */
} card;
static void (*meanwhile)(void);
static const void* card_owner; /* what the reader was given to identify itself with */

static void card_clear(void)
{
	for (size_t i = 0; i < card.nscript; ++i) free(card.script[i].rx.p);
	for (size_t i = 0; i < card.nrules; ++i) { free(card.rules[i].pfx.p); free(card.rules[i].rapdu.p); }
	memset(&card, 0, sizeof(card));
	card.budget = 1200;
	card.chunk = 256;
}

static void card_apdu(const uint8_t* c, size_t n)
{
	card.rsplen = card.rspoff = 0;
	for (size_t i = 0; i < card.nrules; ++i) {
		struct rule* r = &card.rules[i];
		if (r->count == 0 || r->pfx.n > n || memcmp(r->pfx.p, c, r->pfx.n)) continue;
		if (r->count > 0) --r->count;
		if (r->rapdu.n < 2) { card.sw = 0x6F00; return; }
		card.rsplen = r->rapdu.n - 2;
		memcpy(card.rsp, r->rapdu.p, card.rsplen);
		card.sw = r->rapdu.p[card.rsplen] << 8 | r->rapdu.p[card.rsplen + 1];
		return;
	}
	card.sw = n > 1 && c[1] == 0xA4 ? 0x6A82 : n > 1 && c[1] == 0xB2 ? 0x6A83 : 0x6D00;
}

static size_t put_sw(uint8_t* rx, size_t n, uint16_t sw)
{
	rx[n++] = sw >> 8;
	rx[n++] = sw;
	return n;
}

/* Deliver up to max bytes of pending response data, then 61XX or the final status */
static size_t deliver(uint8_t* rx, size_t n, size_t max)
{
	size_t left = card.rsplen - card.rspoff;
	size_t k = left < max ? left : max;
	memcpy(rx + n, card.rsp + card.rspoff, k);
	card.rspoff += k;
	n += k;
	left -= k;
	if (left) return put_sw(rx, n, 0x6100 | (left > 255 ? 0 : left));
	return put_sw(rx, n, card.sw);
}

/* A complete command reached the card: first answer */
static size_t answer(uint8_t* rx, const uint8_t* c, size_t n, bool case2, uint8_t ins_lead)
{
	size_t o = 0;
	(void)n;
	if (c[0] == 0x00 && c[1] == 0xC0) { /* GET RESPONSE */
		size_t le = c[4] ? c[4] : 256;
		if (card.rspoff >= card.rsplen) return put_sw(rx, 0, card.sw);
		if (le > card.chunk) le = card.chunk;
		if (card.tpdu) rx[o++] = 0xC0;
		return deliver(rx, o, le);
	}
	if (card.rsplen == 0) return put_sw(rx, 0, card.sw);
	if (case2 && (card.style & 2) && !card.did6c) {
		card.did6c = 1;
		return put_sw(rx, 0, 0x6C00 | (card.rsplen > 255 ? 0 : card.rsplen));
	}
	if ((card.style & 32) && (card.sw >> 8 == 0x62 || card.sw >> 8 == 0x63)) {
		uint16_t sw = card.sw;
		card.sw = 0x9000;
		return put_sw(rx, 0, sw);
	}
	if (card.tpdu && !case2) return put_sw(rx, 0, 0x6100 | (card.rsplen > 255 ? 0 : card.rsplen));
	if ((card.style & 1) && (!card.tpdu)) return put_sw(rx, 0, 0x6100 | (card.rsplen > 255 ? 0 : card.rsplen));
	if (card.tpdu) rx[o++] = ins_lead;
	return deliver(rx, o, (card.style & 16) ? card.chunk : 256);
}

static size_t rules_trx(const uint8_t* tx, size_t n, uint8_t* rx)
{
	if (!card.tpdu) {
		bool get_response = n == 5 && tx[0] == 0 && tx[1] == 0xC0;
		if (!get_response && !(card.did6c && n == 5)) card_apdu(tx, n);
		size_t k = answer(rx, tx, n, n == 5, 0);
		if (!get_response && card.did6c && rx[k - 2] != 0x6C) card.did6c = 0;
		return k;
	}
	if (card.cmdneed) { /* collecting command data */
		size_t k = n <= card.cmdneed ? n : card.cmdneed;
		memcpy(card.cmd + card.cmdlen, tx, k);
		card.cmdlen += k;
		card.cmdneed -= k;
	} else {
		memcpy(card.cmd, tx, n < 5 ? n : 5);
		card.cmdlen = 5;
		card.cmdneed = (tx[1] == 0xA4 || tx[1] == 0xA8 || tx[1] == 0x20 || tx[1] == 0xDA) ? tx[4] : 0;
	}
	if (card.cmdneed) {
		bool bytewise = (card.style & 4) || ((card.style & 8) && card.exchanges % 3 != 0);
		rx[0] = bytewise ? card.cmd[1] ^ 0xFF : card.cmd[1];
		return 1;
	}
	bool case2 = card.cmdlen == 5;
	bool get_response = case2 && card.cmd[0] == 0 && card.cmd[1] == 0xC0;
	if (!get_response && !card.did6c) card_apdu(card.cmd, card.cmdlen);
	size_t k = answer(rx, card.cmd, card.cmdlen, case2, card.cmd[1]);
	if (!get_response && card.did6c && rx[k - 2] != 0x6C) card.did6c = 0;
	return k;
}

static int card_trx(void* ctx, const void* tx, size_t tx_len, void* rx, size_t* rx_len)
{
	uint8_t tmp[1024];
	size_t n = 0;
	int rr = 0;
	if (ctx != card_owner) fputs("{\"e\":\"wrong reader\"}\n", out);
	if (card.nest && --card.nest == 0 && meanwhile) meanwhile();
	++card.exchanges;
	if (card.exchanges > card.budget) {
		rr = -99;
	} else if (card.nrules || card.nscript == 0) {
		if (card.iscript < card.nscript) goto scripted;
		n = rules_trx((const uint8_t*)tx, tx_len, tmp);
	} else {
scripted:
		if (card.iscript >= card.nscript) {
			rr = -98;
		} else {
			struct reply* p = &card.script[card.iscript++];
			rr = p->rr;
			n = p->rx.n;
			memcpy(tmp, p->rx.p, n);
		}
	}
	if (rr) n = 0;
	fputs("{\"e\":\"x\"", out);
	jkb("tx", tx, tx_len);
	jki("rr", rr);
	jkb("rx", tmp, n);
	if (failed) jki("oom", 1);
	fputs("}\n", out);
	if (rr) return rr;
	if (n > *rx_len) return -97; /* the terminal's buffer cannot take a legal response */
	memcpy(rx, tmp, n);
	*rx_len = n;
	return 0;
}
#endif
