#include "h.h"
#include "embc/crc.h"
static uint8_t c8; static uint16_t c16; static uint32_t c32;
static int K(void) { return h_args(1)[1] == '8' ? 8 : h_args(1)[1] == '1' ? 16 : 32; }
static void val(const char * k, int kind) {
    char s[40]; if (kind == 8) sprintf(s, "%d", c8); else if (kind == 16) sprintf(s, "%d", c16); else sprintf(s, "[%u,%u]", c32 >> 16, c32 & 0xffff);
    ev_raw(k, s);
}
static void call(int kind, const uint8_t * p, uint32_t n) {
    if (kind == 8) c8 = embc_crc_ccitt_8(c8, p, n); else if (kind == 16) c16 = embc_crc_ccitt_16(c16, p, n); else c32 = embc_crc32(c32, p, n);
}
void h_cmd(const char * op) {
    if (!strcmp(op, "reset")) { c8 = 0; c16 = 0; c32 = 0; ev("reset"); ev_end(); return; }
    int k = K();
    if (!strcmp(op, "start")) {                 /* start K V [LO] */
        if (k == 8) c8 = h_arg(2); else if (k == 16) c16 = h_arg(2); else c32 = (uint32_t) h_arg(2) << 16 | h_arg(3);
        ev("start"); ev_s("k", h_args(1)); val("v", k); ev_end();
    } else if (!strcmp(op, "put")) {            /* put K bytes... */
        int n = h_argc - 2; uint8_t * p = malloc(n ? n : 1); for (int i = 0; i < n; ++i) p[i] = h_arg(2 + i);
        call(k, p, n); ev("put"); ev_s("k", h_args(1)); ev_bytes("s", p, n); val("r", k); ev_end(); free(p);
    } else if (!strcmp(op, "gen")) {            /* gen K N A B */
        uint32_t n = h_arg(2); uint8_t * p = malloc(n ? n : 1); for (uint32_t i = 0; i < n; ++i) p[i] = (uint8_t) (h_arg(3) + h_arg(4) * (i + 1));
        call(k, p, n); ev("gen"); ev_s("k", h_args(1)); ev_i("n", n); ev_i("a", h_arg(3)); ev_i("b", h_arg(4)); val("r", k); ev_end(); free(p);
    } else if (!strcmp(op, "null")) { call(k, 0, h_arg(2)); ev("null"); ev_s("k", h_args(1)); ev_i("n", h_arg(2)); val("r", k); ev_end();
    } else if (!strcmp(op, "table")) {          /* table K X A N */
        uint8_t x = h_arg(2); long long a = h_arg(3), n = h_arg(4);
        ev("table"); ev_s("k", h_args(1)); ev_i("x", x); ev_i("a", a); ev_arr("r");
        for (long long i = a; i < a + n; ++i) ev_arr_i(k == 8 ? embc_crc_ccitt_8(i, &x, 1) : embc_crc_ccitt_16(i, &x, 1));
        ev_arr_end(); ev_end();
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
}
