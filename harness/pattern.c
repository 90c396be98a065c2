#include "h.h"
#include "embc/pattern_32a.h"
static struct embc_pattern_32a_tx_s tx; static struct embc_pattern_32a_rx_s rx;
static uint32_t word(uint32_t p) {              /* the pattern, independent of the code under test */
    uint32_t j = p / 2;
    if (p & 1) return ((~j & 0xffff) << 16) | (j & 0xffff);
    return (j % 33) ? (uint32_t) 1 << (j % 33 - 1) : 0;
}
static void obs(void) {
    ev_i("rcv", rx.receive_count); ev_i("err", rx.error_count); ev_i("resync", rx.resync_count);
    ev_i("missing", (long long) rx.missing_count > 2000000000 ? -1 : rx.missing_count);
    ev_i("dup", rx.duplicate_count > 2000000000 ? -1 : rx.duplicate_count); ev_end();
}
void h_cmd(const char * op) {
    if (!strcmp(op, "reset")) {                 /* reset: leave old values around */
        memset(&rx, h_arg(1), sizeof(rx)); memset(&tx, h_arg(1), sizeof(tx));
        embc_pattern_32a_tx_initialize(&tx); embc_pattern_32a_rx_initialize(&rx); ev("reset"); ev_end();
    } else if (!strcmp(op, "tx")) {             /* tx N BUF */
        int n = h_arg(1); uint32_t * b = malloc(4 * n + 4);
        b[n] = 0xdeadbeef;
        if (h_arg(2)) embc_pattern_32a_tx_buffer(&tx, b, 4 * n); else for (int i = 0; i < n; ++i) b[i] = embc_pattern_32a_tx_next(&tx);
        ev("tx"); ev_arr("words");
        for (int i = 0; i < n; ++i) { char s[40]; sprintf(s, "[%u,%u]", b[i] >> 16, b[i] & 0xffff); ev_arr_raw(s); }
        ev_arr_end(); ev_b("over", b[n] != 0xdeadbeef); ev_end(); free(b);
    } else if (!strcmp(op, "txskip")) {
        int n = h_arg(1); uint32_t * b = malloc(4 * n + 4);
        if (h_arg(2)) embc_pattern_32a_tx_buffer(&tx, b, 4 * n); else for (int i = 0; i < n; ++i) embc_pattern_32a_tx_next(&tx);
        ev("txskip"); ev_i("n", n); ev_end(); free(b);
    } else if (!strcmp(op, "rx")) {             /* rx HI LO */
        uint32_t w = (h_arg(1) << 16) | h_arg(2); embc_pattern_32a_rx_next(&rx, w);
        ev("rx"); ev_i("hi", h_arg(1)); ev_i("lo", h_arg(2)); obs();
    } else if (!strcmp(op, "rxseg")) {          /* rxseg P N BUF */
        uint32_t p = h_arg(1), n = h_arg(2); uint32_t * b = malloc(4 * n + 4);
        for (uint32_t i = 0; i < n; ++i) b[i] = word((p + i) % EMBC_PATTERN_32A_PERIOD);
        if (h_arg(3)) embc_pattern_32a_rx_buffer(&rx, b, 4 * n); else for (uint32_t i = 0; i < n; ++i) embc_pattern_32a_rx_next(&rx, b[i]);
        ev("rxseg"); ev_i("p", p); ev_i("n", n); obs(); free(b);
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
}
