#include "h.h"
#include "embc/time.h"
#include <math.h>
/* a 64 bit value as 7 limbs of 10 bits, sign extended */
static void wide(const char * k, int64_t v) {
    long long l[7]; for (int i = 0; i < 7; ++i) { l[i] = v & 1023; v >>= 10; } ev_ai(k, l, 7);
}
void h_cmd(const char * op) {
    if (!strcmp(op, "reset")) { ev("reset"); ev_end(); return; }
    if (!strcmp(op, "to")) {                    /* to X A B : frequency A + B, given as an expression */
        int64_t x = h_arg(1), a = h_arg(2), b = h_arg(3);
        ev("to"); wide("x", x); wide("z", a + b);
        wide("near", EMBC_TIME_TO_COUNTER(x, a + b));
        wide("up", EMBC_TIME_TO_COUNTER_ROUND_UP(x, a + b));
        wide("down", EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, a + b));
        ev_end();
    } else if (!strcmp(op, "to32")) {           /* to32 X Z : 32 bit frequency */
        int64_t x = h_arg(1); int32_t z = (int32_t) h_arg(2);
        ev("to"); wide("x", x); wide("z", z);
        wide("near", EMBC_TIME_TO_COUNTER(x, z)); wide("up", EMBC_TIME_TO_COUNTER_ROUND_UP(x, z)); wide("down", EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z));
        ev_end();
    } else if (!strcmp(op, "tox")) {            /* tox A B Z : time A + B, 32 bit each */
        int64_t a = h_arg(1), b = h_arg(2); uint32_t z = (uint32_t) h_arg(3);
        ev("to"); wide("x", a - b); wide("z", z);
        wide("near", EMBC_TIME_TO_COUNTER(a - b, z)); wide("up", EMBC_TIME_TO_COUNTER_ROUND_UP(a - b, z)); wide("down", EMBC_TIME_TO_COUNTER_ROUND_DOWN(a - b, z));
        ev_end();
    } else if (!strcmp(op, "unit")) {           /* unit K X : seconds, milli, micro, nano */
        int64_t x = h_arg(2); const char * k = h_args(1);
        ev("unit"); ev_s("k", k); wide("x", x);
        wide("near", k[0] == 's' ? EMBC_TIME_TO_SECONDS(x) : !strcmp(k, "ms") ? EMBC_TIME_TO_MILLISECONDS(x) : k[0] == 'u' ? EMBC_TIME_TO_MICROSECONDS(x) : EMBC_TIME_TO_NANOSECONDS(x));
        ev_end();
    } else if (!strcmp(op, "from")) {           /* from C A B */
        int64_t c = h_arg(1), a = h_arg(2), b = h_arg(3);
        ev("from"); wide("c", c); wide("z", a + b); wide("r", EMBC_COUNTER_TO_TIME(c, a + b)); ev_end();
    } else if (!strcmp(op, "from32")) {         /* from32 C Z : 32 bit operands */
        int32_t c = (int32_t) h_arg(1), z = (int32_t) h_arg(2);
        ev("from"); wide("c", c); wide("z", z); wide("r", EMBC_COUNTER_TO_TIME(c, z)); ev_end();
    } else if (!strcmp(op, "of")) {             /* of K C */
        int64_t c = h_arg(2); const char * k = h_args(1);
        ev("of"); ev_s("k", k); wide("c", c);
        wide("r", k[0] == 's' ? EMBC_SECONDS_TO_TIME(c) : !strcmp(k, "ms") ? EMBC_MILLISECONDS_TO_TIME(c) : k[0] == 'u' ? EMBC_MICROSECONDS_TO_TIME(c) : EMBC_NANOSECONDS_TO_TIME(c));
        ev_end();
    } else if (!strcmp(op, "f64")) {            /* f64 X : there and back */
        int64_t x = h_arg(1); double d = EMBC_TIME_TO_F64(x); double s = ldexp(d, 30);
        ev("f64"); wide("x", x); wide("scaled", (int64_t) s); ev_b("exact", s == floor(s)); wide("back", EMBC_F64_TO_TIME(d)); ev_end();
    } else if (!strcmp(op, "f32")) {
        int64_t x = h_arg(1); float d = EMBC_TIME_TO_F32(x); double s = ldexp((double) d, 30);
        ev("f32"); wide("x", x); wide("scaled", (int64_t) s); ev_b("exact", s == floor(s)); wide("back", EMBC_F32_TO_TIME(d)); ev_end();
    } else if (!strcmp(op, "trunc")) {          /* trunc M E : the number M / 2^E as seconds */
        int64_t m = h_arg(1); int e = (int) h_arg(2); double d = ldexp((double) m, -e); float f = (float) d;
        ev("trunc"); wide("m", m); ev_i("e", e); wide("r", EMBC_F64_TO_TIME(d)); wide("r32", EMBC_F32_TO_TIME(f)); ev_end();
    } else if (!strcmp(op, "abs")) {
        int64_t x = h_arg(1); ev("abs"); wide("x", x); wide("r", EMBC_TIME_ABS(x)); ev_end();
    } else if (!strcmp(op, "const")) {
        ev("const"); wide("second", EMBC_TIME_SECOND); wide("ms", EMBC_TIME_MILLISECOND); wide("us", EMBC_TIME_MICROSECOND); wide("ns", EMBC_TIME_NANOSECOND);
        wide("minute", EMBC_TIME_MINUTE); wide("hour", EMBC_TIME_HOUR); wide("day", EMBC_TIME_DAY); wide("week", EMBC_TIME_WEEK);
        wide("month", EMBC_TIME_MONTH); wide("year", EMBC_TIME_YEAR); wide("max", EMBC_TIME_MAX); wide("min", EMBC_TIME_MIN);
        ev_i("q", EMBC_TIME_Q); ev_i("epoch", EMBC_TIME_EPOCH_UNIX_OFFSET_SECONDS); ev_end();
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
}
