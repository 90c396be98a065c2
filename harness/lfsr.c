#include "h.h"
#include "embc/lfsr.h"
static struct embc_lfsr_s s;
static void one(const char * op, long long a) {
    if (!strcmp(op, "reset")) { memset(&s, a, sizeof(s)); embc_lfsr_initialize(&s); ev("reset"); ev_end(); }
    else if (!strcmp(op, "seed")) { embc_lfsr_seed_u16(&s, a); ev("seed"); ev_i("s", a); ev_end(); }
    else if (!strcmp(op, "u1")) { int r = embc_lfsr_next_u1(&s); ev("u1"); ev_i("r", r); ev_end(); }
    else if (!strcmp(op, "u8")) { int r = embc_lfsr_next_u8(&s); ev("u8"); ev_i("r", r); ev_end(); }
    else if (!strcmp(op, "u16")) { int r = embc_lfsr_next_u16(&s); ev("u16"); ev_i("r", r); ev_end(); }
    else if (!strcmp(op, "u32")) { uint32_t r = embc_lfsr_next_u32(&s); ev("u32"); ev_i("hi", r >> 16); ev_i("lo", r & 0xffff); ev_end(); }
    else if (!strcmp(op, "follow")) { int r = embc_lfsr_follow_u8(&s, a); ev("follow"); ev_i("b", a); ev_i("rc", r); ev_i("errs", s.error_count); ev_end(); }
    else { fprintf(stderr, "bad op %s\n", op); exit(97); }
}
void h_cmd(const char * op) {
    if (!strcmp(op, "rep")) { for (long long n = h_arg(1); n > 0; --n) one(h_args(2), 0); }   /* rep N op */
    else if (!strcmp(op, "seeds")) { for (long long a = h_arg(1); a < h_arg(2); ++a) { one("seed", a); one(h_args(3), 0); } }
    else if (!strcmp(op, "table")) {   /* table A B op: the output of every register value in [A, B) */
        const char * o = h_args(3); long long a = h_arg(1), b = h_arg(2);
        ev("table"); ev_s("out", o); ev_i("a", a); ev_arr("r");
        for (; a < b; ++a) {
            embc_lfsr_initialize(&s); embc_lfsr_seed_u16(&s, a);
            uint32_t r = !strcmp(o, "u1") ? embc_lfsr_next_u1(&s) : !strcmp(o, "u8") ? embc_lfsr_next_u8(&s) : !strcmp(o, "u16") ? embc_lfsr_next_u16(&s) : embc_lfsr_next_u32(&s);
            uint32_t n = embc_lfsr_next_u16(&s);      /* and what follows */
            char x[40]; sprintf(x, "[%u,%u,%u]", r >> 16, r & 0xffff, n); ev_arr_raw(x);
        }
        ev_arr_end(); ev_end(); embc_lfsr_initialize(&s); ev("reset"); ev_end(); }
    else one(op, h_argc > 1 ? h_arg(1) : 0);
}
