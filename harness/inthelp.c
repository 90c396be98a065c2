#include "h.h"
#include "embc/platform.h"
#include "embc/cdef.h"
#include <stddef.h>
static uint8_t * mem; static int n;
struct box { char a; int b; double c; short d[5]; char e; };
/* a 64 bit value as 7 limbs of 10 bits, sign extended */
static void wide(const char * k, int64_t v) { long long l[7]; for (int i = 0; i < 7; ++i) { l[i] = v & 1023; v >>= 10; } ev_ai(k, l, 7); }
static void out(void) { ev_bytes("mem", mem, n); ev_end(); }
void h_cmd(const char * op) {
    if (!strcmp(op, "reset")) { free(mem); n = (int) h_arg(1); mem = malloc(n ? n : 1); for (int i = 0; i < n; ++i) mem[i] = (uint8_t) (i * 29 + 7); ev(op); out(); }
    else if (!strcmp(op, "bits")) {             /* bits HI LO N */
        uint32_t x = (uint32_t) h_arg(1) << 16 | (uint32_t) h_arg(2); int k = (int) h_arg(3);
        ev(op); ev_i("hi", h_arg(1)); ev_i("lo", h_arg(2)); ev_arr("clz"); for (int i = 0; i < k; ++i) ev_arr_i(embc_clz(x + i)); ev_arr_end();
        ev_arr("up"); for (int i = 0; i < k; ++i) { uint32_t u = embc_upper_power_of_two(x + i); char b[40]; sprintf(b, "[%u,%u]", u >> 16, u & 0xffff); ev_arr_raw(b); } ev_arr_end(); ev_end();
    } else if (!strcmp(op, "round")) {          /* round X N A B : x .. x + n - 1 up to a multiple of a + b */
        int x = h_arg(1), k = h_arg(2), a = h_arg(3), b = h_arg(4);
        ev(op); ev_i("x", x); ev_i("m", a + b); ev_arr("r"); for (int i = 0; i < k; ++i) ev_arr_i(EMBC_ROUND_UP_TO_MULTIPLE(x + i, a + b)); ev_arr_end(); ev_end();
    } else if (!strcmp(op, "roundz")) {         /* with sizes: signed and unsigned */
        embc_size_t x = h_arg(1), m = h_arg(2); size_t ux = (size_t) x; long long r = EMBC_ROUND_UP_TO_MULTIPLE(x, m);
        if (x >= 0 && (long long) EMBC_ROUND_UP_TO_MULTIPLE(ux, (size_t) m) != r) r = -1;
        ev("round"); ev_i("x", x); ev_i("m", m); ev_arr("r"); ev_arr_i(r); ev_arr_end(); ev_end();
    } else if (!strcmp(op, "restrict")) { int x = h_arg(1), a = h_arg(2), b = h_arg(3); ev(op); ev_i("x", x); ev_i("a", a); ev_i("b", b); ev_i("r", EMBC_RESTRICT_TO_RANGE(x, a, b)); ev_end(); }
    else if (!strcmp(op, "sign")) { int x = h_arg(1); ev(op); ev_i("x", x); ev_i("r", EMBC_SIGNUM(x)); ev_end(); }
    else if (!strcmp(op, "wide")) {             /* wide X A B M : 64 bit operands; unsigned ones must agree where they can hold the values */
        int64_t x = h_arg(1), a = h_arg(2), b = h_arg(3), m = h_arg(4), r = EMBC_RESTRICT_TO_RANGE(x, a, b), y = EMBC_ROUND_UP_TO_MULTIPLE(x, m); int g = EMBC_SIGNUM(x), same = 1;
        if (x >= 0 && a >= 0 && b >= 0) { uint64_t ux = x, ua = a, ub = b; same &= EMBC_SIGNUM(ux) == g && EMBC_RESTRICT_TO_RANGE(ux, ua, ub) == (uint64_t) r && EMBC_ROUND_UP_TO_MULTIPLE(ux, (uint64_t) m) == (uint64_t) y; }
        if (x >= 0 && a >= 0 && b >= 0 && x < 1LL << 32 && a < 1LL << 32 && b < 1LL << 32) { uint32_t ux = x, ua = a, ub = b; same &= EMBC_SIGNUM(ux) == g && EMBC_RESTRICT_TO_RANGE(ux, ua, ub) == (uint64_t) r; }
        double d = (double) x; same &= EMBC_SIGNUM(d) == g;
        ev(op); wide("x", x); wide("a", a); wide("b", b); wide("m", m); ev_i("g", g); wide("r", r); wide("y", y); wide("q", y / m); ev_b("same", same); ev_end();
    }
    else if (!strcmp(op, "container")) {
        struct box v[3]; memset(v, 1, sizeof(v)); int ok = 1; char * pa = &v[1].a; char * * pp = &pa;
        for (int i = 0; i < 3; ++i) {
            ok &= EMBC_CONTAINER_OF(&v[i].a, struct box, a) == &v[i] && EMBC_CONTAINER_OF(&v[i].b, struct box, b) == &v[i] && EMBC_CONTAINER_OF(&v[i].c, struct box, c) == &v[i];
            ok &= EMBC_CONTAINER_OF(&v[i].d, struct box, d) == &v[i] && EMBC_CONTAINER_OF(&v[i].e, struct box, e) == &v[i];
            ok &= EMBC_CONTAINER_OF(v[i].d + 3, struct box, d[3]) == &v[i];
        }
        ok &= EMBC_CONTAINER_OF(*pp, struct box, a) == &v[1] && EMBC_ARRAY_SIZE(v) == 3 && EMBC_ARRAY_SIZE(v[0].d) == 5;
        struct box z = v[0]; EMBC_STRUCT_INIT(z); for (size_t i = 0; i < sizeof(z); ++i) ok &= ((char *) &z)[i] == 0;
        EMBC_STRUCT_PTR_INIT(&v[1]); for (size_t i = 0; i < sizeof(z); ++i) ok &= ((char *) &v[1])[i] == 0 && ((char *) &v[0])[i] == 1 && ((char *) &v[2])[i] == 1;
        ok &= embc_sizeof(v) == (embc_size_t) sizeof(v);
        ev(op); ev_b("ok", ok); ev_end();
    } else if (!strcmp(op, "set")) { int p = h_arg(1), v = h_arg(2), k = h_arg(3); embc_memset(mem + p, v, k); ev(op); ev_i("p", p); ev_i("v", v & 255); ev_i("n", k); out(); }
    else if (!strcmp(op, "copy")) { int d = h_arg(1), s = h_arg(2), k = h_arg(3); embc_memcpy(mem + d, mem + s, k); ev(op); ev_i("d", d); ev_i("s", s); ev_i("n", k); out(); }
    else { fprintf(stderr, "bad op %s\n", op); exit(97); }
}
