#include "h.h"
#include "embc/bbuf.h"
static uint8_t * mem; static int n; static uint8_t * wr; static uint8_t const * rd;
static int wide;
static void out(const char * k, uint64_t v, int w) { long long b[8]; wide = w < 8 && v >> (8 * w); for (int i = 0; i < w; ++i) b[i] = (v >> (8 * (w - 1 - i))) & 255; ev_ai(k, b, w); }
static uint64_t in(int first, int w) { uint64_t v = 0; for (int i = 0; i < w; ++i) v = v << 8 | (h_arg(first + i) & 255); return v; }
static void tail(void) { ev_i("wr", wr - mem); ev_i("rd", rd - mem); ev_bytes("mem", mem, n); ev_end(); if (wide) { ev("wide"); ev_end(); wide = 0; } }
void h_cmd(const char * op) {
    if (!strcmp(op, "reset")) {                 /* reset N FILL : N bytes exactly */
        free(mem); n = (int) h_arg(1); mem = malloc(n ? n : 1); wr = mem; rd = mem;
        for (int i = 0; i < n; ++i) mem[i] = (uint8_t) (h_arg(2) + 37 * i);
        ev("reset"); ev_i("n", n); tail(); return;
    }
    if (!strcmp(op, "seek")) { wr = mem + h_arg(1); rd = mem + h_arg(2); ev("seek"); tail(); return; }
    int big = h_args(1)[0] == 'b', w = (int) h_arg(2);      /* OP ORDER WIDTH ... */
    if (!strcmp(op, "enc")) {                   /* enc ORDER WIDTH bytes : at the write cursor */
        uint64_t v = in(3, w);
        switch (w) {
            case 1: embc_bbuf_unsafe_encode_u8(&wr, (uint8_t) v); break;
            case 2: if (big) embc_bbuf_unsafe_encode_u16_be(&wr, (uint16_t) v); else embc_bbuf_unsafe_encode_u16_le(&wr, (uint16_t) v); break;
            case 4: if (big) embc_bbuf_unsafe_encode_u32_be(&wr, (uint32_t) v); else embc_bbuf_unsafe_encode_u32_le(&wr, (uint32_t) v); break;
            default: if (big) embc_bbuf_unsafe_encode_u64_be(&wr, v); else embc_bbuf_unsafe_encode_u64_le(&wr, v); break;
        }
        ev("enc"); ev_b("big", big); out("v", v, w); tail();
    } else if (!strcmp(op, "dec")) {            /* dec ORDER WIDTH : at the read cursor */
        uint64_t v;
        switch (w) {
            case 1: v = embc_bbuf_unsafe_decode_u8(&rd); break;
            case 2: v = big ? embc_bbuf_unsafe_decode_u16_be(&rd) : embc_bbuf_unsafe_decode_u16_le(&rd); break;
            case 4: v = big ? embc_bbuf_unsafe_decode_u32_be(&rd) : embc_bbuf_unsafe_decode_u32_le(&rd); break;
            default: v = big ? embc_bbuf_unsafe_decode_u64_be(&rd) : embc_bbuf_unsafe_decode_u64_le(&rd); break;
        }
        ev("dec"); ev_b("big", big); out("v", v, w); tail();
    } else if (!strcmp(op, "menc")) {           /* menc ORDER WIDTH POS bytes : the macros, any position, value as an expression of two parts */
        int p = (int) h_arg(3); uint64_t v = in(4, w), hi = v & 0xf0f0f0f0f0f0f0f0ull, lo = v ^ hi;
        uint16_t h2 = (uint16_t) hi, l2 = (uint16_t) lo; uint32_t h4 = (uint32_t) hi, l4 = (uint32_t) lo;
        switch (w) {
            case 1: EMBC_BBUF_ENCODE_U8(mem + p, h2 | l2); break;
            case 2: if (big) { EMBC_BBUF_ENCODE_U16_BE(mem + p, h2 | l2); } else { EMBC_BBUF_ENCODE_U16_LE(mem + p, h2 | l2); } break;
            case 4: if (big) { EMBC_BBUF_ENCODE_U32_BE(mem + p, h4 | l4); } else { EMBC_BBUF_ENCODE_U32_LE(mem + p, h4 | l4); } break;
            default: if (big) { EMBC_BBUF_ENCODE_U64_BE(mem + p, hi | lo); } else { EMBC_BBUF_ENCODE_U64_LE(mem + p, hi | lo); } break;
        }
        ev("menc"); ev_b("big", big); ev_i("p", p); out("v", v, w); tail();
    } else if (!strcmp(op, "mdec")) {           /* mdec ORDER WIDTH POS */
        int p = (int) h_arg(3); uint8_t const * q = mem + p; uint64_t v;
        switch (w) {
            case 1: v = EMBC_BBUF_DECODE_U8(q); break;
            case 2: v = big ? EMBC_BBUF_DECODE_U16_BE(mem + p) : EMBC_BBUF_DECODE_U16_LE(mem + p); break;
            case 4: v = big ? EMBC_BBUF_DECODE_U32_BE(mem + p) : EMBC_BBUF_DECODE_U32_LE(mem + p); break;
            default: v = big ? EMBC_BBUF_DECODE_U64_BE(mem + p) : EMBC_BBUF_DECODE_U64_LE(mem + p); break;
        }
        ev("mdec"); ev_b("big", big); ev_i("p", p); out("v", v, w); tail();
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
}
