#include "h.h"
#include "embc/memory/buffer.h"
static struct embc_buffer_s B[3]; static uint8_t * mem[3];
static void state(void) {
    ev_arr("s");
    for (int k = 1; k <= 2; ++k) {
        struct embc_buffer_s * b = &B[k];
        char * j = malloc(256 + 5 * (b->length > b->capacity ? b->capacity : b->length)); char * p = j;
        p += sprintf(p, "{\"c\":[");
        int n = b->length > b->capacity ? b->capacity : b->length;
        for (int i = 0; i < n; ++i) p += sprintf(p, "%s%d", i ? "," : "", b->data[i]);
        p += sprintf(p, "],\"cur\":%d,\"len\":%d,\"res\":%d,\"cap\":%d,\"wr\":%d,\"rr\":%d}", (int) embc_buffer_cursor_get(b), (int) embc_buffer_length(b),
            b->reserve, (int) embc_buffer_capacity(b), (int) embc_buffer_write_remaining(b), (int) embc_buffer_read_remaining(b));
        ev_arr_raw(j); free(j);
    }
    ev_arr_end(); ev_end();
}
static int bytes(int from, uint8_t * d) { int n = 0; for (int i = from; i < h_argc; ++i) d[n++] = h_arg(i); return n; }
static void set(int k, int cap) {
    free(mem[k]); mem[k] = malloc(cap); memset(mem[k], 0x5a, cap);    /* exact: ASAN guards the ends */
    memset(&B[k], 0, sizeof(B[k]));
    *(uint8_t **) &B[k].data = mem[k]; *(uint16_t *) &B[k].capacity = cap;
    B[k].manager = &embc_buffer_manager_static; embc_list_initialize(&B[k].item);
}
#define F(expr) do { h_fatal_expected = 1; if (!setjmp(h_fatal_jmp)) { expr; } else fatal = 1; h_fatal_expected = 0; } while (0)
void h_cmd(const char * op) {
    static uint8_t d[70000]; volatile int fatal = 0;
    int k = 0; struct embc_buffer_s * b = 0;
    if (strcmp(op, "reset")) { k = h_arg(1); b = &B[k]; }
    if (!strcmp(op, "reset")) { set(1, h_arg(1)); set(2, h_arg(2)); ev("reset"); }
    else if (!strcmp(op, "write")) {
        int n = bytes(2, d); uint8_t * e = malloc(n ? n : 1); memcpy(e, d, n);
        F(embc_buffer_write(b, e, n)); free(e);
        ev("write"); ev_i("k", k); ev_bytes("d", d, n); ev_b("fatal", fatal);
    } else if (!strcmp(op, "fill")) {   /* a long write */
        int n = h_arg(2), x = h_arg(3); uint8_t * e = malloc(n ? n : 1); for (int i = 0; i < n; ++i) e[i] = d[i] = (uint8_t) (x + i * 7 + (i >> 8));
        F(embc_buffer_write(b, e, n)); free(e);
        ev("write"); ev_i("k", k); ev_bytes("d", d, n); ev_b("fatal", fatal);
    } else if (!strcmp(op, "wint")) {
        int be = h_arg(2); int w = bytes(3, d); uint64_t v = 0; for (int i = 0; i < w; ++i) v = (v << 8) | d[i];
        F(switch (w) {
            case 1: embc_buffer_write_u8(b, (uint8_t) v); break;
            case 2: if (be) embc_buffer_write_u16_be(b, v); else embc_buffer_write_u16_le(b, v); break;
            case 4: if (be) embc_buffer_write_u32_be(b, v); else embc_buffer_write_u32_le(b, v); break;
            default: if (be) embc_buffer_write_u64_be(b, v); else embc_buffer_write_u64_le(b, v); });
        ev("wint"); ev_i("k", k); ev_b("be", be); ev_bytes("v", d, w); ev_b("fatal", fatal);
    } else if (!strcmp(op, "read")) {
        int n = h_arg(2); uint8_t * e = malloc(n ? n : 1);
        F(embc_buffer_read(b, e, n)); if (!fatal) memcpy(d, e, n); free(e);
        ev("read"); ev_i("k", k); ev_i("n", n); ev_b("fatal", fatal); ev_bytes("d", d, fatal ? 0 : n);
    } else if (!strcmp(op, "rint")) {
        int be = h_arg(2), w = h_arg(3); volatile uint64_t v = 0;
        F(switch (w) {
            case 1: v = embc_buffer_read_u8(b); break;
            case 2: v = be ? embc_buffer_read_u16_be(b) : embc_buffer_read_u16_le(b); break;
            case 4: v = be ? embc_buffer_read_u32_be(b) : embc_buffer_read_u32_le(b); break;
            default: v = be ? embc_buffer_read_u64_be(b) : embc_buffer_read_u64_le(b); });
        for (int i = 0; i < w; ++i) d[i] = v >> (8 * (w - 1 - i));
        ev("rint"); ev_i("k", k); ev_b("be", be); ev_i("w", w); ev_b("fatal", fatal); ev_bytes("v", d, fatal ? 0 : w);
    } else if (!strcmp(op, "copy")) {
        int n = h_arg(2); F(embc_buffer_copy(b, &B[3 - k], n));
        ev("copy"); ev_i("k", k); ev_i("n", n); ev_b("fatal", fatal);
    } else if (!strcmp(op, "wstr")) {
        int trunc = h_arg(2); int n = bytes(3, d); char * s = malloc(n + 1); memcpy(s, d, n); s[n] = 0;
        volatile int ret = 1;
        if (trunc) F(ret = embc_buffer_write_str_truncate(b, s)); else { F(embc_buffer_write_str(b, s)); ret = !fatal; }
        free(s);
        ev("wstr"); ev_i("k", k); ev_bytes("d", d, n); ev_b("trunc", trunc); ev_b("ret", ret); ev_b("fatal", fatal);
    } else if (!strcmp(op, "seek")) {
        int i = h_arg(2); F(embc_buffer_cursor_set(b, i));
        ev("seek"); ev_i("k", k); ev_i("i", i); ev_b("fatal", fatal);
    } else if (!strcmp(op, "erase")) {
        int f = h_arg(2), t = h_arg(3); F(embc_buffer_erase(b, f, t));
        ev("erase"); ev_i("k", k); ev_i("from", f); ev_i("to", t); ev_b("fatal", fatal);
    } else if (!strcmp(op, "rewind")) {
        int c = h_arg(2); if (c) embc_buffer_clear(b); else embc_buffer_reset(b);
        int z = 1; if (c) for (int i = 0; i < b->capacity; ++i) if (mem[k][i]) z = 0;
        ev("rewind"); ev_i("k", k); ev_b("clear", c); ev_b("zero", z);
    } else if (!strcmp(op, "reinit")) {
        /* the macro takes an array named name_mem_ of the right size: try it on a copy */
        EMBC_BUFFER_STATIC_DECLARE(tmp, 8);
        memcpy(&tmp, b, sizeof(tmp)); tmp.flags = 0x1234; tmp.buffer_id = 0x123; EMBC_BUFFER_STATIC_DEFINE(def, 11);
        EMBC_BUFFER_STATIC_INITIALIZE(tmp);
        b->cursor = tmp.cursor; b->length = tmp.length; b->reserve = tmp.reserve; b->buffer_id = tmp.buffer_id; b->flags = tmp.flags;
        ev("reinit"); ev_i("k", k);
        long long f[14] = {tmp.capacity, tmp.cursor, tmp.length, tmp.reserve, tmp.buffer_id, tmp.flags, embc_list_is_empty(&tmp.item), def.capacity, def.cursor, def.length, def.reserve, def.buffer_id, def.flags, embc_list_is_empty(&def.item)};
        ev_ai("fresh", f, 14); embc_buffer_write_u8(&def, 5); embc_buffer_write_u8(&tmp, 6); embc_buffer_free(&tmp); embc_buffer_free(&def);   /* freeing a static buffer is nothing */
        ev_b("kept", def_mem_[0] == 5 && tmp_mem_[0] == 6 && def.data == def_mem_ && tmp.data == tmp_mem_ && def.length == 1 && tmp.length == 1);
    } else if (!strcmp(op, "reserve")) {
        b->reserve = h_arg(2); ev("reserve"); ev_i("k", k); ev_i("r", h_arg(2));
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
    state();
}
