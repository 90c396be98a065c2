#include "h.h"
#include "embc.h"
#include "embc/stream/framer.h"
#include "embc/stream/framer_util.h"
#include "embc/memory/buffer.h"
/* Two framer endpoints in one process.  The HAL of each is a queue of buffers that
 * the script finishes one by one; finished bytes travel in units that the script
 * feeds to the peer, loses or damages.  Time moves only by script. */
#define TICK 20
struct unit { uint8_t * b; int n; };
struct hal { struct embc_buffer_s * b; uint8_t * cap; int n; };
struct out { char * s; size_t n; FILE * f; int c; };
struct ep {
    struct embc_framer_s * f; struct embc_buffer_allocator_s * a; int x;
    struct hal hq[2048]; int nh;
    struct unit wire[4096]; int nw;
    int armed; int64_t deadline; void (*cb)(void *, uint32_t); void * cbu; uint32_t tid, *tidp; int tok, own;
    struct embc_buffer_s * held[1024]; int nheld;
    struct out tx, dlv, done, frames; int hook;
} E[2];
static int64_t now; static int n256, n32, syn;
static void push(struct ep * e, const uint8_t * b, int n);
static struct embc_framer_port_callbacks_s cbs;
static void o_open(struct out * o) { o->f = open_memstream(&o->s, &o->n); o->c = 0; fputc('[', o->f); }
static void o_sep(struct out * o) { if (o->c++) fputc(',', o->f); }
static void o_bytes(FILE * f, const uint8_t * b, int n) { fputc('[', f); for (int i = 0; i < n; ++i) fprintf(f, "%s%d", i ? "," : "", b[i]); fputc(']', f); }
static void o_close(struct out * o, const char * k) { fputc(']', o->f); fclose(o->f); ev_raw(k, o->s); free(o->s); }
static void begin(struct ep * e) { o_open(&e->tx); o_open(&e->dlv); o_open(&e->done); o_open(&e->frames); e->tok = e->own = 1; }
static void finish(struct ep * e) {
    o_close(&e->tx, "tx"); o_close(&e->dlv, "dlv"); o_close(&e->done, "done"); o_close(&e->frames, "frames");
    ev_i("arm", e->armed ? (e->deadline <= now ? 0 : (long long) (e->deadline - now > 999999999 ? 999999999 : e->deadline - now)) : -1);
    ev_b("tok", e->tok); ev_b("own", e->own);
    struct embc_framer_status_s s = embc_framer_status_get(e->f);
    char b[400]; sprintf(b, "{\"rx\":%u,\"data\":%u,\"ack\":%u,\"dup\":%u,\"sync\":%u,\"mic\":%u,\"idErr\":%u,\"tx\":%u,\"retx\":%u}", s.rx_count, s.rx_data_count, s.rx_ack_count,
        s.rx_deduplicate_count, s.rx_synchronization_error, s.rx_mic_error, s.rx_frame_id_error, s.tx_count, s.tx_retransmit_count);
    ev_raw("st", b); ev_end();
}
static void tx_fn(void * h, struct embc_buffer_s * b) {
    struct ep * e = h; 
    for (int i = 0; i < e->nh; ++i) if (e->hq[i].b == b) e->own = 0;
    if (e->nh >= 2048) { e->own = 0; return; }
    int n = b->length > 300 ? 300 : b->length;
    if (syn) { o_sep(&e->tx); o_bytes(e->tx.f, b->data, n); push(e, b->data, n); embc_framer_hal_tx_done(e->f, b); return; }
    struct hal * q = &e->hq[e->nh++]; q->b = b; q->n = n; q->cap = malloc(n + 1); memcpy(q->cap, b->data, n);
    o_sep(&e->tx); o_bytes(e->tx.f, q->cap, n);
}
static int64_t time_get(void * h) { (void) h; return now; }
static int32_t timer_set(void * h, int64_t t, void (*cb)(void *, uint32_t), void * u, uint32_t * id) {
    struct ep * e = h; if (e->armed || !cb) e->tok = 0;
    e->armed = 1; e->deadline = t; e->cb = cb; e->cbu = u; *id = ++e->tid; return 0;
}
static int32_t timer_cancel(void * h, uint32_t id) { struct ep * e = h; if (!e->armed || id != e->tid) e->tok = 0; e->armed = 0; return 0; }
static void rx_fn(void * p, uint8_t port, uint8_t msg, uint16_t def, struct embc_buffer_s * b) {
    struct ep * e = p; int n = embc_buffer_read_remaining(b); const uint8_t * d = b->data + b->cursor;
    o_sep(&e->dlv); fprintf(e->dlv.f, "[%d,%d,%d,", port, msg, def); o_bytes(e->dlv.f, d, n); fputc(']', e->dlv.f);
    if (port == 2) embc_framer_send(e->f, 3, msg, def, b);
    else if (port == 6 && e->nheld < 1000) e->held[e->nheld++] = b;
    else embc_buffer_free(b);
}
static void tx_done(void * p, uint8_t port, uint8_t msg, uint16_t def, int32_t status) {
    struct ep * e = p; o_sep(&e->done); fprintf(e->done.f, "[%d,%d,%d,%d]", port, msg, def, status);
    if (port == 4 && status == 0 && msg > 0) { uint8_t d = msg; embc_framer_send_payload(e->f, 4, msg - 1, def, &d, 1); }
}
static void hook(void * u, struct embc_buffer_s * b) { struct ep * e = u; o_sep(&e->frames); o_bytes(e->frames.f, b->data, b->length); if (b->cursor != 0) e->own = 0; embc_buffer_free(b); }
static void x_in(const char * op, struct ep * e) { ev(op); ev_i("x", e->x); begin(e); }
static void push(struct ep * e, const uint8_t * b, int n) { if (e->nw >= 4096) return; struct unit * u = &e->wire[e->nw++]; u->n = n; u->b = malloc(n + 1); memcpy(u->b, b, n); }
static void drop(struct ep * e) { free(e->wire[0].b); memmove(e->wire, e->wire + 1, sizeof(e->wire[0]) * --e->nw); }
static int do_hal(struct ep * e) {
    if (!e->nh) return 0;
    struct hal q = e->hq[0]; memmove(e->hq, e->hq + 1, sizeof(q) * --e->nh);
    x_in("hal", e);
    ev_b("intact", q.b->length == q.n && !memcmp(q.b->data, q.cap, q.n));
    ev_bytes("b", q.cap, q.n);
    push(e, q.b->data, q.b->length > 300 ? 300 : q.b->length);
    free(q.cap);
    embc_framer_hal_tx_done(e->f, q.b); finish(e); return 1;
}
static void do_rx(struct ep * e, const uint8_t * b, int n, int each) {
    uint8_t * c = malloc(n ? n : 1); memcpy(c, b, n);
    x_in("rx", e); ev_bytes("b", c, n);
    if (each) for (int i = 0; i < n; ++i) embc_framer_hal_rx_byte(e->f, c[i]); else embc_framer_hal_rx_buffer(e->f, c, n);
    finish(e); free(c);
}
static int do_feed(struct ep * e) { /* from e to its peer */
    if (!e->nw) return 0;
    struct ep * p = &E[!e->x]; struct unit u = e->wire[0];
    memmove(e->wire, e->wire + 1, sizeof(u) * --e->nw); do_rx(p, u.b, u.n, u.n & 1); free(u.b); return 1;
}
static void adv(int64_t d) {    /* in pieces that TLC's integers hold */
    do { int64_t k = d > 1 << 30 ? 1 << 30 : d; ev("adv"); ev_i("d", k); ev_end(); now += k; d -= k; } while (d > 0);
}
static int do_timer(struct ep * e) {
    if (!e->armed || now < e->deadline) return 0;
    x_in("timer", e); e->armed = 0; e->cb(e->cbu, e->tid); finish(e); return 1;
}
static int avail(struct ep * e, int sz) {
    static struct embc_buffer_s * p[1024]; int n = 0; while (n < 1024 && (p[n] = embc_buffer_alloc_unsafe(e->a, sz))) ++n;
    for (int i = 0; i < n; ++i) embc_buffer_free(p[i]); return n;
}
static void fill(uint8_t * p, int n, int seed) { for (int i = 0; i < n; ++i) p[i] = seed == 170 ? 170 : (uint8_t) (seed * 31 + i * 7 + (i >> 3)); }
static int64_t next_deadline(void) { int64_t d = INT64_MAX; for (int i = 0; i < 2; ++i) if (E[i].armed && E[i].deadline < d) d = E[i].deadline; return d; }
void h_cmd(const char * op) {
    if (!strcmp(op, "reset")) {    /* reset hook t0 syn : the HAL of syn finishes every buffer at once */
        syn = h_argc > 3 && h_arg(3);
        n256 = 900; n32 = 900; now = (int64_t) h_arg(2) << TICK;
        embc_size_t sizes[4] = {n32, 8, 8, n256};
        for (int x = 0; x < 2; ++x) {
            struct ep * e = &E[x]; while (e->nw) drop(e); while (e->nh) free(e->hq[--e->nh].cap);
            free(e->f); free(e->a); memset(e, 0, sizeof(*e)); e->x = x;
            int sz = embc_buffer_allocator_instance_size(sizes, 4); e->a = malloc(sz); memset(e->a, 0x5a, sz); embc_buffer_allocator_initialize(e->a, sizes, 4);
            e->f = malloc(embc_framer_instance_size()); memset(e->f, 0xA5, embc_framer_instance_size());
            struct embc_framer_hal_callbacks_s h = {e, tx_fn, time_get, timer_set, timer_cancel};
            embc_framer_initialize(e->f, e->a, &h); memset(&h, 0, sizeof(h));
            for (int p = 0; p < EMBC_FRAMER_PORTS; ++p) { if (p == 5) continue; /* 5: default callbacks */
                struct embc_framer_port_callbacks_s c = {e, rx_fn, tx_done}; embc_framer_register_port_callbacks(e->f, p, &c); }
            e->hook = h_arg(1); if (e->hook) embc_framer_register_rx_hook(e->f, hook, e);
        }
        ev("reset"); ev_b("hook", h_arg(1)); ev_b("syn", syn); ev_end();
        return;
    }
    if (!strcmp(op, "adv")) { adv((int64_t) h_arg(1) << TICK); return; }
    if (!strcmp(op, "due")) { /* advance to the next deadline plus an extra */
        int64_t d = next_deadline(); if (d != INT64_MAX) adv((d > now ? d - now : 0) + ((int64_t) h_arg(1) << TICK)); return; }
    if (!strcmp(op, "drain")) {
        int i; for (i = 0; i < 20000; ++i) {
            int m = 0; for (int x = 0; x < 2; ++x) { m += do_hal(&E[x]); m += do_feed(&E[x]); }
            if (!m) { int64_t d = next_deadline(); if (d == INT64_MAX) break;
                if (d > now) adv(d - now);
                for (int x = 0; x < 2; ++x) do_timer(&E[x]); }
        }
        for (int x = 0; x < 2; ++x) { struct ep * e = &E[x]; while (e->nheld) embc_buffer_free(e->held[--e->nheld]); }
        ev("drained"); ev_b("all", i < 20000); ev_end(); return; }
    if (!strcmp(op, "validate")) { /* validate len bytes... : len may be less than the number of bytes */
        int n = h_argc - 2, len = h_arg(1); uint8_t * b = malloc(len ? len : 1); for (int i = 0; i < len; ++i) b[i] = i < n ? h_arg(i + 2) : 0;
        uint16_t l = 0xffff; int rc = embc_framer_validate(b, len, &l); int rc2 = embc_framer_validate(b, len, 0);
        ev("validate"); ev_bytes("b", b, len); ev_i("rc", rc); ev_i("rc2", rc2); ev_i("n", l == 0xffff ? -1 : l); ev_end(); free(b); return; }
    struct ep * e = &E[h_arg(1)];
    if (!strcmp(op, "send")) {  /* send x port msg def len seed mode */
        int port = h_arg(2), msg = h_arg(3), def = h_arg(4), len = h_arg(5), mode = h_arg(7); uint8_t * p = malloc(len ? len : 1); fill(p, len, h_arg(6));
        x_in("send", e); ev_i("port", port); ev_i("msg", msg); ev_i("def", def); ev_bytes("pay", p, len);
        if (mode == 0) embc_framer_send_payload(e->f, port, msg, def, p, len);
        else if (mode == 1) { struct embc_buffer_s * b = embc_framer_alloc(e->f); embc_buffer_write(b, p, len); embc_framer_send(e->f, port, msg, def, b); }
        else if (mode == 7) { struct embc_buffer_s * b = embc_framer_alloc(e->f); embc_buffer_write(b, p, len); embc_buffer_cursor_set(b, b->length - len / 2); embc_framer_send(e->f, port, msg, def, b); }
        else { struct embc_buffer_s * b = embc_buffer_alloc(e->a, mode == 6 ? 253 : len ? len : 1); embc_buffer_write(b, p, len);
            if (mode == 3) embc_buffer_cursor_set(b, 0); if (mode == 4 || mode == 5 || mode == 6) embc_buffer_cursor_set(b, len / 2);
            if (mode == 5) b->reserve = embc_buffer_capacity(b) - len < 4 ? embc_buffer_capacity(b) - len : 4;
            if (mode == 6) { b->buffer_id = 7; b->flags = 3; }
            embc_framer_send(e->f, port, msg, def, b); }
        finish(e); free(p);
    } else if (!strcmp(op, "sendb")) { /* sendb x port msg def bytes... */
        int n = h_argc - 5; uint8_t * p = malloc(n + 1); for (int i = 0; i < n; ++i) p[i] = h_arg(i + 5);
        x_in("send", e); ev_i("port", h_arg(2)); ev_i("msg", h_arg(3)); ev_i("def", h_arg(4)); ev_bytes("pay", p, n);
        embc_framer_send_payload(e->f, h_arg(2), h_arg(3), h_arg(4), p, n); finish(e); free(p);
    } else if (!strcmp(op, "make")) { /* make x ack id port msg def bytes... */
        int ack = h_arg(2), n = h_argc - 7; uint8_t * p = malloc(n + 1); for (int i = 0; i < n; ++i) p[i] = h_arg(i + 7);
        struct embc_buffer_s * b = ack ? embc_framer_construct_ack(e->f, h_arg(3), h_arg(4), h_arg(5), h_arg(6), p[0])
                                       : embc_framer_construct_frame(e->f, h_arg(3), h_arg(4), h_arg(5), h_arg(6), p, n);
        ev("make"); ev_i("x", e->x); ev_b("isack", ack); ev_i("id", h_arg(3)); ev_i("port", h_arg(4)); ev_i("msg", h_arg(5)); ev_i("def", h_arg(6)); ev_bytes("pay", p, n);
        ev_bytes("b", b->data, b->length); ev_end(); embc_buffer_free(b); free(p);
    } else if (!strcmp(op, "hal")) { do_hal(e);
    } else if (!strcmp(op, "halall")) { while (do_hal(e)) {}
    } else if (!strcmp(op, "feed")) { do_feed(e);
    } else if (!strcmp(op, "feedall")) { while (do_feed(e)) {}
    } else if (!strcmp(op, "lose")) { if (e->nw) drop(e);
    } else if (!strcmp(op, "flip")) { if (e->nw && e->wire[0].n) e->wire[0].b[h_arg(2) % e->wire[0].n] ^= h_arg(3);
    } else if (!strcmp(op, "cut")) { if (e->nw) { int n = h_arg(2); if (e->wire[0].n > n) e->wire[0].n = n; }
    } else if (!strcmp(op, "dup")) { if (e->nw) push(e, e->wire[0].b, e->wire[0].n);
    } else if (!strcmp(op, "rx")) { int n = h_argc - 2; uint8_t * b = malloc(n + 1); for (int i = 0; i < n; ++i) b[i] = h_arg(i + 2); do_rx(e, b, n, n & 1); free(b);
    } else if (!strcmp(op, "timer")) { do_timer(e);
    } else if (!strcmp(op, "resync")) { x_in("resync", e); embc_framer_resync(e->f); finish(e);
    } else if (!strcmp(op, "rel")) { x_in("rel", e); while (e->nheld) embc_buffer_free(e->held[--e->nheld]); finish(e);
    } else if (!strcmp(op, "probe")) { ev("probe"); ev_i("x", e->x); ev_i("big", n256 - avail(e, 253)); ev_i("small", n32 - avail(e, 14)); ev_end();
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
}
