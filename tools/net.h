#include "embc/stream/framer.h"
#include "embc/stream/framer_util.h"
#include "embc/memory/buffer.h"
#include "embc/collections/list.h"
#include "embc/time.h"
/* two framers; everything that moves is moved by the demonstration */
struct ep { struct embc_framer_s * f; struct embc_buffer_allocator_s * a; struct embc_buffer_s * q[512]; int nq;
    uint8_t w[512][300]; int wn[512]; int nw; int armed, bad; int64_t at; void (*cb)(void *, uint32_t); void * cbu; uint32_t id;
    int rx[1024], nrx, dn[1024], ds[1024], nd; int ntx; uint8_t last[300]; int lastn; } E[2];
#define A (&E[0])
#define B (&E[1])
#define MS(x) EMBC_MILLISECONDS_TO_TIME(x)
static int64_t now = MS(1000);
static void n_tx(void * h, struct embc_buffer_s * b) { struct ep * e = h; e->q[e->nq++] = b; ++e->ntx; e->lastn = b->length; memcpy(e->last, b->data, b->length); }
static int64_t n_time(void * h) { (void) h; return now; }
static int32_t n_set(void * h, int64_t t, void (*cb)(void *, uint32_t), void * u, uint32_t * id) { struct ep * e = h; if (e->armed) e->bad = 1; e->armed = 1; e->at = t; e->cb = cb; e->cbu = u; *id = ++e->id; return 0; }
static int32_t n_cancel(void * h, uint32_t id) { struct ep * e = h; if (!e->armed || id != e->id) e->bad = 1; e->armed = 0; return 0; }
static void n_rx(void * p, uint8_t port, uint8_t msg, uint16_t def, struct embc_buffer_s * b) { struct ep * e = p; (void) port; (void) def; e->rx[e->nrx++] = msg; embc_buffer_free(b); }
static void n_done(void * p, uint8_t port, uint8_t msg, uint16_t def, int32_t st) { struct ep * e = p; (void) port; (void) def; e->dn[e->nd] = msg; e->ds[e->nd++] = st; }
static void net(void) {
    static embc_size_t sizes[] = {400, 8, 8, 400};
    INIT();
    for (int x = 0; x < 2; ++x) {
        struct ep * e = &E[x]; e->a = malloc(embc_buffer_allocator_instance_size(sizes, 4)); embc_buffer_allocator_initialize(e->a, sizes, 4);
        e->f = calloc(1, embc_framer_instance_size());
        struct embc_framer_hal_callbacks_s h = {e, n_tx, n_time, n_set, n_cancel}; embc_framer_initialize(e->f, e->a, &h);
        struct embc_framer_port_callbacks_s c = {e, n_rx, n_done}; for (int p = 0; p < 8; ++p) embc_framer_register_port_callbacks(e->f, p, &c);
    }
}
/* the hardware finishes the oldest buffer: its bytes go on the wire */
static void hal1(struct ep * e) { if (!e->nq) return; struct embc_buffer_s * b = e->q[0]; memmove(e->q, e->q + 1, sizeof(b) * --e->nq);
    e->wn[e->nw] = b->length; memcpy(e->w[e->nw++], b->data, b->length); embc_framer_hal_tx_done(e->f, b); }
static void hal(struct ep * e) { while (e->nq) hal1(e); }
static void lose(struct ep * e) { if (!e->nw) return; --e->nw; memmove(e->w[0], e->w[1], sizeof(e->w[0]) * e->nw); memmove(e->wn, e->wn + 1, sizeof(int) * e->nw); }
static void feed(struct ep * e) { if (!e->nw) return; uint8_t b[300]; int n = e->wn[0]; memcpy(b, e->w[0], n); lose(e); embc_framer_hal_rx_buffer(e == A ? B->f : A->f, b, n); }
static void damage(struct ep * e, int i) { e->w[0][i] ^= 0x10; }
static void flow(void) { for (int i = 0; i < 1000 && (A->nq || B->nq || A->nw || B->nw); ++i) { hal(A); hal(B); while (A->nw) feed(A); while (B->nw) feed(B); } }
static void timer(struct ep * e) { if (e->armed && now >= e->at) { e->armed = 0; e->cb(e->cbu, e->id); } }
static void settle(void) { for (int k = 0; k < 100; ++k) { flow(); if (!A->armed && !B->armed) return; int64_t t = EMBC_TIME_MAX;
    if (A->armed && A->at < t) t = A->at; if (B->armed && B->at < t) t = B->at; if (t > now) now = t; timer(A); timer(B); } }
static void sendn(struct ep * e, int msg) { uint8_t d[4] = {1, 2, 3, (uint8_t) msg}; embc_framer_send_payload(e->f, 1, msg, 0x1234, d, 4); }
static int avail(struct ep * e) { static struct embc_buffer_s * p[500]; int n = 0; while (n < 500 && (p[n] = embc_buffer_alloc_unsafe(e->a, 250))) ++n; for (int i = 0; i < n; ++i) embc_buffer_free(p[i]); return n; }
