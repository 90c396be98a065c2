#include "h.h"
#include "embc.h"
#include "embc/stream/async_source.h"
#include "embc/stream/async_sink.h"
/* taps between the source and the sink record every transaction; in deferred mode
 * they queue copies, delivered one at a time by the script. */
static struct embc_stream_source_s * src; static struct embc_stream_sink_s * snk;
static struct embc_stream_consumer_s tapc; static struct embc_stream_producer_s tapp;
static uint8_t * data, * sbuf, * tb, * dst, arg[1024]; static int srcdn, nodn, slen, blen, tblen, cap, lnk, deferred, depth, reopen;
static void rcv(int c, int via); static int rearm[8], nrearm; static void set_dst(int c, int via);
static struct embc_stream_transaction_s upq[256], downq[256]; static int nup, ndown, events_;
static void jt(const struct embc_stream_transaction_s * t, int up) {
    static char b[400000]; char * p = b; int w = ((t->type == EMBC_STREAM_IOCTL_WRITE || t->type == EMBC_STREAM_IOCTL_OPEN) && up), rq = (t->type == EMBC_STREAM_EVENT_WRITE_REQUEST && t->length == 0);
    p += sprintf(p, "{\"type\":%d,\"status\":%d,\"ctid\":%d,\"len\":%d,\"mtu\":%d,\"max\":%d,\"fid\":%d,\"ptid\":%d,\"data\":[", t->type, t->status, t->consumer_transaction_id, t->length,
                 rq ? t->data.event_write_request_producer_buffer.mtu : 0,
                 rq ? t->data.event_write_request_producer_buffer.transactions_max : 0, t->file_id, t->producer_transaction_id);
    if (w) for (int i = 0; i < t->length && i < 65536; ++i) p += sprintf(p, "%s%d", i ? "," : "", t->data.ioctl_write.ptr[i]);
    strcpy(p, "]}"); ev_raw("t", b);
    if (++events_ > 20000) { ev_end(); ev("runaway"); ev_end(); exit(0); }
}
static void src_in(struct embc_stream_transaction_s * t, int inj) { ev("src_in"); jt(t, 0); ev_b("inj", inj); ev_end(); src->producer.send(&src->producer, t); }
static void snk_in(struct embc_stream_transaction_s * t, int inj) { ev("snk_in"); jt(t, 1); ev_b("inj", inj); ev_end(); snk->consumer.send(&snk->consumer, t); }
static void tap_up(struct embc_stream_consumer_s * c, struct embc_stream_transaction_s * t) {
    (void) c; ev("src_out"); jt(t, 1); ev_end();
    if (!lnk) return;
    if (deferred) { if (nup < 256) upq[nup++] = *t; } else snk_in(t, 0);
}
static void tap_down(struct embc_stream_producer_s * c, struct embc_stream_transaction_s * t) {
    (void) c; ev("snk_out"); jt(t, 0); ev_end();
    if (!lnk) return;
    if (deferred) { if (ndown < 256) downq[ndown++] = *t; } else src_in(t, 0);
}
static void src_done(void * u, uint8_t status) {
    ev("src_done"); ev_i("status", status); ev_end();
    if (u != &slen) { ev("baduser"); ev_end(); }
    if (reopen > 0) { --reopen; ev("open"); ev_bytes("arg", arg, 0); ev_end(); embc_stream_source_open(src); }
}
static void snk_write(void * u, uint8_t const * b, uint32_t n) { ev("snk_write"); ev_bytes("data", b, n); ev_end(); if (u != &tblen) { ev("baduser"); ev_end(); } }
static void snk_done(void * u, uint8_t const * b, uint32_t n) { ev("snk_done"); ev_bytes("data", b, (b && n <= (uint32_t) (cap < 0 ? 0 : cap)) ? (int) n : 0); ev_b("same", b == dst && (b || n == 0)); ev_end(); if (u != &cap) { ev("baduser"); ev_end(); }
    for (int i = 0; i < nrearm; ++i) rcv(rearm[i], 1); }
static void idle(void) { ev("idle"); ev_end(); }
static void set_dst(int c, int via) { free(dst); dst = c >= 0 ? malloc(c ? c : 1) : 0; if (dst) memset(dst, 0xEE, c ? c : 1); cap = c; (void) via;
    embc_stream_sink_receive(snk, dst, c < 0 ? 0 : c, nodn ? 0 : snk_done, &cap); }
static void rcv(int c, int via) { uint8_t * old = dst; dst = 0; ev("receive"); ev_i("cap", c); ev_b("dn", !nodn); ev_end(); set_dst(c, via); free(old); }
static void fill(int n, int seed) { free(data); slen = n; data = malloc(n); for (int i = 0; i < n; ++i) data[i] = (uint8_t) ((i * 7 + seed) % 251); }
static int nby; static void byclose(struct embc_stream_consumer_s * c, struct embc_stream_transaction_s * t) { (void) c; ++nby; struct embc_stream_transaction_s k = *t; jt(t, 1); ev_end(); snk_in(&k, 1); }
static void set_dst(int c, int via);
static void deliver(int up, int k) { (void) k;
    struct embc_stream_transaction_s t;
    if (up && nup) { t = upq[0]; memmove(upq, upq + 1, sizeof(t) * --nup); snk_in(&t, 0); }
    if (!up && ndown) { t = downq[0]; memmove(downq, downq + 1, sizeof(t) * --ndown); src_in(&t, 0); }
}
void h_cmd(const char * op) {
    if (!strcmp(op, "reset")) {    /* reset slen buf tb dst wfn mode(0 direct, 1 deferred, 2 unlinked) [who] */
        slen = h_arg(1); blen = h_arg(2); tblen = h_arg(3); int c = h_arg(4), wfn = h_arg(5); deferred = h_arg(6) == 1; lnk = h_arg(6) != 2;
        free(src); free(snk); free(sbuf); free(tb);
        src = calloc(1, sizeof(*src)); snk = calloc(1, sizeof(*snk)); memset(src, 0x55, sizeof(*src)); memset(snk, 0x55, sizeof(*snk));
        fill(slen, 3); int who = h_argc > 7 ? h_arg(7) : 7; srcdn = who & 1; nodn = !(who & 2);   /* which of these are there: source's call-back, sink's call-back, sink's producer */
        sbuf = blen ? malloc(blen) : 0; tb = tblen ? malloc(tblen) : 0; nup = ndown = 0; depth = 0; events_ = 0; reopen = 0; nrearm = 0;
        tapc.send = tap_up; tapp.send = tap_down;
        embc_stream_source_initialize(src, sbuf, blen); embc_stream_sink_initialize(snk, tb, tblen);
        if (embc_stream_source_get_producer(src) != &src->producer || embc_stream_sink_get_consumer(snk) != &snk->consumer) { ev("badptr"); ev_end(); exit(0); }
        embc_stream_source_set_consumer(src, &tapc); if (who & 4) embc_stream_sink_set_producer(snk, &tapp);
        embc_stream_source_configure(src, data, slen, srcdn ? src_done : 0, &slen);
        if (wfn) embc_stream_sink_set_write_fn(snk, snk_write, &tblen);
        ev("reset"); ev_bytes("data", data, slen); ev_i("buf", blen); ev_i("tb", tblen); ev_i("dst", c); ev_b("wfn", wfn); ev_b("link", lnk); ev_b("sdn", srcdn); ev_b("kdn", !nodn); ev_b("pr", !!(who & 4)); ev_end();
        if (c >= 0) set_dst(c, 0);
    } else if (!strcmp(op, "again")) { reopen = h_arg(1); nrearm = 0; for (int i = 2; i < h_argc && nrearm < 8; ++i) rearm[nrearm++] = h_arg(i); return; /* what the done call-backs do */
    } else if (!strcmp(op, "open")) { int n = h_argc > 1 ? h_arg(1) : 0; for (int i = 0; i < n && i < 1024; ++i) arg[i] = (uint8_t) (n + i * 5);
        ev("open"); ev_bytes("arg", arg, n); ev_end();
        if (n) embc_stream_source_open_ex(src, arg, n); else embc_stream_source_open(src);
    } else if (!strcmp(op, "configure")) {  /* len seed done */
        fill(h_arg(1), h_arg(2)); srcdn = h_arg(3); ev("configure"); ev_bytes("data", data, slen); ev_b("dn", srcdn); ev_end();
        embc_stream_source_configure(src, data, slen, srcdn ? src_done : 0, &slen);
    } else if (!strcmp(op, "close")) {      /* fid status: the convenience function; what it sends then goes to the sink */
        struct embc_stream_consumer_s by; by.send = byclose; ev("close"); ev_i("fid", h_arg(1)); ev_i("status", h_arg(2));
        nby = 0; embc_stream_close(&by, h_arg(1), h_arg(2)); if (!nby) ev_end();
    } else if (!strcmp(op, "up")) { deliver(1, 0);
    } else if (!strcmp(op, "down")) { deliver(0, 0);
    } else if (!strcmp(op, "drain")) { for (int i = 0; i < 4000 && (nup || ndown); ++i) { deliver(nup && (!ndown || (i * 7 + h_arg(1)) % 3 != 0), 0); idle(); }
    } else if (!strcmp(op, "receive")) { nodn = h_argc > 2 && !h_arg(2); rcv(h_arg(1), 1);
    } else if (!strcmp(op, "inj_snk")) {  /* type status ctid len [ptid] */
        struct embc_stream_transaction_s t; memset(&t, 0, sizeof(t)); t.producer_transaction_id = h_argc > 5 ? h_arg(5) : 0; t.file_id = h_argc > 6 ? h_arg(6) : 0; t.type = h_arg(1); t.status = h_arg(2); t.consumer_transaction_id = h_arg(3); t.length = h_arg(4);
        uint8_t * b = malloc(t.length ? t.length : 1); for (int i = 0; i < t.length; ++i) b[i] = (uint8_t) (i * 3 + t.length + h_arg(3)); t.data.ioctl_write.ptr = b; snk_in(&t, 1); free(b);
    } else if (!strcmp(op, "inj_src")) {  /* type status ctid len mtu */
        struct embc_stream_transaction_s t; memset(&t, 0, sizeof(t)); t.type = h_arg(1); t.status = h_arg(2); t.consumer_transaction_id = h_arg(3); t.length = h_arg(4);
        uint8_t * b = 0;
        if (t.type == EMBC_STREAM_EVENT_WRITE_REQUEST && !t.length) { t.data.event_write_request_producer_buffer.mtu = h_arg(5); t.data.event_write_request_producer_buffer.transactions_max = 1; }
        else { b = malloc(t.length ? t.length : 1); t.data.ptr = b; }
        src_in(&t, 1); free(b);
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
    idle();
}
