#include "h.h"
#include "embc/cli.h"
static embc_cli_t * c; static int args_mode, rc_, runs, cookie_ok; static int dummy_cookie, print_cookie;
static uint8_t out[1 << 16]; static int nout; static uint8_t pre[1 << 16]; static int npre;
static char cmd[1 << 16];
static void print(void * ck, const char * s) { if (ck != &print_cookie) cookie_ok = 0; while (*s && nout < 60000) out[nout++] = (uint8_t) *s++; }
static char * codes(char * p, const char * s) { *p++ = '['; for (int i = 0; s[i]; ++i) p += sprintf(p, "%s%d", i ? "," : "", (uint8_t) s[i]); *p++ = ']'; *p = 0; return p; }
static int line(void * ck, const char * s) { ++runs; if (ck != &dummy_cookie) cookie_ok = 0; memcpy(pre, out, nout); npre = nout; nout = 0;
    char * p = cmd; *p++ = '['; p = codes(p, s); *p++ = ']'; *p = 0; return rc_; }
static int argsf(void * ck, int argc, char * argv[]) { ++runs; if (ck != &dummy_cookie) cookie_ok = 0; memcpy(pre, out, nout); npre = nout; nout = 0;
    char * p = cmd; *p++ = '['; for (int i = 0; i < argc; ++i) { if (i) *p++ = ','; p = codes(p, argv[i]); } *p++ = ']'; *p = 0; return rc_; }
static void clear(void) { nout = npre = runs = 0; cookie_ok = 1; strcpy(cmd, "[]"); }
void h_cmd(const char * op) {
    clear();
    if (!strcmp(op, "reset")) {         /* reset mode echo user verbose noise prompt codes ... */
        free(c); c = malloc(sizeof(*c)); memset(c, 0, sizeof(*c));
        args_mode = h_arg(1);
        c->echo_mode = h_arg(2); c->echo_user_char = h_arg(3); c->verbose = h_arg(4); int noise = h_arg(5);
        for (int i = 6; i < h_argc; ++i) c->prompt[i - 6] = h_arg(i);
        c->response_success = "OK\n"; c->response_error = "ER\n"; c->print = noise & 2 ? 0 : print; c->print_cookie = &print_cookie; c->execute_cookie = &dummy_cookie;
        if (args_mode == 1) { c->execute_args = argsf; if (noise & 1) c->execute_line = line; } else if (h_arg(1) == 0) c->execute_line = line;
        if (noise & 1) { memset(c->cmdline, 'z', sizeof(c->cmdline)); c->cmdlen = 5; }
        embc_cli_initialize(c);
        ev("reset"); ev_s("mode", args_mode == 2 ? "none" : args_mode ? "args" : "line"); ev_bytes("prompt", (uint8_t *) c->prompt, strlen(c->prompt));
        ev_i("echo", h_arg(2)); ev_i("user", h_arg(3)); ev_b("verbose", h_arg(4)); ev_b("print", c->print != 0); ev_bytes("out", out, nout); ev_end();
    } else if (!strcmp(op, "echo")) { embc_cli_set_echo(c, h_arg(1), h_arg(2)); ev("echo"); ev_i("echo", h_arg(1)); ev_i("user", h_arg(2)); ev_end();
    } else if (!strcmp(op, "verbose")) { embc_cli_set_verbose(c, h_arg(1)); ev("verbose"); ev_b("v", h_arg(1)); ev_end();
    } else if (!strcmp(op, "feed")) {
        for (int i = 1; i < h_argc; ++i) embc_cli_insert_char(c, (char) h_arg(i));
        ev("feed"); ev_arr("cs"); for (int i = 1; i < h_argc; ++i) ev_arr_i(h_arg(i)); ev_arr_end(); ev_bytes("out", out, nout); ev_b("ran", runs); ev_end();
    } else if (!strcmp(op, "rub")) { embc_cli_insert_char(c, (char) h_arg(1)); ev("rub"); ev_i("ch", h_arg(1)); ev_bytes("out", out, nout); ev_b("ran", runs); ev_end();
    } else if (!strcmp(op, "eol")) { rc_ = h_arg(2); embc_cli_insert_char(c, (char) h_arg(1));
        ev("eol"); ev_i("ch", h_arg(1)); ev_i("rc", rc_); ev_bytes("pre", pre, npre); ev_i("runs", runs); ev_raw("cmd", cmd); ev_b("cookie", cookie_ok); ev_bytes("post", out, nout); ev_end();
    } else if (!strcmp(op, "parse")) { rc_ = h_arg(1); int n = h_argc - 2; char * s = malloc(n + 1); for (int i = 0; i < n; ++i) s[i] = (char) h_arg(i + 2); s[n] = 0;
        int r = embc_cli_line_parser(c, s);
        ev("parse"); ev_bytes("cs", (uint8_t *) s, n); ev_i("rc", rc_); ev_i("runs", runs); ev_raw("cmd", cmd); ev_b("cookie", cookie_ok); ev_i("ret", r); ev_end(); free(s);
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
}
