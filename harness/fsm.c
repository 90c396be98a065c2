#include "h.h"
#include "embc/fsm.h"
#include "embc/log.h"
#include <stdarg.h>
/* The script supplies the table, and for each call-back a list of actions:
 * posts (p<e>) and, for handlers, the value returned (r<v>). */
#define MAXT 127
static struct embc_fsm_s f; static struct embc_fsm_state_s st[128]; static struct embc_fsm_transition_s tr[MAXT];
static int ns, nt;
static char ** plan; static int nplan, pos;     /* '/'-separated lists, consumed in order of call-backs */
static int cb;
/* the log: of each line only the names that occur in it, in order */
static char lg[1 << 18]; static int nlg, over; static char sname[128][8], ename[200][8];
static void log_line(const char * fmt, ...) {
    char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof(b), fmt, a); va_end(a);
    if (b[0] != 'I') return; /* other levels are the library's own business */
    char * p = strstr(b, ": "); p = p ? p + 2 : b;
    static const char * words[] = {"fsm", "M", "any", "null", "skip", "reset", "enter", "exit", "_unnamed_", 0};
    char out[4096]; int n = 0, k = 0;
    for (char * t = strtok(p, " =,;:()[]<>\"'.\n"); t; t = strtok(0, " =,;:()[]<>\"'.\n")) {
        int is = ((t[0] == 'S' || t[0] == 'E') && t[1] >= '0' && t[1] <= '9');
        for (int i = 0; words[i]; ++i) is |= !strcmp(t, words[i]);
        if (is && n < 3900) n += sprintf(out + n, "%s\"%s\"", k++ ? "," : "", t);
    }
    if (!k) return;
    if (nlg > (int) sizeof(lg) - 8000) { over = 1; return; }
    nlg += sprintf(lg + nlg, "%s[%s]", nlg > 1 ? "," : "", out);
}
static const char * event_name(struct embc_fsm_s * s, embc_fsm_event_t e) { (void) s; return (e >= 0 && e % 2 == 0 && e < 200) ? ename[e] : 0; }
static int next_list(char *** t) {
    *t = 0; if (++cb > 400) { ev("runaway"); ev_end(); exit(0); }
    if (pos >= nplan) return 0;
    int s = pos + 1, e = s; while (e < nplan && plan[e][0] != '/') ++e;
    *t = plan + s; pos = e; return e - s;
}
static int body(int have_ret, int def) {
    char ** t; int n = next_list(&t); int r = def;
    for (int i = 0; i < n; ++i) {
        if (t[i][0] == 'p') { int e = atoi(t[i] + 1); embc_fsm_event(&f, e); ev("post"); ev_i("e", e); ev_end(); }
        else if (t[i][0] == 'R') { embc_fsm_reset(&f); ev("post"); ev_i("e", EMBC_EVENT_RESET); ev_end(); }
        else if (t[i][0] == 'r' && have_ret) r = atoi(t[i] + 1);
    }
    return r;
}
static embc_fsm_state_t handler(struct embc_fsm_s * s, embc_fsm_event_t e, int i) {
    ev("handler"); ev_i("i", i); ev_i("e", e); ev_i("s", s->state); ev_end();
    int r = body(1, EMBC_STATE_ANY);
    ev("handler_ret"); ev_i("v", r); ev_end();
    return (embc_fsm_state_t) r;
}
static embc_fsm_state_t hook(struct embc_fsm_s * s, embc_fsm_event_t e, int of, int enter) {
    ev(enter ? "enter" : "exit"); ev_i("of", of); ev_i("e", e); ev_i("s", s->state); ev_end();
    body(0, 0); ev(enter ? "enter_ret" : "exit_ret"); ev_end();
    return EMBC_STATE_ANY;
}
#define X120(M) M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) M(12) M(13) M(14) M(15) M(16) M(17) M(18) M(19) M(20) M(21) M(22) M(23) M(24) M(25) M(26) M(27) M(28) M(29) M(30) M(31) M(32) M(33) M(34) M(35) M(36) M(37) M(38) M(39) M(40) M(41) M(42) M(43) M(44) M(45) M(46) M(47) M(48) M(49) M(50) M(51) M(52) M(53) M(54) M(55) M(56) M(57) M(58) M(59) M(60) M(61) M(62) M(63) M(64) M(65) M(66) M(67) M(68) M(69) M(70) M(71) M(72) M(73) M(74) M(75) M(76) M(77) M(78) M(79) M(80) M(81) M(82) M(83) M(84) M(85) M(86) M(87) M(88) M(89) M(90) M(91) M(92) M(93) M(94) M(95) M(96) M(97) M(98) M(99) M(100) M(101) M(102) M(103) M(104) M(105) M(106) M(107) M(108) M(109) M(110) M(111) M(112) M(113) M(114) M(115) M(116) M(117) M(118) M(119) M(120) M(121) M(122) M(123) M(124) M(125) M(126)
#define DEF(n) static embc_fsm_state_t h##n(struct embc_fsm_s * s, embc_fsm_event_t e) { return handler(s, e, n + 1); } \
  static embc_fsm_state_t en##n(struct embc_fsm_s * s, embc_fsm_event_t e) { return hook(s, e, n, 1); } \
  static embc_fsm_state_t ex##n(struct embc_fsm_s * s, embc_fsm_event_t e) { return hook(s, e, n, 0); }
X120(DEF)
#define HP(n) h##n,
#define EP(n) en##n,
#define XP(n) ex##n,
static const embc_fsm_handler H[] = { X120(HP) }, EN[] = { X120(EP) }, EX[] = { X120(XP) };
static void go(int init, int e) {
    lg[0] = '['; nlg = 1; h_fatal_expected = 1; embc_log_initialize(log_line);
    if (!setjmp(h_fatal_jmp)) { if (init) embc_fsm_initialize(&f); else if (e == EMBC_EVENT_RESET) embc_fsm_reset(&f); else embc_fsm_event(&f, e);
        strcpy(lg + nlg, "]"); ev("done"); ev_i("s", f.state); ev_b("init", init); ev_raw("log", lg); ev_end(); }
    else { ev("fatal"); ev_end(); f.states = 0; }
    h_fatal_expected = 0;
}
void h_cmd(const char * op) {
    if (!strcmp(op, "reset")) {
        /* reset ns nt  en ex ...  cur next ev h ...  [/ lists] */
        int a = 1; ns = h_arg(a++); nt = h_arg(a++);
        memset(&f, 0x77, sizeof(f)); memset(st, 0, sizeof(st)); memset(tr, 0, sizeof(tr));
        for (int i = 0; i < ns; ++i) { st[i].state = i; sprintf(sname[i], "S%d", i); st[i].name = (i & 1) ? sname[i] : 0; if (h_arg(a++)) st[i].on_enter = EN[i]; if (h_arg(a++)) st[i].on_exit = EX[i]; }
        for (int i = 0; i < nt; ++i) { tr[i].current = h_arg(a++); tr[i].next = h_arg(a++); tr[i].event = h_arg(a++); tr[i].handler = h_arg(a++) ? H[i] : 0; }
        f.name = (nt & 1) ? "M" : 0; for (int i = 0; i < 200; ++i) sprintf(ename[i], "E%d", i); f.states = st; f.states_count = ns; f.transitions = tr; f.transitions_count = nt; f.event_name_fn = (ns & 1) ? event_name : 0;
        ev("reset"); ev_arr("st"); for (int i = 0; i < ns; ++i) { char b[80]; sprintf(b, "{\"en\":%s,\"ex\":%s,\"nm\":\"%s\"}", st[i].on_enter ? "true" : "false", st[i].on_exit ? "true" : "false", st[i].name ? st[i].name : ""); ev_arr_raw(b); } ev_arr_end();
        ev_arr("tr"); for (int i = 0; i < nt; ++i) { char b[128]; sprintf(b, "{\"cur\":%d,\"next\":%d,\"ev\":%d,\"h\":%s}", tr[i].current, tr[i].next, tr[i].event, tr[i].handler ? "true" : "false"); ev_arr_raw(b); } ev_arr_end(); ev_s("m", f.name ? f.name : ""); ev_b("ef", f.event_name_fn != 0); ev_end();
        plan = h_argv + a; nplan = h_argc - a; pos = 0; cb = 0; go(1, 0);
    } else if (!strcmp(op, "event")) {
        if (!f.states) return;
        int e = h_arg(1); ev("event"); ev_i("e", e); ev_end();
        plan = h_argv + 2; nplan = h_argc - 2; pos = 0; cb = 0; go(0, e);
    } else if (!strcmp(op, "badtable")) {   /* state ids swapped: must be refused */
        if (!f.states || ns < 2) return;
        int k = h_arg(1) % ns; st[k].state = (k + 1) % ns; volatile int fatal = 0; plan = 0; nplan = 0; pos = 0; cb = 0;
        h_fatal_expected = 1; if (!setjmp(h_fatal_jmp)) embc_fsm_initialize(&f); else fatal = 1; h_fatal_expected = 0;
        st[k].state = k; f.states = 0; ev("refused"); ev_b("fatal", fatal); ev_end();
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
}
