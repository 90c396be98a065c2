------------------------------- MODULE Stream -------------------------------
(* Asynchronous stream: the reference source (include/embc/stream/            *)
(* async_source.h), the reference sink (async_sink.h) and the two channels    *)
(* between them.  Every transaction crossing an interface is one event.       *)
(* Delivery may be immediate (nested in the send) or arbitrarily deferred.    *)
(* Transactions can also be injected into either side by a foreign peer.      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES so,    \* source: [data, buf: own buffer size (0: pointer-sized), tx, rx, owe: outputs it must make next]
          si,    \* sink: [on: a file is open, req: a request of its is unanswered, dst: -1 or capacity, got, over, tb: own buffer size, wfn, dn: call-backs set, owe: stack of outputs]
          up,    \* source -> sink transactions on their way
          down,  \* sink -> source
          link,  \* the two are connected
          act
vars == <<so, si, up, down, link, act>>

NOOP == 0
OPEN == 1
WRITE == 2
CLOSE == 3
FLUSH == 4
REQUEST == 129
CONNECT == 130
DISCONNECT == 131
ABORT == 132
TOOBIG == 15
ABORTED == 24
\* fid: file identifier, ptid: the producer's transaction identifier, max: transactions a request allows
T(type, status, ctid, len, mtu, data) == [type |-> type, status |-> status, ctid |-> ctid, len |-> len, mtu |-> mtu, max |-> 0, fid |-> 0, ptid |-> 0, data |-> data]

So0 == [data |-> << >>, dn |-> TRUE, buf |-> 0, tx |-> 0, rx |-> 0, cb |-> FALSE, owe |-> << >>]
Si0 == [on |-> FALSE, req |-> FALSE, dst |-> -1, got |-> << >>, over |-> FALSE, tb |-> 0, fid |-> 0, pr |-> TRUE, wfn |-> FALSE, dn |-> FALSE, cb |-> FALSE, owe |-> << >>]
Init == so = So0 /\ si = Si0 /\ up = << >> /\ down = << >> /\ link = FALSE /\ act = [op |-> "init"]
Quiet == so.owe = << >> /\ si.owe = << >>
Lesser(a, b) == IF a < b THEN a ELSE b

\* sdn, kdn: the source, the sink has a done call-back; pr: the sink has a producer
Reset(data, buf, tb, dst, wfn, lk, sdn, kdn, pr) ==
    /\ Len(data) > 0
    /\ so' = [So0 EXCEPT !.data = data, !.buf = buf, !.dn = sdn]
    /\ si' = [Si0 EXCEPT !.tb = tb, !.dst = dst, !.wfn = wfn, !.dn = kdn /\ dst >= 0, !.pr = pr]
    /\ up' = << >> /\ down' = << >> /\ link' = lk
    /\ act' = [op |-> "reset", data |-> data, buf |-> buf, tb |-> tb, dst |-> dst, wfn |-> wfn, link |-> lk, sdn |-> sdn, kdn |-> kdn, pr |-> pr]

\* ------------------------------------------------------------ source
\* what the source owes: [k: "close", status] | [k: "write", ctid, fid, lo, hi: length bounds] | [k: "open", arg] | [k: "done", status]
\* arg: what the application tells the consumer about the file (mostly nothing)
Open(arg) ==
    /\ Quiet \/ so.cb
    /\ so' = [so EXCEPT !.tx = 0, !.rx = 0, !.cb = FALSE, !.owe = << [k |-> "open", arg |-> arg] >>]
    /\ act' = [op |-> "open", arg |-> arg]
    /\ UNCHANGED <<si, up, down, link>>
\* another file to send; the next open starts it
Configure(data, dn) ==
    /\ Quiet /\ Len(data) > 0
    /\ so' = [so EXCEPT !.data = data, !.dn = dn, !.tx = 0, !.rx = 0]
    /\ act' = [op |-> "configure", data |-> data, dn |-> dn]
    /\ UNCHANGED <<si, up, down, link>>
React(s, t) ==
    CASE t.type = CLOSE -> IF s.dn THEN [s EXCEPT !.owe = << [k |-> "done", status |-> t.status] >>] ELSE s
      [] t.type = WRITE ->
            LET r == s.rx + t.len
            IN [s EXCEPT !.rx = r, !.owe = IF r >= Len(s.data) THEN << [k |-> "close", status |-> 0] >> ELSE << >>]
      [] t.type = REQUEST ->
            LET rem == Len(s.data) - s.tx
                \* a consumer's buffer must be filled; with the producer's own buffer any positive
                \* amount that fits it and the stream's maximum is right
                hi == IF t.len > 0 THEN Lesser(rem, t.len)
                      ELSE Lesser(rem, Lesser(IF s.buf > 0 THEN s.buf ELSE rem, IF t.mtu > 0 THEN t.mtu ELSE rem))
                lo == IF t.len > 0 THEN hi ELSE 1
            IN IF rem <= 0 THEN s ELSE [s EXCEPT !.owe = << [k |-> "write", ctid |-> t.ctid, fid |-> t.fid, lo |-> lo, hi |-> hi] >>]
      [] t.type = ABORT -> [s EXCEPT !.owe = << [k |-> "close", status |-> ABORTED] >>]
      [] OTHER -> s
SrcIn(t, inj) ==
    /\ so.owe = << >>
    /\ inj # link
    /\ IF inj THEN down' = down
       ELSE (IF down = << >> THEN FALSE ELSE Head(down) = t) /\ down' = Tail(down)
    /\ so' = React([so EXCEPT !.cb = FALSE], t)
    /\ act' = [op |-> "src_in", t |-> t, inj |-> inj]
    /\ UNCHANGED <<si, up, link>>
SrcOut(t) ==
    /\ so.owe # << >>
    /\ LET o == Head(so.owe)
       IN /\ CASE o.k = "open"  -> t = T(OPEN, 0, 0, Len(o.arg), 0, o.arg)
               [] o.k = "close" -> t.type = CLOSE /\ t.status = o.status
               [] o.k = "write" -> t.len \in o.lo..o.hi /\ t.fid \in {0, o.fid} /\ [t EXCEPT !.fid = 0] = T(WRITE, 0, o.ctid, t.len, 0, SubSeq(so.data, so.tx + 1, so.tx + t.len))
               [] OTHER         -> FALSE
          /\ so' = [so EXCEPT !.owe = Tail(@), !.tx = IF o.k = "write" THEN @ + t.len ELSE @]
    /\ up' = IF link THEN Append(up, t) ELSE up
    /\ act' = [op |-> "src_out", t |-> t]
    /\ UNCHANGED <<si, down, link>>
SrcDone(status) ==
    /\ IF so.owe = << >> THEN FALSE ELSE Head(so.owe).k = "done" /\ status = Head(so.owe).status
    /\ so' = [so EXCEPT !.owe = Tail(@), !.cb = TRUE]
    /\ act' = [op |-> "src_done", status |-> status]
    /\ UNCHANGED <<si, up, down, link>>

\* ------------------------------------------------------------ sink
\* owe is a stack: the innermost call's outputs come first.  Entries:
\* [k: "resp", t] | [k: "req?", after: "open" | "write"] decided when reached | [k: "wfn", data] |
\* [k: "done"] | [k: "event", type]
Request(s) == [(IF s.tb > 0 THEN T(REQUEST, 0, 1, s.tb, 0, << >>) ELSE T(REQUEST, 0, 0, 0, 16, << >>)) EXCEPT !.fid = s.fid, !.max = IF s.tb > 0 THEN 0 ELSE 1]
\* the answer to t
Resp(s, t, status) == IF s.pr THEN << [k |-> "resp", type |-> t.type, status |-> status, ctid |-> t.ctid, len |-> t.len, ptid |-> t.ptid, fid |-> t.fid] >> ELSE << >>
Owe(s) == s.owe # << >>
Top(s) == Head(s.owe)
\* a conditional request that turns out not to be due disappears
Skip(s) == IF s.owe = << >> THEN FALSE ELSE Top(s).k \in {"req?", "again?"} /\ (~s.on \/ (Top(s).k = "again?" /\ s.req))
RECURSIVE Settle(_)
Settle(s) == IF Skip(s) THEN Settle([s EXCEPT !.owe = Tail(@)]) ELSE s
SReact(s, t) ==
    CASE t.type = NOOP  -> [s EXCEPT !.owe = Resp(s, t, 0) \o @]
      [] t.type = OPEN  -> [s EXCEPT !.on = TRUE, !.req = FALSE, !.got = << >>, !.over = FALSE,
                                     !.owe = Resp(s, t, t.status) \o << [k |-> "ready"] >> \o @]
      [] t.type = WRITE ->
            LET fits == s.dst >= 0 /\ ~s.over /\ Len(s.got) + t.len <= s.dst
                lost == s.dst >= 0 /\ ~fits
            IN [s EXCEPT !.req = FALSE, !.got = IF fits THEN @ \o t.data ELSE @, !.over = @ \/ lost,
                         !.owe = (IF s.wfn THEN << [k |-> "wfn", data |-> t.data] >> ELSE << >>)
                                 \o Resp(s, t, IF lost THEN TOOBIG ELSE t.status) \o << [k |-> "req?"] >> \o @]
      [] t.type = CLOSE -> [s EXCEPT !.on = FALSE, !.owe = (IF s.dn THEN << [k |-> "done"] >> ELSE << >>) \o Resp(s, t, t.status) \o @]
      [] OTHER -> s
\* A nested delivery starts while the sink is inside a send.  Only a send lets others run.
SnkIn(t, inj) ==
    /\ inj # link
    /\ IF inj THEN up' = up
       ELSE (IF up = << >> THEN FALSE ELSE Head(up) = t) /\ up' = Tail(up)
    /\ si' = SReact([si EXCEPT !.cb = FALSE], t)
    /\ act' = [op |-> "snk_in", t |-> t, inj |-> inj]
    /\ UNCHANGED <<so, down, link>>
SnkOut(t) ==
    LET s == Settle(si)
    IN /\ Owe(s)
       /\ LET o == Top(s)
          IN /\ CASE o.k = "resp"  -> t.type = o.type /\ (t.status = o.status \/ (o.status # 0 /\ t.status # 0)) /\ t.ctid = o.ctid /\ t.len = o.len /\ t.ptid = o.ptid
                                      /\ IF o.type = OPEN THEN t.fid > 0 ELSE t.fid = o.fid
                  [] o.k = "ready" -> t = IF s.dst >= 0 THEN Request(s) ELSE T(DISCONNECT, 0, 0, 0, 0, << >>)
                  [] o.k \in {"req?", "again?"} -> t = Request(s)
                  [] o.k = "event" -> t = T(o.type, 0, 0, 0, 0, << >>)
                  [] OTHER         -> FALSE
             /\ si' = [s EXCEPT !.owe = Tail(@), !.cb = @ /\ o.k = "event", !.req = @ \/ t.type = REQUEST, !.fid = IF o.k = "resp" /\ t.type = OPEN THEN t.fid ELSE @]
       /\ down' = IF link THEN Append(down, t) ELSE down
       /\ act' = [op |-> "snk_out", t |-> t]
       /\ UNCHANGED <<so, up, link>>
SnkWrite(data) ==
    LET s == Settle(si)
    IN /\ Owe(s) /\ Top(s).k = "wfn" /\ data = Top(s).data
       /\ si' = [s EXCEPT !.owe = Tail(@)]
       /\ act' = [op |-> "snk_write", data |-> data]
       /\ UNCHANGED <<so, up, down, link>>
SnkDone(data) ==
    LET s == Settle(si)
    IN /\ Owe(s) /\ Top(s).k = "done" /\ data = s.got
       /\ si' = [s EXCEPT !.owe = Tail(@), !.cb = TRUE]
       /\ act' = [op |-> "snk_done", data |-> data, same |-> TRUE]
       /\ UNCHANGED <<so, up, down, link>>
\* the application provides another destination (-1: none), possibly from within the done call-back
Receive(cap, dn) ==
    LET was == si.dst >= 0
        now == cap >= 0
    IN /\ Settle(si).owe = << >> \/ si.cb
       /\ si' = [si EXCEPT !.dst = cap, !.dn = dn, !.got = << >>, !.over = FALSE,
                           !.owe = (IF ~si.pr THEN << >> ELSE IF was /\ ~now THEN << [k |-> "event", type |-> DISCONNECT] >>
                                   ELSE IF ~was /\ now /\ si.on THEN << [k |-> "event", type |-> CONNECT], [k |-> "again?"] >>
                                   ELSE << >>) \o @]
       /\ act' = [op |-> "receive", cap |-> cap, dn |-> dn]
       /\ UNCHANGED <<so, up, down, link>>
\* the convenience function that closes a stream: one transaction, and nothing else
Close(fid, status, t) ==
    /\ Quiet
    /\ t = [T(CLOSE, status, 0, 0, 0, << >>) EXCEPT !.fid = fid]
    /\ act' = [op |-> "close", fid |-> fid, status |-> status, t |-> t]
    /\ UNCHANGED <<so, si, up, down, link>>
\* control is back with the script: nothing may be owed
Idle ==
    /\ so.owe = << >> /\ Settle(si).owe = << >>
    /\ si' = [Settle(si) EXCEPT !.cb = FALSE] /\ so' = [so EXCEPT !.cb = FALSE]
    /\ act' = [op |-> "idle"]
    /\ UNCHANGED <<up, down, link>>

\* ------------------------------------------------------------ what must always hold
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Prefix == link /\ si.on => IsPrefixOf(si.got, so.data) \/ \E k \in 0..Len(so.data) : IsPrefixOf(si.got, SubSeq(so.data, k + 1, Len(so.data)))
Bounded == si.dst >= 0 => Len(si.got) <= si.dst
\* the sink's one transaction buffer is never with the producer twice
Count(s, ty) == Cardinality({i \in DOMAIN s : s[i].type = ty})
Once == link => Count(down, REQUEST) + Count(up, WRITE) + Cardinality({i \in DOMAIN so.owe : so.owe[i].k = "write"}) <= 1
Accounted == so.tx <= Len(so.data) /\ (link => so.rx <= so.tx)
=============================================================================
