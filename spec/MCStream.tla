------------------------------ MODULE MCStream ------------------------------
(* The source and the sink composed over deferred channels: every order of    *)
(* deliveries, with the application changing the destination at any moment.   *)
EXTENDS Stream, Json
\* a member of Caps is the capacity plus one; 0: no destination
CONSTANTS MaxLen, Bufs, Tbs, Caps, MaxReceive, MaxOpen
VARIABLES nr, no
F(t, f) == [t EXCEPT !.fid = f]
Ts == {T(OPEN, 0, 0, 0, 0, << >>), T(CLOSE, 0, 0, 0, 0, << >>)}
      \cup {F(T(WRITE, 0, c, n, 0, SubSeq(so.data, so.tx + 1, so.tx + n)), 1) : c \in {0, 1}, n \in 1..(Len(so.data) - so.tx)}
Ds == {F(T(ty, st, c, n, 0, << >>), f) : f \in {0, 1}, ty \in {OPEN, WRITE, CLOSE}, st \in {0, TOOBIG}, c \in {0, 1}, n \in 0..MaxLen}
      \cup {Request(si), T(CONNECT, 0, 0, 0, 0, << >>), T(DISCONNECT, 0, 0, 0, 0, << >>)}
Data(n) == [i \in 1..n |-> ((i - 1) * 7 + 3) % 251]
Stay == UNCHANGED <<nr, no>>
Started == Len(so.data) > 0
MCNext ==
    \/ ~Started /\ (\E n \in 1..MaxLen, b \in Bufs, t \in Tbs, c \in Caps, w \in BOOLEAN : Reset(Data(n), b, t, c - 1, w, TRUE, TRUE, TRUE, TRUE)) /\ Stay
    \/ Started /\ (so.cb \/ (Quiet /\ up = << >> /\ down = << >> /\ ~si.on)) /\ no < MaxOpen /\ Open(<< >>) /\ no' = no + 1 /\ UNCHANGED nr
    \/ \E t \in Ts : SrcOut(t) /\ Stay
    \/ so.owe # << >> /\ (\E s \in {0, TOOBIG, ABORTED} : SrcDone(s)) /\ Stay
    \/ Quiet /\ down # << >> /\ SrcIn(Head(down), FALSE) /\ Stay
    \/ Quiet /\ up # << >> /\ SnkIn(Head(up), FALSE) /\ Stay
    \/ Owe(Settle(si)) /\ (\E t \in Ds : SnkOut(t)) /\ Stay
    \/ Owe(Settle(si)) /\ Top(Settle(si)).k = "wfn" /\ SnkWrite(Top(Settle(si)).data) /\ Stay
    \/ Owe(Settle(si)) /\ Top(Settle(si)).k = "done" /\ SnkDone(Settle(si).got) /\ Stay
    \/ si.owe # << >> /\ Idle /\ Stay
    \/ (Quiet \/ si.cb) /\ nr < MaxReceive /\ (\E c \in Caps : Receive(c - 1, TRUE)) /\ nr' = nr + 1 /\ UNCHANGED no
Spec == Init /\ nr = 0 /\ no = 0 /\ [][MCNext]_<<vars, nr, no>>
Fair == Spec /\ WF_<<vars, nr, no>>(MCNext)
Abs == <<so, si, up, down, link, nr, no>>
Emit == PrintT("T|" \o ToJson(Abs) \o "|" \o ToJson(act') \o "|" \o ToJson(Abs'))
\* one destination for the whole file: everything arrives if it fits, a prefix otherwise
Whole == [][(act'.op = "snk_done" /\ nr = 0 /\ si.dst >= Len(so.data)) => act'.data = so.data]_<<vars, nr, no>>
\* with a destination in place the transfer ends
Ends == (no = 1 /\ nr = 0 /\ si.dst >= 0 /\ MaxReceive = 0) ~> (act.op = "src_done")
=============================================================================
