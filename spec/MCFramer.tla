------------------------------ MODULE MCFramer ------------------------------
(* Two endpoints over two lossy byte streams that keep order.  hal[x] are the   *)
(* frames that the HAL of x owns, ch[x] those on their way from x.  Ghosts:     *)
(* sent[x] and got[x], the frames sent by and delivered at x; dn[x], reports.   *)
EXTENDS Framer, Json
CONSTANTS SEND0, SEND1,  \* frames that each endpoint sends
          PORT0, PORT1, \* the ports they use
          LOSSES, CORRUPTS, DUPS,
          SLOW,      \* how often time passes although something is in flight
          DELAY,     \* extra time that may pass after a deadline
          START,     \* frame id at the start
          EAGER,     \* the HAL sends at once, within the call that hands a frame over
          RESYNCS
VARIABLES e, hal, ch, sent, got, dn, b, act
X == {0, 1}
Sends(x) == IF x = 0 THEN SEND0 ELSE SEND1
Port(x) == IF x = 0 THEN PORT0 ELSE PORT1
Peer(x) == 1 - x
NewB == [loss |-> LOSSES, bad |-> CORRUPTS, dup |-> DUPS, slow |-> SLOW, resync |-> RESYNCS]
MCInit == /\ e = [x \in X |-> [NewEp EXCEPT !.rxid = START, !.txid = START, !.mask = IF START = 0 THEN 0 ELSE 255, !.syn = EAGER]]
          /\ hal = [x \in X |-> << >>] /\ ch = [x \in X |-> << >>]
          /\ sent = [x \in X |-> << >>] /\ got = [x \in X |-> << >>] /\ dn = [x \in X |-> << >>]
          /\ b = NewB /\ act = [op |-> "init"]
\* endpoint x becomes n; moved: what its HAL just finished
Apply(x, n, moved) ==
    /\ e' = [e EXCEPT ![x] = Clear(n)]
    /\ hal' = [hal EXCEPT ![x] = IF EAGER THEN << >> ELSE SubSeq(@, Len(moved) + 1, Len(@)) \o n.o.tx]
    /\ got' = [got EXCEPT ![x] = @ \o n.o.arr]
    /\ dn' = [dn EXCEPT ![x] = @ \o n.o.done]
    /\ sent' = [sent EXCEPT ![x] = @ \o [i \in 1..((n.txid - e[x].txid + IDS) % IDS) |-> (e[x].txid + i - 1) % IDS]]
Out(n) == IF EAGER THEN n.o.tx ELSE << >>
Idle == \A x \in X : hal[x] = << >> /\ ch[x] = << >>
SendX(x) == LET k == Len(sent[x]) IN
            /\ k < Sends(x)
            /\ LET n == Send(e[x], Port(x), k, 300, <<k>>) IN
               Apply(x, n, << >>) /\ ch' = [ch EXCEPT ![x] = @ \o Out(n)]
            /\ act' = [op |-> "send", x |-> x, port |-> Port(x), msg |-> k] /\ UNCHANGED b
HalX(x) == /\ hal[x] # << >>
           /\ Apply(x, HalDone(e[x], Head(hal[x])), <<1>>) /\ ch' = [ch EXCEPT ![x] = Append(@, Head(hal[x]))]
           /\ act' = [op |-> "hal", x |-> x] /\ UNCHANGED b
Arrive(x, n, op, rest) == LET y == Peer(x) IN
           /\ Apply(y, n, << >>) /\ ch' = [ch EXCEPT ![x] = rest, ![y] = @ \o Out(n)]
           /\ act' = [op |-> op, x |-> x]
Feed(x) == ch[x] # << >> /\ Arrive(x, RxFrame(e[Peer(x)], Head(ch[x])), "feed", Tail(ch[x])) /\ UNCHANGED b
Lose(x) == /\ ch[x] # << >> /\ b.loss > 0 /\ b' = [b EXCEPT !.loss = @ - 1]
           /\ ch' = [ch EXCEPT ![x] = Tail(@)] /\ act' = [op |-> "lose", x |-> x] /\ UNCHANGED <<e, hal, sent, got, dn>>
Corrupt(x) == /\ ch[x] # << >> /\ b.bad > 0 /\ b' = [b EXCEPT !.bad = @ - 1]
              /\ Arrive(x, RxMic(e[Peer(x)], Head(ch[x])), "corrupt", Tail(ch[x]))
Dup(x) == /\ ch[x] # << >> /\ b.dup > 0 /\ b' = [b EXCEPT !.dup = @ - 1]
          /\ ch' = [ch EXCEPT ![x] = Append(@, Head(@))] /\ act' = [op |-> "dup", x |-> x] /\ UNCHANGED <<e, hal, sent, got, dn>>
Next2 == Min2(Need(e[0]), Need(e[1]))
Pass(d) == /\ e' = [x \in X |-> Tick(e[x], d)] /\ act' = [op |-> "adv", d |-> d] /\ UNCHANGED <<hal, ch, sent, got, dn>>
Adv == /\ Next2 # NONE /\ Next2 > 0
       /\ \/ Idle /\ UNCHANGED b
          \/ ~Idle /\ b.slow > 0 /\ b' = [b EXCEPT !.slow = @ - 1]
       /\ \E d \in {0, DELAY} : Pass(Next2 + d)
Timer(x) == /\ Need(e[x]) = 0
            /\ LET n == TimerFire(e[x]) IN Apply(x, n, << >>) /\ ch' = [ch EXCEPT ![x] = @ \o Out(n)]
            /\ act' = [op |-> "timer", x |-> x] /\ UNCHANGED b
MCNext == (\E x \in X : SendX(x) \/ HalX(x) \/ Feed(x) \/ Lose(x) \/ Corrupt(x) \/ Dup(x) \/ Timer(x)) \/ Adv
all == <<e, hal, ch, sent, got, dn, b, act>>
MCSpec == MCInit /\ [][MCNext]_all
\* the application does something in the end, and whatever is in flight arrives; faults need not happen
Fair == /\ MCSpec /\ WF_all(Adv)
        /\ \A x \in X : WF_all(SendX(x)) /\ WF_all(HalX(x)) /\ WF_all(Feed(x)) /\ WF_all(Timer(x))
Abs == <<e, hal, ch, sent, got, dn, b>>
Emit == PrintT("T|" \o ToJson(Abs) \o "|" \o ToJson(act') \o "|" \o ToJson(Abs'))
---------------------------------------------------------------------------
Ids(fs) == [i \in DOMAIN fs |-> fs[i].id]
IsPrefix(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, 1, Len(s))
\* delivered in order, nothing twice and nothing skipped
InOrder == \A x \in X : IsPrefix(Ids(got[x]), sent[Peer(x)])
\* the same when frames may be given up (no more than IDS frames in all): some may be missing
Increasing == \A x \in X : \A i, j \in DOMAIN got[x] : i < j => got[x][i].id < got[x][j].id
\* a frame reported as confirmed is received, whatever happened to the others
ConfirmedEach == \A x \in X : \A i \in DOMAIN dn[x] : dn[x][i][4] = 0 =>
    \E f \in {got[Peer(x)][j] : j \in DOMAIN got[Peer(x)]} \cup {e[Peer(x)].pend[j] : j \in DOMAIN e[Peer(x)].pend} : f.msg = dn[x][i][2]
\* what the application sent is what is delivered
Content == \A x \in X : \A i \in DOMAIN got[x] : got[x][i].port \in {1, 2, 3} => got[x][i].pay = <<got[x][i].msg>>
\* confirmed means received
Good(x) == Len(SelectSeq(dn[x], LAMBDA r : r[4] = 0))
Confirmed == \A x \in X : Good(x) <= Len(got[Peer(x)]) + Len(e[Peer(x)].pend)
\* every frame is in exactly one place
Account == \A x \in X : Len(dn[x]) + Len(e[x].act) + Len(e[x].queue) = Len(sent[x])
Window == \A x \in X : /\ Len(e[x].act) <= WINDOW
                       /\ \A i \in DOMAIN e[x].act, j \in DOMAIN e[x].queue : e[x].act[i].f.id # e[x].queue[j].id
                       /\ \A i, j \in DOMAIN e[x].act : i # j => e[x].act[i].f.id # e[x].act[j].f.id
\* the HAL owns what the endpoint thinks it owns
Owned == \A x \in X :
    /\ e[x].acks >= 0
    /\ e[x].acks = Len(SelectSeq(hal[x], LAMBDA f : f.t = "ack"))
    /\ Len(SelectSeq(hal[x], LAMBDA f : f.t = "data")) = Len(e[x].orphan) + Len(SelectSeq(e[x].act, LAMBDA a : a.hal))
\* whatever waits has a deadline
Alive == \A x \in X : /\ (e[x].pend # << >> => e[x].rxt # NONE)
                      /\ ((\E i \in DOMAIN e[x].act : e[x].act[i].stat # "acked") => Need(e[x]) # NONE)
                      /\ (e[x].act # << >> => e[x].act[1].stat # "acked")
                      /\ (e[x].queue # << >> => Len(e[x].act) = WINDOW)
\* nothing left to do: everything has been delivered and confirmed
Finished == \A x \in X : Len(sent[x]) >= Sends(x) /\ Len(got[Peer(x)]) = Len(sent[x]) /\ Good(x) = Len(sent[x])
EndsAll == \A x \in X : Len(sent[x]) >= Sends(x) /\ Len(dn[x]) = Len(sent[x])
AllEnd == <>EndsAll
DoneWhenStuck == (Idle /\ Next2 = NONE /\ \A x \in X : Len(sent[x]) >= Sends(x)) => Finished
Live == <>Finished
=============================================================================
