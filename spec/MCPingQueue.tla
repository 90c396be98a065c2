---------------------------- MODULE MCPingQueue -----------------------------
(* The queue of pings over a link that delivers every ping at most once and in *)
(* order, or gives it up, whose responses may be lost, and that may confirm a  *)
(* ping before or after its response.                                          *)
EXTENDS PingQueue, Json
CONSTANTS TOTAL, LOSSES, FAILS, STEP, STRAYS
VARIABLES rsp,     \* responses on their way
          open,    \* pings the link has not confirmed yet
          lost, fails, strays,
          got      \* pings whose response has arrived
mv == <<vars, rsp, open, lost, fails, strays, got>>
Add == rsp' = rsp \o [i \in DOMAIN sent' |-> sent'[i][2]] /\ open' = open \o [i \in DOMAIN sent' |-> sent'[i][2]]
MCInit == /\ total = TOTAL /\ act = [op |-> "reset", count |-> TOTAL] /\ n = <<0, 0, 0, 0>> /\ delay = 0
          /\ LET new == Min(DEPTH, TOTAL) IN
             /\ gen = new /\ q = [i \in 1..new |-> [k |-> i - 1, age |-> 0, rsp |-> FALSE, done |-> FALSE]]
             /\ sent = [i \in 1..new |-> <<Id(i - 1), i - 1>>]
             /\ rsp = [i \in 1..new |-> i - 1] /\ open = [i \in 1..new |-> i - 1]
          /\ lost = 0 /\ fails = 0 /\ strays = 0 /\ got = {}
Rest(a, b) == a' = Tail(a) \o b
New == [i \in DOMAIN sent' |-> sent'[i][2]]
Arrive == /\ rsp # << >> /\ Response(Id(Head(rsp)), Head(rsp)) /\ Rest(rsp, New) /\ open' = open \o New
          /\ got' = got \cup {Head(rsp)} /\ UNCHANGED <<lost, fails, strays>>
Lose == /\ rsp # << >> /\ lost < LOSSES /\ rsp' = Tail(rsp) /\ lost' = lost + 1
        /\ UNCHANGED <<total, gen, q, n, delay, open, fails, strays, got>> /\ sent' = << >> /\ act' = [op |-> "none"]
Confirm == /\ open # << >> /\ Report(Id(Head(open)), 0) /\ Rest(open, New) /\ rsp' = rsp \o New /\ UNCHANGED <<lost, fails, strays, got>>
GiveUp == /\ open # << >> /\ fails < FAILS /\ Report(Id(Head(open)), 11) /\ Rest(open, New)
          /\ rsp' = rsp \o New        \* its response may still come
          /\ fails' = fails + 1 /\ UNCHANGED <<lost, strays, got>>
\* a response of an earlier session, a repeated or a damaged one
Stray == /\ strays < STRAYS /\ strays' = strays + 1
         /\ \E k \in {-2} \cup got : Response(Id(k), k) /\ rsp' = rsp \o New /\ open' = open \o New /\ UNCHANGED <<lost, fails, got>>
PollIt == Poll /\ Add /\ UNCHANGED <<lost, fails, strays, got>>
Pass == /\ (delay > 0 \/ \E i \in DOMAIN q : q[i].age < TIMEOUT) /\ Wait(STEP) /\ UNCHANGED <<rsp, open, lost, fails, strays, got>>
MCNext == Arrive \/ Lose \/ Confirm \/ GiveUp \/ Stray \/ PollIt \/ Pass
MCSpec == MCInit /\ [][MCNext]_mv
\* a ping is counted as missing only if its response has not come; a completed one had both
Truth == \A i \in DOMAIN q : q[i].rsp => q[i].k \in got
Fair == n[1] + n[3] + n[2] + n[4] + Len(q) = gen /\ n[1] <= 0 + gen
NoFalseMissing == [][n'[3] > n[3] => n'[3] - n[3] <= Count(q, LAMBDA m : Waits(m) /\ m.k \notin got')]_mv
Ack == [][n'[1] - n[1] <= Count(q, LAMBDA m : m.k \in got' /\ (m.done \/ act'.op = "done"))]_mv
Emit == PrintT("T|" \o ToJson(<<total, gen, q, n, delay, rsp, open, lost, fails, strays, got>>) \o "|" \o ToJson(act') \o "|"
                    \o ToJson(<<total, gen', q', n', delay', rsp', open', lost', fails', strays', got'>>))
View == <<gen, q, n, delay, rsp, open, lost, fails, strays, got>>
=============================================================================
