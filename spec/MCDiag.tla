------------------------------- MODULE MCDiag -------------------------------
EXTENDS Diag, TLC, Json
CONSTANTS Slots, Logging
Do(A, r) == A /\ act' = r
Init == /\ fatal = 0 /\ print = 0 /\ log = "none" /\ level = 6 /\ global = 10 /\ alloc = "none" /\ free = "none" /\ live = {} /\ out = << >> /\ act = [op |-> "reset"]
LogNext ==
    \/ \E h \in 0..2 : Do(PrintSet(h), [op |-> "print_set", h |-> h])
    \/ \E h \in 0..2 : Do(LogInit(h), [op |-> IF h = 0 THEN "log_fini" ELSE "log_init", h |-> h])
    \/ \E p \in {<<6, 10>>, <<-1, 10>>, <<9, 2>>, <<10, 10>>} : Do(Level(p[1], p[2]), [op |-> "level", l |-> p[1], g |-> p[2]])
    \/ \E l \in {0, 2, 3, 6, 9} : Do(Log(l, 110, "f", "x"), [op |-> "log", l |-> l, how |-> "f", s |-> "x"])
    \/ \E a \in {0, 1} : Do(Arg("true", a, 0), [op |-> "arg", m |-> "true", a |-> a, b |-> 0])
    \/ \E a \in {0, 7} : Do(OnError("msg", a, 0), [op |-> "onerr", m |-> "msg", a |-> a, b |-> 0])
AllocNext ==
    \/ Do(LibInit, [op |-> "lib_init"])
    \/ \E a \in 0..2, f \in 0..2 : Do(AllocSet(a, f), [op |-> "alloc_set", a |-> a, f |-> f])
    \/ \E k \in {"plain", "clr", "lib"}, i \in Slots, x \in BOOLEAN : Do(Alloc(k, i, 5, x), [op |-> "alloc", kind |-> k, i |-> i, n |-> 5, fail |-> x])
    \/ \E k \in {"plain", "lib"}, i \in Slots \cup {-1} : Do(Free(k, i), [op |-> "free", kind |-> k, i |-> i, kept |-> free = "none"])
Next == \/ \E h \in 0..2 : Do(FatalSet(h), [op |-> "fatal_set", h |-> h])
        \/ Do(Say(9, "m"), [op |-> "say", line |-> 9, msg |-> "m"])
        \/ \E a \in {0, 1} : Do(Dbc("true", a, 0), [op |-> "dbc", m |-> "true", a |-> a, b |-> 0])
        \/ IF Logging THEN LogNext ELSE AllocNext
Spec == Init /\ [][Next]_<<vars, act>>
View == conf
\* --- nothing is said twice, nothing to a handler that was replaced, and only what is wanted
Once == Len(out) <= 2 /\ (Len(out) = 2 => act.op \in {"alloc", "free"})
Current == \A i \in 1..Len(out) : LET c == out[i] IN
    /\ c.k = "fatal" => c.h = fatal
    /\ c.k = "print" => c.h = print /\ print # 0
    /\ c.k = "out" => print = 0
    /\ c.k = "log" => log = H(c.h)
    /\ c.k = "alloc" => alloc = H(c.h)
    /\ c.k = "free" => free = H(c.h)
Filtered == act.op = "log" /\ ~Wanted(act.l) => out = << >>
Heard == act.op = "log" /\ Wanted(act.l) /\ log # "none" => Len(out) = 1
FatalHeard == act.op = "say" => Len(out) = 1
\* checked on every transition
Said == [][(Once /\ Current /\ Filtered /\ Heard /\ FatalHeard)']_<<vars, act>>
\* the macros: exactly the values for which the condition of its name fails
Opposite == \A a \in -3..3, b \in -3..3 :
    /\ Cond("gt", a, b)[1] = ~Cond("lte", a, b)[1] /\ Cond("lt", a, b)[1] = ~Cond("gte", a, b)[1]
    /\ Cond("eq", a, b)[1] = ~Cond("ne", a, b)[1] /\ Cond("true", a, b)[1] = ~Cond("false", a, b)[1]
    /\ Cond("range", a, b)[1] = (a \in b..(b + 2))
Distinct == \A i, j \in 1..Len(Codes) : i # j => Codes[i] # Codes[j] /\ Codes[i][1] # Codes[j][1]
Named == Len(Names) = 11 /\ Len(Chars) = 11 /\ \A i, j \in 1..11 : i # j => Names[i] # Names[j]
ASSUME Opposite /\ Distinct /\ Named
Emit == PrintT("T|" \o ToJson(conf) \o "|" \o ToJson(act') \o "|" \o ToJson(conf'))
=============================================================================
