-------------------------------- MODULE Diag --------------------------------
(* Diagnostics: fatal errors, printing, logging, the allocator hooks, the     *)
(* checking macros and the error code texts (src/lib.c, src/log.c,            *)
(* src/platform.c, src/ec.c; assert.h, dbc.h, argchk.h, cdef.h).              *)
(* Every action states, in out, exactly which user functions are called, in   *)
(* order, with which arguments.                                               *)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC
VARIABLES fatal,    \* the fatal handler: 0 (none), 1, 2
          print,    \* the print handler
          log,      \* "none", "lib" (the library's own, which prints), "h1", "h2"
          level, global,    \* log levels
          alloc, free,      \* "none", "lib", "h1", "h2"
          live,     \* slots that hold a block
          out,      \* the calls made by the last operation
          act
vars == <<fatal, print, log, level, global, alloc, free, live, out>>
conf == <<fatal, print, log, level, global, alloc, free, live>>
Call(k, h, s) == [k |-> k, h |-> h, s |-> s]
PrintLimit == 8191
Cap(s) == IF Len(s) > PrintLimit THEN SubSeq(s, 1, PrintLimit) ELSE s
\* the library prints s
Prints(s) == IF print = 0 THEN <<Call("out", 0, s)>> ELSE <<Call("print", print, Cap(s))>>
Place(file, line) == file \o ":" \o ToString(line)
Fatal(file, line, msg) ==
    IF fatal # 0 THEN <<Call("fatal", fatal, Place(file, line) \o ":" \o msg)>>
    ELSE Prints("FATAL: " \o file \o " : " \o ToString(line) \o " : " \o msg)
Chars == "!ACEWNIDDD."
Names == <<"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARN", "NOTICE", "INFO", "DEBUG", "DEBUG2", "DEBUG3", "ALL">>
Wanted(l) == l >= 0 /\ l <= level /\ l <= global
Logs(l, line, msg) ==
    IF ~Wanted(l) THEN << >>
    ELSE LET s == SubSeq(Chars, l + 1, l + 1) \o " d.c:" \o ToString(line) \o ": " \o msg \o "\n" IN
         CASE log = "none" -> << >> [] log = "lib" -> Prints(s) [] log = "h1" -> <<Call("log", 1, s)>> [] log = "h2" -> <<Call("log", 2, s)>>
Reset == /\ fatal' = 0 /\ print' = 0 /\ log' = "none" /\ level' = 6 /\ global' = 10 /\ alloc' = "none" /\ free' = "none" /\ live' = {} /\ out' = << >>
FatalSet(h) == fatal' = h /\ out' = << >> /\ UNCHANGED <<print, log, level, global, alloc, free, live>>
PrintSet(h) == print' = h /\ log' = "lib" /\ out' = << >> /\ UNCHANGED <<fatal, level, global, alloc, free, live>>
H(h) == CASE h = 0 -> "none" [] h = 1 -> "h1" [] h = 2 -> "h2"
LogInit(h) == log' = H(h) /\ out' = << >> /\ UNCHANGED <<fatal, print, level, global, alloc, free, live>>
Level(l, g) == level' = l /\ global' = g /\ out' = << >> /\ UNCHANGED <<fatal, print, log, alloc, free, live>>
LibInit == alloc' = "lib" /\ free' = "lib" /\ out' = << >> /\ UNCHANGED <<fatal, print, log, level, global, live>>
AllocSet(a, f) == alloc' = H(a) /\ free' = H(f) /\ out' = << >> /\ UNCHANGED <<fatal, print, log, level, global, live>>
\* the place of a fatal error inside the library is not the user's
Inside(msg) == <<Call("fatal", fatal, "*:0:" \o msg)>>
Alloc(kind, i, n, fails) ==
    /\ i \notin live
    /\ (fails \/ alloc = "none") => fatal # 0 /\ kind = "plain"
    /\ fails => alloc \in {"h1", "h2"}
    /\ LET ask == CASE alloc = "none" -> Inside("no alloc")
                    [] alloc = "lib" -> << >>
                    [] alloc = "h1" -> <<Call("alloc", 1, ToString(n))>>
                    [] alloc = "h2" -> <<Call("alloc", 2, ToString(n))>>
           ok == alloc # "none" /\ ~fails
       IN /\ out' = IF ok THEN ask ELSE ask \o Inside("memory allocation")
          /\ live' = IF ok THEN live \cup {i} ELSE live
    /\ UNCHANGED <<fatal, print, log, level, global, alloc, free>>
AllocOk(fails) == alloc # "none" /\ ~fails
Free(kind, i) ==
    /\ i = -1 \/ i \in live
    /\ ((i = -1 /\ kind = "plain") \/ free = "none") => fatal # 0
    /\ LET give == CASE free = "none" -> Inside("no free")
                     [] free = "lib" -> << >>
                     [] free = "h1" -> <<Call("free", 1, ToString(i))>>
                     [] free = "h2" -> <<Call("free", 2, ToString(i))>>
       IN out' = IF i # -1 THEN give ELSE IF kind = "lib" THEN << >> ELSE Inside("assert") \o give
    /\ live' = live \ {i}
    /\ UNCHANGED <<fatal, print, log, level, global, alloc, free>>
Same(o) == out' = o /\ UNCHANGED conf
Say(line, msg) == Same(Fatal("d.c", line, msg))
\* how a message is given: as it is, with a format, as a literal, with ten arguments
Text(how, s) == CASE how = "m" -> s [] how = "f" -> s \o " 42" [] how = "lit" -> "plain 100%%s" [] how = "f11" -> s \o "123456789"
Log(l, line, how, s) == Same(Logs(l, line, Text(how, s)))
RECURSIVE Ys(_)
Ys(n) == IF n = 0 THEN "" ELSE IF n = 1 THEN "y" ELSE Ys(n \div 2) \o Ys(n - n \div 2)
LogLong(l, line, n) == Same(Logs(l, line, Ys(n)))
\* --- the macros: <<holds, message>>; b + 2 is the upper limit of the ranges
Cond(m, a, b) ==
    CASE m = "true" -> <<a # 0, "a is false">>
      [] m = "false" -> <<a = 0, "a is true">>
      [] m = "notnull" -> <<a # 0, "p is null">>
      [] m = "eq" -> <<a = b, "a != b">>
      [] m = "gt" -> <<a > b, "a !> b">>
      [] m = "gte" -> <<a >= b, "a !>= b">>
      [] m = "ne" -> <<a # b, "a != b">>
      [] m = "lt" -> <<a < b, "a !< b">>
      [] m = "lte" -> <<a <= b, "a !<= b">>
      [] m = "gt0" -> <<a > 0, "a !> 0">>
      [] m = "gte0" -> <<a >= 0, "a !>= 0">>
      [] m = "ne0" -> <<a # 0, "a != 0">>
      [] m = "lt0" -> <<a < 0, "a !< 0">>
      [] m = "lte0" -> <<a <= 0, "a !<= 0">>
      [] m = "range" -> <<b <= a /\ a <= b + 2, IF a < b THEN "a too small" ELSE "a too big">>
      [] m = "req" -> <<a = b, "a == b">>
      [] m = "assert" -> <<a # b, "own text">>
      [] m = "hard" -> <<a # b, "assert">>
      [] m = "halloc" -> <<a # 0, "memory allocation">>
      [] m = "fatal" -> <<FALSE, "told so">>
DbcMacros == {"true", "false", "notnull", "eq", "gt", "gte", "ne", "lt", "lte", "gt0", "gte0", "ne0", "lt0", "lte0", "range", "req", "assert", "hard", "halloc", "fatal"}
\* the fatal handler may return: execution then goes on
Dbc(m, a, b) == LET c == Cond(m, a, b) IN
    Same(IF c[1] THEN << >> ELSE Fatal(IF m \in {"hard", "halloc", "fatal"} THEN "e.c" ELSE "d.c", 100, c[2]))
\* argument checks return the error code, and say so at the info level
ArgText(m, a, b) ==
    CASE m = "gt0" -> "a <= 0" [] m = "gte0" -> "a < 0" [] m = "ne0" -> "a != 0" [] m = "lt0" -> "a >= 0" [] m = "lte0" -> "a > 0"
      [] m = "range" -> IF a < b THEN "a [" \o ToString(a) \o "] < " \o ToString(b) ELSE "a [" \o ToString(a) \o "] > " \o ToString(b + 2)
      [] OTHER -> Cond(m, a, b)[2]
ArgMacros == {"true", "false", "notnull", "gt0", "gte0", "ne0", "lt0", "lte0", "range", "req", "assert"}
ArgReturns(m, a, b) == IF Cond(m, a, b)[1] THEN 0 ELSE 5
Arg(m, a, b) == Same(IF Cond(m, a, b)[1] THEN << >> ELSE Logs(6, 101, "chk_assert: " \o ArgText(m, a, b)))
Codes == <<
    <<"SUCCESS", "Success (no error)">>, <<"UNSPECIFIED", "Unspecified error">>,
    <<"NOT_ENOUGH_MEMORY", "Insufficient memory to complete the operation">>, <<"NOT_SUPPORTED", "Operation is not supported">>,
    <<"IO", "Input/output error">>, <<"PARAMETER_INVALID", "The parameter value is invalid">>,
    <<"INVALID_RETURN_CONDITION", "The function return condition is invalid">>, <<"INVALID_CONTEXT", "The context is invalid">>,
    <<"INVALID_MESSAGE_LENGTH", "The message length in invalid">>, <<"MESSAGE_INTEGRITY", "The message integrity check failed">>,
    <<"SYNTAX_ERROR", "A syntax error was detected">>, <<"TIMED_OUT", "The operation did not complete in time">>,
    <<"FULL", "The target of the operation is full">>, <<"EMPTY", "The target of the operation is empty">>,
    <<"TOO_SMALL", "The target of the operation is too small">>, <<"TOO_BIG", "The target of the operation is too big">>,
    <<"NOT_FOUND", "The requested resource was not found">>, <<"ALREADY_EXISTS", "The requested resource already exists">>,
    <<"PERMISSIONS", "Insufficient permissions to perform the operation.">>, <<"BUSY", "The requested resource is currently busy.">>,
    <<"UNAVAILABLE", "The requested resource is currently unavailable.">>, <<"IN_USE", "The requested resource is currently in use.">>,
    <<"CLOSED", "The requested resource is currently closed.">>, <<"SEQUENCE", "The requested operation was out of sequence.">>,
    <<"ABORTED", "The requested operation was previously aborted.">>, <<"SYNCHRONIZATION", "The target is not synchronized with the originator.">> >>
Code(e) == IF e >= 0 /\ e < Len(Codes) THEN Codes[e + 1] ELSE <<"UNKNOWN", "Unknown error">>
\* return / leave on an error: <<result, went on>>
OnErrorResult(m, a, b) ==
    CASE m \in {"ret", "msg"} -> <<a, a = 0>>
      [] m = "exit" -> <<b, a = 0>>
      [] m = "with" -> <<IF a # 0 THEN a ELSE b, a = 0>>
OnError(m, a, b) == Same(IF m = "msg" /\ a # 0 THEN Logs(3, 102, "[" \o ToString(a) \o ":" \o Code(a)[1] \o "] went wrong") ELSE << >>)
Ec(e) == Same(<< >>)
=============================================================================
