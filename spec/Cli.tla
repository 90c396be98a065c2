-------------------------------- MODULE Cli ---------------------------------
(* Line-oriented command interface (include/embc/cli.h).  Characters are      *)
(* codes.  Every event reports what was printed before and after the command  *)
(* ran, and the command (or argument vector) handed to the application.       *)
EXTENDS Integers, Sequences, SequencesExt, TLC
VARIABLES cfg,   \* [mode: "line" | "args" | "none": what the application handles, prompt, echo: 0 off 1 on 2 user, user: char, verbose,
         \*  print: whether there is a function to print with]
          raw,   \* the characters of the line so far, at most LEN of them
          n,     \* how many characters the line really has
          cr,    \* the last character was CR
          act
vars == <<cfg, raw, n, cr, act>>
LEN == 64
MAXARGS == 16
BS == 8
DEL == 127
TAB == 9
LF == 10
CR == 13
SP == 32
OK == <<79, 75, 10>>          \* "OK\n"
ERR == <<69, 82, 10>>         \* "ER\n"
TOOLONG == <<77, 97, 120, 105, 109, 117, 109, 32, 99, 111, 109, 109, 97, 110, 100, 32, 108, 105, 110, 101, 32,
             108, 101, 110, 103, 116, 104, 32, 114, 101, 97, 99, 104, 101, 100>>
None == [mode |-> "", prompt |-> << >>, echo |-> 0, user |-> 0, verbose |-> FALSE, print |-> FALSE]
Init == cfg = None /\ raw = << >> /\ n = 0 /\ cr = FALSE /\ act = [op |-> "init"]

Comment(ch) == ch \in {35, 37, 64}
White(ch) == ch \in {SP, TAB}
Delim(ch) == ch \in {SP, TAB, 44}
\* the line up to a comment, runs of white space squeezed to one blank, none at the ends
UpToComment(s) == IF \E i \in 1..Len(s) : Comment(s[i])
                  THEN SubSeq(s, 1, (CHOOSE i \in 1..Len(s) : Comment(s[i]) /\ \A j \in 1..(i - 1) : ~Comment(s[j])) - 1)
                  ELSE s
Squeeze(s) == LET f(acc, ch) == IF White(ch) THEN (IF acc = << >> THEN acc ELSE IF Last(acc) = SP THEN acc ELSE Append(acc, SP))
                                ELSE Append(acc, ch)
                  r == FoldLeft(f, << >>, s)
              IN IF r # << >> /\ (IF r = << >> THEN FALSE ELSE Last(r) = SP) THEN Front(r) ELSE r
HasComment(s) == \E i \in 1..Len(s) : Comment(s[i])
Text == Squeeze(UpToComment(raw))
\* characters were lost unless a comment began before the limit; a lost tail is never ignored
TooLong == (n > LEN /\ ~HasComment(raw)) \/ Len(Text) >= LEN
Args(s) == LET f(acc, ch) == IF Delim(ch) THEN (IF Last(acc) = << >> THEN acc ELSE Append(acc, << >>))
                             ELSE Append(Front(acc), Append(Last(acc), ch))
               r == FoldLeft(f, << << >> >>, s)
           IN IF Last(r) = << >> THEN Front(r) ELSE r
Echo(ch) == CASE cfg.echo = 0 -> << >> [] cfg.echo = 1 -> <<ch>> [] OTHER -> <<cfg.user>>

P(x) == IF cfg.print THEN x ELSE << >>
Configure(mode, prompt, echo, user, verbose, print) ==
    /\ cfg' = [mode |-> mode, prompt |-> prompt, echo |-> echo, user |-> user, verbose |-> verbose, print |-> print]
    /\ raw' = << >> /\ n' = 0 /\ cr' = FALSE
    /\ act' = [op |-> "reset", mode |-> mode, prompt |-> prompt, echo |-> echo, user |-> user, verbose |-> verbose, print |-> print, out |-> IF print THEN prompt ELSE << >>]
SetEcho(echo, user) == /\ cfg' = [cfg EXCEPT !.echo = echo, !.user = user] /\ UNCHANGED <<raw, n, cr>>
                       /\ act' = [op |-> "echo", echo |-> echo, user |-> user]
SetVerbose(v) == /\ cfg' = [cfg EXCEPT !.verbose = v] /\ UNCHANGED <<raw, n, cr>>
                 /\ act' = [op |-> "verbose", v |-> v]
\* a run of ordinary characters
Feed(cs) ==
    /\ cfg.mode # "" /\ \A i \in 1..Len(cs) : cs[i] \notin {BS, DEL, LF, CR, 0}
    /\ raw' = IF n > LEN THEN raw ELSE SubSeq(raw \o cs, 1, IF Len(raw) + Len(cs) > LEN THEN LEN ELSE Len(raw) + Len(cs))
    /\ n' = n + Len(cs)
    /\ cr' = (cr /\ cs = << >>)
    /\ act' = [op |-> "feed", cs |-> cs, out |-> P(FlattenSeq([i \in 1..Len(cs) |-> Echo(cs[i])])), ran |-> FALSE]
    /\ UNCHANGED cfg
Rub(ch) ==
    /\ cfg.mode # "" /\ ch \in {BS, DEL}
    /\ n' = IF n = 0 THEN 0 ELSE n - 1
    /\ raw' = IF n > LEN \/ n = 0 THEN raw ELSE Front(raw)
    /\ cr' = FALSE
    /\ act' = [op |-> "rub", ch |-> ch, out |-> P(IF n = 0 \/ cfg.echo = 0 THEN << >> ELSE <<8, 32, 8>>), ran |-> FALSE]
    /\ UNCHANGED cfg
\* end of line; rc is what the application would answer (-1: success without a response)
EndLine(ch, rc) ==
    /\ cfg.mode # "" /\ ch \in {CR, LF}
    /\ cr' = (ch = CR)
    /\ UNCHANGED cfg
    /\ IF ch = LF /\ cr
       THEN /\ UNCHANGED <<raw, n>>
            /\ act' = [op |-> "eol", ch |-> ch, rc |-> rc, pre |-> << >>, runs |-> 0, cmd |-> << >>, cookie |-> TRUE, post |-> << >>]
       ELSE /\ raw' = << >> /\ n' = 0
            /\ LET args == Args(Text)
                   bad == cfg.mode = "args" /\ Len(args) > MAXARGS
                   run == ~TooLong /\ cfg.mode # "none" /\ Text # << >> /\ ~bad /\ (cfg.mode = "args" => args # << >>)
                   \* the result the interface sees
                   res == IF bad THEN 3 ELSE IF run THEN rc ELSE 0
                   resp == IF res = -1 THEN << >>
                           ELSE (IF cfg.verbose THEN Text \o <<LF>> ELSE << >>) \o (IF res = 0 THEN OK ELSE ERR)
                   body == IF TooLong THEN TOOLONG \o <<LF>> ELSE IF Text = << >> THEN << >> ELSE resp
               IN act' = [op |-> "eol", ch |-> ch, rc |-> rc,
                          pre |-> P(IF run THEN <<LF>> ELSE << >>),
                          runs |-> IF run THEN 1 ELSE 0,
                          cmd |-> IF ~run THEN << >> ELSE IF cfg.mode = "args" THEN args ELSE <<Text>>,
                          cookie |-> TRUE,
                          post |-> P((IF run THEN << >> ELSE <<LF>>) \o body \o cfg.prompt)]
\* the parser called directly
Parse(s, rc) ==
    /\ cfg.mode # "" /\ Len(s) < LEN
    /\ LET args == Args(s)
           bad == Len(args) > MAXARGS \/ (cfg.mode # "args" /\ args # << >>)     \* nobody takes arguments
       IN act' = [op |-> "parse", cs |-> s, rc |-> rc, runs |-> IF bad \/ args = << >> THEN 0 ELSE 1,
                  cmd |-> IF bad THEN << >> ELSE args, cookie |-> TRUE,
                  ret |-> IF bad THEN 3 ELSE IF args = << >> THEN 0 ELSE rc]
    /\ UNCHANGED <<cfg, raw, n, cr>>
\* a text longer than any line, straight to the parser: whether it is refused or cut is open,
\* but no word is made up
ParseLong(s, runs, cmd, ret) ==
    /\ cfg.mode # "" /\ Len(s) >= LEN
    /\ \/ runs = 0 /\ cmd = << >>
       \/ runs = 1 /\ cfg.mode = "args" /\ \E k \in 1..Len(s) : cmd = Args(SubSeq(s, 1, k))
    /\ UNCHANGED <<cfg, raw, n, cr>>
Kept == Len(raw) <= LEN /\ Len(raw) <= n /\ (n <= LEN => Len(raw) = n)
=============================================================================
