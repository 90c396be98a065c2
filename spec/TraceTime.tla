----------------------------- MODULE TraceTime -----------------------------
(* Every recorded conversion against Time, on 64 bit values.  A conversion    *)
(* whose exact intermediate product does not fit 64 bits is left open.        *)
EXTENDS Wide, Json, IOUtils, TLC
T == INSTANCE Time WITH add <- Add, mul <- Mul, less <- Less, neg <- Neg, up <- Up30, down <- Down30, num <- Small
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bn == Mul(Small(1000000), Small(1000))
Freq(k) == CASE k = "s" -> Small(1) [] k = "ms" -> Small(1000) [] k = "us" -> Small(1000000) [] k = "ns" -> Bn
Half == Mul(Small(536870912), Small(1))
To(x, z, e) == LET p == Mul(x, z) IN
    /\ Less(Zero, z)
    /\ Fits(Add(p, Two30)) =>
        /\ T!IsNear(x, z, Ext(e.near))
        /\ T!IsCeil(x, z, Ext(e.up))
        /\ T!Floor(x, z) = Ext(e.down)
Unit(x, k, r) == LET p == Mul(x, Freq(k)) IN Fits(Add(p, Two30)) => T!IsNear(x, Freq(k), r)
From(c, z, r) == Less(Zero, z) /\ (Fits(Up30(c)) => T!IsFrom(c, z, r))
Within(x, b) == Less(T!abs(x), b)
\* a double holds 53 bits and a float 24
F64(e) == Within(Ext(e.x), Two53) => (e.exact /\ Ext(e.scaled) = Ext(e.x) /\ Ext(e.back) = Ext(e.x))
F32(e) == Within(Ext(e.x), Small(16777216)) => (e.exact /\ Ext(e.scaled) = Ext(e.x) /\ Ext(e.back) = Ext(e.x))
\* m / 2^e seconds, cut off towards zero: |r| * 2^e <= |m| * 2^30 < (|r| + 1) * 2^e
TwoTo(n) == IF n < 30 THEN Small(2^n) ELSE Mul(Two30, Small(2^(n - 30)))
Cut(m, n, r) == LET p == Up30(T!abs(m)) q == T!abs(r) IN
    /\ ~Less(p, Mul(q, TwoTo(n))) /\ Less(p, Mul(Add(q, Small(1)), TwoTo(n)))
    /\ (r # Zero => IsNeg(r) = IsNeg(m))
Trunc(e) == LET m == Ext(e.m) IN
    /\ Within(m, Two53) /\ Cut(m, e.e, Ext(e.r))
    /\ (Within(m, Small(16777216)) => Cut(m, e.e, Ext(e.r32)))
Times(n, a) == Mul(Small(n), Ext(a))
Is(a, b) == Ext(a) = b
Const(e) ==
    /\ e.q = 30 /\ e.epoch = 1514764800
    /\ Is(e.second, Two30)
    /\ \* as close below the true value as the format allows
       \A p \in {<<e.ms, 1000>>, <<e.us, 1000000>>} : LET m == Times(p[2], p[1]) IN ~Less(Two30, m) /\ Less(Two30, Add(m, Small(p[2])))
    /\ Is(e.ns, Small(1))
    /\ Is(e.minute, Times(60, e.second)) /\ Is(e.hour, Times(3600, e.second)) /\ Is(e.day, Times(86400, e.second))
    /\ Is(e.week, Times(604800, e.second)) /\ Is(e.year, Times(31536000, e.second)) /\ Times(12, e.month) = Ext(e.year)
    /\ Is(e.max, Sub(Two63, Small(1))) /\ Is(e.min, Neg(Two63))
Check(e) ==
    CASE e.op = "reset" -> TRUE
      [] e.op = "to" -> To(Ext(e.x), Ext(e.z), e)
      [] e.op = "unit" -> Unit(Ext(e.x), e.k, Ext(e.near))
      [] e.op = "from" -> From(Ext(e.c), Ext(e.z), Ext(e.r))
      [] e.op = "of" -> From(Ext(e.c), Freq(e.k), Ext(e.r))
      [] e.op = "f64" -> F64(e)
      [] e.op = "f32" -> F32(e)
      [] e.op = "trunc" -> Trunc(e)
      [] e.op = "abs" -> Fits(Neg(Ext(e.x))) => T!abs(Ext(e.x)) = Ext(e.r)
      [] e.op = "const" -> Const(e)
      [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Check(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
