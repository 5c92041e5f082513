-------------------------- MODULE TracePropagator ---------------------------
(* Checks behaviours recorded from the real PropagateQueue against          *)
(* Propagator.  Re-propagation is also compared with a second real queue    *)
(* that integrates the same samples afresh (o.fresh).                       *)
EXTENDS Propagator, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s, bad
vars == <<tr, l, s, bad>>
S0 == [cov |-> FALSE, ext |-> 0, grav |-> 0, na |-> 0, ng |-> 0, nwa |-> 0, nwg |-> 0, p |-> Zero3, v |-> Zero3, q |-> QId,
       ba |-> Zero3, bg |-> Zero3, items |-> <<>>, C |-> <<>>]
Init == tr \in 1..Len(Traces) /\ l = 0 /\ s = S0 /\ bad = {}
Bad(p, what) == {[p |-> p, w |-> ToString(what)]}
Vec(a, i) == <<a[i], a[i + 1], a[i + 2]>>
Quat4(a, i) == <<a[i], a[i + 1], a[i + 2], a[i + 3]>>

SampleOk(x, o) == o.t = x.t /\ o.a = x.a /\ o.g = x.g
PoseOk(x, o) == o.p = x.p /\ o.v = x.v /\ QSame(o.q, x.q)
CovOk(x, o) == o.P = x.P /\ o.B = x.B
\* the queue as observed against the queue of the model
QueueBad(v, o, pm, pc) ==
    IF Len(o.items) # Len(v.items) THEN Bad(pm, "queue length")
    ELSE (IF \E k \in 1..Len(v.items) : ~SampleOk(v.items[k], o.items[k]) THEN Bad(pm, "sample data") ELSE {})
         \cup (IF \E k \in 1..Len(v.items) : ~PoseOk(v.items[k], o.items[k]) THEN Bad(pm, "motion state") ELSE {})
         \cup (IF v.cov /\ (\E k \in 1..Len(v.items) : ~CovOk(v.items[k], o.items[k]) \/ o.C # v.C) THEN Bad(pc, "covariance") ELSE {})
ReproBad(u, o) ==       \* u: model before the re-propagation
    IF Len(o.s.items) # Len(u.items) \/ Len(o.fresh) # Len(u.items) THEN Bad("K03", "queue length")
    ELSE (IF ~o.ret THEN Bad("K03", "failure reported") ELSE {})
         \cup (IF \E k \in 1..Len(u.items) : ~SampleOk(u.items[k], o.s.items[k]) THEN Bad("K03", "sample data changed") ELSE {})
         \cup (IF u.items # <<>> /\ ~(PoseOk(u.items[1], o.s.items[1]) /\ CovOk(u.items[1], o.s.items[1])) THEN Bad("K03", "origin changed") ELSE {})
         \cup (IF o.s.C # u.C THEN Bad("K03", "camera covariance changed") ELSE {})
         \cup (IF \E k \in 1..Len(u.items) : ~PoseOk(o.fresh[k], o.s.items[k]) \/ ~CovOk(o.fresh[k], o.s.items[k])
               THEN Bad("K03", "differs from fresh integration") ELSE {})

RECURSIVE Lower(_, _, _)     \* 15 rows of a lower triangle listed row by row from a[i]
Lower(a, i, r) == IF r > 15 THEN <<>> ELSE <<SubSeq(a, i, i + r - 1)>> \o Lower(a, i + r, r + 1)
Sym(lo) == [i \in 1..15 |-> [j \in 1..15 |-> IF j <= i THEN lo[i][j] ELSE lo[j][i]]]
Block(a, i, r, c) == [x \in 1..r |-> SubSeq(a, i + (x - 1) * c, i + x * c - 1)]

\* ---- one step of the size real sensors produce, started at rest at the origin; gravity 9.8; op "small":
\* a = t, dt [us], q0 [half], a0, a1 [1e-3], w0, w1 [1e-4], ba [1e-3], bg [1e-4];  o.q at 1e8, o.v and o.p at 1e9
SmallBad(a, o) ==
    LET dt == a[2]
        q0 == Quat4(a, 3)
        a0 == Sub(Vec(a, 7), Vec(a, 19))  a1 == Sub(Vec(a, 10), Vec(a, 19))
        S == Sub(Add(Vec(a, 13), Vec(a, 16)), Scale(2, Vec(a, 22)))
        h == [k \in 1..3 |-> (S[k] * dt) \div 400]                     \* half the rotation vector, 1e-8
        inr == \A k \in 1..4 : Abs(o.q[k]) <= 110000000
        rel == LET r == QRaw(QConj(q0), [k \in 1..4 |-> o.q[k]]) IN [k \in 1..4 |-> r[k] \div 2]
        sg == IF rel[1] < 0 THEN -1 ELSE 1
        h6 == [k \in 1..3 |-> h[k] \div 100]
        turn == LET c == Cross(h6, a1) IN [k \in 1..3 |-> (2 * (c[k] \div 1000)) \div 1000]
        sum == Add(Turn(q0, a0), Turn(q0, Add(a1, turn)))               \* 1e-3
        v == [k \in 1..3 |-> ((sum[k] - (IF k = 3 THEN 19600 ELSE 0)) * dt) \div 2]
        vok == \A k \in 1..3 : Abs(o.v[k]) < 900000000 /\ Abs(o.v[k] - v[k]) <= 12 * dt + 100
    IN (IF ~o.ret \/ o.n # 2 THEN Bad("K01", "sample not integrated") ELSE {})
       \cup (IF ~inr \/ (\E k \in 1..3 : Abs(sg * rel[k + 1] - h[k]) > Abs(h[k]) \div 3000 + 40) \/ Abs(100000000 - sg * rel[1]) > 20000
             THEN Bad("K01", <<"orientation", rel, h>>) ELSE {})
       \cup (IF ~vok THEN Bad("K01", <<"velocity", v>>)
             ELSE IF \E k \in 1..3 : Abs(o.p[k] - ((o.v[k] \div 10000) * dt) \div 200) > 250 THEN Bad("K01", "position") ELSE {})

RECURSIVE Burst(_, _)      \* many samples in a row, seven numbers each
Burst(v, a) == IF a = <<>> THEN v ELSE Burst(TLCEval(Propagate(v, a[1], Vec(a, 2), Vec(a, 5))), TLCEval(SubSeq(a, 8, Len(a))))

Next ==
    /\ l < Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ LET e == Traces[tr].ev[l + 1]
           a == e.a
           o == e.o
       IN
       CASE e.op = "cfg" ->
              /\ s' = [s EXCEPT !.cov = (a[3] = 1), !.ext = a[4], !.grav = a[5], !.na = a[6], !.ng = a[7], !.nwa = a[8], !.nwg = a[9],
                                !.p = Vec(a, 10), !.v = Vec(a, 13), !.q = Quat4(a, 16)]
              /\ bad' = {}
         [] e.op = "win" -> s' = s /\ bad' = {}
         [] e.op = "clear" -> s' = Clear(s) /\ bad' = {}
         [] e.op = "bias" -> s' = [s EXCEPT !.ba = Vec(a, 1), !.bg = Vec(a, 4)] /\ bad' = {}
         [] e.op = "origin" ->
              s' = [s EXCEPT !.items[1].p = Vec(a, 1), !.items[1].v = Vec(a, 4), !.items[1].q = Quat4(a, 7)] /\ bad' = {}
         [] e.op = "setcov" ->
              LET n == a[121] IN
              /\ s' = [s EXCEPT !.items[1].P = TLCEval(Sym(Lower(a, 1, 1))), !.items[1].B = TLCEval(Block(a, 122, 15, n)),
                                !.C = TLCEval(Block(a, 122 + 15 * n, n, n))]
              /\ bad' = {}
         [] e.op = "prop" ->
              LET v == Propagate(s, a[1], Vec(a, 2), Vec(a, 5)) IN
              /\ IF s.items = <<>> THEN TRUE
                 ELSE Assert(DeltaOk(Theta(s, s.items[Len(s.items)], [t |-> a[1], g |-> Vec(a, 5)])), "scenario outside the exact fragment")
              /\ s' = v /\ bad' = QueueBad(v, o.s, "K01", "K02") \cup (IF ~o.ret THEN Bad("K01", "failure reported") ELSE {})
         [] e.op = "burst" ->
              LET v == Burst(s, a) IN s' = v /\ bad' = QueueBad(v, o.s, "K01", "K02") \cup (IF ~o.ret THEN Bad("K01", "failure reported") ELSE {})
         [] e.op = "repro" ->
              LET v == TLCEval(Repropagate(s)) IN
              /\ s' = v
              /\ bad' = ReproBad(s, o) \cup QueueBad(v, o.s, "K01", "K02")
         [] e.op = "reset" ->
              LET v == ResetOrigin(s, a[1], a[2]) IN
              /\ s' = v
              /\ bad' = QueueBad(v, o.s, "K04", "K04") \cup (IF o.ret # (v.items # <<>>) THEN Bad("K04", "result") ELSE {})
         [] e.op = "small" -> s' = s /\ bad' = SmallBad(a, o)
         [] OTHER -> s' = s /\ bad' = Bad("*", <<"crash or hang", o>>)
Spec == Init /\ [][Next]_vars

For(ps) == \A b \in bad : b.p \notin ps
Conf_K01 == For({"K01", "*"})
Conf_K02 == For({"K02", "*"})
Conf_K03 == For({"K03", "*"})
Conf_K04 == For({"K04", "*"})
=============================================================================
