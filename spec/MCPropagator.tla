---------------------------- MODULE MCPropagator ----------------------------
(* Exhaustive check of Propagator itself over a small alphabet of samples,  *)
(* corrections, re-propagations and origin moves.                           *)
EXTENDS Propagator, FiniteSets
CONSTANTS Depth, Cov
VARIABLES s, n, log, last        \* log: samples ever integrated since the origin was last replaced; last: <<kind, state before>>
vars == <<s, n, log, last>>
D == <<2, 2, -2>>
S0 == [cov |-> Cov, ext |-> 1, grav |-> 10, na |-> 1, ng |-> 2, nwa |-> 3, nwg |-> 1, p |-> <<4, 0, -4>>, v |-> <<2, 0, 0>>, q |-> <<1, 1, -1, 1>>,
       ba |-> Zero3, bg |-> Zero3, items |-> <<>>, C |-> <<>>]
Init == s = S0 /\ n = 0 /\ log = <<>> /\ last = <<"init", S0>>
T == IF s.items = <<>> THEN n ELSE s.items[Len(s.items)].t
Rates == IF s.bg = Zero3 THEN {Zero3, D} ELSE {Zero3, Scale(-1, D)}
Gyro(r) == IF s.items = <<>> THEN Zero3 ELSE Sub(Scale(2, Add(r, s.bg)), s.items[Len(s.items)].g)
Accels == {<<0, 0, 10>>, <<2, -2, 12>>}
Do(kind, v) == s' = v /\ n' = n + 1 /\ last' = <<kind, s>>
Prop == \E a \in Accels, r \in Rates : LET g == Gyro(r) IN Do("prop", Propagate(s, T + 1, a, g))
Bias == Len(s.items) > 0 /\ Do("bias", [s EXCEPT !.bg = IF @ = Zero3 THEN D ELSE Zero3, !.ba = IF @ = Zero3 THEN <<2, 0, -2>> ELSE Zero3])
Origin == Len(s.items) > 0 /\ Do("origin", [s EXCEPT !.items[1].q = QMul(@, <<1, 1, 1, 1>>), !.items[1].v = Add(@, <<0, 2, 0>>)])
Repro == Do("repro", Repropagate(s))
Reset == \E t \in {T - 1, T + 1}, thr \in {0, 1} : Do("reset", ResetOrigin(s, t, thr))
Next == n < Depth /\ (Prop \/ Bias \/ Origin \/ Repro \/ Reset) /\ log' = log
Spec == Init /\ [][Next]_vars
\* the orientation stays a unit quaternion
UnitQ == \A k \in 1..Len(s.items) : QNorm4(s.items[k].q) = 4
\* re-propagating twice is re-propagating once; the origin, the samples and their number stay
Idempotent == LET r == Repropagate(s) IN
    /\ Repropagate(r) = r /\ Len(r.items) = Len(s.items)
    /\ \A k \in 1..Len(s.items) : r.items[k].t = s.items[k].t /\ r.items[k].a = s.items[k].a /\ r.items[k].g = s.items[k].g
    /\ s.items # <<>> => r.items[1] = s.items[1]
\* without a correction re-propagation changes nothing
RECURSIVE AsFresh(_, _)
AsFresh(q, rest) == IF rest = <<>> THEN q ELSE AsFresh(Propagate(q, rest[1].t, rest[1].a, rest[1].g), Tail(rest))
Fresh == s.items # <<>> =>
    LET f0 == [s EXCEPT !.items = <<s.items[1]>>] IN Repropagate(s).items = AsFresh(f0, Tail(s.items)).items
\* uncertainty: symmetric, no negative variance, and the variances grow with no information coming in
CovSound == Cov => \A k \in 1..Len(s.items) : Symmetric(s.items[k].P) /\ \A i \in 1..15 : s.items[k].P[i][i] >= 0
OriginMoves == last[1] = "reset" =>
    LET b == last[2].items IN
    \E k \in 0..Len(b) : s.items = SubSeq(b, k + 1, Len(b))
=============================================================================
