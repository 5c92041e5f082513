--------------------------- MODULE GenPropagator ----------------------------
(* Behaviours of Propagator for replay into the real queue.                 *)
EXTENDS Propagator, Json, FiniteSets
CONSTANT Depth
VARIABLES s, ops, cut
vars == <<s, ops, cut>>
D == <<2, -2, 2>>
S0 == [cov |-> FALSE, ext |-> 1, grav |-> 10, na |-> 1, ng |-> 1, nwa |-> 1, nwg |-> 1, p |-> <<4, 8, -4>>, v |-> <<2, -2, 6>>, q |-> <<1, 1, -1, 1>>,
       ba |-> Zero3, bg |-> Zero3, items |-> <<>>, C |-> <<>>]
Cfg == <<"cfg", 0, 1000, 0, 1, 10, 1, 1, 1, 1>> \o S0.p \o S0.v \o S0.q
Init == s = S0 /\ ops = <<Cfg>> /\ cut = 0
T == IF s.items = <<>> THEN cut ELSE s.items[Len(s.items)].t
Rates == IF s.bg = Zero3 THEN {Zero3, D} ELSE {Zero3, Scale(-1, D)}
Gyro(r) == IF s.items = <<>> THEN <<1, -3, 2>> ELSE Sub(Scale(2, Add(r, s.bg)), s.items[Len(s.items)].g)
Do(op, v) == s' = v /\ ops' = Append(ops, op) /\ cut' = T
\* the queue restarts only with unchanged biases: rates of buffered steps have to stay in the exact fragment
Prop == \E a \in {<<1, 0, 10>>, <<3, -2, 12>>}, r \in Rates :
            LET g == Gyro(r)  t == T + 1 IN Do(<<"prop", t>> \o a \o g, Propagate(s, t, a, g))
Bias == Len(s.items) > 1 /\ LET b == IF s.bg = Zero3 THEN D ELSE Zero3  c == IF s.bg = Zero3 THEN <<2, 4, -2>> ELSE Zero3 IN
            Do(<<"bias">> \o c \o b, [s EXCEPT !.ba = c, !.bg = b])
Origin == Len(s.items) > 1 /\ LET q == QMul(s.items[1].q, <<1, 1, 1, 1>>) IN
            Do(<<"origin", 1, 2, 3, 4, 5, 6>> \o q, [s EXCEPT !.items[1].p = <<1, 2, 3>>, !.items[1].v = <<4, 5, 6>>, !.items[1].q = q])
Repro == Len(s.items) > 1 /\ Do(<<"repro">>, Repropagate(s))
Reset == s.items # <<>> /\ \E t \in {T - 1, T}, thr \in {0, 1} : Do(<<"reset", t, thr>>, ResetOrigin(s, t, thr))
Next == Len(ops) <= Depth /\ (Prop \/ Bias \/ Origin \/ Repro \/ Reset)
Spec == Init /\ [][Next]_vars
Emit == Len(ops) = Depth + 1 => PrintT("@@" \o ToJson(ops))
=============================================================================
