----------------------------- MODULE Propagator -----------------------------
(***************************************************************************)
(* Inertial propagation: a queue of samples with the motion state and the  *)
(* joint covariance at each of them.  Exact integer arithmetic in the      *)
(* units of harness/propagator.cpp (time tau, quaternion 1/2, velocity     *)
(* tau/2, position tau^2/4, imu covariance in quarters, cross covariance   *)
(* in ones).                                                               *)
(*                                                                         *)
(* s = [cov |-> whether covariance is tracked, ext, grav, na, ng, nwa, nwg,*)
(*      p, v, q |-> start pose, ba, bg |-> biases,                         *)
(*      items |-> sequence of [t, a, g, p, v, q, P, B], C |-> camera part] *)
(***************************************************************************)
EXTENDS Quat

\* ---- motion: midpoint rule
Rate2(s, i0, i1) == Sub(Add(i0.g, i1.g), Scale(2, s.bg))             \* twice the mean corrected rate
Theta(s, i0, i1) == LET r == Scale(i1.t - i0.t, Rate2(s, i0, i1)) IN [k \in 1..3 |-> r[k] \div 2]
Motion(s, i0, x) ==
    LET dt == x.t - i0.t
        q1 == QMul(i0.q, Delta(Theta(s, i0, x)))
        acc2 == Add(Turn(i0.q, Sub(i0.a, s.ba)), Turn(q1, Sub(x.a, s.ba)))    \* twice the mean world acceleration
        v1 == Add(i0.v, Scale(dt, Sub(acc2, <<0, 0, 2 * s.grav>>)))           \* tau/2 units
        p1 == Add(i0.p, Scale(dt, Add(i0.v, v1)))                              \* tau^2/4 units
    IN [p |-> p1, v |-> v1, q |-> q1]

\* ---- covariance of the linearised error dynamics; rows: 1-3 position, 4-6 velocity, 7-9 attitude, 10-12 accel bias, 13-15 gyro bias
\* F applied to the rows of a matrix m with 15 rows
FTimes(s, i0, x, m) ==
    LET dt == x.t - i0.t
        R0 == Rot(i0.q)
        mid2 == Sub(Add(i0.a, x.a), Scale(2, s.ba))
        mid == [k \in 1..3 |-> mid2[k] \div 2]                 \* mean corrected acceleration (integral by choice of samples)
        RS == MM(R0, Skew(mid))
        TS == Skew(Theta(s, i0, x))                            \* dt [mean rate]x
        n == Cols(m)
        Col(j, b) == <<m[b + 1][j], m[b + 2][j], m[b + 3][j]>>
        Out(j) == LET P == Col(j, 0)  V == Col(j, 3)  T == Col(j, 6)  A == Col(j, 9)  G == Col(j, 12) IN
                  Add(P, Scale(dt, V))
                  \o Sub(V, Scale(dt, Add(MV(RS, T), MV(R0, A))))
                  \o Sub(Sub(T, MV(TS, T)), Scale(dt, G))
                  \o A \o G
        cols == TLCEval([j \in 1..n |-> Out(j)])
    IN TLCEval([i \in 1..15 |-> [j \in 1..n |-> cols[j][i]]])
\* 4 G Q G'
Noise4(s, dt) ==
    [i \in 1..15 |-> [j \in 1..15 |->
        LET bi == (i - 1) \div 3  bj == (j - 1) \div 3 IN
        IF (i - 1) % 3 # (j - 1) % 3 THEN 0
        ELSE CASE bi = 0 /\ bj = 0 -> dt * dt * dt * dt * s.na
               [] {bi, bj} = {0, 1} -> 2 * dt * dt * dt * s.na
               [] bi = 1 /\ bj = 1 -> 4 * dt * dt * s.na
               [] bi = 2 /\ bj = 2 -> 4 * dt * dt * s.ng
               [] bi = 3 /\ bj = 3 -> 4 * dt * dt * s.nwa
               [] bi = 4 /\ bj = 4 -> 4 * dt * dt * s.nwg
               [] OTHER -> 0]]
NextP(s, i0, x) ==
    LET FP == FTimes(s, i0, x, i0.P)
        FPF == FTimes(s, i0, x, Transpose(FP))     \* F (F P)' = F P' F', the transpose of F P F'
        N == TLCEval(Noise4(s, x.t - i0.t))
    IN TLCEval([i \in 1..15 |-> [j \in 1..15 |-> FPF[j][i] + N[i][j]]])

\* ---- operations
Camera(s) == 6 * s.ext + 6
StartItem(s, t, a, g) == [t |-> t, a |-> a, g |-> g, p |-> s.p, v |-> s.v, q |-> s.q,
                          P |-> IF s.cov THEN ZeroM(15, 15) ELSE <<>>, B |-> IF s.cov THEN ZeroM(15, Camera(s)) ELSE <<>>]
Step(s, i0, x) ==       \* integrate sample x (fields t, a, g) from item i0
    LET m == Motion(s, i0, x) IN
    [t |-> x.t, a |-> x.a, g |-> x.g, p |-> m.p, v |-> m.v, q |-> m.q,
     P |-> IF s.cov THEN NextP(s, i0, x) ELSE <<>>, B |-> IF s.cov THEN FTimes(s, i0, x, i0.B) ELSE <<>>]
Propagate(s, t, a, g) ==
    IF s.items = <<>>
    THEN [s EXCEPT !.items = <<StartItem(s, t, a, g)>>, !.C = IF s.cov THEN ZeroM(Camera(s), Camera(s)) ELSE <<>>]
    ELSE [s EXCEPT !.items = Append(@, Step(s, @[Len(@)], [t |-> t, a |-> a, g |-> g]))]
RECURSIVE Fold(_, _, _)
Fold(s, done, rest) == IF rest = <<>> THEN done ELSE Fold(s, Append(done, Step(s, done[Len(done)], rest[1])), Tail(rest))
Repropagate(s) == IF s.items = <<>> THEN s ELSE [s EXCEPT !.items = Fold(s, <<@[1]>>, Tail(@))]
RECURSIVE DropOld(_, _, _)
DropOld(items, t, thr) == IF items = <<>> \/ t - items[1].t <= thr THEN items ELSE DropOld(Tail(items), t, thr)
ResetOrigin(s, t, thr) == [s EXCEPT !.items = DropOld(@, t, thr)]
Clear(s) == [s EXCEPT !.items = <<>>]
=============================================================================
