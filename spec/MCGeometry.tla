----------------------------- MODULE MCGeometry -----------------------------
(* (1) On a small lattice: two views with parallax determine the point, and *)
(* the verdict does not depend on the frame the scene is described in.      *)
(* (2) The search machines: sampling keeps the best pose, starting with the *)
(* given one; damped refinement only accepts steps that lower the cost.     *)
EXTENDS Geometry
CONSTANTS R, Pts, Iters
VARIABLES kind, s
vars == <<kind, s>>
L == {<<x, y, z>> : x \in -R..R, y \in {-R, 0, 1}, z \in -R..R}
Qs == {<<2, 0, 0, 0>>, <<0, 0, 2, 0>>, <<1, 1, 1, 1>>, <<1, -1, 1, 1>>, <<1, 1, -1, -1>>, <<3, 1, 0, -1>>}
Turns == {<<1, 1, 1, 1>>, <<0, 0, 2, 0>>, <<0, 2, 0, 0>>}
Scene == {[q1 |-> q1, q2 |-> q2, c |-> c, P |-> P] : q1 \in Qs, q2 \in Qs, c \in {<<R, 0, 0>>, <<1, -1, 1>>, <<0, 1, -R>>}, P \in L}
Vs(x) == <<[q |-> x.q1, c |-> Zero3], [q |-> x.q2, c |-> x.c]>>
\* thr: more than thr points agreeing end the sampling early
Ransac == [iter : {Iters}, best : 0..Pts, start : 0..Pts, top : {0}, thr : 0..Pts]
\* cost after the steps so far, damping exponent
Refine == [cost : 0..Pts, start : 0..Pts, lam : {-3}, left : {Iters}]
Init == \/ kind = "scene" /\ s \in Scene
        \/ kind = "ransac" /\ s \in {x \in Ransac : x.best = x.start}
        \/ kind = "refine" /\ s \in {x \in Refine : x.cost = x.start}
Max(a, b) == IF a > b THEN a ELSE b
Next == /\ kind' = kind
        /\ \/ /\ kind = "ransac" /\ s.iter > 0
              /\ \E sc \in 0..Pts :                     \* whatever the sample and the solver make of it
                   s' = [s EXCEPT !.best = Max(@, sc), !.top = Max(@, sc), !.iter = IF sc > s.thr THEN 0 ELSE @ - 1]
           \/ /\ kind = "refine" /\ s.left > 0
              /\ \E c \in 0..Pts : s' = IF c < s.cost THEN [s EXCEPT !.cost = c, !.lam = Max(@ - 1, -10), !.left = @ - 1]
                                                      ELSE [s EXCEPT !.lam = IF @ < 12 THEN @ + 1 ELSE @, !.left = @ - 1]
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* (1) among all lattice points only P has P's images, once the rays are not parallel
Determined == kind = "scene" =>
    LET vs == Vs(s) IN
    (\A i \in 1..2 : InCam(vs[i], s.P)[3] # 0) /\ Dot(Cross(s.P, Sub(s.P, s.c)), Cross(s.P, Sub(s.P, s.c))) > 0
      => \A X \in L : (\A i \in 1..2 : SameImage(vs[i], X, s.P)) => X = s.P
\* moving the whole scene changes nothing
Moved(v, g, t) == [q |-> LET r == QRaw(g, v.q) IN r, c |-> Add(MV(Rot(g), v.c), t)]
FrameFree == kind = "scene" => \A g \in Turns : \A t \in {<<1, -2, 3>>} :
    LET vs == Vs(s)  ws == <<Moved(vs[1], g, t), Moved(vs[2], g, t)>>  Q == Add(MV(Rot(g), s.P), t) IN
    /\ TriOk(vs, s.P) <=> TriOk(ws, Q)
    /\ Solid(vs, s.P, 10) <=> Solid(ws, Q, 10)
    /\ \A i \in 1..2 : Behind(vs[i], s.P) <=> Behind(ws[i], Q)
\* (2)
NeverWorse == kind = "ransac" => s.best >= s.start /\ s.best = Max(s.start, s.top)
NeverRises == kind = "refine" => s.cost <= s.start
Ends == <>(kind = "scene" \/ (kind = "ransac" /\ s.iter = 0) \/ (kind = "refine" /\ s.left = 0))
=============================================================================
