----------------------------- MODULE MCSchedule -----------------------------
(* Two estimators get the same messages: one in order of time, one under    *)
(* every other schedule that processes no image before the first sample     *)
(* within a period of it (or later).  When both are through they agree.     *)
EXTENDS System, TLC
CONSTANTS Samples, Images, Size
Per == 4
Par == [period |-> Per, size |-> Size, many |-> 1, slack |-> 0, keep |-> {}, keepAtt |-> {}]
VARIABLES imgs, ok, i, f, s
vars == <<imgs, ok, i, f, s>>
\* imgs: the images, in order; ok: which samples can start an attitude; i, f: samples and images processed
Good == <<<<1, {0, 1}, TRUE>>>>
Poor == <<<<2, {0}, TRUE>>>>
T(k) == Per * k
Gaps == {5, 7, 8}
RECURSIVE Times(_, _)
Times(n, from) == IF n = 0 THEN {<<>>} ELSE {<<t>> \o r : t \in {from + g : g \in Gaps}, r \in UNION {Times(n - 1, from + g) : g \in Gaps}}
Increasing(q) == \A a \in 1..(Len(q) - 1) : q[a + 1] - q[a] \in Gaps
Pol(win) == IF Len(win) <= Size THEN "none" ELSE IF Len(win) = 2 \/ win[Len(win) - 1].uid % 2 = 0 THEN "oldest" ELSE "subnew"
Img(k) == imgs[k]
StepImage(st, img) == Image(st, img, Par, Pol(Append(st.win, img)))
Init == /\ \E q \in {q \in Times(Images, 0) : Increasing(q) /\ q[Images] <= T(Samples)} : \E e \in [1..Images -> {Good, Poor}] :
              imgs = [k \in 1..Images |-> [uid |-> k, t |-> q[k], ent |-> e[k]]]
        /\ ok \in {[k \in 1..Samples |-> k >= n] : n \in 1..3}
        /\ i = 0 /\ f = 0 /\ s = S0
Ready(n, t) == \E k \in 1..n : t - T(k) <= Per
Sample == i < Samples /\ i' = i + 1 /\ s' = Imu(s, T(i + 1), ok[i + 1]) /\ UNCHANGED <<imgs, ok, f>>
Picture == f < Images /\ Ready(i, imgs[f + 1].t) /\ f' = f + 1 /\ s' = StepImage(s, imgs[f + 1]) /\ UNCHANGED <<imgs, ok, i>>
Next == Sample \/ Picture
Spec == Init /\ [][Next]_vars
\* in order of time
RECURSIVE Ordered(_, _, _)
Ordered(a, b, st) ==
    IF a = Samples /\ b = Images THEN st
    ELSE IF b < Images /\ (a = Samples \/ imgs[b + 1].t < T(a + 1)) THEN Ordered(a, b + 1, StepImage(st, imgs[b + 1]))
    ELSE Ordered(a + 1, b, Imu(st, T(a + 1), ok[a + 1]))
SameInTheEnd == i = Samples /\ f = Images => s = Ordered(0, 0, S0)
NeverFails == f > 0 /\ s.ever => s.st = "init"
=============================================================================
