---------------------------- MODULE GenAttitude -----------------------------
(* Behaviours of Attitude for replay: samples, look-ups and trims.          *)
EXTENDS Attitude, Json
CONSTANT Depth
VARIABLES s, ops, cut
vars == <<s, ops, cut>>
Init == s = [grav |-> 10, ba |-> <<1, -2, 3>>, bg |-> <<1, 0, -1>>, items |-> <<>>] /\ ops = <<<<"cfg", 0, 1000, 10>>, <<"bias", 1, -2, 3, 1, 0, -1>>>> /\ cut = 0
T == IF s.items = <<>> THEN cut ELSE s.items[Len(s.items)].t
F == IF s.items = <<>> THEN cut ELSE s.items[1].t
Up == IF s.items = <<>> THEN <<0, 0, 10>> ELSE Scale(7, Vertical(s.items[Len(s.items)].q))
G(r) == IF s.items = <<>> THEN <<2, -1, 3>> ELSE Sub(Scale(2, Add(r, s.bg)), s.items[Len(s.items)].g)
Do(op, v) == s' = v /\ ops' = Append(ops, op) /\ cut' = T
Prop == \E dt \in {-1, 1, 2}, d \in {<<2, 2, -2>>, <<-2, 2, 2>>} :
            LET r == IF dt = 2 THEN [k \in 1..3 |-> d[k] \div 2] ELSE d
                a == Add(s.ba, Up)
                g == G(r)
            IN Do(<<"prop", T + dt>> \o a \o g, Propagate(s, T + dt, a, g))
Reject == s.items = <<>> /\ Do(<<"prop", T, 1, 2, 3, 0, 0, 0>>, s)
CleanIt == s.items # <<>> /\ \E t \in {2 * F, 2 * F + 3, 2 * T + 1}, h \in {1, 2} : Do(<<"clean", t, h>>, Clean(s, t, h))
Get == s.items # <<>> /\ \E t \in {2 * F - 1, F + T, 2 * T - 1, 2 * T + 2}, h \in {1, 2, 3} : Do(<<"get", t, h>>, s)
Next == Len(ops) < Depth + 2 /\ (Prop \/ Reject \/ CleanIt \/ Get)
Spec == Init /\ [][Next]_vars
Emit == Len(ops) = Depth + 2 => PrintT("@@" \o ToJson(ops))
=============================================================================
