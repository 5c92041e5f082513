----------------------------- MODULE GenWindow ------------------------------
EXTENDS Window, TLC, Json
CONSTANTS F, C, MaxFrames, Depth
VARIABLES w, uid, hist
vars == <<w, uid, hist>>
Init == w = EmptyWindow /\ uid = 1 /\ hist = <<>>
NF == Cardinality(F)
\* F = 1..NF, C = 0..(NC-1); entries flattened: f, number of cameras, camera, value, ...
RECURSIVE FlatC(_, _)
FlatC(s, v) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : \A y \in s : x <= y IN <<x, v + x>> \o FlatC(s \ {x}, v)
RECURSIVE Flat(_, _)
Flat(k, sel) == IF k > NF THEN <<>> ELSE <<k, Cardinality(sel[k])>> \o FlatC(sel[k], uid * 100 + k * 10) \o Flat(k + 1, sel)
Add == /\ Len(w.fr) < MaxFrames
       /\ \E sel \in [F -> SUBSET C] :
            /\ w' = AddImage(w, uid, uid, [k \in 1..NF |-> [f |-> k, m |-> {<<cam, uid * 100 + k * 10 + cam>> : cam \in sel[k]}]])
            /\ hist' = Append(hist, <<"add", uid, uid, NF>> \o Flat(1, sel))
       /\ uid' = uid + 1
Rem == \E i \in {0, Len(w.fr) - 2, Len(w.fr) - 1} :
          /\ i >= 0 /\ i < Len(w.fr)
          /\ w' = RemoveAt(w, i) /\ uid' = uid
          /\ hist' = Append(hist, <<"rm", i>>)
Next == Len(hist) < Depth /\ (Add \/ Rem)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
