------------------------------ MODULE MCWindow ------------------------------
(* Design check: the representation the code uses (per feature a first      *)
(* frame number and a list of observations, frames numbered consecutively)  *)
(* refines the abstract window, for all histories up to Depth.              *)
EXTENDS Window
CONSTANTS F, C, MaxFrames, Depth
VARIABLES w, c, uid, n
vars == <<w, c, uid, n>>

\* concrete: ids: sequence of frame numbers; feat: function from features to [first, obs]; obs: sequence of (camera -> value) functions as sets
Init == w = EmptyWindow /\ c = [ids |-> <<>>, feat |-> [f \in {} |-> 0]] /\ uid = 1 /\ n = 0

CAdd(cc, sel) ==     \* sel: function F -> SUBSET C; value of a measurement = uid*100 + f*10 + cam
    LET id == IF cc.ids = <<>> THEN 1 ELSE cc.ids[Len(cc.ids)] + 1
        ob(f) == {<<cam, uid * 100 + f * 10 + cam>> : cam \in sel[f]}
        pad(x) == LET gap == id - (x.first + Len(x.obs)) IN x.obs \o [k \in 1..gap |-> {}]
        upd(f) == IF f \in DOMAIN cc.feat
                  THEN LET x == cc.feat[f] IN IF sel[f] = {} THEN x ELSE [x EXCEPT !.obs = Append(pad(x), ob(f))]
                  ELSE [first |-> id, obs |-> <<ob(f)>>]
        dom == DOMAIN cc.feat \cup {f \in F : sel[f] # {}}
    IN [ids |-> Append(cc.ids, id), feat |-> [f \in dom |-> upd(f)]]

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Cardinality(Head(s)) + Sum(Tail(s))
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
CRemove(cc, i) ==    \* position i, 0 = oldest
    LET id == cc.ids[i + 1]
        offset == i > 0
        ids == IF offset THEN [k \in 1..(Len(cc.ids) - 1) |-> IF k <= i THEN cc.ids[k] ELSE cc.ids[k + 1] - 1]
               ELSE Tail(cc.ids)
        dead(x) == LET k == id - x.first + 1
                   IN IF offset THEN k \in 1..Len(x.obs) /\ Sum(x.obs) = Cardinality(x.obs[k])
                      ELSE x.first = id /\ Sum(x.obs) = Cardinality(x.obs[1])
        upd(x) == LET k == id - x.first + 1
                  IN IF offset
                     THEN IF k \in 1..Len(x.obs) THEN [x EXCEPT !.obs = Drop(@, k)]
                          ELSE IF id < x.first THEN [x EXCEPT !.first = @ - 1] ELSE x
                     ELSE IF x.first = id THEN [first |-> x.first + 1, obs |-> Tail(x.obs)] ELSE x
        dom == {f \in DOMAIN cc.feat : ~dead(cc.feat[f])}
    IN [ids |-> ids, feat |-> [f \in dom |-> upd(cc.feat[f])]]

FSeq == CHOOSE s \in [1..Cardinality(F) -> F] : \A i, j \in 1..Cardinality(F) : s[i] = s[j] => i = j
Add == /\ Len(w.fr) < MaxFrames
       /\ \E sel \in [F -> SUBSET C] :
            /\ w' = AddImage(w, uid, uid, [k \in 1..Cardinality(F) |->
                        [f |-> FSeq[k], m |-> {<<cam, uid * 100 + FSeq[k] * 10 + cam>> : cam \in sel[FSeq[k]]}]])
            /\ c' = CAdd(c, sel)
       /\ uid' = uid + 1
Rem == \E i \in {0, Len(w.fr) - 2, Len(w.fr) - 1} :
          /\ i >= 0 /\ i < Len(w.fr) /\ (i = 0 => TRUE)
          /\ w' = RemoveAt(w, i) /\ c' = CRemove(c, i) /\ uid' = uid
Next == n < Depth /\ n' = n + 1 /\ (Add \/ Rem)
Spec == Init /\ [][Next]_vars

Numbering == /\ Len(c.ids) = Len(w.fr)
             /\ \A k \in 1..Len(c.ids) : c.ids[k] = w.first + k - 1
Lifetime == DOMAIN c.feat = Known(w) /\ \A f \in Known(w) : Sum(c.feat[f].obs) = Count(w, f)
CLookup(f, id, cam) ==
    IF f \notin DOMAIN c.feat THEN {}
    ELSE LET k == id - c.feat[f].first + 1
         IN IF k \in 1..Len(c.feat[f].obs) THEN {p[2] : p \in {q \in c.feat[f].obs[k] : q[1] = cam}} ELSE {}
Attribution == \A f \in F, id \in FrameIds(w), cam \in C : CLookup(f, id, cam) = Lookup(w, f, id, cam)
Association == \A k \in 1..Len(w.fr) : w.fr[k].assoc = {f \in F : \E cam \in C : Lookup(w, f, w.first + k - 1, cam) # {}}
=============================================================================
