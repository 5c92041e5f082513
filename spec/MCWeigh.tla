------------------------------ MODULE MCWeigh -------------------------------
(* Features used one by one, in any order, or together: the result depends  *)
(* only on which were used, their information adds up, and error and        *)
(* variance shrink by the same factor.                                      *)
EXTENDS Weigh, FiniteSets
CONSTANTS Features, MaxG, MaxNoise
VARIABLES info, noise, p0, e0, p, e, used
vars == <<info, noise, p0, e0, p, e, used>>
Init == /\ info \in [1..Features -> 1..MaxG] /\ noise \in 1..MaxNoise
        /\ p0 \in {<<1, 4>>, <<1, 1>>, <<3, 1>>} /\ e0 \in {<<1, 1>>, <<-2, 1>>}
        /\ p = p0 /\ e = e0 /\ used = {}
G(f) == Frac(info[f], noise * noise)
Use(F) == LET RECURSIVE S(_)
              S(X) == IF X = {} THEN <<0, 1>> ELSE LET f == CHOOSE f \in X : TRUE IN Plus(G(f), S(X \ {f}))
          IN /\ p' = PriorStep(p, S(F)) /\ e' = ErrStep(e, p, S(F)) /\ used' = used \cup F
             /\ UNCHANGED <<info, noise, p0, e0>>
Next == \E F \in SUBSET ((1..Features) \ used) : F # {} /\ Use(F)
Spec == Init /\ [][Next]_vars
RECURSIVE SumInfo(_)
SumInfo(X) == IF X = {} THEN 0 ELSE LET f == CHOOSE f \in X : TRUE IN info[f] + SumInfo(X \ {f})
\* information gained, in units of 1/p0, times noise^2, is the features' sum
Adds == Times(Minus(Times(p0, Inv(p)), <<1, 1>>), Frac(noise * noise, 1)) = Times(p0, Frac(SumInfo(used), 1))
Together == Times(e, p0) = Times(e0, p)
Falls == used # {} => p[1] * p0[2] < p0[1] * p[2]
Positive == p[1] > 0 /\ p[2] > 0
=============================================================================
