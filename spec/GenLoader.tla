----------------------------- MODULE GenLoader ------------------------------
(* Generates buffer scenarios: the action lists of all (or, in simulation,  *)
(* random) behaviours of the buffer specification over time domain T.       *)
EXTENDS Loader, TLC, Json
CONSTANTS T, Depth, K, Packed
VARIABLES bs, hist
vars == <<bs, hist>>
Init == bs = [k \in 0..(K - 1) |-> [EmptyBuffer EXCEPT !.period = 10486]] /\ hist = <<>>
\* T is in units of half an inertial period (5243 ticks), so gaps below, equal to and above one period occur
U(t) == t * 5243
Do(k, r, h) == bs' = [bs EXCEPT ![k] = r] /\ hist' = Append(hist, h)
Next == /\ Len(hist) < Depth
        /\ \E k \in 0..(K - 1) :
           \/ \E t \in T : LET m == [t |-> U(t), ids |-> <<t>>]
                           IN Do(k, PushImage(bs[k], m, 1).b, <<"pf", k, U(t), 1, t, 1>>)
           \/ \E t \in T : Do(k, PushSample(bs[k], [t |-> U(t), v |-> <<t>>]).b,
                              <<"pi", k, U(t), t, 2 * t + 1, -t, 3 * t, 5, 9 - t>>)
           \/ ~Packed /\ Do(k, PopOne(bs[k]).b, <<"pop", k>>)
           \/ /\ Packed
              /\ LET kd == PackedKind(bs[k])
                     s == IF kd = "exact" THEN PackedBody(bs[k])[Len(PackedBody(bs[k]))]
                          ELSE IF kd = "mid" THEN [t |-> Head(bs[k].feat).t, v |-> <<0>>] ELSE [t |-> 0, v |-> <<0>>]
                 IN Do(k, AfterPacked(bs[k], kd, s), <<"ppop", k>>)
           \/ K > 1 /\ Do(k, Clear(bs[k]), <<"clear", k>>)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
