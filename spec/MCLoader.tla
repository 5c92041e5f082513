------------------------------ MODULE MCLoader ------------------------------
(* Exhaustive check of the buffer specification itself (design level): the  *)
(* guarantees D01-D03 follow from the transitions, for all interleavings of *)
(* pushes and pops over a small time domain.                                *)
EXTENDS Loader, FiniteSets
CONSTANTS T, Ops, Packed
VARIABLES b, accF, accI, outF, outI, n, pk
vars == <<b, accF, accI, outF, outI, n, pk>>

\* accF/accI: times admitted; outF/outI: times delivered, in order; pk: last packet <<first, last>> times
Init == b = [EmptyBuffer EXCEPT !.period = 2] /\ accF = <<>> /\ accI = <<>> /\ outF = <<>> /\ outI = <<>> /\ n = 0 /\ pk = <<>>

PF(t, ok) == LET r == PushImage(b, [t |-> t, ids |-> <<t>>], IF ok THEN 1 ELSE 0)
             IN /\ b' = r.b
                /\ accF' = IF r.b.feat # b.feat THEN Append(accF, t) ELSE accF
                /\ UNCHANGED <<accI, outF, outI, pk>>
PI(t) == LET r == PushSample(b, [t |-> t, v |-> <<t>>])
         IN /\ b' = r.b
            /\ accI' = IF r.b.imu # b.imu THEN Append(accI, t) ELSE accI
            /\ UNCHANGED <<accF, outF, outI, pk>>
Pop == /\ ~Packed
       /\ LET r == PopOne(b)
          IN /\ b' = r.b
             /\ outF' = IF r.feat = <<>> THEN outF ELSE Append(outF, r.feat[1].t)
             /\ outI' = IF r.imu = <<>> THEN outI ELSE Append(outI, r.imu[1].t)
             /\ UNCHANGED <<accF, accI, pk>>
PPop == /\ Packed
        /\ LET k == PackedKind(b)
               body == PackedBody(b)
               s == IF k = "exact" THEN body[Len(body)] ELSE [t |-> Head(b.feat).t, v |-> <<Head(b.feat).t>>]
           IN /\ b' = IF k \in {"none", "drop"} THEN AfterPacked(b, k, [t |-> 0, v |-> <<0>>]) ELSE AfterPacked(b, k, s)
              /\ outF' = IF k \in {"exact", "mid"} THEN Append(outF, Head(b.feat).t) ELSE outF
              /\ pk' = IF k \in {"exact", "mid"} THEN <<body[1].t, s.t, IF pk = <<>> THEN body[1].t ELSE pk[2]>> ELSE pk
              /\ UNCHANGED <<accF, accI, outI>>
Next == /\ n < Ops
        /\ n' = n + 1
        /\ \/ \E t \in T : PF(t, TRUE)
           \/ \E t \in T : PF(t, FALSE)
           \/ \E t \in T : PI(t)
           \/ Pop
           \/ PPop
Spec == Init /\ [][Next]_vars

Incr(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
Prefix(s, q) == Len(s) <= Len(q) /\ SubSeq(q, 1, Len(s)) = s
\* D01: only ever newer messages are admitted
Admission == Incr(accF) /\ Incr(accI) /\ Sorted(b.feat) /\ Sorted(b.imu)
\* D02: delivered messages are exactly the admitted ones, in order, none twice, none lost
Delivery == ~Packed => /\ Prefix(outF, accF) /\ Prefix(outI, accI)
                       /\ outF \o [k \in 1..Len(b.feat) |-> b.feat[k].t] = accF
                       /\ outI \o [k \in 1..Len(b.imu) |-> b.imu[k].t] = accI
\* D03: packets are in order, start where the previous one ended and do not go back in time
Packets == Packed => /\ Incr(outF)
                     /\ pk # <<>> => pk[1] <= pk[2] /\ pk[1] = pk[3]
=============================================================================
