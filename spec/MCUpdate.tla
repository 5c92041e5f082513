------------------------------ MODULE MCUpdate ------------------------------
(* Every short history of images with and without information, priors with  *)
(* one wrong degree of freedom, samples in between, and drops.              *)
EXTENDS Update, Json, TLC
CONSTANTS Depth, Size
VARIABLES s, n, prev, log
vars == <<s, n, prev, log>>
L0 == Now \cup {<<"c", 1>>}
X0 == [l \in L0 |-> 0]
S0 == [x |-> X0, t |-> X0, unc |-> <<>>, fr |-> <<>>, tail |-> <<>>, items |-> <<>>]
Init == s = S0 /\ n = 0 /\ prev = S0 /\ log = <<>>
Err(b) == Cardinality({l \in b : TRUE})
Priors == {{<<"p", 0>>}, {<<"r", 0>>}, {<<"p", 0>>, <<"v", 0>>}, {<<"r", 0>>, <<"bg", 0>>}, {<<"c", 1>>}} \cup
          (IF s.fr = <<>> THEN {} ELSE {{<<"fp", s.fr[1]>>}, {<<"fr", s.fr[Len(s.fr)]>>, <<"ba", 0>>}})
\* something becomes wrong, and known to be uncertain
Wrong == \E b \in Priors :
    /\ s.unc = <<>>
    /\ s' = [s EXCEPT !.x = [l \in DOMAIN s.x |-> IF l \in b THEN s.t[l] + 3 ELSE s.x[l]], !.unc = <<b>>]
    /\ prev' = s /\ n' = n + 1 /\ log' = Append(log, "wrong")
Sample == /\ Len(s.tail) < 2
          /\ LET r == [s EXCEPT !.tail = Append(@, [a |-> 2, w |-> 1])] IN s' = [r EXCEPT !.items = Reintegrated(r)]
          /\ prev' = s /\ n' = n + 1 /\ log' = Append(log, "imu")
Image(usable, p) ==
    /\ p # "none" <=> Len(s.fr) + 1 > Size
    /\ s' = Process(s, n + 1, usable, p)
    /\ prev' = s /\ n' = n + 1 /\ log' = Append(log, "image")
Next == n < Depth /\ (Wrong \/ Sample \/ \E us \in BOOLEAN, p \in {"none", "oldest", "subnew"} : Image(us, p))
Spec == Init /\ [][Next]_vars
Last == IF log = <<>> THEN "" ELSE log[Len(log)]
View == <<s, n, prev, Last>>
\* a certain quantity that is right stays right, whatever happens
CertainRight == \A l \in DOMAIN s.x : l \notin Uncertain(s) => s.x[l] = s.t[l]
CertainStays == Last = "image" => \A l \in (DOMAIN s.x) \cap (DOMAIN prev.x) : l \notin Uncertain(prev) => s.x[l] = prev.x[l]
Agree == Last = "image" => LET f == s.fr[Len(s.fr)] IN s.x[<<"fp", f>>] = s.x[<<"p", 0>>] /\ s.x[<<"fr", f>>] = s.x[<<"r", 0>>]
Tracks == Last \in {"image", "imu"} => s.items = Reintegrated(s)
WindowOk == Len(s.fr) <= Size /\ DOMAIN s.x = Labels(s) /\ Uncertain(s) \subseteq DOMAIN s.x
NewestKept == Last = "image" => s.fr[Len(s.fr)] = n
=============================================================================
