------------------------------- MODULE Update -------------------------------
(***************************************************************************)
(* One image processed by the estimator, in one dimension: the corrected   *)
(* state at the image, the states integrated from it, the window frames,   *)
(* the camera calibration, and which of them are uncertain.                *)
(*                                                                         *)
(* s = [x |-> estimate, per label; t |-> truth, per label;                 *)
(*      unc |-> sequence of sets of labels wrong together (one degree of   *)
(*              freedom each); fr |-> frames, oldest first;                *)
(*      tail |-> samples after the image; items |-> integrated states]     *)
(* labels: <<"p",0>> "v" "r" "ba" "bg" (current), <<"c",1>>, <<"fp",k>>          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Now == {<<"p", 0>>, <<"v", 0>>, <<"r", 0>>, <<"ba", 0>>, <<"bg", 0>>}
\* integration of the later samples from the current state
RECURSIVE Integrate(_, _, _)
Integrate(st, b, tail) ==
    IF tail = <<>> THEN <<st>>
    ELSE LET n == [p |-> st.p + st.v, v |-> st.v + tail[1].a - b.ba, r |-> st.r + tail[1].w - b.bg]
         IN <<st>> \o Integrate(n, b, Tail(tail))
Front(x) == [p |-> x[<<"p", 0>>], v |-> x[<<"v", 0>>], r |-> x[<<"r", 0>>]]
Reintegrated(s) == Integrate(Front(s.x), [ba |-> s.x[<<"ba", 0>>], bg |-> s.x[<<"bg", 0>>]], s.tail)

FrameLabels(u) == {<<"fp", u>>, <<"fr", u>>}
Labels(s) == Now \cup {<<"c", 1>>} \cup UNION {FrameLabels(s.fr[i]) : i \in 1..Len(s.fr)}
Uncertain(s) == UNION {s.unc[i] : i \in DOMAIN s.unc}
\* a precise update resolves every uncertain degree of freedom; nothing else moves
Corrected(s, usable) == [l \in DOMAIN s.x |-> IF usable /\ l \in Uncertain(s) THEN s.t[l] ELSE s.x[l]]
\* the new frame is a copy of the current pose
WithNew(f, new) == [l \in (DOMAIN f) \cup FrameLabels(new) |->
                      IF l = <<"fp", new>> THEN f[<<"p", 0>>] ELSE IF l = <<"fr", new>> THEN f[<<"r", 0>>] ELSE f[l]]
Copy(set, new) == set \cup (IF <<"p", 0>> \in set THEN {<<"fp", new>>} ELSE {}) \cup (IF <<"r", 0>> \in set THEN {<<"fr", new>>} ELSE {})
KeepFrames(fr, p) == CASE p = "none" -> fr [] p = "oldest" -> Tail(fr)
                       [] p = "subnew" -> SubSeq(fr, 1, Len(fr) - 2) \o <<fr[Len(fr)]>>
Restrict(f, d) == [l \in d |-> f[l]]
Process(s, new, usable, policy) ==
    LET x1 == WithNew(Corrected(s, usable), new)
        t1 == WithNew(s.t, new)
        keep == KeepFrames(Append(s.fr, new), policy)
        dom == Now \cup {<<"c", 1>>} \cup UNION {FrameLabels(keep[i]) : i \in 1..Len(keep)}
        unc1 == IF usable THEN <<>> ELSE [i \in DOMAIN s.unc |-> Copy(s.unc[i], new) \cap dom]
        r == [s EXCEPT !.x = Restrict(x1, dom), !.t = Restrict(t1, dom), !.fr = keep, !.unc = unc1]
    IN [r EXCEPT !.items = Reintegrated(r)]
=============================================================================
