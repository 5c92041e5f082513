------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* The whole estimator, one message at a time: initialisation, updates,    *)
(* failure and recovery, the window, the buffered inertial samples of the  *)
(* attitude estimator and of the integrator, and what is published.        *)
(* Times are in microseconds (or ticks).                                   *)
(*                                                                         *)
(* s = [st    |-> "need" | "init",                                         *)
(*      win   |-> images in the window, oldest first: [uid, t, ent]        *)
(*                ent: sequence of <<feature, cameras, in front>>          *)
(*      att   |-> times with an attitude,                                  *)
(*      items |-> times of the integrated samples still buffered,          *)
(*      ever  |-> initialised at least once]                               *)
(* par = [period, size, many, slack, keep, keepAtt]: many = features an   *)
(* initialisation needs; slack: how exactly one period can be told apart,  *)
(* keep, keepAtt: which of the samples in that doubt are kept              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

S0 == [st |-> "need", win |-> <<>>, att |-> {}, items |-> {}, ever |-> FALSE]
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(x) == IF x < 0 THEN -x ELSE x

\* ---- an inertial sample; ok: its acceleration can start the attitude
Imu(s, t, ok) ==
    [s EXCEPT !.att = IF @ = {} THEN (IF ok THEN {t} ELSE {}) ELSE IF Max(@) <= t THEN @ \cup {t} ELSE @,
              !.items = IF s.st = "init" THEN @ \cup {t} ELSE @]

\* ---- initialisation
Cams(e) == e[2]
\* features triangulated in image a (two cameras, in front) and seen by the first camera in image b
Shared(a, b) == {f \in {a.ent[i][1] : i \in 1..Len(a.ent)} :
                   /\ \E i \in 1..Len(a.ent) : a.ent[i][1] = f /\ Cardinality(a.ent[i][2]) >= 2 /\ a.ent[i][3]
                   /\ \E i \in 1..Len(b.ent) : b.ent[i][1] = f /\ 0 \in b.ent[i][2]}
\* closer than 0.55 periods
KnownAt(s, t, par) == \E x \in s.att : 20 * Abs(x - t) < 11 * par.period
CanInit(s, par) ==
    /\ Len(s.win) >= 2
    /\ s.win[1].t # s.win[2].t
    /\ KnownAt(s, s.win[1].t, par)
    /\ Cardinality(Shared(s.win[1], s.win[2])) >= par.many
Since(S, t, par, keep) == {x \in S : t - x <= par.period - par.slack \/ (t - x <= par.period + par.slack /\ (par.slack = 0 \/ x \in keep))}
Recent(S, t, par) == Since(S, t, par, par.keep)
Newest(s) == <<s.win[Len(s.win)]>>
DropBy(win, p) == CASE p = "none" -> win [] p = "oldest" -> Tail(win)
                    [] p = "subnew" -> SubSeq(win, 1, Len(win) - 2) \o <<win[Len(win)]>>
                    [] OTHER -> <<>>
\* an update works on a window whose images, the new one aside, are all in the covariance
Update(s, t, par, policy) ==
    LET left == Recent(s.items, t, par) IN
    IF left = {} THEN [s EXCEPT !.st = "need", !.items = {}, !.win = Newest(s)]
    ELSE [s EXCEPT !.items = left, !.win = DropBy(s.win, policy)]
Trim(s, t, par) == IF Len(s.win) > 1 THEN [s EXCEPT !.att = Since(@, t, par, par.keepAtt)] ELSE s
\* ---- an image; policy: which frame the update dropped, if there was one
Image(s, img, par, policy) ==
    LET a == [s EXCEPT !.win = Append(@, img)]
        b == IF a.st = "init" THEN Update(a, img.t, par, policy)
             ELSE IF ~CanInit(a, par) THEN [a EXCEPT !.win = Newest(a)]
             ELSE LET from == Since(a.att, a.win[1].t, par, par.keep \cup par.keepAtt)
                  IN IF Len(a.win) > 2      \* (after a reset) the fresh covariance knows one image only: the update fails
                     THEN [a EXCEPT !.items = Recent(from, img.t, par), !.att = from, !.win = Newest(a)]
                     ELSE Update([a EXCEPT !.st = "init", !.items = from, !.att = from, !.ever = TRUE], img.t, par, policy)
    IN Trim(b, img.t, par)
Reset(s) == [s EXCEPT !.st = "need"]
Policies(n, par) == IF n <= par.size THEN {"none"} ELSE {"oldest", "subnew"}
=============================================================================
