------------------------------ MODULE MCSystem ------------------------------
(* Every short history of samples (regular, with gaps, unusable for an      *)
(* attitude), images (with and without enough features) and resets.         *)
EXTENDS System, TLC
CONSTANTS Depth, Size
Par == [period |-> 4, size |-> Size, many |-> 1, slack |-> 0, keep |-> {}, keepAtt |-> {}]
VARIABLES s, now, n, last, good
vars == <<s, now, n, last, good>>
\* good: images since everything has been in order: enough features, no gap, no reset, attitude running
Good == <<<<1, {0, 1}, TRUE>>>>
Poor == <<<<2, {0}, TRUE>>>>
Init == s = S0 /\ now = 0 /\ n = 0 /\ last = [op |-> "init", prev |-> S0] /\ good = 0
Do(op, v) == s' = v /\ n' = n + 1 /\ last' = [op |-> op, prev |-> s]
Sample == \E ok \in BOOLEAN : Do("imu", Imu(s, now + 4, ok)) /\ now' = now + 4 /\ good' = good
Gap == now > 0 /\ Do("gap", s) /\ now' = now + 8 /\ good' = 0
Picture == \E ent \in {Good, Poor}, off \in {0, 1} :
    LET t == now + off + 1
        img == [uid |-> n + 1, t |-> t, ent |-> ent]
    IN /\ IF s.win = <<>> THEN TRUE ELSE s.win[Len(s.win)].t < t
       /\ \E p \in Policies(Len(s.win) + 1, Par) : Do("image", Image(s, img, Par, p))
       /\ now' = now /\ good' = IF ent = Good /\ now \in s.att THEN good + 1 ELSE 0
Again == s.st = "init" /\ Do("reset", Reset(s)) /\ now' = now /\ good' = 0
Next == n < Depth /\ (Sample \/ Gap \/ Picture \/ Again)
Spec == Init /\ [][Next]_vars
\* ---- what must hold
WindowBound == (last.op = "image" => Len(s.win) \in 1..Size) /\ Len(s.win) <= Size
NewestIn == last.op = "image" => s.win[Len(s.win)].uid = n
NeedKeepsOne == last.op = "image" /\ s.st = "need" => Len(s.win) = 1
Increasing == \A i \in 1..(Len(s.win) - 1) : s.win[i].t < s.win[i + 1].t
\* only the newest sample and newer ones, within a period of the newest image, stay
Buffered == last.op = "image" /\ s.st = "init" =>
    /\ s.items # {}
    /\ \A x \in s.items : s.win[Len(s.win)].t - x <= Par.period
    /\ Min(s.items) <= s.win[Len(s.win)].t + Par.period
\* the attitude history reaches back to the images that may still need it, and no further once there are several
History == last.op = "image" =>
    /\ s.att \subseteq last.prev.att
    /\ Len(s.win) > 1 => \A x \in s.att : s.win[Len(s.win)].t - x <= Par.period
    /\ s.items \subseteq (last.prev.items \cup last.prev.att)
    /\ \A x \in last.prev.att : s.win[Len(s.win)].t - x <= Par.period => x \in s.att
\* every sample is recorded once, at the end
Recorded == last.op = "imu" /\ last.prev.att # {} => s.att \ last.prev.att = {now}
\* nothing published before the first initialisation
Silent == ~s.ever => s.items = {}
\* the published times never go back while the estimator stays initialised
Forward == s.st = "init" /\ last.prev.st = "init" /\ last.prev.items # {} =>
    Min(s.items) >= Min(last.prev.items) /\ Max(s.items) >= Max(last.prev.items)
\* becoming initialised: exactly two images, the first with an attitude
Becomes == last.op = "image" /\ last.prev.st = "need" /\ s.st = "init" =>
    /\ Len(last.prev.win) = 1
    /\ KnownAt(last.prev, last.prev.win[1].t, Par)
\* recovery: two images in a row with all in order suffice after one failing attempt
Recovers == good >= 3 => s.st = "init"
FailureNeedsGap == last.op = "image" /\ last.prev.st = "init" /\ s.st = "need" => Recent(last.prev.items, s.win[1].t, Par) = {}
=============================================================================
