------------------------------- MODULE Window -------------------------------
(***************************************************************************)
(* The sliding window: frames with consecutive numbers, and the features   *)
(* measured in them.  The abstract state keeps one fact per measurement -- *)
(* <<feature, image, camera, value>> -- so that numbering, attribution,    *)
(* lifetime and counts are all defined by what was measured in the images  *)
(* still in the window, not by how the code stores it.                     *)
(*                                                                         *)
(* w = [first |-> number of the oldest frame,                              *)
(*      fr    |-> sequence of [uid, t, pose, assoc],                       *)
(*      meas  |-> set of [f, uid, cam, v]]                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

EmptyWindow == [first |-> 1, fr |-> <<>>, meas |-> {}]
RestPose == <<0, 0, 0, 0, 0, 0, 2, 0, 0, 0>>     \* position, velocity (quarter units), quaternion (half units)

LastId(w) == w.first + Len(w.fr) - 1
FrameIds(w) == w.first .. LastId(w)

\* ---- a new image.  entries: sequence of [f, m], m: set of <<camera, value>>; the first non-empty entry per feature counts
Chosen(entries) ==
    {k \in 1..Len(entries) :
        /\ entries[k].m # {}
        /\ \A j \in 1..(k - 1) : entries[j].f = entries[k].f => entries[j].m = {}}
AddImage(w, uid, t, entries) ==
    LET ch == Chosen(entries)
        pose == IF w.fr = <<>> THEN RestPose ELSE w.fr[Len(w.fr)].pose
        new == {[f |-> entries[k].f, uid |-> uid, cam |-> p[1], v |-> p[2]] : <<k, p>> \in
                    {<<k2, p2>> \in ch \X UNION {entries[k3].m : k3 \in ch} : p2 \in entries[k2].m}}
    IN [first |-> IF w.fr = <<>> THEN 1 ELSE w.first,
        fr |-> Append(w.fr, [uid |-> uid, t |-> t, pose |-> pose, assoc |-> {entries[k].f : k \in ch}]),
        meas |-> w.meas \cup new]

\* ---- removing the frame at position i (0 = oldest)
RemoveAt(w, i) ==
    IF i < 0 \/ i >= Len(w.fr) THEN w
    ELSE [first |-> IF i = 0 THEN w.first + 1 ELSE w.first,
          fr |-> SubSeq(w.fr, 1, i) \o SubSeq(w.fr, i + 2, Len(w.fr)),
          meas |-> {m \in w.meas : m.uid # w.fr[i + 1].uid}]
RemoveFeature(w, f) == [w EXCEPT !.meas = {m \in @ : m.f # f}]
SetPose(w, i, p) == IF i < 0 \/ i >= Len(w.fr) THEN w ELSE [w EXCEPT !.fr[i + 1].pose = p]

\* ---- what can be observed
Known(w) == {m.f : m \in w.meas}
Count(w, f) == Cardinality({m \in w.meas : m.f = f})
\* the measurement of f in frame number n by camera c: a set with at most one value
Of(w, f) == {m \in w.meas : m.f = f}
LookupIn(w, ms, n, c) == IF n \notin FrameIds(w) THEN {}
                         ELSE {m.v : m \in {x \in ms : x.cam = c /\ x.uid = w.fr[n - w.first + 1].uid}}
Lookup(w, f, n, c) == LookupIn(w, Of(w, f), n, c)
Common(w, i, j) == w.fr[i].assoc \cap w.fr[j].assoc

\* ---- keyframes and the choice of the frame to drop.  thr = [n |-> minimal tracked, d |-> maximal distance, size |-> window size]
Tracked(w, i) ==     \* features measured by camera 0 in frame i and in its predecessor
    {m.f : m \in {x \in w.meas : x.cam = 0 /\ x.uid = w.fr[i].uid}} \cap {m.f : m \in {x \in w.meas : x.cam = 0 /\ x.uid = w.fr[i - 1].uid}}
Dist2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) + (p[3] - q[3]) * (p[3] - q[3])
IsKey(w, i, thr) ==
    \/ i = 1
    \/ Cardinality(Tracked(w, i)) < thr.n
    \/ Dist2(w.fr[i].pose, w.fr[i - 1].pose) > thr.d * thr.d
Policy(w, thr) ==
    IF Len(w.fr) <= thr.size THEN "none"
    ELSE IF IsKey(w, Len(w.fr) - 1, thr) THEN "oldest" ELSE "subnew"
ApplyPolicy(w, p) == CASE p = "none" -> w [] p = "oldest" -> RemoveAt(w, 0) [] p = "subnew" -> RemoveAt(w, Len(w.fr) - 2)
=============================================================================
