---------------------------- MODULE TraceWindow -----------------------------
(* Checks behaviours recorded from the real frame and feature managers      *)
(* against Window.                                                          *)
EXTENDS Window, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, w, thr, bad
vars == <<tr, l, w, thr, bad>>
Init == tr \in 1..Len(Traces) /\ l = 0 /\ w = EmptyWindow /\ thr = [n |-> 25, d |-> 2, size |-> 5] /\ bad = {}
Bad(p, what) == {[p |-> p, w |-> ToString(what)]}

RECURSIVE Entries(_, _, _)
Entries(a, i, k) ==      \* k entries starting at a[i]
    IF k = 0 THEN <<>>
    ELSE <<[f |-> a[i], m |-> {<<a[i + 2 * j], a[i + 1 + 2 * j]>> : j \in 1..a[i + 1]}]>>
         \o Entries(a, i + 2 + 2 * a[i + 1], k - 1)
ABSENT == -1000000
Range(s) == {s[k] : k \in 1..Len(s)}
NoDup(s) == Cardinality(Range(s)) = Len(s)

\* every observation carries the full observable state `s` after the operation
StateBad(v, s) ==
    LET nf == Len(v.fr) IN
    (IF s.far # 0 THEN Bad("W02", "a number outside the window has a frame or a measurement") ELSE {}) \cup
    (IF Len(s.frames) # nf \/ \E k \in 1..nf : s.frames[k].id # v.first + k - 1 \/ s.frames[k].uid # v.fr[k].uid
     THEN Bad("W01", "frame numbers") ELSE
       (IF \E k \in 1..nf : s.frames[k].pose # v.fr[k].pose \/ s.frames[k].t # v.fr[k].t THEN Bad("W01", "frame pose") ELSE {})
       \cup (IF s.max # (IF nf = 0 THEN 0 ELSE LastId(v)) THEN Bad("W01", "newest number") ELSE {})
       \* look-ups of the numbers first-1 .. last+1: position in the window or 0
       \cup (IF nf > 0 /\ s.get # [k \in 1..(nf + 2) |-> IF k \in 2..(nf + 1) THEN k - 1 ELSE 0] THEN Bad("W01", "frame look-up") ELSE {})
       \cup (IF \E k \in 1..nf : ~NoDup(s.frames[k].assoc) \/ Range(s.frames[k].assoc) # v.fr[k].assoc THEN Bad("W04", "association") ELSE {})
       \cup (IF \E k \in 1..Len(s.cov) : LET x == s.cov[k] IN ~NoDup(x.f) \/ Range(x.f) # Common(v, x.i, x.j) THEN Bad("W04", "common features") ELSE {}))
    \cup (IF {s.feats[k].id : k \in 1..Len(s.feats)} # Known(v) THEN Bad("W03", "known features")
          ELSE (IF \E k \in 1..Len(s.feats) : s.feats[k].num # Count(v, s.feats[k].id) THEN Bad("W03", "observation count") ELSE {})
               \* x.n: rows for frame numbers first-1 .. last+1, each with one value per camera 0..2
               \cup (IF nf > 0 /\ Len(s.frames) = nf /\ \E k \in 1..Len(s.feats) :
                        LET x == s.feats[k]
                            ms == Of(v, x.id) IN
                        \E i \in 1..(nf + 2), cam \in 0..2 :
                           LET r == LookupIn(v, ms, v.first + i - 2, cam)
                               ob == x.n[i][cam + 1]
                           IN IF r = {} THEN ob # ABSENT ELSE {ob} # r
                     THEN Bad("W02", "measurement look-up") ELSE {}))

Pose(a, i) == [k \in 1..10 |-> a[i + k - 1]]
Next ==
    /\ l < Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ LET e == Traces[tr].ev[l + 1]
           a == e.a
           o == e.o
       IN
       CASE e.op = "add" ->
              LET en == Entries(a, 4, a[3])
                  v == AddImage(w, a[1], a[2], en)
                  as == v.fr[Len(v.fr)].assoc
              IN /\ w' = v /\ thr' = thr
                 /\ bad' = StateBad(v, o.s)
                      \cup (IF ~o.frameOk THEN Bad("W01", "adding a frame reported failure") ELSE {})
                      \cup (IF ~o.featOk THEN Bad("W04", "adding features reported failure") ELSE {})
                      \cup (IF ~NoDup(o.changed) \/ Range(o.changed) # as THEN Bad("W04", "changed features") ELSE {})
         [] e.op = "bad" ->
              w' = w /\ thr' = thr /\ bad' = StateBad(w, o.s) \cup (IF o.ret \/ o.changed # <<>> THEN Bad("W04", "malformed image accepted") ELSE {})
         [] e.op \in {"rm", "rmf"} ->
              LET v == RemoveAt(w, a[1]) IN
              /\ w' = v /\ thr' = thr
              /\ bad' = StateBad(v, o.s) \cup (IF o.ret # (a[1] < Len(w.fr)) THEN Bad("W01", "removal result") ELSE {})
         [] e.op = "rmid" ->
              LET v == RemoveFeature(w, a[1]) IN w' = v /\ thr' = thr /\ bad' = StateBad(v, o.s)
         [] e.op = "pose" ->
              LET v == SetPose(w, a[1], Pose(a, 2)) IN w' = v /\ thr' = thr /\ bad' = StateBad(v, o.s)
         [] e.op = "cams" -> w' = w /\ thr' = thr /\ bad' = {}      \* how the three cameras of the history are numbered
         [] e.op = "thr" -> w' = w /\ thr' = [n |-> a[1], d |-> a[2], size |-> a[3]] /\ bad' = {}
         [] e.op = "kf" ->
              /\ w' = w /\ thr' = thr
              /\ bad' = IF o.key # [k \in 1..Len(w.fr) |-> IF IsKey(w, k, thr) THEN 1 ELSE 0] THEN Bad("W05", "keyframe decision") ELSE {}
         [] e.op = "pol" ->
              /\ w' = w /\ thr' = thr
              /\ bad' = StateBad(w, o.s)
                   \cup (IF o.need # (Len(w.fr) > thr.size) THEN Bad("W05", "window full") ELSE {})
                   \cup (IF ~o.ret \/ o.policy # Policy(w, thr) THEN Bad("W05", "drop policy") ELSE {})
         [] OTHER -> w' = w /\ thr' = thr /\ bad' = Bad("*", <<"crash or hang", o>>)
Spec == Init /\ [][Next]_vars

For(ps) == \A b \in bad : b.p \notin ps
Conf_W01 == For({"W01", "*"})
Conf_W02 == For({"W02", "*"})
Conf_W03 == For({"W03", "*"})
Conf_W04 == For({"W04", "*"})
Conf_W05 == For({"W05", "*"})
=============================================================================
