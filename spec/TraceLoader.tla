---------------------------- MODULE TraceLoader -----------------------------
(* Checks behaviours recorded from the real input buffer against Loader.    *)
EXTENDS Loader, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, st, shift, bad
vars == <<tr, l, st, shift, bad>>

K == 3
Init == /\ tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
        /\ st = [k \in 0..(K - 1) |-> EmptyBuffer]
        /\ shift = [k \in 0..(K - 1) |-> NONE]
Ev == Traces[tr].ev[l + 1]

Vals(a, from) == [k \in 1..6 |-> a[from + k - 1] * 1000]

\* the time of delivered message o corresponds to input time t under the buffer's constant shift
Times(k, o, r) ==      \* all pairs <<delivered, expected>>
    (IF r.feat = <<>> \/ ~o.hasF THEN {} ELSE {<<o.ft, r.feat[1].t>>})
      \cup {<<o.imu[j].t, r.imu[j].t>> : j \in 1..(IF Len(r.imu) < Len(o.imu) THEN Len(r.imu) ELSE Len(o.imu))}
ShiftOf(k, ps) == IF shift[k] # NONE \/ ps = {} THEN shift[k] ELSE LET p == CHOOSE p \in ps : TRUE IN p[1] - p[2]
ShiftOk(sh, ps) == \A p \in ps : p[1] - p[2] = sh

SameImage(o, f) == o.hasF /\ o.ids = f.ids /\ o.intact
Bad(p, what) == {[p |-> p, w |-> ToString(what)]}

Next ==
    /\ l < Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ LET e == Ev
           a == e.a
           k == IF e.op = "crash" THEN 0 ELSE a[1]
           b == st[k]
       IN
       CASE e.op = "pf" ->
              LET m == [t |-> a[2], ids |-> SubSeq(a, 4, 3 + a[3])]
                  r == PushImage(b, m, a[4 + a[3]])
              IN /\ st' = [st EXCEPT ![k] = r.b] /\ shift' = shift
                 /\ bad' = IF e.o.ret # r.ret THEN Bad("D01", "push result") ELSE {}
         [] e.op = "pi" ->
              LET r == PushSample(b, [t |-> a[2], v |-> Vals(a, 3)])
              IN /\ st' = [st EXCEPT ![k] = r.b] /\ shift' = shift
                 /\ bad' = IF e.o.ret # r.ret THEN Bad("D01", "push result") ELSE {}
         [] e.op = "clear" -> st' = [st EXCEPT ![k] = Clear(b)] /\ shift' = shift /\ bad' = {}
         [] e.op = "period" -> st' = [st EXCEPT ![k].period = a[2]] /\ shift' = shift /\ bad' = {}
         [] e.op = "base" -> st' = st /\ shift' = shift /\ bad' = {}     \* all times of the history are relative to it
         [] e.op = "pop" ->
              LET r == PopOne(b)
                  o == e.o
                  ps == Times(k, o, r)
                  sh == ShiftOf(k, ps)
              IN /\ st' = [st EXCEPT ![k] = r.b] /\ shift' = [shift EXCEPT ![k] = sh]
                 /\ bad' = (IF o.ret # r.ret \/ o.hasF # (r.feat # <<>>) \/ Len(o.imu) # Len(r.imu)
                            THEN Bad("D02", "which messages are delivered") ELSE {})
                      \cup (IF r.feat # <<>> /\ o.hasF /\ ~SameImage(o, r.feat[1])
                            THEN Bad("D02", "delivered image") ELSE {})
                      \cup (IF Len(o.imu) = Len(r.imu) /\ \E j \in 1..Len(r.imu) : o.imu[j].v # r.imu[j].v
                            THEN Bad("D02", "delivered sample") ELSE {})
                      \cup (IF ~ShiftOk(sh, ps) THEN Bad("D04", "time shift") ELSE {})
         [] e.op = "ppop" ->
              LET o == e.o
                  kd == PackedKind(b)
                  ok == kd \in {"exact", "mid"}
                  f == Head(b.feat)
                  body == IF ok THEN PackedBody(b) ELSE <<>>
                  n == Len(body) + (IF kd = "mid" THEN 1 ELSE 0)
                  full == o.ret /\ Len(o.imu) = n
                  r == [feat |-> IF ok THEN <<f>> ELSE <<>>,
                        imu |-> IF kd = "mid" THEN Append(body, [t |-> f.t, v |-> <<>>]) ELSE body]
                  ps == IF ok THEN Times(k, o, r) ELSE {}
                  sh == ShiftOf(k, ps)
                  s == IF kd = "exact" THEN body[Len(body)]
                       ELSE IF kd = "mid" /\ full THEN [t |-> f.t, v |-> o.imu[n].v] ELSE [t |-> 0, v |-> <<0, 0, 0, 0, 0, 0>>]
              IN /\ st' = [st EXCEPT ![k] = AfterPacked(b, kd, s)] /\ shift' = [shift EXCEPT ![k] = sh]
                 /\ bad' = (IF o.ret # ok THEN Bad("D03", "packet result") ELSE {})
                      \cup (IF ~ok /\ (o.hasF \/ o.imu # <<>>) THEN Bad("D03", "content of a failed packet") ELSE {})
                      \cup (IF ok /\ o.ret /\ (~SameImage(o, f) \/ Len(o.imu) # n) THEN Bad("D03", "packet content") ELSE {})
                      \cup (IF ok /\ full /\ \E j \in 1..Len(body) : o.imu[j].v # body[j].v
                            THEN Bad("D03", "packet samples") ELSE {})
                      \cup (IF kd = "mid" /\ full /\ ~OnLine(body[Len(body)], Head(PackedRest(b)), f.t, o.imu[n].v, 6)
                            THEN Bad("D03", "interpolated sample") ELSE {})
                      \cup (IF ~ShiftOk(sh, ps) THEN Bad("D04", "time shift") ELSE {})
         [] OTHER -> st' = st /\ shift' = shift /\ bad' = Bad("*", <<"crash or hang", e.o>>)
Spec == Init /\ [][Next]_vars

\* Every mismatch in a scenario family made for a property counts against that property
Conf_D01 == bad = {}
Conf_D02 == bad = {}
Conf_D03 == bad = {}
Conf_D04 == bad = {}
=============================================================================
