---------------------------- MODULE TraceSystem -----------------------------
(* Judges recorded runs of the real Backend against the specification of   *)
(* the whole estimator.  Times in microseconds, deviations from the known  *)
(* truth in 1e-6 (compared when the messages carry no noise).              *)
EXTENDS System, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s, x, bad
vars == <<tr, l, s, x, bad>>
\* x: configuration and history the properties speak of
X0 == [cams |-> 0, size |-> 5, key |-> "any", period |-> 10000, exact |-> FALSE, sway |-> FALSE, slip |-> 0, turn |-> 0, unusable |-> {}, unsure |-> {}, runs |-> 0,
       prop |-> 0, upd |-> 0, sure |-> TRUE, newest |-> 0, pictures |-> {}]
Init == tr \in 1..Len(Traces) /\ l = 0 /\ s = S0 /\ x = X0 /\ bad = {}
Bad(ps, what) == {[p |-> p, w |-> ToString(what)] : p \in ps}
If(c, b) == IF c THEN b ELSE {}
SetOf(q) == {q[i] : i \in 1..Len(q)}

\* ---- the step of the specification
Par(o) == [period |-> x.period, size |-> x.size, many |-> 10, slack |-> 2, keep |-> SetOf(o.times), keepAtt |-> SetOf(o.att.times)]
Entries(o) == [i \in 1..Len(o.ent) |-> <<o.ent[i][1], SetOf(o.ent[i][2]), o.ent[i][3]>>]
AfterImu(o) == IF o.imu >= 0 THEN Imu(s, o.imu, o.imu \notin x.unusable) ELSE s
Policy(n, seen) == IF n <= x.size THEN "none"
                   ELSE IF n = 2 \/ x.key = "all" THEN "oldest" ELSE IF x.key = "never" THEN "subnew" ELSE seen
After(o) == IF o.img = 0 THEN AfterImu(o)
            ELSE LET a == AfterImu(o)
                     seen == IF o.win.policy \in {"oldest", "subnew"} THEN o.win.policy ELSE "oldest"
                 IN Image(a, [uid |-> o.img, t |-> o.t, ent |-> Entries(o)], Par(o), Policy(Len(a.win) + 1, seen))

\* ---- window, features
Known(e) == {f \in SetOf(e) : f[2] # {}}
Features(win) == UNION {{f[1] : f \in Known(win[i].ent)} : i \in 1..Len(win)}
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Count(win, f) == Sum([i \in 1..Len(win) |-> LET m == {g \in Known(win[i].ent) : g[1] = f} IN IF m = {} THEN 0 ELSE Cardinality((CHOOSE g \in m : TRUE)[2])])
WindowBad(n, o, becoming) ==
    LET w == o.win
        uids == [i \in 1..Len(n.win) |-> n.win[i].uid]
        ps == {"W06"} \cup If(n.st = "need", IF s.ever THEN {"S01", "S02"} ELSE {"S01"})
    IN IF w.uids # uids THEN Bad(ps, <<"window", w.uids, uids>>)
       ELSE If(\E i \in 1..Len(uids) : SetOf(w.frames[i]) # {f[1] : f \in Known(n.win[i].ent)}, Bad({"W06"}, <<"association", w.frames>>))
            \cup If(SetOf(w.feats) # {<<f, Count(n.win, f)>> : f \in Features(n.win)}, Bad({"W06"}, <<"features", w.feats>>))
            \cup If(w.badNorm # 0, Bad({"W06"}, <<"measurements of a frame", w.badNorm>>))
            \cup If(n.st = "init" /\ w.badPose # 0, Bad({"S03"}, <<"poses", w.badPose>>))
            \cup If(n.st = "init" /\ Len(n.win) < Len(s.win) + 1 /\ w.policy # Policy(Len(s.win) + 1, w.policy), Bad({"W06"}, <<"policy", w.policy>>))

\* ---- initialisation
Fresh == IF s.ever THEN {"S01", "S02"} ELSE {"S01"}
Near(st) == CHOOSE q \in SetOf(st.near) : \A r \in SetOf(st.near) :
                Abs(q[1] - st.t1) < Abs(r[1] - st.t1) \/ (Abs(q[1] - st.t1) = Abs(r[1] - st.t1) /\ q[1] <= r[1])
Off(a, b) == \E i \in 1..4 : Abs(a[i] - b[i]) > 3
StartBad(st) ==
    If(st.t1 # s.win[1].t, Bad(Fresh, "the first image"))
    \cup If(st.p # 0, Bad(Fresh, <<"position of the first image", st.p>>))
    \cup If(x.exact /\ st.v > 1500, Bad(Fresh, <<"velocity", st.v>>))
    \cup If(x.exact /\ st.tilt > 1500 + x.turn + IF x.sway THEN 4000 ELSE 0, Bad(Fresh, <<"vertical", st.tilt>>))
    \cup If(st.near = <<>>, Bad(Fresh, "no attitude"))
    \cup (IF st.near = <<>> THEN {} ELSE
          LET tie == {q \in SetOf(st.near) : Abs(Abs(q[1] - st.t1) - Abs(Near(st)[1] - st.t1)) <= 2}
          IN If(\A q \in tie : Off(SubSeq(q, 2, 5), st.q), Bad(Fresh, <<"attitude of the first image", st.q, Near(st)>>)))

\* ---- published states
Where(n) == {"S03"} \cup If(x.runs > 1, {"S02"}) \cup If(s.st = "need", {"S01"})
TooFar(e) == e[1] > 5000 + x.slip + x.turn \/ e[2] > 45000 \/ e[3] > 2500 + x.turn
PublishBad(n, o) ==
    IF ~n.ever THEN If(o.prop.ok \/ o.upd.ok, Bad({"S03"}, "published before the first initialisation"))
    ELSE IF n.st = "need" THEN {}
    ELSE IF ~o.prop.ok \/ ~o.upd.ok THEN Bad({"S03"}, "nothing published")
    ELSE LET image == n.win[Len(n.win)].t IN
         If(o.prop.t # Max(n.items), Bad({"S03"}, <<"time of the fast output", o.prop.t, Max(n.items)>>))
         \cup If(o.upd.t # Min(n.items), Bad({"S03"}, <<"time of the update output", o.upd.t, Min(n.items)>>))
         \cup If(Abs(o.upd.t - image) > x.period + 2, Bad({"S03"}, <<"update output far from the newest image", o.upd.t, image>>))
         \cup If(o.prop.own > 1 \/ o.upd.own > 1, Bad({"S03"}, <<"published state is not the newest sample's, the newest update's", o.prop.own, o.upd.own>>))
         \cup If(o.prop.bias # 0 \/ o.upd.bias # 0, Bad({"S03"}, "biases"))
         \cup If(Len(o.prop.err) # 4 \/ Len(o.upd.err) # 4, Bad({"S03"}, "no reference"))
         \cup If(\E e \in {o.prop.err, o.upd.err} : Len(e) = 4 /\ e[4] > 30, Bad({"S03"}, "orientation is not a unit quaternion"))
         \cup If(x.exact /\ \E e \in {o.prop.err, o.upd.err} : Len(e) = 4 /\ TooFar(e), Bad(Where(n), <<"published state", o.prop.err, o.upd.err>>))
         \cup If(s.st = "init" /\ (o.prop.t < x.prop \/ o.upd.t < x.upd), Bad({"S03"}, "went back in time"))
ItemsBad(n, o, becoming) ==
    IF n.st # "init" THEN {}
    ELSE If(o.n # Cardinality(n.items) \/ o.first # Min(n.items) \/ o.last # Max(n.items),
            Bad(IF becoming THEN Fresh \cup {"S03"} ELSE {"S03"}, <<"integrated samples", <<o.n, o.first, o.last>>, <<Cardinality(n.items), Min(n.items), Max(n.items)>>>>))

\* ---- what is kept of the samples
KeptBad(n, o) ==
    If(o.imu < 0 /\ o.img = 0 /\ o.ret, Bad({"S05"}, "a step without a message reports success"))
    \cup If(o.att.n # Cardinality(n.att) \/ (n.att # {} /\ (o.att.first # Min(n.att) \/ o.att.last # Max(n.att))),
            Bad({"S05"}, <<"attitude history", <<o.att.n, o.att.first, o.att.last>>, n.att>>))
    \cup If(o.img # 0 /\ SetOf(o.att.times) # n.att, Bad({"S05"}, <<"attitude history after an image", o.att.times, n.att>>))
    \cup If(n.st = "init" /\ (o.n # Cardinality(n.items) \/ o.first # Min(n.items) \/ o.last # Max(n.items)), Bad({"S05"}, <<"integrated samples", o.n, o.first, o.last, n.items>>))
    \cup If(n.st = "init" /\ o.img # 0 /\ SetOf(o.times) # n.items, Bad({"S05"}, <<"integrated samples after an image", o.times, n.items>>))
    \cup If(o.att.altered # 0, Bad({"S05"}, <<"samples altered or out of order", o.att.altered>>))

\* ---- biases, twin without biases
BiasBad(n, o) ==
    If(n.st = "init" /\ o.img # 0 /\ o.bdiff # 0, Bad({"S04"}, <<"attitude estimate uses other biases", o.bdiff>>))
    \cup (IF DOMAIN o.twin = {} THEN {}
          ELSE If(~o.twin.same, Bad({"S04"}, "status or buffers differ from those without biases"))
               \cup If(o.twin.d > 500 \/ o.twin.a > 50 \/ o.twin.b > 50, Bad({"S04"}, <<"differs from the estimate without biases", o.twin>>)))

\* ---- covariance
CovBad(n, o) ==
    IF n.st # "init" THEN {}
    ELSE LET c == o.cov
             sz == 6 * (x.cams + Len(n.win))
         IN If(c.lo # sz \/ c.hi # sz \/ c.rows # sz \/ c.cols # sz, Bad({"C03"}, <<"size", c, sz>>))
            \cup If(~c.fin, Bad({"C03"}, "not finite"))
            \cup If(c.asym > 100, Bad({"C03"}, <<"not symmetric", c.asym>>))
            \cup If(c.neg > 50, Bad({"C03"}, <<"negative variance", c.neg>>))

RunBad(n, o) ==
    LET becoming == s.st = "need" /\ n.st = "init" IN
    IF o.st # n.st THEN Bad(IF s.st = "init" THEN {"S02"} ELSE Fresh, <<"status", o.st, n.st>>)
    ELSE If(becoming, IF DOMAIN o.start = {} THEN Bad(Fresh, "start") ELSE StartBad(o.start))
         \cup (IF o.img = 0 THEN {} ELSE WindowBad(n, o, becoming))
         \cup ItemsBad(n, o, becoming)
         \cup KeptBad(n, o) \cup PublishBad(n, o) \cup BiasBad(n, o) \cup CovBad(n, o)

Next ==
    /\ l < Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ LET e == Traces[tr].ev[l + 1]
           a == e.a
           o == e.o
       IN
       CASE e.op = "cfg" ->
              /\ x' = [x EXCEPT !.size = a[1], !.period = 1000000 \div a[4],
                                !.key = IF a[2] >= 1000 THEN "all" ELSE IF a[2] = 0 /\ a[3] >= 4000 THEN "never" ELSE "any"]
              /\ s' = s /\ bad' = {}
         [] e.op = "traj" ->
              /\ x' = [x EXCEPT !.exact = a[15] = 0 /\ a[16] = 0, !.sway = a[11] # 0 \/ a[12] # 0 \/ a[13] # 0,
                                \* what the motion covers in one period
                                !.slip = ((Abs(a[5]) + Abs(a[6]) + Abs(a[7])) * x.period) \div 16 + IF a[14] = 0 THEN 0 ELSE 5000,
                                !.turn = ((Abs(a[8]) + Abs(a[9]) + Abs(a[10])) * x.period) \div 32]
              /\ s' = s /\ bad' = {}
         [] e.op = "ext" -> x' = [x EXCEPT !.cams = a[1]] /\ s' = s /\ bad' = {}
         [] e.op = "imu" -> x' = [x EXCEPT !.unusable = IF o.ok THEN @ ELSE @ \cup {a[1]}, !.unsure = IF o.sure THEN @ ELSE @ \cup {a[1]}] /\ s' = s /\ bad' = {}
         [] e.op = "img" -> x' = [x EXCEPT !.sure = @ /\ o.sure] /\ s' = s /\ bad' = {}
         [] e.op = "reset" ->
              /\ s' = Reset(s) /\ x' = x
              /\ bad' = If(o.st # "need", Bad({"S02"}, "reset has no effect"))
         [] e.op = "run" ->
              IF ~x.sure \/ (s.att = {} /\ o.imu \in x.unsure) THEN s' = s /\ x' = [x EXCEPT !.sure = FALSE] /\ bad' = {}
              ELSE LET n == After(o) IN
                   /\ s' = n
                   /\ x' = [x EXCEPT !.runs = IF s.st = "need" /\ n.st = "init" THEN @ + 1 ELSE @, !.prop = o.prop.t, !.upd = o.upd.t]
                   /\ bad' = RunBad(n, o)
         [] e.op = "crash" -> s' = s /\ x' = x /\ bad' = Bad({"*"}, <<"crash or hang", o>>)
         [] OTHER -> s' = s /\ x' = x /\ bad' = {}
Spec == Init /\ [][Next]_vars

For(ps) == \A b \in bad : b.p \notin ps
Conf_S01 == For({"S01", "*"})
Conf_S02 == For({"S02", "*"})
Conf_S03 == For({"S03", "*"})
Conf_S04 == For({"S04", "*"})
Conf_S05 == For({"S05", "*"})
Conf_W06 == For({"W06", "*"})
Conf_C03 == For({"C03", "*"})
=============================================================================
