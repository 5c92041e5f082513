--------------------------- MODULE TraceSchedule ----------------------------
(* Judges several real estimators fed with selections and schedules of the *)
(* same motion's messages: two that were through with the same messages,   *)
(* each image not before the first sample within a period of it, agree.    *)
(* Times in microseconds, deviations in 1e-6.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, x, bad
vars == <<tr, l, x, bad>>
\* x.in[i]: samples and images instance i has processed, in order, and whether its schedule is admissible;
\* x.ident: what the messages of an instance were (time, content)
X0 == [period |-> 10000, slack |-> 2, in |-> <<>>]
Init == tr \in 1..Len(Traces) /\ l = 0 /\ x = X0 /\ bad = {}
Bad(ps, what) == {[p |-> p, w |-> ToString(what)] : p \in ps}
If(c, b) == IF c THEN b ELSE {}
Fresh == [imu |-> <<>>, img |-> <<>>, sent |-> {}, fine |-> TRUE]
I(n) == x.in[n + 1]
\* one step takes the sample first, then the image
Step(i, o) ==
    LET a == IF o.imu < 0 THEN i ELSE [i EXCEPT !.imu = Append(@, o.imu)]
    IN IF o.img < 0 THEN a
       ELSE [a EXCEPT !.img = Append(@, o.img),
                      !.fine = @ /\ a.imu # <<>> /\ o.img - a.imu[Len(a.imu)] <= x.period - x.slack]
Comparable(a, b) == a.fine /\ b.fine /\ a.imu = b.imu /\ a.img = b.img /\ a.sent = b.sent
Differ(o) ==
    IF ~o.st THEN {"status"}
    ELSE (IF o.win THEN {} ELSE {"window"}) \cup (IF o.buf THEN {} ELSE {"buffered samples"})
         \cup (IF o.d <= 50 THEN {} ELSE {"poses, velocities"}) \cup (IF o.cov <= 500 THEN {} ELSE {"covariance"})
         \cup (IF o.bias <= 20 THEN {} ELSE {"biases"}) \cup (IF o.att <= 30 THEN {} ELSE {"attitudes"})
Next ==
    /\ l < Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ LET e == Traces[tr].ev[l + 1]
           a == e.a
           o == e.o
       IN
       CASE e.op = "cfg" -> x' = [x EXCEPT !.period = 1000000 \div a[4]] /\ bad' = {}
         [] e.op = "new" -> x' = [x EXCEPT !.in = Append(@, Fresh)] /\ bad' = {}
         [] e.op \in {"imu", "img"} -> x' = [x EXCEPT !.in[a[1] + 1].sent = @ \cup {<<e.op, Tail(a)>>}] /\ bad' = {}
         [] e.op = "step" -> x' = [x EXCEPT !.in[a[1] + 1] = Step(@, o)] /\ bad' = {}
         [] e.op = "reset" -> x' = [x EXCEPT !.in[a[1] + 1].fine = FALSE] /\ bad' = {}
         [] e.op = "cmp" ->
              /\ x' = x
              /\ bad' = If(Comparable(I(a[1]), I(a[2])) /\ Differ(o) # {}, Bad({"S06"}, <<"instances", a, "differ in", Differ(o), o>>))
         [] e.op = "crash" -> x' = x /\ bad' = Bad({"*"}, <<"crash or hang", o>>)
         [] OTHER -> x' = x /\ bad' = {}
Spec == Init /\ [][Next]_vars
Conf_S06 == \A b \in bad : b.p \notin {"S06", "*"}
=============================================================================
