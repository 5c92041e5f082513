----------------------------- MODULE TraceConfig ----------------------------
(* Judges recorded loads of the configurator and set-ups of the estimator.  *)
(* A file event carries its content: -1 ends a line, Junk is no number.     *)
EXTENDS Config, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s, bad
vars == <<tr, l, s, bad>>
Names == <<"freq", "noise", "bias", "grav", "win", "sigma", "key">>
MaxCams == 8
S0 == [fs |-> [p \in Params \cup {"cam"} |-> IF p = "cam" THEN [i \in 1..MaxCams |-> Absent] ELSE Absent],
       cfg |-> [p \in Params \cup {"cam"} |-> <<>>],
       dflt |-> [p \in Params |-> <<>>]]        \* as shown before anything was loaded
Init == tr \in 1..Len(Traces) /\ l = 0 /\ s = S0 /\ bad = {}
Bad(ps, what) == {[p |-> p, w |-> ToString(what)] : p \in ps}
If(c, b) == IF c THEN b ELSE {}
Abs(x) == IF x < 0 THEN -x ELSE x
Eol == 1000000001
\* the lines of a token list
RECURSIVE Lines(_, _)
Lines(a, cur) == IF a = <<>> THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
                 ELSE IF Head(a) = Eol THEN <<cur>> \o Lines(Tail(a), <<>>) ELSE Lines(Tail(a), Append(cur, Head(a)))
\* what is shown of a parameter's values (1/16) -- the frequency shows as its period
Near(x, y, t) == Abs(x - y) <= t
ParOk(p, v, o) == IF v = <<>> THEN o = s.dflt[p] ELSE IF p = "freq" THEN IF v[1] > 0 THEN Near(o[1], 1600000000 \div v[1], 2) ELSE TRUE      \* in 1e-8 s
                  ELSE Len(o) = Len(v) /\ \A i \in 1..Len(v) : o[i] = 1000 * v[i]
\* camera i: 12 numbers position (in 1/16000) and rotation matrix rows (1e-3)
CamOk(v, o) == /\ Len(o) = 12
               /\ \A i \in 1..3 : o[i] = 1000 * v[4 * i]
               /\ \A i \in 1..3, j \in 1..3 : Near(o[3 + 3 * (i - 1) + j], (1000 * v[4 * (i - 1) + j]) \div 16, 1)
CamsBad(id, v, o) == IF Len(v) # Len(o) THEN Bad({id}, <<"number of cameras", Len(o), Len(v)>>)
                     ELSE If(\E i \in 1..Len(v) : ~CamOk(v[i], o[i]), Bad({id}, "camera"))
ReadBad(c, o) ==
    If(~o.ret, Bad({"F01"}, "reading reports failure"))
    \cup UNION {If(~ParOk(p, c[p], o[p]), Bad({"F01"}, <<p, c[p], o[p]>>)) : p \in Params}
    \cup CamsBad("F01", c.cam, o.cam) \cup If(o.ncam # Len(c.cam), Bad({"F01"}, "count of cameras"))
SetupBad(c, o) ==
    If(~o.ret, Bad({"F02"}, "configuring reports failure"))
    \cup If(~ParOk("freq", c.freq, o.freq), Bad({"F02"}, <<"inertial period", c.freq, o.freq>>))
    \cup If(~ParOk("noise", c.noise, o.noise) \/ ~o.qdiag, Bad({"F02"}, <<"process noise", c.noise, o.noise>>))
    \cup If(~ParOk("bias", c.bias, o.bias), Bad({"F02"}, <<"biases of the integrator", c.bias, o.bias>>))
    \cup If(~ParOk("bias", c.bias, o.abias), Bad({"F02"}, <<"biases of the attitude estimator", c.bias, o.abias>>))
    \cup If(Len(o.grav) # 3 \/ o.grav[1] # 0 \/ o.grav[2] # 0 \/ ~ParOk("grav", c.grav, <<o.grav[3]>>), Bad({"F02"}, <<"gravity", c.grav, o.grav>>))
    \cup If(~ParOk("sigma", c.sigma, o.sigma), Bad({"F02"}, <<"measurement noise", c.sigma, o.sigma>>))
    \cup If(~ParOk("win", c.win, <<o.win>>), Bad({"F02"}, <<"window size", c.win, o.win>>))
    \cup If(~ParOk("key", c.key, o.key), Bad({"F02"}, <<"keyframe thresholds", c.key, o.key>>))
    \cup CamsBad("F02", c.cam, o.cam)

Next ==
    /\ l < Len(Traces[tr].ev)
    /\ l' = l + 1 /\ tr' = tr
    /\ LET e == Traces[tr].ev[l + 1]
           a == e.a
           o == e.o
       IN
       CASE e.op = "file" ->      \* which, content
              LET c == Lines(Tail(a), <<>>) IN
              /\ bad' = {}
              /\ s' = IF a[1] < 7 THEN [s EXCEPT !.fs[Names[a[1] + 1]] = c] ELSE [s EXCEPT !.fs.cam[a[1] - 6] = c]
         [] e.op = "rm" -> bad' = {} /\ s' = IF a[1] < 7 THEN [s EXCEPT !.fs[Names[a[1] + 1]] = Absent] ELSE [s EXCEPT !.fs.cam[a[1] - 6] = Absent]
         [] e.op = "look" -> s' = [s EXCEPT !.dflt = [p \in Params |-> o[p]]] /\ bad' = {}
         [] e.op = "read" -> LET c == Load(s.cfg, s.fs) IN s' = [s EXCEPT !.cfg = c] /\ bad' = ReadBad(c, o)
         [] e.op = "setup" -> LET c == Load(s.cfg, s.fs) IN s' = [s EXCEPT !.cfg = c] /\ bad' = SetupBad(c, o)
         [] e.op = "crash" -> s' = s /\ bad' = Bad({"*"}, <<"crash or hang", o>>)
         [] OTHER -> s' = s /\ bad' = {}
Spec == Init /\ [][Next]_vars
For(ps) == \A b \in bad : b.p \notin ps
Conf_F01 == For({"F01", "*"})
Conf_F02 == For({"F02", "*"})
=============================================================================
