------------------------------ MODULE MCConfig ------------------------------
(* Files come, go and break between loads.  Whatever happens to one file, a *)
(* parameter always holds what the last load that found it complete read.   *)
EXTENDS Config
CONSTANTS Depth, MaxCams
VARIABLES fs, cfg, hist, n
vars == <<fs, cfg, hist, n>>
Full(v) == << <<v>> >>
Broken == << <<Junk>> >>
Cam(v) == << <<v, 0, 0, 1>>, <<0, v, 0, 1>>, <<0, 0, v, 1>>, <<0, 0, 0, 1>> >>
CamCut == << <<1, 0, 0, 1>>, <<0, 1, 0>>, <<0, 0, 1, 1>>, <<0, 0, 0, 1>> >>
Two == {"grav", "win"}                  \* two parameters stand for all: they do not influence one another
Init == /\ fs = [p \in Params \cup {"cam"} |-> IF p = "cam" THEN [i \in 1..MaxCams |-> Absent] ELSE Absent]
        /\ cfg = [p \in Params \cup {"cam"} |-> IF p = "cam" THEN <<>> ELSE <<0>>]
        /\ hist = <<>> /\ n = 0
Edit == \/ \E p \in Two, c \in {Absent, Broken, <<>>, Full(1), Full(2), << <<2, 9>>, <<7>> >>} : fs' = [fs EXCEPT ![p] = c]
        \/ \E i \in 1..MaxCams, c \in {Absent, CamCut, Cam(1), Cam(2)} : fs' = [fs EXCEPT !.cam[i] = c]
Next == n < Depth /\ n' = n + 1 /\
        \/ Edit /\ UNCHANGED <<cfg, hist>>
        \/ cfg' = Load(cfg, fs) /\ hist' = Append(hist, fs) /\ UNCHANGED fs
Spec == Init /\ [][Next]_vars
LastGood(p) == {i \in 1..Len(hist) : Readable(hist[i][p], Shape[p])}
Latest == \A p \in Two : cfg[p] = IF LastGood(p) = {} THEN <<0>>
                                  ELSE LET i == CHOOSE i \in LastGood(p) : \A j \in LastGood(p) : j <= i IN Values(hist[i][p], Shape[p])
Cams == hist # <<>> => LET f == hist[Len(hist)].cam IN
        /\ \A i \in 1..Len(cfg.cam) : Readable(f[i], Shape.cam) /\ cfg.cam[i] = Values(f[i], Shape.cam)
        /\ Len(cfg.cam) < MaxCams => ~Readable(f[Len(cfg.cam) + 1], Shape.cam)
=============================================================================
