---------------------------- MODULE MCCovariance ----------------------------
(* The way the covariance is kept in memory -- grown by one block, filled   *)
(* with copies, shifted over the dropped block, cut -- refines the labelled *)
(* covariance, for every sequence of images, propagations and drops.        *)
(* Small blocks: I inertial rows, B rows per camera and frame.              *)
EXTENDS Covariance, FiniteSets, TLC
CONSTANTS I, B, Cams, MaxFrames, Depth
Half == B \div 2
Angle == B      \* attitude rows follow position and velocity
VARIABLES frames, cov, mem, n, policyUsed
vars == <<frames, cov, mem, n, policyUsed>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* the covariance as a function of unordered pairs of labels, with all entries different
Lab == Layout(I, B, Cams, frames)
Init0 == Layout(I, B, Cams, <<>>)
\* the first frame enters a covariance without frames
Init == /\ frames = <<>> /\ n = 0 /\ policyUsed = "none"
        /\ mem = [i \in 1..Len(Init0) |-> [j \in 1..Len(Init0) |-> 100 * Min(i, j) + Max(i, j)]]
        /\ cov = [a \in {Init0[i] : i \in 1..Len(Init0)} |-> [b \in {Init0[i] : i \in 1..Len(Init0)} |->
                    LET i == CHOOSE k \in 1..Len(Init0) : Init0[k] = a
                        j == CHOOSE k \in 1..Len(Init0) : Init0[k] = b IN 100 * Min(i, j) + Max(i, j)]]
\* ---- labelled: the new frame's labels stand for the current pose
Orig(a, new) == IF a[1] = "f" /\ a[2] = new THEN <<"i", CloneOf(a[3], Half, Angle)>> ELSE a
Labelled(new, keep) ==
    LET ls == {x : x \in DOMAIN cov} \cup {<<"f", new, k>> : k \in 1..B}
        kept == {x \in ls : x[1] # "f" \/ \E i \in 1..Len(keep) : keep[i] = x[2]}
    IN [a \in kept |-> [b \in kept |-> cov[Orig(a, new)][Orig(b, new)]]]
\* ---- memory
Size(m) == Len(m)
Grow(m) == [i \in 1..(Size(m) + B) |-> [j \in 1..(Size(m) + B) |->
              IF i <= Size(m) /\ j <= Size(m) THEN m[i][j] ELSE 0]]
SrcRow(i, s) == IF i <= s THEN i ELSE CloneOf(i - s, Half, Angle)
Fill(m, s) == [i \in 1..Size(m) |-> [j \in 1..Size(m) |->
                IF i <= s /\ j <= s THEN m[i][j]
                ELSE IF i > s /\ j <= s THEN m[SrcRow(i, s)][j]
                ELSE IF i <= s THEN m[SrcRow(j, s)][i]
                ELSE m[SrcRow(i, s)][SrcRow(j, s)]]]
Cut(m) == [i \in 1..(Size(m) - B) |-> [j \in 1..(Size(m) - B) |-> m[i][j]]]
ShiftOldest(m) ==     \* the rows and columns behind the oldest frame move one block forward
    LET e == I + B * Cams
        f(i) == IF i <= e \/ i > Size(m) - B THEN i ELSE i + B
    IN [i \in 1..Size(m) |-> [j \in 1..Size(m) |-> m[f(i)][f(j)]]]
ShiftSubnew(m) ==     \* the last block replaces the one before it
    LET g(i) == IF i > Size(m) - 2 * B /\ i <= Size(m) - B THEN i + B ELSE i
    IN [i \in 1..Size(m) |-> [j \in 1..Size(m) |-> m[g(i)][g(j)]]]
Memory(p) == LET m == Fill(Grow(mem), Size(mem)) IN
    CASE p = "none" -> m [] p = "oldest" -> Cut(ShiftOldest(m)) [] p = "subnew" -> Cut(ShiftSubnew(m))
Image(p) ==
    LET new == n + 1
        all == Append(frames, new)
        keep == LET k == KeptFrames(Len(all), p) IN [i \in 1..Len(k) |-> all[k[i]]]
    IN /\ p # "none" => Len(all) > 1
       /\ Len(keep) <= MaxFrames
       /\ frames' = keep /\ cov' = Labelled(new, keep) /\ mem' = Memory(p) /\ n' = new /\ policyUsed' = p
\* propagation changes the inertial rows and their cross terms only
Bump(a) == IF a[1] = "i" THEN 1000 ELSE 0
Propagate ==
    /\ n' = n + 1 /\ UNCHANGED <<frames, policyUsed>>
    /\ cov' = [a \in DOMAIN cov |-> [b \in DOMAIN cov |-> cov[a][b] + Bump(a) + Bump(b)]]
    /\ mem' = [i \in 1..Size(mem) |-> [j \in 1..Size(mem) |-> mem[i][j] + (IF i <= I THEN 1000 ELSE 0) + (IF j <= I THEN 1000 ELSE 0)]]
Next == n < Depth /\ (Propagate \/ \E p \in {"none", "oldest", "subnew"} : Image(p))
Spec == Init /\ [][Next]_vars
Refines == /\ Len(Lab) = Size(mem)
           /\ \A i, j \in 1..Size(mem) : mem[i][j] = cov[Lab[i]][Lab[j]]
Symmetric == \A i, j \in 1..Size(mem) : mem[i][j] = mem[j][i]
WindowAgrees == {a[2] : a \in {x \in DOMAIN cov : x[1] = "f"}} = {frames[i] : i \in 1..Len(frames)}
\* the re-indexing used to judge traces is the same thing
SourceAgrees == \A p \in {"none", "oldest", "subnew"} :
    (p # "none" => frames # <<>>) =>
    LET new == n + 1
        all == Append(frames, new)
        k == KeptFrames(Len(all), p)
        keep == [i \in 1..Len(k) |-> all[k[i]]]
    IN Reindex(mem, Source(I, B, Half, Angle, Cams, Len(all), p)) =
       LET c == Labelled(new, keep)
           ly == Layout(I, B, Cams, keep)
       IN [i \in 1..Len(ly) |-> [j \in 1..Len(ly) |-> c[ly[i]][ly[j]]]]
=============================================================================
