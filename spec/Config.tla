------------------------------- MODULE Config -------------------------------
(* Configuration: named files with a required shape.  A file's content is a *)
(* sequence of lines, a line a sequence of tokens (a number, or Junk).      *)
(* Numbers are in 1/16.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Junk == 1000000000
Shape == [freq |-> <<1, 1>>, noise |-> <<1, 4>>, bias |-> <<2, 3>>, grav |-> <<1, 1>>,
          win |-> <<1, 1>>, sigma |-> <<1, 1>>, key |-> <<1, 3>>, cam |-> <<4, 4>>]
Params == {"freq", "noise", "bias", "grav", "win", "sigma", "key"}
Absent == << <<-1>> >>                    \* no such file
Readable(c, sh) == /\ c # Absent /\ Len(c) >= sh[1]
                   /\ \A r \in 1..sh[1] : Len(c[r]) >= sh[2] /\ \A k \in 1..sh[2] : c[r][k] # Junk
Values(c, sh) == [i \in 1..(sh[1] * sh[2]) |-> c[((i - 1) \div sh[2]) + 1][((i - 1) % sh[2]) + 1]]
\* fs: function from names (Params, and "cam" as a sequence of contents, camera i at index i+1) to contents
Keep(cs) == LET n == CHOOSE k \in 0..Len(cs) : (\A i \in 1..k : Readable(cs[i], Shape.cam)) /\ (k = Len(cs) \/ ~Readable(cs[k + 1], Shape.cam))
            IN [i \in 1..n |-> Values(cs[i], Shape.cam)]
Load(cfg, fs) == [p \in Params \cup {"cam"} |->
                     IF p = "cam" THEN Keep(fs.cam)
                     ELSE IF Readable(fs[p], Shape[p]) THEN Values(fs[p], Shape[p]) ELSE cfg[p]]
=============================================================================
