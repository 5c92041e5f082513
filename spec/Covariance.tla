----------------------------- MODULE Covariance -----------------------------
(***************************************************************************)
(* The joint covariance of the estimator: the 15 inertial error states     *)
(* (position, velocity, attitude, two biases), then position and attitude  *)
(* of every camera calibration, then of every window frame.  Structural    *)
(* changes are described by where each row comes from: the covariance      *)
(* after an image without information is the one before, re-indexed.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* labels: <<"i", k>> k in 1..15; <<"c", camera, k>>, <<"f", frame, k>> k in 1..6
RECURSIVE Blocks(_, _, _)
Blocks(kind, names, B) == IF names = <<>> THEN <<>> ELSE [k \in 1..B |-> <<kind, names[1], k>>] \o Blocks(kind, Tail(names), B)
Layout(I, B, cams, frames) == [k \in 1..I |-> <<"i", k>>] \o Blocks("c", [c \in 1..cams |-> c], B) \o Blocks("f", frames, B)

\* the frame entering the window is a copy of the current pose: position 1..3 and attitude 7..9 of the inertial state
CloneOf(k, half, angle) == IF k <= half THEN k ELSE angle + k - half
\* row of the layout before the update that each row after it continues; n0 = rows before
\* kept: positions (1 = oldest) of the frames, newest included, that stay
KeptFrames(n, policy) ==
    CASE policy = "none"   -> [i \in 1..n |-> i]
      [] policy = "oldest" -> [i \in 1..(n - 1) |-> i + 1]
      [] policy = "subnew" -> [i \in 1..(n - 1) |-> IF i = n - 1 THEN n ELSE i]
RECURSIVE FrameRows(_, _, _, _, _, _)
FrameRows(kept, n, base, B, half, angle) ==
    IF kept = <<>> THEN <<>>
    ELSE [k \in 1..B |-> IF kept[1] = n THEN CloneOf(k, half, angle) ELSE base + (kept[1] - 1) * B + k]
         \o FrameRows(Tail(kept), n, base, B, half, angle)
\* n: frames in the window, the new one included
Source(I, B, half, angle, cams, n, policy) ==
    [k \in 1..(I + cams * B) |-> k] \o FrameRows(KeptFrames(n, policy), n, I + cams * B, B, half, angle)
Reindex(M, src) == [i \in 1..Len(src) |-> [j \in 1..Len(src) |-> M[src[i]][src[j]]]]
After(M, cams, n, policy) == Reindex(M, Source(15, 6, 3, 6, cams, n, policy))
SizeAfter(cams, n, policy) == 6 * cams + 6 * (IF policy = "none" THEN n ELSE n - 1)
=============================================================================
