-------------------------------- MODULE Maths -------------------------------
(* What the rotation and matrix utilities compute, exactly.                 *)
EXTENDS Quat
QLeft(p) == <<<<p[1], -p[2], -p[3], -p[4]>>, <<p[2], p[1], -p[4], p[3]>>, <<p[3], p[4], p[1], -p[2]>>, <<p[4], -p[3], p[2], p[1]>>>>
QRight(q) == <<<<q[1], -q[2], -q[3], -q[4]>>, <<q[2], q[1], q[4], -q[3]>>, <<q[3], -q[4], q[1], q[2]>>, <<q[4], q[3], -q[2], q[1]>>>>
Dot4(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3] + a[4] * b[4]
Four(m, x) == <<Dot4(m[1], x), Dot4(m[2], x), Dot4(m[3], x), Dot4(m[4], x)>>
MM4(a, b) == [i \in 1..4 |-> [j \in 1..4 |-> Dot4(a[i], <<b[1][j], b[2][j], b[3][j], b[4][j]>>)]]
\* x -> q x + t
Pose(q, t) == LET r == Rot(q) IN <<Append(r[1], t[1]), Append(r[2], t[2]), Append(r[3], t[3]), <<0, 0, 0, 1>>>>
\* determinant and adjugate of an n x n matrix, n = 1..3
Minor(m, i, j) == LET n == Len(m)
                      keep(k, x) == IF x < k THEN x ELSE x + 1
                  IN [a \in 1..(n - 1) |-> [b \in 1..(n - 1) |-> m[keep(i, a)][keep(j, b)]]]
Det2(m) == CASE Len(m) = 0 -> 1 [] Len(m) = 1 -> m[1][1] [] OTHER -> m[1][1] * m[2][2] - m[1][2] * m[2][1]
Sign(i, j) == IF (i + j) % 2 = 0 THEN 1 ELSE -1
Det(m) == IF Len(m) < 3 THEN Det2(m) ELSE m[1][1] * Det2(Minor(m, 1, 1)) - m[1][2] * Det2(Minor(m, 1, 2)) + m[1][3] * Det2(Minor(m, 1, 3))
Adj(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> Sign(i, j) * Det2(Minor(m, j, i))]]
=============================================================================
