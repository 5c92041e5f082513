------------------------------ MODULE Geometry ------------------------------
(* Scenes on an integer lattice: cameras with any integer (unnormalised)    *)
(* orientation quaternion, centres and points with integer coordinates.     *)
(* Everything that matters about them is decided exactly: rotations are     *)
(* integer matrices over the squared norm of the quaternion.                *)
EXTENDS Quat, FiniteSets
N2(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
\* N2(q) times the rotation matrix
RotN(q) == LET w == q[1]  x == q[2]  y == q[3]  z == q[4] IN
    << <<w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)>>,
       <<2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)>>,
       <<2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z>> >>
\* the point in the camera, times N2(q)
InCam(v, P) == MV(Transpose(RotN(v.q)), Sub(P, v.c))
InFrontOf(v, P) == InCam(v, P)[3] > 0
Behind(v, P) == InCam(v, P)[3] < 0
InFront(vs, P) == \A i \in 1..Len(vs) : InFrontOf(vs[i], P)
\* the two viewing rays enclose an angle whose sine is at least 1/k
Parallax(a, b, P, k) == LET d == Sub(P, a.c)  e == Sub(P, b.c)  c == Cross(d, e) IN
    Dot(c, c) >= (Dot(d, d) * Dot(e, e)) \div (k * k) + 1
Solid(vs, P, k) == \E i, j \in 1..Len(vs) : Parallax(vs[i], vs[j], P, k)
\* does the image of X in v equal the image of P? (x/z and y/z agree)
SameImage(v, X, P) == LET a == InCam(v, X)  b == InCam(v, P) IN
    a[3] # 0 /\ b[3] # 0 /\ a[1] * b[3] = b[1] * a[3] /\ a[2] * b[3] = b[2] * a[3]

\* what linear triangulation has to answer
TriOk(vs, P) == Len(vs) >= 2 /\ InFront(vs, P)
=============================================================================
