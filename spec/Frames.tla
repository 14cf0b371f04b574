------------------------------- MODULE Frames -------------------------------
(* Changes of frame with exact rational rotations.  A pose is an integer       *)
(* quaternion q (norm N = |q|^2) and a translation t: the rotation is M(q)/N.  *)
(* Every quantity below is stated multiplied by the indicated scale, so that   *)
(* all of them are integers.  Camera axes: x right, y down, z forward; world   *)
(* axes: x forward, y left, z up.                                              *)
EXTENDS Integers, Sequences, TLC

Fx == 480
Fy == 360
Cx == 310
Cy == 250
Wd == 640
Ht == 480

Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Scale(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Col(m, j) == <<m[1][j], m[2][j], m[3][j]>>
Tr(m) == <<Col(m, 1), Col(m, 2), Col(m, 3)>>
Mul(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
MM(m, n) == TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> Dot(m[i], Col(n, j))])])

Norm(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
\* N times the rotation matrix of q = <<w, x, y, z>>
M(q) == LET w == q[1] x == q[2] y == q[3] z == q[4] IN
        << <<w*w + x*x - y*y - z*z, 2 * (x*y - w*z), 2 * (x*z + w*y)>>,
           <<2 * (x*y + w*z), w*w - x*x + y*y - z*z, 2 * (y*z - w*x)>>,
           <<2 * (x*z - w*y), 2 * (y*z + w*x), w*w - x*x - y*y + z*z>> >>
\* forward/left/up from right/down/forward, and back
Axes(v) == <<v[3], -v[1], -v[2]>>
AxesBack(v) == << -v[2], -v[3], v[1]>>

\* ---- points
Position(t) == Axes(t)                                                     \* of the camera, in the world
WorldOf(q, t, c) == Axes(Add(Mul(M(q), c), Scale(Norm(q), t)))             \* scale N
CameraOf(q, t, w) == Mul(Tr(M(q)), Sub(AxesBack(w), t))                    \* scale N
\* image position times the depth z of the camera point c
Image(c) == <<Fx * c[1] + Cx * c[3], Fy * c[2] + Cy * c[3]>>
InView(c) == LET i == Image(c) IN c[3] > 0 /\ i[1] > 0 /\ i[1] < Wd * c[3] /\ i[2] > 0 /\ i[2] < Ht * c[3]
OutOfView(c) == LET i == Image(c) IN c[3] < 0 \/ (c[3] > 0 /\ (i[1] < 0 \/ i[1] > Wd * c[3] \/ i[2] < 0 \/ i[2] > Ht * c[3]))
\* camera point of the pixel (u, v) at depth z (scale Fx, Fy)
CameraX(u, z) == (u - Cx) * z
CameraY(v, z) == (v - Cy) * z
\* a pixel position that belongs to the image
OnScreen(u, v) == u >= 0 /\ u <= Wd /\ v >= 0 /\ v <= Ht
DepthUsable(z) == z > 40 /\ z <= 6000

\* ---- planes: normal m / K (m of integer length K) and offset d; a point p is on it iff m.p + K d = 0
WorldNormal(q, m) == Axes(Mul(M(q), m))                                    \* scale N K
WorldOffset(q, t, m, K, d) == Norm(q) * K * d - Dot(Position(t), WorldNormal(q, m))  \* scale N K
CameraNormal(q, m) == Mul(Tr(M(q)), AxesBack(m))                           \* scale N K
CameraOffset(q, t, m, K, d) == Norm(q) * (K * d + Dot(Position(t), m))     \* scale N K
PlaneDistance(m, K, d, p) == Dot(m, p) + K * d                             \* scale K
=============================================================================
