------------------------------ MODULE FramesMC ------------------------------
(* The definitions of Frames are frame changes: rigid, invertible, and keeping *)
(* points on the planes they are on.                                           *)
EXTENDS Frames
CONSTANTS Q, T
VARIABLES q, t, c
vars == <<q, t, c>>
Init == q \in {x \in [1..4 -> 0..(2 * Q)] : TRUE} /\ t \in [1..3 -> 0..T] /\ c \in [1..3 -> 0..1]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
qq == [i \in 1..4 |-> q[i] - Q]
tt == [i \in 1..3 |-> 5 * t[i] - 3 * i]
cc == <<7 * c[1] - 3, 4 * c[2] - 2, 9 * c[3] - 5>>
OK == Norm(qq) > 0
N == Norm(qq)
Rigid == OK => MM(M(qq), Tr(M(qq))) = << <<N * N, 0, 0>>, <<0, N * N, 0>>, <<0, 0, N * N>> >>
            /\ Cross(Col(M(qq), 1), Col(M(qq), 2)) = Scale(N, Col(M(qq), 3))
\* scale N for the world point, so scale N*N after coming back: write the translation scaled too
ThereAndBack == OK => Mul(Tr(M(qq)), Sub(AxesBack(WorldOf(qq, tt, cc)), Scale(N, tt))) = Scale(N * N, cc)
BackAndThere == OK => Axes(Add(Mul(M(qq), CameraOf(qq, tt, cc)), Scale(N * N, tt))) = Scale(N * N, cc)
\* signed distances to planes do not depend on the frame
Normals == {<<1, 2, 2>>, <<-2, 1, 2>>, <<0, 0, 3>>, <<2, -2, 1>>}
PlanesFollow == OK => \A m \in Normals : \A d \in {-4, 0, 7} :
    /\ Dot(WorldNormal(qq, m), WorldOf(qq, tt, cc)) + N * WorldOffset(qq, tt, m, 3, d) = N * N * PlaneDistance(m, 3, d, cc)
    /\ Dot(CameraNormal(qq, m), CameraOf(qq, tt, cc)) + N * CameraOffset(qq, tt, m, 3, d) = N * N * PlaneDistance(m, 3, d, cc)
    /\ Dot(WorldNormal(qq, m), WorldNormal(qq, m)) = N * N * 9
\* the camera itself
Centre == OK => CameraOf(qq, tt, Position(tt)) = <<0, 0, 0>>
=============================================================================
