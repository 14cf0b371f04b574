------------------------------ MODULE LinesMC -------------------------------
(* The definitions mean what they say: clipping keeps exactly the points       *)
(* inside, the vector between two lines is perpendicular and reaches them.     *)
EXTENDS Lines
CONSTANT Far
VARIABLES a, b
vars == <<a, b>>
Xs == {-40, 0, 1, 2, 300, 638, 639, 640, 700}
Ys == {-30, 0, 1, 2, 200, 478, 479, 480, 500}
Init == a \in Xs \X Ys /\ b \in (Xs \X Ys)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Inside(p, k) == p[1] >= k * LoX /\ p[1] <= k * HiX /\ p[2] >= k * LoY /\ p[2] <= k * HiY
e == Minus(b, a)
\* the point i/64 of the segment
Sample(i) == <<64 * a[1] + i * e[1], 64 * a[2] + i * e[2]>>
f == First(a, e)
l == Last(a, e)
Sound == a # b => \A i \in {0, 1, 9, 16, 25, 32, 47, 63, 64} : (Misses(a, b) => ~Inside(Sample(i), 64))
                                /\ (Crosses(a, b) => (Inside(Sample(i), 64) <=> (~Less(<<i, 64>>, f) /\ ~Less(l, <<i, 64>>))))
Ends == a # b /\ Crosses(a, b) => LET s == ClipScale(a, b) IN \A p \in Clipped(a, b) :
          Inside(IF s > 0 THEN p ELSE <<-p[1], -p[2]>>, IF s > 0 THEN s ELSE -s)
sa == <<a[1] % 37, a[2] % 41>>
sb == <<b[1] % 37, b[2] % 41>>
Nearest == sa # sb => LET d == Minus(sb, sa) c == OnLine(sa, sb, <<7, -11>>) k == DotN(d, d) IN
              /\ DotN(Minus(<<7 * k, -11 * k>>, c), d) = 0
              /\ (c[1] - k * sa[1]) * d[2] = (c[2] - k * sa[2]) * d[1]
Dirs == {<<1, 2, 2>>, <<0, 0, 1>>, <<2, -3, 6>>, <<-4, 4, 7>>}
ASSUME \A m1 \in Dirs : \A m2 \in Dirs : \A o \in {<<0, 0, 0>>, <<3, -5, 8>>} : ~Parallel(m1, m2) =>
    LET x == Cross(m1, m2) v == Between(o, m1, <<1, 1, 1>>, m2) IN
      /\ Dot(v, m1) = 0 /\ Dot(v, m2) = 0
      \* o + (1,1,1 + v) : the lines moved together meet
      /\ Dot(Sub(Scale(Dot(x, x), Sub(o, <<1, 1, 1>>)), v), x) = 0
=============================================================================
