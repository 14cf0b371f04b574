------------------------------ MODULE LocateGen -----------------------------
EXTENDS Locate, Rand, Json, CSV, IOUtils
CONSTANTS Num, Seed
VARIABLE n
r == [k \in 1..600 |-> RV(n, Seed, k)]
Small(k) == LET q == <<PickInt(r, k, -2, 2), PickInt(r, k + 1, -2, 2), PickInt(r, k + 2, -2, 2), PickInt(r, k + 3, -2, 2)>>
            IN IF Norm(q) = 0 THEN <<1, 0, 0, 0>> ELSE q
\* also orientations near the poles of their representation
Poles == << <<0, 0, 0, -1>>, <<0, 0, 0, 1>>, <<0, 0, 1, -20>>, <<1, 0, 0, -12>>, <<0, -1, 0, -8>>, <<1, 0, 0, 0>>, <<-1, 0, 0, 0>>, <<1, 1, 0, -30>>, <<0, 1, 1, -6>> >>
Quat(k) == IF r[k + 4] % 3 = 0 THEN PickSeq(r, k, Poles) ELSE Small(k)
Triples == << <<0, 0, -1>>, <<-1, 0, 0>>, <<0, -1, 0>>, <<2, -1, -2>>, <<-2, 2, -1>>, <<2, 3, -6>>, <<-6, 2, -3>>, <<1, -4, -8>>, <<0, -3, -4>>, <<3, 0, -4>> >>
Lengths == << 1, 1, 1, 3, 3, 7, 7, 9, 5, 5 >>

q == Quat(1)
t == <<PickInt(r, 6, -1500, 1500), PickInt(r, 7, -1500, 1500), PickInt(r, 8, -1500, 1500)>>
near == QMul(q, <<PickSeq(r, 9, <<14, 16, 20, 25, 40, 100, 400, 700, 1000, 3000>>), PickInt(r, 10, -1, 1), PickInt(r, 11, -1, 1), PickInt(r, 12, -1, 1)>>)
near_t == Add(t, <<PickInt(r, 13, -100, 100), PickInt(r, 14, -100, 100), PickInt(r, 15, -100, 100)>>)
Off(k) == (IF r[k] % 2 = 0 THEN 1 ELSE -1) * PickInt(r, k + 1, 40, 160)
\* match i of kind "point" or "flat": 8 * zz deep, at a place of its own of a grid of 9 x 9
Seen(i, kind, wrong) ==
  LET k == 20 + 8 * i
      zz == PickInt(r, k, 100, 450)
      g == (r[16] + 29 * i) % 81
      c == <<zz * ((g % 9) - 4), zz * ((g \div 9) - 4), 8 * zz>>
      im == Image(c)
      o == Add(Position(t), <<PickInt(r, k + 1, -400, 400), PickInt(r, k + 2, -400, 400), PickInt(r, k + 3, -400, 400)>>)
  IN [kind |-> kind, invalid |-> 0, wrong |-> IF wrong THEN 1 ELSE 0, S |-> Norm(q), w |-> WorldOf(q, t, c), o |-> o, z |-> c[3],
      px |-> IF wrong THEN <<im[1] + c[3] * Off(k + 4), im[2] + c[3] * Off(k + 6)>> ELSE im]
Flat(i, j, wrong) ==
  LET k == 20 + 8 * i
      m == Triples[j]
      K == Lengths[j]
      d == PickInt(r, k, 500, 3000)
      other == Triples[1 + ((j + 1) % 3)]
  IN [kind |-> "plane", invalid |-> 0, wrong |-> IF wrong THEN 1 ELSE 0, S |-> Norm(q) * K, K |-> K, wn |-> WorldNormal(q, m), wd |-> WorldOffset(q, t, m, K, d),
      cn |-> m, cd |-> IF wrong THEN d + (IF r[k + 1] % 2 = 0 THEN 400 ELSE -400) ELSE d]
\* sizes: e exact points and flat points, p planes, and a few wrong ones
Style == r[17] % 8
ne == CASE Style \in {0, 1} -> PickInt(r, 18, 8, 24) [] Style = 2 -> 0 [] Style \in {3, 4, 5} -> PickInt(r, 18, 6, 20)
        [] Style = 6 -> PickInt(r, 18, 0, 4) [] OTHER -> PickInt(r, 18, 8, 14)
np == CASE Style = 2 -> PickInt(r, 19, 4, 7) [] Style \in {3, 4} -> PickInt(r, 19, 1, 4) [] Style = 6 -> 0 [] OTHER -> 0
nf == CASE Style = 5 -> ne [] Style = 4 -> PickInt(r, 20, 0, 4) [] Style = 1 -> PickInt(r, 20, 0, 6) [] OTHER -> 0   \* how many of the points are without depth
nw == IF Style = 6 THEN 0 ELSE r[21] % (1 + ((ne + np) \div 5))
Exactly == [i \in 1..ne |-> Seen(i, IF i <= nf THEN "flat" ELSE "point", FALSE)] \o [i \in 1..np |-> Flat(30 + i, 1 + ((r[22] + i) % 10), FALSE)]
Wrongly == [i \in 1..nw |-> IF np > 0 /\ i = 1 THEN Flat(40 + i, 1 + (r[23] % 10), TRUE) ELSE Seen(40 + i, IF nf > 0 /\ i % 2 = 0 THEN "flat" ELSE "point", TRUE)]
Mixed == IF r[24] % 2 = 0 THEN Exactly \o Wrongly ELSE Wrongly \o Exactly
Spoilt == IF Style = 7 THEN [i \in 1..Len(Mixed) |-> IF i = 1 + (r[25] % Len(Mixed)) THEN [Mixed[i] EXCEPT !.invalid = 1] ELSE Mixed[i]] ELSE Mixed
Pyth == << <<1, 2, 2, 0, 3>>, <<2, 1, 0, -2, 3>>, <<0, 0, 0, -1, 1>>, <<0, 0, 0, 1, 1>>, <<1, 0, 0, 0, 1>>, <<-1, 0, 0, 0, 1>>, <<1, 1, 1, 1, 2>>, <<-1, 1, -1, -1, 2>>,
          <<1, 1, 7, -7, 10>>, <<2, 4, 5, -6, 9>>, <<0, 3, 0, -4, 5>>, <<20, 0, 0, -99, 101>>, <<0, 40, 0, -399, 401>>, <<0, 0, 200, -9999, 10001>>, <<0, 0, 2, 0, 2>>, <<60, 0, 11, 0, 61>> >>
Turn == LET p == PickSeq(r, 1, Pyth) s == IF r[2] % 2 = 0 THEN 1 ELSE -1 c == r[3] % 3 IN
        [type |-> "turn", K |-> p[5], q |-> <<s * p[1 + c], s * p[1 + ((c + 1) % 3)], s * p[1 + ((c + 2) % 3)], s * p[4]>>]
Shake == LET kind == PickSeq(r, 1, <<"point", "flat", "plane">>) z == PickInt(r, 2, 500, 3000) IN
         [type |-> "shake", kind |-> kind, axis |-> PickInt(r, 3, 1, IF kind = "plane" THEN 4 ELSE IF kind = "flat" THEN 2 ELSE 3), u |-> PickInt(r, 4, 2, 8),
          c |-> IF kind = "point" THEN <<PickInt(r, 5, -300, 300), PickInt(r, 6, -300, 300), z>> ELSE <<0, 0, z>>]
Case == IF r[26] % 10 = 0 THEN Turn
        ELSE IF r[26] % 20 = 2 THEN Shake
        ELSE IF r[26] % 20 = 12 THEN [type |-> "handed", kind |-> PickSeq(r, 1, <<"point", "flat", "plane">>), u |-> PickInt(r, 2, 1, 40), z |-> PickInt(r, 3, 800, 3000)]
        ELSE IF r[26] % 10 = 1 THEN [type |-> "slope", n |-> <<PickInt(r, 1, -9, 9), PickInt(r, 2, -9, 9), PickInt(r, 3, -9, 9)>>, d |-> PickInt(r, 4, 1, 9)]
        ELSE [type |-> "locate", q |-> q, t |-> t, q1 |-> near, t1 |-> near_t, ms |-> Spoilt, dev |-> PickInt(r, 27, 3, 6), wider |-> IF r[28] % 3 = 0 THEN 10 ELSE 1]
Init == n = 1
Next == n < Num /\ n' = n + 1
Spec == Init /\ [][Next]_n
Emit == CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.OUT)
=============================================================================
