------------------------------ MODULE MapFile -------------------------------
(* The exported map: what a reader of the file sees is what was exported.      *)
(* An item is [k, c]: k is "point", "line" or "polygon", c its coordinates     *)
(* (a polygon is a closed ring: the last position is the first one again).     *)
(* A file is a sequence of lines [t, n]: a keyword and its numbers.            *)
EXTENDS Integers, Sequences, FiniteSets

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Open(ring) == SubSeq(ring, 1, Len(ring) - 1)
Rotate(s, r) == [i \in 1..Len(s) |-> s[1 + ((i - 1 + r) % Len(s))]]
SameRing(a, b) == Len(a) = Len(b) /\ (Len(a) = 0 \/ \E r \in 0..(Len(a) - 1) : Rotate(a, r) = b)

-----------------------------------------------------------------------------
(* Wavefront obj: vertices, and elements which name vertices by their rank.    *)
Elements == {"p", "l", "f"}
\* set of line numbers of vertices before line i
Vertices(file, i) == SelectSeq(SubSeq(file, 1, i), LAMBDA l : l.t = "v")
WellFormed(file) ==
  /\ \A i \in 1..Len(file) :
        \/ file[i].t = "v" /\ Len(file[i].n) = 3
        \/ file[i].t \in Elements /\ Len(file[i].n) >= 1
           /\ \A x \in 1..Len(file[i].n) : file[i].n[x] \in 1..Len(Vertices(file, i))
  /\ \A i \in 1..Len(file) : file[i].t = "l" => Len(file[i].n) >= 2
  /\ \A i \in 1..Len(file) : file[i].t = "f" => Len(file[i].n) >= 3
Read(file) ==
  LET V == Vertices(file, Len(file))
      E == SelectSeq(file, LAMBDA l : l.t \in Elements)
  IN [i \in 1..Len(E) |-> [t |-> E[i].t, c |-> [x \in 1..Len(E[i].n) |-> V[E[i].n[x]].n]]]
\* faces are written in the opposite order of the boundary
Shows(e, item) == CASE item.k = "point" -> e.t = "p" /\ e.c = item.c
                    [] item.k = "line" -> e.t = "l" /\ e.c = item.c
                    [] item.k = "polygon" -> e.t = "f" /\ SameRing(e.c, Rev(Open(item.c)))
Used(file) == UNION {{file[i].n[x] : x \in 1..Len(file[i].n)} : i \in {j \in 1..Len(file) : file[j].t \in Elements}}
\* a polygon of nothing shows nothing
Shown(all) == SelectSeq(all, LAMBDA x : Len(x.c) > 0)
ObjShows(file, all) ==
  LET R == Read(file) items == Shown(all) IN
  /\ Len(R) = Len(items)
  /\ \A i \in 1..Len(items) : Shows(R[i], items[i])
  /\ Used(file) = 1..Len(Vertices(file, Len(file)))

(* The writer, as a function: used to check that the specification is meaningful *)
Vert(c) == [i \in 1..Len(c) |-> [t |-> "v", n |-> c[i]]]
Refs(t, from, m) == << [t |-> t, n |-> [i \in 1..m |-> from + i]] >>
WriteOne(item, from) ==
  CASE item.k = "point" -> Vert(item.c) \o Refs("p", from, 1)
    [] item.k = "line" -> Vert(item.c) \o Refs("l", from, Len(item.c))
    [] item.k = "polygon" -> Vert(Rev(Open(item.c))) \o Refs("f", from, Len(item.c) - 1)
RECURSIVE Write(_, _, _)
Write(items, file, count) ==
  IF items = << >> THEN file
  ELSE LET w == WriteOne(Head(items), count)
       IN Write(Tail(items), file \o w, count + Len(w) - 1)

-----------------------------------------------------------------------------
(* Point clouds: only the points are exported, in order.                       *)
Points(items) == SelectSeq(items, LAMBDA x : x.k = "point")
XyzShows(file, items) ==
  LET P == Points(items) IN
  Len(file) = Len(P) /\ \A i \in 1..Len(P) : file[i].t = "data" /\ file[i].n = P[i].c[1]
PcdShows(file, items) ==
  LET P == Points(items)
      D == {i \in 1..Len(file) : file[i].t = "DATA"}
      H == {i \in 1..Len(file) : file[i].t = "POINTS"}
      d == CHOOSE i \in D : TRUE
      h == CHOOSE i \in H : TRUE
  IN /\ Cardinality(D) = 1 /\ Cardinality(H) = 1 /\ h < d
     /\ file[h].n = <<Len(P)>>
     /\ XyzShows(SubSeq(file, d + 1, Len(file)), items)
=============================================================================
