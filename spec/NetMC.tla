------------------------------- MODULE NetMC --------------------------------
(***************************************************************************)
(* Nets of small scenes, where nothing is rounded.  The arrangement makes  *)
(* a net that fits together; a walker who crosses it edge by edge always   *)
(* knows the truth about where it stands; and damage to one side of one    *)
(* edge is noticed where that edge is crossed.                             *)
(***************************************************************************)
EXTENDS Net, Json, IOUtils

Scenes == ndJsonDeserialize(IOEnv.SCENES)
VARIABLES ix, fr, net, column, height, sides, damaged
vars == <<ix, fr, net, column, height, sides, damaged>>

Bits(f, w) == (IF Inside(f, w[3]) THEN 1 ELSE 0) + (IF Inside(f, w[1]) THEN 2 ELSE 0)
            + (IF Inside(f, w[4]) THEN 4 ELSE 0) + (IF Inside(f, w[2]) THEN 8 ELSE 0)
\* twice as fine, so that a walker on odd columns meets no vertex
NetOf(sc, f) ==
  LET arr == Arrange(sc)  es == SetToSeq(DOMAIN arr)
  IN  [i \in 1..Len(es) |-> <<2 * es[i][1][1], 2 * es[i][1][2], 2 * es[i][2][1], 2 * es[i][2][2], Bits(f, arr[es[i]])>>]

\* a column in every gap between vertices
Columns(n) == {n[i][1] + 1 : i \in {j \in 1..Len(n) : n[j][1] < n[j][3]}}
Rungs(n, k) ==
  LET over == {i \in 1..Len(n) : n[i][1] <= k /\ k < n[i][3]}
      rank(i) == Cardinality({j \in over : j # i /\ Over(n[j], n[i])})
  IN  [r \in 1..Cardinality(over) |-> CHOOSE i \in over : rank(i) = r - 1]

Init == ix \in 1..Len(Scenes) /\ fr \in 1..4 /\ net = <<>> /\ column = 0 /\ damaged = 0 /\ height = -1 /\ sides = <<FALSE, FALSE>>

Place ==
  /\ height = -1
  /\ LET whole == TLCEval(NetOf(Scenes[ix], FillRules[fr]))
     IN  \E k \in Columns(whole) :
         /\ column' = k
         /\ \/ damaged' = 0 /\ net' = whole
            \/ \E i \in 1..Len(whole) : \E b \in {1, 2, 4, 8} :
                 /\ whole[i][1] <= k /\ k < whole[i][3]
                 /\ damaged' = i
                 /\ net' = [whole EXCEPT ![i] = <<@[1], @[2], @[3], @[4], IF Bit(@[5], b) THEN @[5] - b ELSE @[5] + b>>]
  /\ height' = 0 /\ UNCHANGED <<ix, fr, sides>>

Climb ==
  LET r == Rungs(net, column) IN
  /\ height >= 0 /\ height < Len(r)
  /\ Right(net[r[height + 1]][5]) = sides
  /\ height' = height + 1
  /\ sides' = Left(net[r[height + 1]][5])
  /\ UNCHANGED <<ix, fr, net, column, damaged>>
Next == Place \/ Climb
Spec == Init /\ [][Next]_vars

\* over everything, and outside of everything
Up == height = Len(Rungs(net, column)) /\ sides = <<FALSE, FALSE>>
Fitting == Fits(net, column)

\* the net of a scene fits, and the walker gets to the top; a damaged one is noticed, and the walker does not
NetFits == (damaged = 0 /\ height = 0) => Whole(net) /\ Fitting
NoticesDamage == (damaged # 0 /\ height = 0) => ~Fitting
Arrives == (damaged = 0 /\ height >= 0) => Up \/ ENABLED Climb
Stuck == damaged # 0 => ~Up

\* asking the net at lattice points off its edges gives what the winding numbers say
Truth ==
  (height = 0 /\ damaged = 0) =>
    LET sc == Scenes[ix]
        scaled(cs) == [j \in 1..Len(cs) |-> [i \in 1..Len(cs[j]) |-> Mul(2 * sc.k, cs[j][i])]]
        s == scaled(sc.subj)  c == scaled(sc.clip)
        ys == UNION {{net[i][2], net[i][4]} : i \in 1..Len(net)}
        lo == CHOOSE y \in ys : \A z \in ys : y <= z
        hi == CHOOSE y \in ys : \A z \in ys : y >= z
    IN  \A y \in (lo - 1)..(hi + 1) :
          LET p == <<column, y>>
              off == \A i \in 1..Len(net) : Orient(From(net[i]), To(net[i]), p) # 0 \/ BoxesApart(From(net[i]), To(net[i]), p, p)
              clear == \A q \in {s[j] : j \in 1..Len(s)} \cup {c[j] : j \in 1..Len(c)} :
                         \A i \in 1..Len(q) : Orient(q[i], Nxt(q, i), p) # 0 \/ BoxesApart(q[i], Nxt(q, i), p, p)
          IN  (off /\ clear) => AtPoint(net, p) = <<Inside(FillRules[fr], Wind(s, p)), Inside(FillRules[fr], Wind(c, p))>>
=============================================================================
