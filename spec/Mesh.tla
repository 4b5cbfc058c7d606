-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* Strokes of paths and outlines (offsets) of shapes.                      *)
(*                                                                         *)
(* A stroke is a union of pieces: a rectangle along every section of the   *)
(* path, a join at every corner, a cap at either end.  An offset contour   *)
(* is the contour with a band of rectangles and joins along it put on or   *)
(* taken away.  Corners of the pieces are irrational, so the pieces are    *)
(* built in fixed point (S units to 1, U = 1/8) and a point is judged      *)
(* In, Out, or Unclear when it is within Margin of what decides.           *)
(***************************************************************************)
EXTENDS Region

S == 128
U == 16                     \* S / 8
Margin == 5

Out == 0  In == 1  Unclear == 2

RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
Isqrt(n) == IF n < 2 THEN n ELSE Newton(n, Min2(n, 46340))

RoundDiv(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))

\* v stretched to length r (v with small integers, r in S units)
Stretch(v, r) == LET l == Isqrt(Dot(v, v) * 65536) IN <<RoundDiv(r * v[1] * 256, l), RoundDiv(r * v[2] * 256, l)>>
Neg(v) == <<-v[1], -v[2]>>

\* a section of a path: directed, with normal to the left and unit vector of length r
Sect(a, b, r) ==
  LET d == Sub(b, a) f == Stretch(d, r)
  IN  [a |-> Mul(S, a), b |-> Mul(S, b), d |-> d, f |-> f, n |-> <<-f[2], f[1]>>, r |-> r]

Poly(c) == [k |-> "poly", c |-> c]
\* part of a disc: from direction u counterclockwise to v, at most half of it; sag: how far chords may stay behind
Arc(o, r, u, v, sag) == [k |-> "arc", o |-> o, r |-> r, u |-> u, v |-> v, sag |-> sag]
\* nothing is said near o
Fog(o, r) == [k |-> "fog", o |-> o, r |-> r]

\* chords of angle a (1/64 radian), by rounding up to one and a half times that
Sag(r, a) == LET b == Min2(a, 51) IN (r * 9 * b * b) \div 131072 + 2

Join(s0, s1, join) ==
  LET c == s0.b  r == s0.r
      cr == Cross(s0.d, s1.d)  dt == Dot(s0.d, s1.d)
      left == cr > 0
      u == IF left THEN Neg(s0.n) ELSE s1.n
      v == IF left THEN Neg(s1.n) ELSE s0.n
  IN  IF r = 0 \/ (cr = 0 /\ dt > 0) THEN <<>>
      ELSE IF join.k = "round" THEN
        IF cr = 0 THEN <<Arc(c, r, Neg(s0.n), s0.n, Sag(r, join.a))>> ELSE <<Arc(c, r, u, v, Sag(r, join.a))>>
      ELSE IF cr = 0 THEN <<>>
      ELSE IF join.k = "bevel" THEN <<Poly(<<c, Add(c, u), Add(c, v)>>)>>
      ELSE \* miter: tan of half the least sharp angle is tn / td
        LET t2 == join.tn * join.tn  d2 == join.td * join.td
            ll == Isqrt(Dot(s0.d, s0.d) * Dot(s1.d, s1.d))
            x == dt * (d2 + t2) + (d2 - t2) * ll        \* < 0: sharper than the limit
            l(w) == <<RoundDiv(w[1] * join.td, join.tn), RoundDiv(w[2] * join.td, join.tn)>>
            k == Max2(1, (r * r) \div 100000)
            g == (r * r + Dot(u, v)) \div k
            tip == <<RoundDiv((u[1] + v[1]) * ((r * r) \div k), g), RoundDiv((u[2] + v[2]) * ((r * r) \div k), g)>>
        IN  IF Abs(x) <= 2 * (d2 + t2) THEN <<Fog(c, r * 3 + (r * join.td) \div join.tn)>>
            ELSE IF x > 0 THEN <<Poly(<<c, Add(c, u), Add(c, tip), Add(c, v)>>)>>
            ELSE IF left THEN <<Poly(<<c, Add(c, u), Add(Add(c, u), l(s0.f)), Sub(Add(c, v), l(s1.f)), Add(c, v)>>)>>
            ELSE <<Poly(<<c, Add(c, u), Sub(Add(c, u), l(s1.f)), Add(Add(c, v), l(s0.f)), Add(c, v)>>)>>

\* at o, looking along f, normal n to the left of that
Cap(o, f, n, r, cap) ==
  CASE cap.k = "butt" -> <<>>
    [] cap.k = "square" -> <<Poly(<<Sub(o, n), Add(Sub(o, n), f), Add(Add(o, n), f), Add(o, n)>>)>>
    [] cap.k = "round" -> <<Arc(o, r, Neg(n), n, Sag(r, cap.a))>>
    [] cap.k = "custom" ->      \* corners in eighths of the radius
         LET at(p) == <<o[1] + RoundDiv(p[1] * f[1] + p[2] * n[1], 8), o[2] + RoundDiv(p[1] * f[2] + p[2] * n[2], 8)>>
         IN  <<Poly(<<Sub(o, n)>> \o [i \in 1..Len(cap.p) |-> at(cap.p[i])] \o <<Add(o, n)>>)>>

RECURSIVE Distinct(_)
Distinct(c) == IF Len(c) < 2 THEN c
               ELSE IF c[1] = c[2] THEN Distinct(Tail(c)) ELSE <<c[1]>> \o Distinct(Tail(c))
DistinctLoop(c) == LET d == Distinct(c) IN IF Len(d) > 1 /\ d[1] = d[Len(d)] THEN SubSeq(d, 1, Len(d) - 1) ELSE d

Rect(s) == Poly(<<Sub(s.a, s.n), Sub(s.b, s.n), Add(s.b, s.n), Add(s.a, s.n)>>)

\* st: [r (eighths), join, cap0, cap1, closed]
StrokePieces(path, st) ==
  LET c == IF st.closed THEN DistinctLoop(path) ELSE Distinct(path)
      r == st.r * U
      m == IF st.closed THEN Len(c) ELSE Len(c) - 1
      s == TLCEval([i \in 1..m |-> Sect(c[i], Nxt(c, i), r)])
  IN  IF Len(c) < 2 THEN <<>>
      ELSE [i \in 1..m |-> Rect(s[i])]
           \o FlattenSeq([i \in 1..(IF st.closed THEN m ELSE m - 1) |-> Join(s[i], Nxt(s, i), st.join)])
           \o (IF st.closed THEN <<>>
               ELSE Cap(s[1].a, Neg(s[1].f), Neg(s[1].n), r, st.cap0) \o Cap(s[m].b, s[m].f, s[m].n, r, st.cap1))

\* the pieces put on (d > 0) or taken off (d < 0) along a counterclockwise contour
Band(c, d, join) ==
  LET r == Abs(d) * U
      s == TLCEval([i \in 1..Len(c) |-> Sect(c[i], Nxt(c, i), r)])
      strip(t) == IF d > 0 THEN Poly(<<Sub(t.a, t.n), Sub(t.b, t.n), t.b, t.a>>)
                           ELSE Poly(<<t.a, t.b, Add(t.b, t.n), Add(t.a, t.n)>>)
      out(i) == LET cr == Cross(s[i].d, Nxt(s, i).d) IN IF d > 0 THEN cr > 0 ELSE cr < 0
  IN  [i \in 1..Len(c) |-> strip(s[i])]
      \o FlattenSeq([i \in 1..Len(c) |-> IF out(i) THEN Join(s[i], Nxt(s, i), join) ELSE <<>>])

-----------------------------------------------------------------------------
PolyHas(c, p) == IF Clearance(<<c>>, p) < Margin THEN Unclear ELSE IF Wind(<<c>>, p) # 0 THEN In ELSE Out

Has(piece, p) ==
  CASE piece.k = "poly" -> PolyHas(piece.c, p)
    [] piece.k = "fog" -> LET q == Sub(p, piece.o) IN IF Isqrt(Dot(q, q)) <= piece.r THEN Unclear ELSE Out
    [] piece.k = "arc" ->
         LET q == Sub(p, piece.o)  l == Isqrt(Dot(q, q))
             cu == Cross(piece.u, q) \div piece.r   cv == Cross(q, piece.v) \div piece.r
         IN  IF l >= piece.r + Margin \/ cu <= -Margin \/ cv <= -Margin THEN Out
             ELSE IF l <= piece.r - piece.sag - Margin /\ cu >= Margin /\ cv >= Margin THEN In
             ELSE Unclear

Covers(pieces, p) ==
  FoldLeft(LAMBDA acc, piece : IF acc = In THEN In
                               ELSE LET h == Has(piece, p) IN IF h = Out THEN acc ELSE h, Out, pieces)

Not3(h) == IF h = Unclear THEN Unclear ELSE 1 - h
Or3(g, h) == IF g = In \/ h = In THEN In ELSE IF g = Out /\ h = Out THEN Out ELSE Unclear
And3(g, h) == Not3(Or3(Not3(g), Not3(h)))

\* sc.paths, sc.style
Stroke(sc) ==
  LET ps == TLCEval(FlattenSeq([i \in 1..Len(sc.paths) |-> StrokePieces(sc.paths[i], sc.style)]))
  IN  [i \in 1..Len(sc.probes) |-> Covers(ps, sc.probes[i])]

\* sc.paths: outlines counterclockwise, holes clockwise; style [outer, inner, join].
\* A hole is the inside of the reversed contour, moved the other way.
Outline(sc) ==
  LET flat == [i \in 1..Len(sc.paths) |-> DistinctLoop(sc.paths[i])]
      hole == TLCEval([i \in 1..Len(flat) |-> Area2(flat[i]) < 0])
      c == TLCEval([i \in 1..Len(flat) |-> IF hole[i] THEN Reverse(flat[i]) ELSE flat[i]])
      d == [i \in 1..Len(flat) |-> IF hole[i] THEN -sc.style.inner ELSE sc.style.outer]
      band == TLCEval([i \in 1..Len(flat) |-> IF d[i] = 0 THEN <<>> ELSE Band(c[i], d[i], sc.style.join)])
      big == TLCEval([i \in 1..Len(flat) |-> [j \in 1..Len(c[i]) |-> Mul(S, c[i][j])]])
      has(i, p) == IF d[i] > 0 THEN Or3(PolyHas(big[i], p), Covers(band[i], p))
                   ELSE IF d[i] < 0 THEN And3(PolyHas(big[i], p), Not3(Covers(band[i], p)))
                   ELSE PolyHas(big[i], p)
      judge(p) ==
        LET h == TLCEval([i \in 1..Len(flat) |-> has(i, p)])
            count(kind, vals) == Cardinality({i \in 1..Len(flat) : hole[i] = kind /\ h[i] \in vals})
        IN  IF count(FALSE, {In}) > count(TRUE, {In, Unclear}) THEN In
            ELSE IF count(FALSE, {In, Unclear}) <= count(TRUE, {In}) THEN Out
            ELSE Unclear
  IN  [i \in 1..Len(sc.probes) |-> judge(sc.probes[i])]
=============================================================================
