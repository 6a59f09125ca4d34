------------------------------ MODULE Values ------------------------------
(* The data a template handles: TData in src/tdata.rs.                      *)
EXTENDS Base

VNull == [t |-> "null"]
VBool(b) == [t |-> "bool", b |-> b]
VStr(s) == [t |-> "str", s |-> s]
VUInt(m) == [t |-> "uint", n |-> ZOf(1, m)]
VU(i) == VUInt(NOfI(i))
VInt(z) == [t |-> "int", n |-> z]
VList(l) == [t |-> "list", l |-> l]
VMap(m) == [t |-> "map", m |-> m]            \* entries [k, v] sorted by key
VDate(y, m, d) == [t |-> "date", y |-> y, m |-> m, d |-> d]
VBytes(s) == [t |-> "bytes", s |-> s]
VTmpl(pn, b) == [t |-> "tmpl", pn |-> pn, b |-> b]
\* a result the specification leaves open
VAny == [t |-> "any"]
\* floats: c = "num": g * m * 2^e with m odd, or m = <<>> and e = 0 (signed zero)
VFl(c, g, m, e) == [t |-> "float", c |-> c, g |-> g, m |-> m, e |-> e]
FNan == VFl("nan", 1, <<>>, 0)
FInf(g) == VFl("inf", g, <<>>, 0)
FZero(g) == VFl("num", g, <<>>, 0)

\* text the specification leaves open contains the non-character -1
AnyText == <<-1>>
IsOpenText(s) == \E i \in 1..Len(s) : s[i] = -1

-----------------------------------------------------------------------------
(* Keyed sequences (maps, scope frames), kept sorted by key *)
MFind(m, k) == LET j == Least(1, Len(m), LAMBDA x : m[x].k = k) IN IF j <= Len(m) THEN j ELSE 0
MHas(m, k) == MFind(m, k) # 0
MGet(m, k) == m[MFind(m, k)].v
MPut(m, k, v) ==
  LET j == MFind(m, k) IN
  IF j # 0 THEN [m EXCEPT ![j] = [k |-> k, v |-> v]]
  ELSE LET p == Least(1, Len(m), LAMBDA x : LexCmp(m[x].k, k) > 0)
       IN SubSeq(m, 1, p - 1) \o <<[k |-> k, v |-> v]>> \o From(m, p)
MDel(m, k) == SelectSeq(m, LAMBDA e : e.k # k)
MKeys(m) == [i \in 1..Len(m) |-> m[i].k]

-----------------------------------------------------------------------------
(* Floating point: exact values, correctly rounded operations *)
RECURSIVE NShl(_, _)
NShl(m, k) == IF k = 0 \/ m = <<>> THEN m
              ELSE IF k <= 13 THEN NMulS(m, 2 ^ k) ELSE NShl(NMulS(m, 8192), k - 13)
\* shift right, s = TRUE when a 1 was shifted out below the last bit kept
RECURSIVE NShr(_, _, _)
NShr(m, k, s) == IF k = 0 THEN [m |-> m, s |-> s]
                 ELSE LET d == MinN(k, 13)
                          f == NDivS(m, 2 ^ d)
                      IN NShr(f.q, k - d, s \/ f.r # 0)
Pow2 == FoldLeft(LAMBDA acc, k : Append(acc, NMulS(acc[k], 2)), <<<<1>>>>, Idx(200))    \* Pow2[k + 1] = 2^k
NPow2(k) == IF k <= 200 THEN Pow2[k + 1] ELSE NPow(2, k)
RECURSIVE BitSearch(_, _, _)
BitSearch(m, lo, hi) ==       \* greatest k with 2^k <= m, lo <= k <= hi
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF NCmp(NPow2(mid), m) <= 0 THEN BitSearch(m, mid, hi) ELSE BitSearch(m, lo, mid - 1)
NBits(m) == IF m = <<>> THEN 0
            ELSE LET lo == ((Len(m) - 1) * 13287) \div 1000 IN 1 + BitSearch(m, lo, lo + 15)
NEven(m) == m = <<>> \/ m[1] % 2 = 0
RECURSIVE FCanon(_, _, _)
FCanon(g, m, e) ==
  IF m = <<>> THEN FZero(g)
  ELSE IF m[1] % 8192 = 0 /\ NDivS(m, 8192).r = 0 THEN FCanon(g, NDivS(m, 8192).q, e + 13)
  ELSE IF m[1] % 16 = 0 THEN FCanon(g, NDivS(m, 16).q, e + 4)
  ELSE IF m[1] % 2 = 0 THEN FCanon(g, NDivS(m, 2).q, e + 1)
  ELSE VFl("num", g, m, e)
\* g * m * 2^e rounded to the nearest double, ties to even
FRound(g, m, e) ==
  IF m = <<>> THEN FZero(g) ELSE
  LET n == NBits(m)
      sh == MaxN(n - 53, -1074 - e)
  IN IF sh <= 0
     THEN IF n + e > 1024 THEN FInf(g) ELSE FCanon(g, m, e)
     ELSE LET a == NShr(m, sh - 1, FALSE)           \* keep one extra bit
              h == NDivS(a.m, 2)
              up == h.r = 1 /\ (a.s \/ ~NEven(h.q))
              r == IF up THEN NAdd(h.q, <<1>>) ELSE h.q
          IN IF r = <<>> THEN FZero(g)
             ELSE IF NBits(r) + e + sh > 1024 THEN FInf(g) ELSE FCanon(g, r, e + sh)
\* num / den * 2^e rounded
FRatio(g, num, den, e) ==
  IF num = <<>> THEN FZero(g) ELSE
  LET s == MaxN(0, NBits(den) - NBits(num) + 66)
      f == NDivMod(NShl(num, s), den)
      q == IF f.r = <<>> THEN NShl(f.q, 1) ELSE NAdd(NShl(f.q, 1), <<1>>)
  IN FRound(g, q, e - s - 1)
\* the double nearest to g * d * 10^k
FOfDec(g, d, k) ==
  IF k >= 0 THEN FRound(g, NMul(d, NPow(10, k)), 0) ELSE FRatio(g, d, NPow(10, -k), 0)
FOfZ(z) == FRound(IF z.g < 0 THEN -1 ELSE 1, z.m, 0)

FNum(f) == f.c = "num"
FIsZero(f) == f.c = "num" /\ f.m = <<>>
FNeg(f) == IF f.c = "nan" THEN f ELSE [f EXCEPT !.g = -f.g]
\* both operands as integers over the common power of two
FScale(a, b) == LET e == IF FIsZero(a) THEN b.e ELSE IF FIsZero(b) THEN a.e ELSE MinN(a.e, b.e) IN
  [a |-> ZOf(a.g, IF FIsZero(a) THEN <<>> ELSE NShl(a.m, a.e - e)),
   b |-> ZOf(b.g, IF FIsZero(b) THEN <<>> ELSE NShl(b.m, b.e - e)), e |-> e]
\* -1, 0, 1, or 2 for unordered
FCmp(a, b) ==
  IF a.c = "nan" \/ b.c = "nan" THEN 2
  ELSE IF a.c = "inf" THEN (IF b.c = "inf" /\ b.g = a.g THEN 0 ELSE a.g)
  ELSE IF b.c = "inf" THEN -b.g
  ELSE LET s == FScale(a, b) IN ZCmp(s.a, s.b)
FAdd(a, b) ==
  IF a.c = "nan" \/ b.c = "nan" THEN FNan
  ELSE IF a.c = "inf" THEN (IF b.c = "inf" /\ b.g # a.g THEN FNan ELSE a)
  ELSE IF b.c = "inf" THEN b
  ELSE IF FIsZero(a) /\ FIsZero(b) THEN FZero(IF a.g = b.g THEN a.g ELSE 1)
  ELSE LET s == FScale(a, b)
           z == ZAdd(s.a, s.b)
       IN IF z.g = 0 THEN FZero(1) ELSE FRound(z.g, z.m, s.e)
FSub(a, b) == FAdd(a, FNeg(b))
FMul(a, b) ==
  IF a.c = "nan" \/ b.c = "nan" THEN FNan
  ELSE IF a.c = "inf" THEN (IF FIsZero(b) THEN FNan ELSE FInf(a.g * b.g))
  ELSE IF b.c = "inf" THEN (IF FIsZero(a) THEN FNan ELSE FInf(a.g * b.g))
  ELSE FRound(a.g * b.g, NMul(a.m, b.m), a.e + b.e)
FDiv(a, b) ==
  IF a.c = "nan" \/ b.c = "nan" THEN FNan
  ELSE IF a.c = "inf" THEN (IF b.c = "inf" THEN FNan ELSE FInf(a.g * b.g))
  ELSE IF b.c = "inf" THEN FZero(a.g * b.g)
  ELSE IF FIsZero(b) THEN (IF FIsZero(a) THEN FNan ELSE FInf(a.g * b.g))
  ELSE FRatio(a.g * b.g, a.m, b.m, a.e - b.e)
FRem(a, b) ==
  IF a.c = "nan" \/ b.c = "nan" \/ a.c = "inf" \/ FIsZero(b) THEN FNan
  ELSE IF b.c = "inf" \/ FIsZero(a) THEN a
  ELSE LET s == FScale(a, b)
           r == NDivMod(s.a.m, s.b.m).r
       IN FRound(a.g, r, s.e)
\* the exact whole value, when there is one (as in TData::whole)
FWholeOK(f) == f.c = "num" /\ f.e >= 0
FWhole(f) == ZOf(f.g, NShl(f.m, f.e))

-----------------------------------------------------------------------------
(* Kinds and ranks *)
IsWhole(v) == v.t = "uint" \/ v.t = "int"
IsNum(v) == IsWhole(v) \/ v.t = "float"
AsFloat(v) == IF v.t = "float" THEN v ELSE FOfZ(v.n)
Rank(v) == CASE v.t = "null" -> 0 [] v.t = "tmpl" -> 1 [] v.t = "map" -> 2 [] v.t = "list" -> 3
             [] v.t = "bool" -> 4 [] v.t = "int" -> 5 [] v.t = "uint" -> 6 [] v.t = "float" -> 7
             [] v.t = "date" -> 8 [] v.t = "str" -> 9 [] v.t = "bytes" -> 10
ICmp(a, b) == IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1

\* numbers of any kind by value
NumCmp(a, b) ==
  IF IsWhole(a) /\ IsWhole(b) THEN ZCmp(a.n, b.n)
  ELSE LET f(v) == IF v.t = "float" THEN v ELSE IF v.n.m = <<>> THEN FZero(1) ELSE FCanon(v.n.g, v.n.m, 0)
       IN FCmp(f(a), f(b))            \* exact: no rounding of the whole number
\* -1 less, 0 equal-ranked, 1 greater, 2 unordered (not-a-number)
VCmp(a, b) ==
  IF IsNum(a) /\ IsNum(b) THEN NumCmp(a, b)
  ELSE IF a.t = "str" /\ b.t = "str" THEN LexCmp(a.s, b.s)
  ELSE IF a.t = "date" /\ b.t = "date"
       THEN LET y == ICmp(a.y, b.y)  m == ICmp(a.m, b.m)
            IN IF y # 0 THEN y ELSE IF m # 0 THEN m ELSE ICmp(a.d, b.d)
  ELSE ICmp(Rank(a), Rank(b))
VEq(a, b) ==
  IF IsNum(a) /\ IsNum(b) THEN NumCmp(a, b) = 0
  ELSE IF a.t # b.t THEN FALSE
  ELSE IF a.t = "str" THEN a.s = b.s
  ELSE IF a.t = "bool" THEN a.b = b.b
  ELSE IF a.t = "date" THEN a = b
  ELSE a.t = "null"
\* for sorting: not-a-number after every other number
SortCmp(a, b) ==
  LET c == VCmp(a, b)
      nan(v) == v.t = "float" /\ v.c = "nan"
  IN IF c # 2 THEN c ELSE ICmp(IF nan(a) THEN 1 ELSE 0, IF nan(b) THEN 1 ELSE 0)

\* truth: "T", "F" or "N" (has none)
Truth(v) ==
  CASE v.t = "bool" -> IF v.b THEN "T" ELSE "F"
    [] v.t = "str" -> IF v.s = <<>> THEN "F" ELSE "T"
    [] IsWhole(v) -> IF v.n.g = 0 THEN "F" ELSE "T"
    [] v.t = "float" -> IF FIsZero(v) THEN "F" ELSE "T"
    [] v.t = "list" -> IF v.l = <<>> THEN "F" ELSE "T"
    [] v.t = "map" -> IF v.m = <<>> THEN "F" ELSE "T"
    [] v.t = "null" -> "F"
    [] OTHER -> "N"
\* index value: a natural
IsIdx(v) == IsWhole(v) /\ v.n.g >= 0
IdxN(v) == v.n.m

-----------------------------------------------------------------------------
(* Printing *)
\* shortest decimal digits that read back as the double g*m*2^e (m # 0):
\* [d |-> natural, k |-> exponent], value d * 10^k
FDec(f) ==
  LET ex == IF f.e >= 0 THEN [d |-> NShl(f.m, f.e), k |-> 0]
            ELSE [d |-> NMul(f.m, NPow(5, -f.e)), k |-> f.e]        \* exact
      tx == NText(ex.d)
      L == Len(tx)
      pos == [f EXCEPT !.g = 1]
      cand(n) ==       \* the n-digit candidates that read back, nearest first
        LET lo == NOfText(SubSeq(tx, 1, n))
            hi == NAdd(lo, <<1>>)
            k == ex.k + L - n
            rest == NOfText(From(tx, n + 1))                         \* of 10^(L-n)
            half == NCmp(NMulS(rest, 2), NPow(10, L - n))
            okl == FOfDec(1, lo, k) = pos
            okh == FOfDec(1, hi, k) = pos
        IN IF okl /\ (~okh \/ half <= 0) THEN <<[d |-> lo, k |-> k]>>
           ELSE IF okh THEN <<[d |-> hi, k |-> k]>> ELSE <<>>
      RECURSIVE go(_)
      go(n) == IF n >= L THEN ex ELSE LET c == cand(n) IN IF c # <<>> THEN c[1] ELSE go(n + 1)
      \* a decimal of at most 15 digits is the shortest already
      tz == L - Greatest(1, L, LAMBDA j : tx[j] # 48)
  IN IF L - tz <= 15 THEN ex ELSE go(1)
FText(f) ==
  IF f.c = "nan" THEN S("NaN")
  ELSE (IF f.g < 0 THEN <<45>> ELSE <<>>) \o
       (IF f.c = "inf" THEN S("inf")
        ELSE IF f.m = <<>> THEN <<48>>
        ELSE LET d == FDec(f)
                 tx == NText(d.d)
             IN IF d.k >= 0 THEN tx \o Rep(48, d.k)
                ELSE LET w == -d.k                     \* digits after the point
                         pad == IF Len(tx) <= w THEN Rep(48, w + 1 - Len(tx)) \o tx ELSE tx
                         ip == SubSeq(pad, 1, Len(pad) - w)
                         fp == From(pad, Len(pad) - w + 1)
                         fl == Greatest(1, Len(fp), LAMBDA j : fp[j] # 48)
                     IN IF fl = 0 THEN ip ELSE ip \o <<46>> \o SubSeq(fp, 1, fl))
Pad2(i) == <<48 + (i \div 10), 48 + (i % 10)>>
DateText(v) ==
  Pad2(v.d) \o <<47>> \o Pad2(v.m) \o <<47>> \o
  (IF v.y >= 0 /\ v.y <= 9999 THEN Pad4(v.y)
   ELSE IF v.y > 9999 THEN <<43>> \o NText(NOfI(v.y))
   ELSE <<45>> \o (IF v.y >= -9999 THEN Pad4(-v.y) ELSE NText(NOfI(-v.y))))
RECURSIVE Disp(_)
Disp(v) ==
  CASE v.t = "str" -> v.s
    [] v.t = "bool" -> IF v.b THEN S("true") ELSE S("false")
    [] v.t = "null" -> S("NULL")
    [] IsWhole(v) -> ZText(v.n)
    [] v.t = "float" -> FText(v)
    [] v.t = "date" -> DateText(v)
    [] v.t = "list" -> <<91>> \o JoinSeq([i \in 1..Len(v.l) |-> Disp(v.l[i])], <<44>>) \o <<93>>
    [] v.t = "tmpl" -> S("TEMPLATE")
    [] v.t = "bytes" -> S("b\"[") \o JoinSeq([i \in 1..Len(v.s) |-> NText(NOfI(v.s[i]))], S(", ")) \o S("]\"")
    [] v.t = "map" -> IF v.m = <<>> THEN S("{}") ELSE AnyText
    [] v.t = "any" -> AnyText

-----------------------------------------------------------------------------
(* The value the specification computed against the one the program showed.  *)
RECURSIVE Same(_, _)
Same(a, b) ==
  IF a.t = "any" THEN TRUE
  ELSE IF a.t # b.t THEN FALSE
  ELSE CASE a.t = "tmpl" -> TRUE
         [] a.t = "list" -> Len(a.l) = Len(b.l) /\ \A i \in 1..Len(a.l) : Same(a.l[i], b.l[i])
         [] a.t = "map" -> /\ Len(a.m) = Len(b.m)
                           /\ \A i \in 1..Len(a.m) : a.m[i].k = b.m[i].k /\ Same(a.m[i].v, b.m[i].v)
         [] a.t = "str" -> IsOpenText(a.s) \/ a.s = b.s
         [] OTHER -> a = b
\* equality with equal structure (VEq never relates lists, maps, bytes)
RECURSIVE DeepEq(_, _)
DeepEq(a, b) ==
  IF a.t = "list" /\ b.t = "list" THEN Len(a.l) = Len(b.l) /\ \A i \in 1..Len(a.l) : DeepEq(a.l[i], b.l[i])
  ELSE IF a.t = "map" /\ b.t = "map"
       THEN Len(a.m) = Len(b.m) /\ \A i \in 1..Len(a.m) : a.m[i].k = b.m[i].k /\ DeepEq(a.m[i].v, b.m[i].v)
  ELSE VEq(a, b)
RECURSIVE HasTmpl(_)
HasTmpl(v) == \/ v.t = "tmpl"
              \/ v.t = "list" /\ \E i \in 1..Len(v.l) : HasTmpl(v.l[i])
              \/ v.t = "map" /\ \E i \in 1..Len(v.m) : HasTmpl(v.m[i].v)
RECURSIVE HasAny(_)
HasAny(v) == \/ v.t = "any"
             \/ v.t = "str" /\ IsOpenText(v.s)
             \/ v.t = "list" /\ \E i \in 1..Len(v.l) : HasAny(v.l[i])
             \/ v.t = "map" /\ \E i \in 1..Len(v.m) : HasAny(v.m[i].v)

\* look up a path of parts in a value; <<>> for nothing, <<v>> for v
RECURSIVE Walk(_, _)
Walk(v, path) ==
  IF path = <<>> THEN <<v>>
  ELSE LET p == Head(path) IN
       IF v.t = "map" /\ p.t = "i" /\ MHas(v.m, p.s) THEN Walk(MGet(v.m, p.s), Tail(path))
       ELSE IF v.t = "list" /\ p.t = "n" /\ NCmp(p.n, NOfI(Len(v.l))) < 0
            THEN Walk(v.l[NToI(p.n) + 1], Tail(path))
       ELSE <<>>
=============================================================================
