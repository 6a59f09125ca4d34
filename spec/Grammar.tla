------------------------------ MODULE Grammar ------------------------------
(* The template language: text -> tree (src/parse/*.rs, src/template.rs).   *)
(* Ordered choice as in the code: an alternative that fails is given up for *)
(* the next one; a tag that opens and matches no alternative is an error.   *)
(* A parse result is [i |-> position after, v |-> value]; i = 0 is failure. *)
EXTENDS Values

No == [i |-> 0, v |-> 0]
Yes(i, v) == [i |-> i, v |-> v]
Ch(t, i) == IF i <= Len(t) THEN t[i] ELSE -2
SkipWN(t, i) == NextAt(t, i, LAMBDA c : ~IsWN(c))
SkipWS(t, i) == NextAt(t, i, LAMBDA c : ~IsWS(c))
IsWordC(c) == IsAlpha(c) \/ IsDigit(c) \/ c = 95
\* keyword k at i: position after it, or 0
Kw(t, i, k) == IF IsPrefixAt(k, t, i) /\ ~IsWordC(Ch(t, i + Len(k))) THEN i + Len(k) ELSE 0

-----------------------------------------------------------------------------
(* Names and literals *)
PIdent(t, i) ==
  IF IsAlpha(Ch(t, i))
  THEN LET j == NextAt(t, i, LAMBDA z : ~IsWordC(z)) IN Yes(j, SubSeq(t, i, j - 1))
  ELSE IF Ch(t, i) = 39
  THEN LET j == NextAt(t, i + 1, LAMBDA z : z = 39)
       IN IF j > Len(t) \/ j = i + 1 THEN No ELSE Yes(j + 1, SubSeq(t, i + 1, j - 1))
  ELSE No

IsNumC(c) == IsDigit(c) \/ c = 95
\* digits with underscores, at least one digit: the digits
PDigits(t, i) ==
  LET j == NextAt(t, i, LAMBDA z : ~IsNumC(z))
      d == SelectSeq(SubSeq(t, i, j - 1), IsDigit)
  IN IF d = <<>> THEN No ELSE Yes(j, d)
PUInt(t, i) == LET d == PDigits(t, i) IN
  IF d.i = 0 THEN No
  ELSE LET n == NOfText(d.v) IN IF NCmp(n, UMAX) > 0 THEN No ELSE Yes(d.i, n)
\* gobble's own Int (used in dates): magnitude at most 2^63 - 1
PYear(t, i) == LET neg == Ch(t, i) = 45
                   d == PUInt(t, IF neg THEN i + 1 ELSE i)
               IN IF d.i = 0 \/ NCmp(d.v, IMAX) > 0 THEN No ELSE Yes(d.i, ZOf(IF neg THEN -1 ELSE 1, d.v))
MonthNames == <<S("jan"), S("feb"), S("mar"), S("apr"), S("may"), S("jun"),
                S("jul"), S("aug"), S("sep"), S("oct"), S("nov"), S("dec")>>
PMonth(t, i) ==
  LET d == PUInt(t, i) IN
  IF d.i # 0 /\ NFits(d.v) /\ NToI(d.v) \in 1..12 THEN Yes(d.i, NToI(d.v))
  ELSE LET k == Least(1, 12, LAMBDA m : IsPrefixAt(MonthNames[m], t, i))
       IN IF k > 12 THEN No ELSE Yes(i + 3, k)
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
                  [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
DateOK(y, m, d) == y >= -262143 /\ y <= 262142 /\ d >= 1 /\ d <= DaysIn(y, m)
PDate(t, i) ==
  LET d == PUInt(t, i) IN
  IF d.i = 0 \/ Ch(t, d.i) # 47 THEN No ELSE
  LET m == PMonth(t, d.i + 1) IN
  IF m.i = 0 \/ Ch(t, m.i) # 47 THEN No ELSE
  LET y == PYear(t, m.i + 1) IN
  IF y.i = 0 \/ ~NFits(d.v) \/ ~ZFits(y.v) THEN No
  ELSE IF ~DateOK(ZToI(y.v), m.v, NToI(d.v)) THEN No
  ELSE Yes(y.i, VDate(ZToI(y.v), m.v, NToI(d.v)))

\* decimal literal: the nearest double; one that overflows is not a literal
PFloat(t, i) ==
  LET neg == Ch(t, i) = 45
      ip == PDigits(t, IF neg THEN i + 1 ELSE i)
  IN IF ip.i = 0 \/ Ch(t, ip.i) # 46 THEN No ELSE
     LET j == NextAt(t, ip.i + 1, LAMBDA z : ~IsNumC(z))
         fr == SelectSeq(SubSeq(t, ip.i + 1, j - 1), IsDigit)
         eneg == Ch(t, j) = 101 /\ Ch(t, j + 1) = 45
         ed == IF Ch(t, j) = 101 THEN PDigits(t, IF eneg THEN j + 2 ELSE j + 1) ELSE No
         en == IF ed.i = 0 THEN 0 ELSE LET n == NOfText(ed.v) IN IF Len(n) > 1 THEN 9999 ELSE NToI(n)
         d == NOfText(ip.v \o fr)
         k == (IF eneg THEN -en ELSE en) - Len(fr)
         L == Len(NText(d))
         g == IF neg THEN -1 ELSE 1
         \* out of range by magnitude alone: do not compute huge powers
         f == IF d = <<>> THEN FZero(g)
              ELSE IF k + L > 400 THEN FInf(g) ELSE IF k + L < -400 THEN FZero(g)
              ELSE FOfDec(g, d, k)
     IN IF f.c = "inf" THEN No ELSE Yes(IF ed.i = 0 THEN j ELSE ed.i, f)

PInt(t, i) == LET neg == Ch(t, i) = 45
                  d == PUInt(t, IF neg THEN i + 1 ELSE i)
              IN IF d.i = 0 THEN No
                 ELSE LET z == ZOf(IF neg THEN -1 ELSE 1, d.v)
                      IN IF IsI64(z) THEN Yes(d.i, VInt(z)) ELSE No

RECURSIVE PQuoted(_, _, _)
PQuoted(t, i, acc) ==
  LET j == NextAt(t, i, LAMBDA z : z = 34 \/ z = 92)
      a == acc \o SubSeq(t, i, j - 1)
  IN IF j > Len(t) THEN No
     ELSE IF t[j] = 34 THEN Yes(j + 1, a)
     ELSE LET c == Ch(t, j + 1) IN
          CASE c = 98 -> PQuoted(t, j + 2, Append(a, 8))
            [] c = 102 -> PQuoted(t, j + 2, Append(a, 12))
            [] c = 110 -> PQuoted(t, j + 2, Append(a, 10))
            [] c = 114 -> PQuoted(t, j + 2, Append(a, 13))
            [] c = 116 -> PQuoted(t, j + 2, Append(a, 9))
            [] c \in {34, 92, 47} -> PQuoted(t, j + 2, Append(a, c))
            [] c = 117 -> IF \A x \in 2..5 : IsHex(Ch(t, j + x))
                          THEN LET u == FoldLeft(LAMBDA s, x : s * 16 + HexVal(t[j + x]), 0, <<2, 3, 4, 5>>)
                               IN IF IsScalar(u) THEN PQuoted(t, j + 6, Append(a, u)) ELSE No
                          ELSE No
            [] OTHER -> No
PTString(t, i) ==
  IF Ch(t, i) = 34 THEN PQuoted(t, i + 1, <<>>)
  ELSE IF IsPrefixAt(<<114, 35, 34>>, t, i)         \* r#" ... "#
  THEN LET j == FindFrom(t, <<34, 35>>, i + 3)
       IN IF j = 0 THEN No ELSE Yes(j + 2, SubSeq(t, i + 3, j - 1))
  ELSE No

KNull == S("null")  KTrue == S("true")  KFalse == S("false")
PSimple(t, i) ==
  LET c == Ch(t, i) IN
  IF c = 110 /\ Kw(t, i, KNull) # 0 THEN Yes(i + 4, VNull)
  ELSE IF c = 116 /\ Kw(t, i, KTrue) # 0 THEN Yes(i + 4, VBool(TRUE))
  ELSE IF c = 102 /\ Kw(t, i, KFalse) # 0 THEN Yes(i + 5, VBool(FALSE))
  ELSE IF IsNumC(c) \/ c = 45
  THEN LET d == PDate(t, i) IN IF d.i # 0 THEN d ELSE
       LET f == PFloat(t, i) IN IF f.i # 0 THEN f ELSE
       LET u == PUInt(t, i) IN IF u.i # 0 THEN Yes(u.i, VUInt(u.v)) ELSE PInt(t, i)
  ELSE LET s == PTString(t, i) IN IF s.i = 0 THEN No ELSE Yes(s.i, VStr(s.v))

-----------------------------------------------------------------------------
(* Repetition.  P takes a position and gives a result.                      *)
PStar(P(_), i, acc) ==
  LET r == Iter([go |-> TRUE, i |-> i, v |-> acc],
                LAMBDA s : LET r == P(s.i) IN IF r.i = 0 \/ r.i = s.i THEN [s EXCEPT !.go = FALSE]
                                             ELSE [go |-> TRUE, i |-> r.i, v |-> Append(s.v, r.v)])
  IN Yes(r.i, r.v)
\* a list up to the closing character c; sep 0: comma required, 1: optional
PSepRest(P(_), t, i, c, opt, acc) ==
  LET step(s) ==
        LET r == P(s.i) IN
        IF r.i = 0 THEN [s EXCEPT !.go = FALSE, !.i = 0]
        ELSE LET a == Append(s.v, r.v) IN
             IF Ch(t, r.i) = c THEN [go |-> FALSE, i |-> r.i + 1, v |-> a]
             ELSE IF Ch(t, r.i) = 44 THEN [go |-> TRUE, i |-> r.i + 1, v |-> a]
             ELSE IF opt THEN [go |-> TRUE, i |-> r.i, v |-> a] ELSE [s EXCEPT !.go = FALSE, !.i = 0]
      e == Iter([go |-> TRUE, i |-> i, v |-> acc], step)
  IN IF e.i = 0 THEN No ELSE Yes(e.i, e.v)
PSepUntil(P(_), t, i, c, opt) ==
  IF Ch(t, i) = c THEN Yes(i + 1, <<>>) ELSE PSepRest(P, t, i, c, opt, <<>>)

RECURSIVE MOfPairs(_)
MOfPairs(ps) == FoldLeft(LAMBDA m, p : MPut(m, p[1], p[2]), <<>>, ps)

-----------------------------------------------------------------------------
(* Data text (r_json, TData::from_str) *)
RECURSIVE PData(_, _), PDataWn(_, _), PDataKV(_, _)
PDataWn(t, i) == LET r == PData(t, SkipWN(t, i)) IN IF r.i = 0 THEN No ELSE Yes(SkipWN(t, r.i), r.v)
PDataKV(t, i) ==
  LET k == PTString(t, SkipWN(t, i)) IN
  IF k.i = 0 THEN No ELSE
  LET j == SkipWN(t, k.i) IN
  IF Ch(t, j) # 58 THEN No ELSE
  LET v == PData(t, j + 1) IN
  IF v.i = 0 THEN No ELSE Yes(SkipWN(t, v.i), <<k.v, v.v>>)
PData(t, i) ==
  LET s == PSimple(t, i) IN
  IF s.i # 0 THEN s
  ELSE IF Ch(t, i) = 91
  THEN LET r == PSepUntil(LAMBDA j : PDataWn(t, j), t, i + 1, 93, TRUE) IN IF r.i = 0 THEN No ELSE Yes(r.i, VList(r.v))
  ELSE IF Ch(t, i) = 123
  THEN LET r == PSepUntil(LAMBDA j : PDataKV(t, SkipWN(t, j)), t, i + 1, 125, FALSE)
       IN IF r.i = 0 THEN No ELSE Yes(r.i, VMap(MOfPairs(r.v)))
  ELSE No
\* the whole text is one value
ReadData(t) == LET r == PDataWn(t, 1) IN IF r.i = Len(t) + 1 THEN r ELSE No

-----------------------------------------------------------------------------
(* Expressions *)
ELit(v) == [e |-> "lit", v |-> v]
EVar(p) == [e |-> "var", p |-> p]
ECmd(f, a) == [e |-> "cmd", f |-> f, a |-> a]
EList(a) == [e |-> "list", a |-> a]
EMap(m) == [e |-> "map", m |-> m]             \* pairs <<key, expr>> in source order
PartN(n) == [t |-> "n", n |-> n]
PartI(s) == [t |-> "i", s |-> s]
AtName == <<64>>

PVar(t, i) == LET id == PIdent(t, i) IN
  IF id.i # 0 THEN Yes(id.i, PartI(id.v))
  ELSE LET u == PUInt(t, i) IN IF u.i = 0 THEN No ELSE Yes(u.i, PartN(u.v))
\* Var separated by '.', a dangling '.' is an error
RECURSIVE PVarsRest(_, _, _)
PVarsRest(t, i, acc) ==
  LET v == PVar(t, i) IN
  IF v.i = 0 THEN No
  ELSE IF Ch(t, v.i) = 46 THEN PVarsRest(t, v.i + 1, Append(acc, v.v))
  ELSE Yes(v.i, Append(acc, v.v))
PVarPath(t, i) == IF PVar(t, i).i = 0 THEN Yes(i, <<>>) ELSE PVarsRest(t, i, <<>>)

RECURSIVE PExp(_, _), PExpWn(_, _), PMapItem(_, _)
PExpWn(t, i) == LET r == PExp(t, SkipWN(t, i)) IN IF r.i = 0 THEN No ELSE Yes(SkipWN(t, r.i), r.v)
PMapItem(t, i) ==
  LET j == SkipWN(t, i)
      id == PIdent(t, j)
      k == IF id.i # 0 THEN id ELSE PTString(t, j)
  IN IF k.i = 0 THEN No ELSE
     LET c == SkipWN(t, k.i) IN
     IF Ch(t, c) # 58 THEN No ELSE
     LET v == PExp(t, c + 1) IN
     IF v.i = 0 THEN No ELSE Yes(SkipWN(t, v.i), <<k.v, v.v>>)
PExp(t, i) ==
  LET c == Ch(t, i) IN
  CASE c = 40 -> LET r == PExpWn(t, i + 1)
                 IN IF r.i # 0 /\ Ch(t, r.i) = 41 THEN Yes(r.i + 1, r.v) ELSE No
    [] c = 91 -> LET r == PSepUntil(LAMBDA j : PExpWn(t, j), t, i + 1, 93, TRUE)
                 IN IF r.i = 0 THEN No ELSE Yes(r.i, EList(r.v))
    [] c = 123 -> LET r == PSepUntil(LAMBDA j : PMapItem(t, SkipWN(t, j)), t, i + 1, 125, FALSE)
                  IN IF r.i = 0 THEN No ELSE Yes(r.i, EMap(r.v))
    [] c = 36 -> LET r == PVarPath(t, i + 1) IN IF r.i = 0 THEN No ELSE Yes(r.i, EVar(r.v))
    [] c = 46 -> LET r == PStar(LAMBDA j : IF Ch(t, j) = 46 THEN PVar(t, j + 1) ELSE No, i, <<>>)
                 IN IF r.v = <<>> THEN No ELSE Yes(r.i, EVar(<<PartN(<<>>)>> \o r.v))
    [] c = 64 -> Yes(i + 1, EVar(<<PartI(AtName)>>))
    [] OTHER ->
       LET s == PSimple(t, i) IN
       IF s.i # 0 THEN Yes(s.i, ELit(s.v))
       ELSE LET id == PIdent(t, i) IN
            IF id.i = 0 THEN No
            ELSE LET a == PStar(LAMBDA j : PExpWn(t, j), id.i, <<>>)
                 IN Yes(a.i, ECmd(id.v, a.v))

-----------------------------------------------------------------------------
(* Patterns *)
PtAny == [p |-> "any"]
PtVal(v) == [p |-> "val", v |-> v]
PtList(l) == [p |-> "list", l |-> l]
PtMap(m) == [p |-> "map", m |-> m]            \* pairs <<key, pattern>> in order
PtFilter(e) == [p |-> "filter", e |-> e]
PtCap(id, q) == [p |-> "cap", id |-> id, q |-> q]   \* q: <<>> or <<pattern>>
RECURSIVE PPat(_, _), PPatWn(_, _), PPatKV(_, _)
PPatWn(t, i) == LET r == PPat(t, SkipWN(t, i)) IN IF r.i = 0 THEN No ELSE Yes(SkipWN(t, r.i), r.v)
PPatKV(t, i) ==
  LET id == PIdent(t, SkipWN(t, i)) IN
  IF id.i = 0 THEN No ELSE
  LET j == SkipWN(t, id.i)
      q == IF Ch(t, j) = 58 THEN PPatWn(t, j + 1) ELSE No
  IN IF q.i # 0 THEN Yes(q.i, <<id.v, q.v>>) ELSE Yes(j, <<id.v, PtCap(id.v, <<>>)>>)
PPatKVWn(t, i) == LET r == PPatKV(t, SkipWN(t, i)) IN IF r.i = 0 THEN No ELSE Yes(SkipWN(t, r.i), r.v)
PPat(t, i) ==
  LET c == Ch(t, i) IN
  CASE c = 95 /\ Kw(t, i, <<95>>) # 0 -> Yes(i + 1, PtAny)
    [] c = 123 -> LET r == PSepUntil(LAMBDA j : PPatKVWn(t, j), t, i + 1, 125, TRUE)
                  IN IF r.i = 0 THEN No ELSE Yes(r.i, PtMap(r.v))
    [] c = 91 -> LET r == PSepUntil(LAMBDA j : PPatWn(t, j), t, i + 1, 93, TRUE)
                 IN IF r.i = 0 THEN No ELSE Yes(r.i, PtList(r.v))
    [] c = 63 -> IF Ch(t, i + 1) # 40 THEN No
                 ELSE LET e == PExp(t, i + 2)
                      IN IF e.i # 0 /\ Ch(t, e.i) = 41 THEN Yes(e.i + 1, PtFilter(e.v)) ELSE No
    [] c = 60 -> LET id == PIdent(t, SkipWN(t, i + 1)) IN
                 IF id.i = 0 THEN No ELSE
                 LET j == SkipWN(t, id.i)
                     q == IF Ch(t, j) = 58 THEN PPat(t, j + 1) ELSE No
                     n == IF q.i # 0 THEN q.i ELSE j
                 IN IF Ch(t, n) # 62 THEN No
                    ELSE Yes(n + 1, PtCap(id.v, IF q.i # 0 THEN <<q.v>> ELSE <<>>))
    [] OTHER -> LET s == PSimple(t, i) IN IF s.i = 0 THEN No ELSE Yes(s.i, PtVal(s.v))

-----------------------------------------------------------------------------
(* Tags.  A flat item is a record with field k.                             *)
Open2 == <<123, 123>>  Open3 == <<123, 123, 45>>
Close2 == <<125, 125>>  Close3 == <<45, 125, 125>>
POpen(t, i) ==      \* position after, or 0
  LET j == SkipWN(t, i) IN
  IF IsPrefixAt(Open3, t, j) THEN SkipWN(t, j + 3)
  ELSE IF IsPrefixAt(Open2, t, i) THEN SkipWN(t, i + 2) ELSE 0
PClose(t, i) ==
  LET j == SkipWN(t, i) IN
  IF IsPrefixAt(Close3, t, j) THEN SkipWN(t, j + 3)
  ELSE IF IsPrefixAt(Close2, t, j) THEN j + 2 ELSE 0

\* identifier, "=", expression, then one of ; , newline or the end of the tag
PAssign(t, i) ==
  LET id == PIdent(t, SkipWN(t, i)) IN
  IF id.i = 0 THEN No ELSE
  LET j == SkipWN(t, id.i) IN
  IF Ch(t, j) # 61 THEN No ELSE
  LET e == PExp(t, SkipWN(t, j + 1)) IN
  IF e.i = 0 THEN No ELSE
  LET w == SkipWS(t, e.i) IN
  IF Ch(t, w) \in {59, 44, 10} THEN Yes(SkipWN(t, w + 1), <<id.v, e.v>>)
  ELSE IF PClose(t, w) # 0 THEN Yes(SkipWN(t, w), <<id.v, e.v>>)
  ELSE No

K_else == S("else")  K_if == S("if")  K_return == S("return")  K_elif == S("elif")
K_for == S("for")  K_in == S("in")  K_switch == S("switch")  K_case == S("case")
K_as == S("as")  K_define == S("define")  K_global == S("global")  K_let == S("let")
K_export == S("export")  K_atlet == S("@let")  K_atexport == S("@export")

\* keyword then expression
PKwExp(t, i, kw, name) ==
  LET j == Kw(t, i, kw) IN
  IF j = 0 THEN No ELSE
  LET e == PExpWn(t, j) IN IF e.i = 0 THEN No ELSE Yes(e.i, [k |-> name, x |-> e.v])
PIdentWn(t, i) == LET r == PIdent(t, SkipWN(t, i)) IN IF r.i = 0 THEN No ELSE Yes(SkipWN(t, r.i), r.v)
PDef(t, i, kw, name) ==
  LET j == Kw(t, i, kw) IN
  IF j = 0 THEN No ELSE
  LET id == PIdentWn(t, j) IN
  IF id.i = 0 THEN No ELSE
  LET ps == PStar(LAMBDA x : PIdentWn(t, x), id.i, <<>>)
  IN Yes(ps.i, [k |-> name, n |-> id.v, ps |-> ps.v])
PAssigns(t, i, kw, name) ==
  LET j == Kw(t, i, kw) IN
  IF j = 0 THEN No ELSE
  LET r == PStar(LAMBDA x : PAssign(t, x), j, <<>>)
  IN IF r.v = <<>> THEN No ELSE Yes(r.i, [k |-> name, as |-> r.v])
PAtName(t, i, kw, name) ==
  LET j == Kw(t, i, kw) IN
  IF j = 0 THEN No ELSE
  LET id == PIdent(t, SkipWN(t, j)) IN IF id.i = 0 THEN No ELSE Yes(id.i, [k |-> name, n |-> id.v])
PFor(t, i) ==
  LET j == Kw(t, i, K_for) IN
  IF j = 0 THEN No ELSE
  LET a == PIdent(t, SkipWN(t, j)) IN IF a.i = 0 THEN No ELSE
  LET b == PIdent(t, SkipWN(t, a.i)) IN IF b.i = 0 THEN No ELSE
  LET n == Kw(t, SkipWN(t, b.i), K_in) IN IF n = 0 THEN No ELSE
  LET e == PExpWn(t, n) IN
  IF e.i = 0 THEN No ELSE Yes(e.i, [k |-> "for", kn |-> a.v, vn |-> b.v, x |-> e.v])
PCase(t, i) ==
  LET j == Kw(t, i, K_case) IN
  IF j = 0 THEN No
  ELSE LET r == PStar(LAMBDA x : PPatWn(t, x), j, <<>>) IN Yes(r.i, [k |-> "case", ps |-> r.v])
PAs(t, i) ==
  LET j == Kw(t, i, K_as) IN
  IF j = 0 THEN No ELSE
  LET e == PExpWn(t, j) IN
  IF e.i = 0 \/ Ch(t, e.i) # 58 THEN No ELSE
  LET p == PPatWn(t, e.i + 1) IN
  IF p.i = 0 THEN No ELSE Yes(p.i, [k |-> "as", x |-> e.v, p |-> p.v])
PBlock(t, i) ==
  IF Ch(t, i) # 64 THEN No ELSE
  LET id == PIdent(t, i + 1) IN
  IF id.i = 0 THEN No ELSE
  LET j == NextAt(t, id.i, LAMBDA z : z \notin {32, 9, 10})
      a == PStar(LAMBDA x : PExpWn(t, x), j, <<>>)
  IN Yes(a.i, [k |-> "block", n |-> id.v, a |-> a.v])
PEnd(t, i) ==
  IF Ch(t, i) # 47 THEN No ELSE
  LET id == PIdent(t, i + 1) IN
  IF id.i = 0 THEN No ELSE Yes(SkipWS(t, id.i), [k |-> "end", n |-> id.v])
PComment(t, i) ==
  IF Ch(t, i) # 35 THEN No
  ELSE LET j == NextAt(t, i + 1, LAMBDA z : z = 35)
       IN IF j > Len(t) THEN No ELSE Yes(j + 1, [k |-> "comment"])
PExpItem(t, i) == LET e == PExp(t, i) IN IF e.i = 0 THEN No ELSE Yes(e.i, [k |-> "exp", x |-> e.v])

\* the alternatives of a tag's content, in order
PTag(t, i) ==
  LET c == Ch(t, i)
      r1 == CASE c = 35 -> PComment(t, i)
              [] c = 101 -> IF Kw(t, i, K_else) # 0 THEN Yes(i + 4, [k |-> "else"])
                            ELSE LET a == PKwExp(t, i, K_elif, "elif")
                                 IN IF a.i # 0 THEN a ELSE PAssigns(t, i, K_export, "export")
              [] c = 105 -> PKwExp(t, i, K_if, "if")
              [] c = 114 -> PKwExp(t, i, K_return, "return")
              [] c = 102 -> PFor(t, i)
              [] c = 115 -> PKwExp(t, i, K_switch, "switch")
              [] c = 99 -> PCase(t, i)
              [] c = 97 -> PAs(t, i)
              [] c = 100 -> PDef(t, i, K_define, "define")
              [] c = 103 -> PDef(t, i, K_global, "global")
              [] c = 108 -> PAssigns(t, i, K_let, "let")
              [] c = 64 -> LET a == PAtName(t, i, K_atlet, "atlet") IN IF a.i # 0 THEN a ELSE
                           LET b == PAtName(t, i, K_atexport, "atexport") IN IF b.i # 0 THEN b
                           ELSE PBlock(t, i)
              [] c = 47 -> PEnd(t, i)
              [] OTHER -> No
  IN IF r1.i # 0 THEN r1 ELSE PExpItem(t, i)

\* one piece of text
PText1(t, i) ==
  LET c == Ch(t, i) IN
  IF c = 92
  THEN LET j == SkipWN(t, i + 1) IN
       IF j > i + 1 THEN Yes(IF Ch(t, j) = 92 THEN j + 1 ELSE j, <<>>)
       ELSE IF i + 1 <= Len(t) THEN Yes(i + 2, <<t[i + 1]>>)
       ELSE Yes(i + 1, <<92>>)
  ELSE IF c = 123 THEN (IF Ch(t, i + 1) = 123 THEN No ELSE Yes(i + 1, <<123>>))
  ELSE IF IsWN(c) THEN LET j == SkipWN(t, i) IN Yes(j, SubSeq(t, i, j - 1))
  ELSE LET j == NextAt(t, i, LAMBDA z : IsWN(z) \/ z = 123 \/ z = 92)
       IN Yes(j, SubSeq(t, i, j - 1))
PTextRun(t, i, acc) ==
  LET step(s) ==
        LET r == PText1(t, s.i) IN
        IF r.i = 0 THEN [s EXCEPT !.go = FALSE, !.i = 0]
        ELSE [go |-> r.i <= Len(t) /\ POpen(t, r.i) = 0, i |-> r.i, v |-> s.v \o r.v]
      e == Iter([go |-> TRUE, i |-> i, v |-> acc], step)
  IN IF e.i = 0 THEN No ELSE Yes(e.i, e.v)

PItem(t, i) ==
  LET o == POpen(t, i) IN
  IF o # 0
  THEN LET x == PTag(t, o) IN
       IF x.i = 0 THEN No
       ELSE LET c == PClose(t, x.i) IN IF c = 0 THEN No ELSE Yes(c, x.v)
  ELSE LET r == PTextRun(t, i, <<>>) IN IF r.i = 0 THEN No ELSE Yes(r.i, [k |-> "text", s |-> r.v])
PFile(t, i, acc) ==
  LET step(s) ==
        LET r == PItem(t, s.i) IN
        IF r.i = 0 THEN [s EXCEPT !.go = FALSE, !.i = 0]
        ELSE [go |-> r.i <= Len(t), i |-> r.i, v |-> Append(s.v, r.v)]
      e == Iter([go |-> i <= Len(t), i |-> i, v |-> acc], step)
  IN IF e.i = 0 THEN No ELSE Yes(e.i, e.v)

-----------------------------------------------------------------------------
(* Blocks: flat items -> tree.  [i |-> next, v |-> items]; i = 0 is failure. *)
IsEnd(f, n) == f.k = "end" /\ f.n = n
RECURSIVE TItem(_, _), TBlock(_, _, _, _), TIf(_, _, _), TSwitch(_, _, _, _)
\* the items up to {{/n}} (or the end of the template)
TBlock(f, i, n, acc) ==
  IF i > Len(f) THEN Yes(i, acc)
  ELSE IF IsEnd(f[i], n) THEN Yes(i + 1, acc)
  ELSE LET r == TItem(f, i) IN IF r.i = 0 THEN No ELSE TBlock(f, r.i, n, Append(acc, r.v))
\* the true branch of an if whose condition is x, then what follows
TIf(f, i, st) ==         \* st = [x, acc]
  IF i > Len(f) THEN No
  ELSE IF f[i].k = "else"
  THEN LET n == TBlock(f, i + 1, K_if, <<>>)
       IN IF n.i = 0 THEN No ELSE Yes(n.i, [k |-> "if", x |-> st.x, y |-> st.acc, n |-> n.v])
  ELSE IF f[i].k = "elif"
  THEN LET n == TIf(f, i + 1, [x |-> f[i].x, acc |-> <<>>])
       IN IF n.i = 0 THEN No ELSE Yes(n.i, [k |-> "if", x |-> st.x, y |-> st.acc, n |-> <<n.v>>])
  ELSE IF IsEnd(f[i], K_if) THEN Yes(i + 1, [k |-> "if", x |-> st.x, y |-> st.acc, n |-> <<>>])
  ELSE LET r == TItem(f, i) IN IF r.i = 0 THEN No ELSE TIf(f, r.i, [st EXCEPT !.acc = Append(@, r.v)])
\* cases <<[ps, b]>>; text before the first case is dropped, a tag there is an error
TSwitch(f, i, x, cs) ==
  IF i > Len(f) THEN Yes(i, [k |-> "switch", x |-> x, cs |-> cs])
  ELSE IF f[i].k = "case" THEN TSwitch(f, i + 1, x, Append(cs, [ps |-> f[i].ps, b |-> <<>>]))
  ELSE IF IsEnd(f[i], K_switch) THEN Yes(i + 1, [k |-> "switch", x |-> x, cs |-> cs])
  ELSE IF cs = <<>> THEN (IF f[i].k = "text" THEN TSwitch(f, i + 1, x, cs) ELSE No)
  ELSE LET r == TItem(f, i) IN
       IF r.i = 0 THEN No
       ELSE TSwitch(f, r.i, x, [cs EXCEPT ![Len(cs)].b = Append(@, r.v)])
\* an item with its block
WithB(f, i, n, fin(_)) == LET b == TBlock(f, i, n, <<>>) IN IF b.i = 0 THEN No ELSE Yes(b.i, fin(b.v))
TItem(f, i) ==
  LET x == f[i] IN
  CASE x.k \in {"text", "exp", "comment", "let", "export", "return"} -> Yes(i + 1, x)
    [] x.k = "atlet" -> WithB(f, i + 1, K_let, LAMBDA b : [k |-> "atlet", n |-> x.n, b |-> b])
    [] x.k = "atexport" -> WithB(f, i + 1, K_export, LAMBDA b : [k |-> "atexport", n |-> x.n, b |-> b])
    [] x.k = "define" -> WithB(f, i + 1, K_define, LAMBDA b : [k |-> "define", n |-> x.n, ps |-> x.ps, b |-> b])
    [] x.k = "global" -> WithB(f, i + 1, K_global, LAMBDA b : [k |-> "global", n |-> x.n, ps |-> x.ps, b |-> b])
    [] x.k = "for" -> WithB(f, i + 1, K_for, LAMBDA b : [k |-> "for", kn |-> x.kn, vn |-> x.vn, x |-> x.x, b |-> b])
    [] x.k = "block" -> WithB(f, i + 1, x.n, LAMBDA b : [k |-> "block", n |-> x.n, a |-> x.a, b |-> b])
    [] x.k = "as" -> WithB(f, i + 1, K_as, LAMBDA b : [k |-> "as", x |-> x.x, p |-> x.p, b |-> b])
    [] x.k = "if" -> TIf(f, i + 1, [x |-> x.x, acc |-> <<>>])
    [] x.k = "switch" -> TSwitch(f, i + 1, x.x, <<>>)
    [] OTHER -> No                         \* else, elif, case, end out of place
RECURSIVE TRoot(_, _, _)
TRoot(f, i, acc) ==
  IF i > Len(f) THEN Yes(i, acc)
  ELSE LET r == TItem(f, i) IN IF r.i = 0 THEN No ELSE TRoot(f, r.i, Append(acc, r.v))

\* the template of a text: [ok, v]
Parse(t) ==
  LET f == PFile(t, 1, <<>>) IN
  IF f.i = 0 THEN [ok |-> FALSE, v |-> <<>>]
  ELSE LET r == TRoot(f.v, 1, <<>>)
       IN IF r.i = 0 THEN [ok |-> FALSE, v |-> <<>>] ELSE [ok |-> TRUE, v |-> r.v]
=============================================================================
