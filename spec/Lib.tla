-------------------------------- MODULE Lib --------------------------------
(* The built-in functions (src/funcs).  Eval(f, args) is                     *)
(*   [o |-> "ok", v |-> value]   the exact value                            *)
(*   [o |-> "err"]               an error returned to the caller            *)
(*   [o |-> "any"]               left open: any value or error, no panic     *)
(* Relations with several answers (rand, searches, JSON text, word_wrap) are *)
(* in Allowed(f, args, r), which judges a result the program showed.        *)
EXTENDS Grammar

Ok(v) == [o |-> "ok", v |-> v]
Err == [o |-> "err"]
Open == [o |-> "any"]
OkS(s) == Ok(VStr(s))
OkB(b) == Ok(VBool(b))

OpenArgs(a) == \E i \in 1..Len(a) : HasAny(a[i])
T(v) == Disp(v)
\* the printed arguments are all determined
Closed(a) == \A i \in 1..Len(a) : ~IsOpenText(T(a[i]))

-----------------------------------------------------------------------------
(* Comparison and truth *)
AllRest(a, P(_)) == \A i \in 2..Len(a) : P(a[i])
AnyRest(a, P(_)) == \E i \in 2..Len(a) : P(a[i])
IsT(v) == Truth(v) = "T"
TypeName(v) ==
  CASE v.t = "str" -> S("string") [] v.t = "tmpl" -> S("template") [] OTHER -> S(v.t)
EvalBool(f, a) ==
  CASE f \in {"eq", "eq_any", "neq", "gt", "lt", "gte", "lte"} ->
         IF a = <<>> THEN Err ELSE
         OkB(CASE f = "eq" -> AllRest(a, LAMBDA x : VEq(x, a[1]))
               [] f = "neq" -> AnyRest(a, LAMBDA x : ~VEq(x, a[1]))
               [] f = "eq_any" -> AnyRest(a, LAMBDA x : VEq(x, a[1]))
               [] f = "gt" -> AllRest(a, LAMBDA x : VCmp(a[1], x) = 1)
               [] f = "lt" -> AllRest(a, LAMBDA x : VCmp(a[1], x) = -1)
               [] f = "gte" -> AllRest(a, LAMBDA x : VCmp(a[1], x) \in {0, 1})
               [] f = "lte" -> AllRest(a, LAMBDA x : VCmp(a[1], x) \in {0, -1}))
    [] f = "and" -> OkB(\A i \in 1..Len(a) : IsT(a[i]))
    [] f = "nand" -> OkB(~\A i \in 1..Len(a) : IsT(a[i]))
    [] f = "or" -> OkB(\E i \in 1..Len(a) : IsT(a[i]))
    [] f = "nor" -> OkB(~\E i \in 1..Len(a) : IsT(a[i]))
    [] f = "is_null" -> IF a = <<>> THEN Err ELSE OkB(a[1].t = "null")
    [] f = "is_num" -> IF a = <<>> THEN Err ELSE OkB(IsNum(a[1]))
    [] f = "type_of" -> IF a = <<>> THEN Err
                        ELSE IF Len(a) = 1 THEN OkS(TypeName(a[1]))
                        ELSE OkB(TypeName(a[1]) = T(a[2]))

-----------------------------------------------------------------------------
(* Arithmetic: arguments combine from left to right *)
UintOr(z) == IF IsU64(z) THEN Ok(VUInt(z.m)) ELSE Err
IntOr(z) == IF IsI64(z) THEN Ok(VInt(z)) ELSE Err
\* how two numbers meet: "U", "I", "F", or "N" (no common whole type), "X" (not numbers)
NumMode(x, y) ==
  IF ~IsNum(x) \/ ~IsNum(y) THEN "X"
  ELSE IF x.t = "float" \/ y.t = "float" THEN "F"
  ELSE IF x.t = "uint" /\ y.t = "uint" THEN "U"
  ELSE IF IsI64(x.n) /\ IsI64(y.n) THEN "I" ELSE "N"
FMinMax(f, x, y) ==
  IF x.c = "nan" THEN Ok(y) ELSE IF y.c = "nan" THEN Ok(x)
  ELSE IF FIsZero(x) /\ FIsZero(y) /\ x.g # y.g THEN Open
  ELSE IF (FCmp(x, y) <= 0) = (f = "min") THEN Ok(x) ELSE Ok(y)
Arith2(f, x, y) ==
  LET md == NumMode(x, y) IN
  CASE md = "X" -> Err
    [] md = "N" -> IF f \in {"min", "max"}
                   THEN (IF (ZCmp(x.n, y.n) <= 0) = (f = "min") THEN Ok(x) ELSE Ok(y)) ELSE Err
    [] md = "F" -> LET p == AsFloat(x)  q == AsFloat(y) IN
                   (CASE f = "add" -> Ok(FAdd(p, q)) [] f = "sub" -> Ok(FSub(p, q))
                     [] f = "mul" -> Ok(FMul(p, q)) [] f = "div" -> Ok(FDiv(p, q))
                     [] f = "mod" -> Ok(FRem(p, q)) [] f \in {"min", "max"} -> FMinMax(f, p, q))
    [] md = "U" -> (CASE f = "add" -> UintOr(ZAdd(x.n, y.n))
                     [] f = "mul" -> UintOr(ZMul(x.n, y.n))
                     [] f = "sub" -> LET z == ZSub(x.n, y.n) IN IF z.g >= 0 THEN UintOr(z) ELSE IntOr(z)
                     [] f = "div" -> IF y.n.g = 0 THEN Err ELSE UintOr(ZQuo(x.n, y.n))
                     [] f = "mod" -> IF y.n.g = 0 THEN Err ELSE UintOr(ZRem(x.n, y.n))
                     [] f = "min" -> Ok(IF ZCmp(x.n, y.n) <= 0 THEN x ELSE y)
                     [] f = "max" -> Ok(IF ZCmp(x.n, y.n) >= 0 THEN x ELSE y))
    [] md = "I" -> (CASE f = "add" -> IntOr(ZAdd(x.n, y.n))
                     [] f = "mul" -> IntOr(ZMul(x.n, y.n))
                     [] f = "sub" -> IntOr(ZSub(x.n, y.n))
                     [] f = "div" -> IF y.n.g = 0 THEN Err ELSE IntOr(ZQuo(x.n, y.n))
                     [] f = "mod" -> IF y.n.g = 0 THEN Err ELSE IntOr(ZRem(x.n, y.n))
                     [] f = "min" -> Ok(VInt(IF ZCmp(x.n, y.n) <= 0 THEN x.n ELSE y.n))
                     [] f = "max" -> Ok(VInt(IF ZCmp(x.n, y.n) >= 0 THEN x.n ELSE y.n)))
EvalArith(f, a) ==
  IF a = <<>> THEN Err
  ELSE IF f = "sub" /\ Len(a) = 1
  THEN (IF IsWhole(a[1]) THEN IntOr(ZNeg(a[1].n)) ELSE IF a[1].t = "float" THEN Ok(FNeg(a[1])) ELSE Err)
  ELSE FoldLeft(LAMBDA acc, x : IF acc.o # "ok" THEN acc ELSE Arith2(f, acc.v, x), Ok(a[1]), From(a, 2))

-----------------------------------------------------------------------------
(* Strings *)
\* the parts of t between occurrences of the separator p
RECURSIVE SplitNE(_, _, _)
SplitNE(t, p, acc) ==
  LET j == FindFrom(t, p, 1) IN
  IF j = 0 THEN Append(acc, t)
  ELSE SplitNE(From(t, j + Len(p)), p, Append(acc, SubSeq(t, 1, j - 1)))
SplitText(t, p) ==
  IF p = <<>> THEN <<<<>>>> \o [i \in 1..Len(t) |-> <<t[i]>>] \o <<<<>>>> ELSE SplitNE(t, p, <<>>)
\* the first n (n < 0: all) occurrences of p replaced by q
ReplaceText(t, p, q, n) ==
  LET parts == SplitText(t, p)
      k == Len(parts)
  IN FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE IF n < 0 \/ i - 1 <= n THEN q ELSE p) \o parts[i],
              <<>>, Idx(k))
TrimU(t) ==
  LET a == Least(1, Len(t), LAMBDA j : ~IsUWS(t[j]))
      b == Greatest(1, Len(t), LAMBDA j : ~IsUWS(t[j]))
  IN IF a > b THEN <<>> ELSE SubSeq(t, a, b)
NoWs(t) == SelectSeq(t, LAMBDA c : ~IsUWS(c))
EscHtml(c) == CASE c = 38 -> S("&amp;") [] c = 60 -> S("&lt;") [] c = 62 -> S("&gt;")
                [] c = 34 -> S("&quot;") [] c = 39 -> S("&#39;") [] OTHER -> <<c>>
EscXml(c) == IF c = 39 THEN S("&apos;") ELSE EscHtml(c)
EscText(t, E(_)) == FoldLeft(LAMBDA acc, c : acc \o E(c), <<>>, t)
CatText(a) == IF Closed(a) THEN FoldLeft(LAMBDA acc, v : acc \o T(v), <<>>, a) ELSE AnyText
\* decode the references an escaper may use: [ok, t]; any reference form that
\* a reader decodes is allowed, not only the ones the code picks
NamedRefs == <<<<S("amp"), 38>>, <<S("lt"), 60>>, <<S("gt"), 62>>, <<S("quot"), 34>>, <<S("apos"), 39>>>>
RECURSIVE HexTextVal(_)
HexTextVal(t) == FoldLeft(LAMBDA s, c : MinN(s * 16 + HexVal(c), 2000000), 0, t)
DecTextVal(t) == FoldLeft(LAMBDA s, c : MinN(s * 10 + (c - 48), 2000000), 0, t)
RefVal(r) ==          \* the character a reference body denotes, or -1
  LET k == Least(1, 5, LAMBDA j : NamedRefs[j][1] = r) IN
  IF k <= 5 THEN NamedRefs[k][2]
  ELSE IF Len(r) >= 3 /\ r[1] = 35 /\ r[2] \in {88, 120} /\ \A i \in 3..Len(r) : IsHex(r[i])
  THEN LET v == FoldLeft(LAMBDA s, c : MinN(s * 16 + (IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55), 2000000), 0, From(r, 3))
       IN IF IsScalar(v) THEN v ELSE -1
  ELSE IF Len(r) >= 2 /\ r[1] = 35 /\ \A i \in 2..Len(r) : IsDigit(r[i])
  THEN LET v == DecTextVal(From(r, 2)) IN IF IsScalar(v) THEN v ELSE -1
  ELSE -1
RECURSIVE Decode(_, _, _)
Decode(t, i, acc) ==
  LET j == Least(i, Len(t), LAMBDA x : t[x] = 38) IN
  IF j > Len(t) THEN [ok |-> TRUE, t |-> acc \o From(t, i)]
  ELSE LET k == Least(j, Len(t), LAMBDA x : t[x] = 59)
           r == SubSeq(t, j + 1, k - 1)
       IN IF k > Len(t) \/ RefVal(r) = -1 THEN [ok |-> FALSE, t |-> <<>>]
          ELSE Decode(t, k + 1, acc \o SubSeq(t, i, j - 1) \o <<RefVal(r)>>)
\* inert in any context and decodes to the original
EscapeOK(orig, esc) ==
  /\ \A i \in 1..Len(esc) : esc[i] \notin {60, 62, 34, 39}
  /\ LET d == Decode(esc, 1, <<>>) IN d.ok /\ d.t = orig

\* a regular expression without operators, optionally anchored: [ok, a, z, t]
RegexLit(r) ==
  LET a == Len(r) > 0 /\ r[1] = 94
      z == Len(r) > (IF a THEN 1 ELSE 0) /\ r[Len(r)] = 36 /\ ~(Len(r) > 1 /\ r[Len(r) - 1] = 92)
      t == SubSeq(r, IF a THEN 2 ELSE 1, IF z THEN Len(r) - 1 ELSE Len(r))
      f == FoldLeft(LAMBDA s, c : IF ~s.ok THEN s
                                  ELSE IF s.esc THEN (IF c \in {46, 42, 43, 63, 40, 41, 91, 93, 123, 125, 124, 94, 36, 92}
                                                      THEN [ok |-> TRUE, esc |-> FALSE, t |-> Append(s.t, c)] ELSE [s EXCEPT !.ok = FALSE])
                                  ELSE IF c = 92 THEN [s EXCEPT !.esc = TRUE]
                                  ELSE IF IsWordC(c) \/ c \in {32, 45, 47, 44, 58, 61} \/ c > 127 THEN [s EXCEPT !.t = Append(@, c)]
                                  ELSE [s EXCEPT !.ok = FALSE],
                    [ok |-> TRUE, esc |-> FALSE, t |-> <<>>], t)
  IN [ok |-> f.ok /\ ~f.esc, a |-> a, z |-> z, t |-> f.t]
RegexLitMatch(x, t) ==
  IF x.a /\ x.z THEN t = x.t
  ELSE IF x.a THEN IsPrefixAt(x.t, t, 1)
  ELSE IF x.z THEN Len(t) >= Len(x.t) /\ IsPrefixAt(x.t, t, Len(t) - Len(x.t) + 1)
  ELSE x.t = <<>> \/ FindFrom(t, x.t, 1) # 0

EvalStr(f, a) ==
  LET n == Len(a) IN
  CASE f = "cat" -> OkS(CatText(a))
    [] f = "split" ->
         IF n = 0 \/ a[1].t # "str" THEN Err
         ELSE LET p == IF n >= 2 /\ a[2].t = "str" THEN a[2].s ELSE <<10>>
                  ps == SplitText(a[1].s, p)
              IN Ok(VList([i \in 1..Len(ps) |-> VStr(ps[i])]))
    [] f = "str_contains" ->
         IF n < 2 THEN Err ELSE IF ~Closed(a) THEN Open
         ELSE OkB(AnyRest(a, LAMBDA x : T(x) = <<>> \/ FindFrom(T(a[1]), T(x), 1) # 0))
    [] f = "string_from_ints" ->
         OkS(FoldLeft(LAMBDA acc, v : IF IsIdx(v) /\ NFits(v.n.m) /\ IsScalar(NToI(v.n.m))
                                      THEN Append(acc, NToI(v.n.m)) ELSE acc, <<>>, a))
    [] f \in {"str_replace", "str_replace_n"} ->
         IF n < 3 THEN Err ELSE IF ~Closed(SubSeq(a, 1, 3)) THEN Open
         ELSE OkS(ReplaceText(T(a[1]), T(a[2]), T(a[3]),
                  IF f = "str_replace" THEN -1
                  ELSE IF n >= 4 /\ IsIdx(a[4]) THEN (IF NFits(a[4].n.m) THEN NToI(a[4].n.m) ELSE -1) ELSE 1))
    [] f = "html_esc" -> IF Closed(a) THEN OkS(EscText(CatText(a), EscHtml)) ELSE Open
    [] f = "xml_esc" -> IF Closed(a) THEN OkS(EscText(CatText(a), EscXml)) ELSE Open
    [] f = "word_wrap" -> IF n < 2 \/ ~IsIdx(a[2]) THEN Err ELSE Open       \* judged in Allowed
    [] f = "debug" -> OkS(<<>>)
    [] f = "regex" ->
         IF n < 2 THEN Err ELSE IF ~Closed(a) THEN Open
         ELSE LET x == RegexLit(T(a[2])) IN IF x.ok THEN OkB(RegexLitMatch(x, T(a[1]))) ELSE Open
    [] f = "join_with" ->
         IF n < 2 \/ a[2].t # "list" THEN Err
         ELSE IF ~Closed(a[2].l) \/ ~Closed(<<a[1]>>) THEN OkS(AnyText)
         ELSE OkS(JoinSeq([i \in 1..Len(a[2].l) |-> T(a[2].l[i])], T(a[1])))
    [] f = "md" -> Open

\* a word is broken only when it does not fit on a line with the space before it
WholeWords(t, w, lines) ==
  LET n == Len(t)
      brk(i) == t[i] \in {32, 9, 10}
      vis == SelectSeq(Idx(n), LAMBDA i : ~IsUWS(t[i]))
      ends == FoldLeft(LAMBDA acc, v : Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + Len(NoWs(v.s))), <<>>, lines)
      length(p) == Least(p, n, LAMBDA i : brk(i)) - (p - Least(1, p - 1, LAMBDA k : brk(p - k))) - 1
  IN \A i \in 1..Len(ends) :
       LET c == ends[i] IN
       \/ c = 0 \/ c >= Len(vis)
       \/ \E x \in vis[c]..vis[c + 1] : brk(x)
       \/ length(vis[c]) >= w
\* word_wrap: nothing but whitespace is dropped, no line is wider than the width
WrapOK(t, w, r) ==
  /\ r.t = "list"
  /\ \A i \in 1..Len(r.l) : r.l[i].t = "str"
  /\ NoWs(t) = FoldLeft(LAMBDA acc, v : acc \o NoWs(v.s), <<>>, r.l)
  /\ NFits(w) => \A i \in 1..Len(r.l) : Len(TrimU(r.l[i].s)) <= MaxN(1, NToI(w))
  /\ NFits(w) => WholeWords(t, NToI(w), r.l)

-----------------------------------------------------------------------------
(* Paths, as the standard library reads them on this system *)
\* the components of t: [k |-> "root"|"cur"|"up"|"name", a, z] with text span
PathComps(t) ==
  LET n == Len(t)
      starts == SelectSeq(Idx(n), LAMBDA i : t[i] # 47 /\ (i = 1 \/ t[i - 1] = 47))
      comp(i) == LET z == Least(i, n, LAMBDA j : t[j] = 47) - 1
                     s == SubSeq(t, i, z)
                 IN [k |-> IF s = <<46>> THEN "cur" ELSE IF s = <<46, 46>> THEN "up" ELSE "name", a |-> i, z |-> z]
      cs == [j \in 1..Len(starts) |-> comp(starts[j])]
      body == SelectSeq(cs, LAMBDA c : c.k # "cur" \/ c.a = 1)
  IN (IF n > 0 /\ t[1] = 47 THEN <<[k |-> "root", a |-> 1, z |-> 1]>> ELSE <<>>) \o body
PathPush(p, s) ==
  IF s # <<>> /\ s[1] = 47 THEN s
  ELSE IF p # <<>> /\ Last1(p) # 47 THEN p \o <<47>> \o s ELSE p \o s
JoinArgs(a) == FoldLeft(LAMBDA p, v : PathPush(p, T(v)), <<>>, a)
\* <<parent>> or <<>>
PathParent(t) ==
  LET c == PathComps(t)
      n == Len(c)
  IN IF n = 0 \/ c[n].k = "root" THEN <<>>
     ELSE IF n = 1 THEN <<<<>>>> ELSE <<SubSeq(t, 1, c[n - 1].z)>>
\* the span of the file name, or <<>>
PathName(t) ==
  LET c == PathComps(t) IN IF c # <<>> /\ Last1(c).k = "name" THEN <<Last1(c)>> ELSE <<>>
NameText(t) == LET c == PathName(t)[1] IN SubSeq(t, c.a, c.z)
\* length of the stem of a file name
StemLen(s) == LET d == Greatest(2, Len(s), LAMBDA j : s[j] = 46) IN IF d < 2 THEN Len(s) ELSE d - 1
RECURSIVE Crumbs(_, _)
Crumbs(t, acc) == LET p == PathParent(t) IN IF p = <<>> THEN acc ELSE Crumbs(p[1], <<VStr(p[1])>> \o acc)
EvalPath(f, a) ==
  IF f = "with_ext" /\ Len(a) < 2 THEN Err
  ELSE IF ~Closed(a) THEN Open
  ELSE IF f = "with_ext" THEN
    LET t == T(a[1])  e == T(a[2]) IN
    IF \E i \in 1..Len(e) : e[i] = 47 THEN Err
    ELSE IF PathName(t) = <<>> THEN OkS(t)
    ELSE LET c == PathName(t)[1]
         IN OkS(SubSeq(t, 1, c.a - 1 + StemLen(NameText(t))) \o (IF e = <<>> THEN <<>> ELSE <<46>> \o e))
  ELSE LET t == JoinArgs(a)
           nm == PathName(t)
       IN CASE f = "join" -> OkS(t)
            [] f = "parent" -> LET p == PathParent(t) IN OkS(IF p = <<>> THEN <<>> ELSE p[1])
            [] f = "bread_crumbs" -> Ok(VList(Crumbs(t, <<VStr(t)>>)))
            [] f = "base_name" -> IF nm = <<>> THEN Err ELSE OkS(NameText(t))
            [] f = "base_name_sure" -> OkS(IF nm = <<>> THEN <<>> ELSE NameText(t))
            [] f = "stem" -> IF nm = <<>> THEN Err ELSE OkS(SubSeq(NameText(t), 1, StemLen(NameText(t))))
            [] f = "full_stem" ->
                 IF nm = <<>> THEN Err
                 ELSE OkS(PathPush(PathParent(t)[1], SubSeq(NameText(t), 1, StemLen(NameText(t)))))

-----------------------------------------------------------------------------
(* Lists *)
\* stable sort: every element goes after all that are not greater
SortBy(s, GT(_, _)) ==
  FoldLeft(LAMBDA acc, x : LET p == Greatest(1, Len(acc), LAMBDA j : ~GT(acc[j], x))
                           IN SubSeq(acc, 1, p) \o <<x>> \o From(acc, p + 1), <<>>, s)

\* criteria: an optional '-', then names or numbers separated by '.'
RECURSIVE CritParts(_, _, _)
CritParts(t, i, acc) ==
  LET v == PVar(t, i) IN
  IF v.i = 0 THEN No
  ELSE IF Ch(t, v.i) = 46 THEN CritParts(t, v.i + 1, Append(acc, v.v))
  ELSE Yes(v.i, Append(acc, v.v))
Crit(t) == LET down == Ch(t, 1) = 45
               p == CritParts(t, IF down THEN 2 ELSE 1, <<>>)
           IN IF p.i = 0 THEN No ELSE Yes(p.i, [down |-> down, p |-> p.v])
Crits(a) == [i \in 1..Len(a) |-> IF a[i].t = "str" THEN Crit(a[i].s) ELSE No]
CritsOK(cs) == \A i \in 1..Len(cs) : cs[i].i # 0
CritCmp1(c, x, y) ==
  LET p == Walk(x, c.p)
      q == Walk(y, c.p)
      r == IF p # <<>> /\ q # <<>> THEN SortCmp(p[1], q[1])
           ELSE IF p # <<>> THEN 1 ELSE IF q # <<>> THEN -1 ELSE SortCmp(x, y)
  IN IF c.down THEN -r ELSE r
CritCmp(cs, x, y) ==
  LET k == Least(1, Len(cs), LAMBDA j : CritCmp1(cs[j].v, x, y) # 0)
  IN IF k > Len(cs) THEN 0 ELSE CritCmp1(cs[k].v, x, y)

ByteSlice(s, i, j) ==       \* characters from byte i to byte j, <<>> when not at boundaries
  IF ~NFits(i) \/ ~NFits(j) \/ NCmp(i, j) > 0 THEN <<>>
  ELSE LET p == CharAt(s, NToI(i))
           q == CharAt(s, NToI(j))
       IN IF p = 0 \/ q = 0 THEN <<>> ELSE <<SubSeq(s, p, q - 1)>>
EvalGet(a) ==
  IF Len(a) # 2 THEN Err
  ELSE LET x == a[1]  k == a[2]
           inl(m) == NCmp(m, NOfI(Len(x.l))) < 0
       IN IF x.t = "list" /\ IsWhole(k)
          THEN Ok(IF IsIdx(k) /\ inl(k.n.m) THEN x.l[NToI(k.n.m) + 1] ELSE VNull)
          ELSE IF x.t = "str" /\ IsWhole(k)
          THEN LET p == IF IsIdx(k) /\ NFits(k.n.m) THEN CharAt(x.s, NToI(k.n.m)) ELSE 0
               IN IF p = 0 \/ p > Len(x.s) THEN Err ELSE OkS(<<x.s[p]>>)
          ELSE IF x.t = "map" /\ k.t = "str" THEN Ok(IF MHas(x.m, k.s) THEN MGet(x.m, k.s) ELSE VNull)
          ELSE Err
EvalSlice(a) ==
  IF Len(a) < 2 \/ ~IsIdx(a[2]) THEN Err
  ELSE LET x == a[1]
           len == IF x.t = "list" THEN NOfI(Len(x.l)) ELSE IF x.t = "str" THEN NOfI(Utf8Len(x.s)) ELSE <<>>
           i == a[2].n.m
           j == IF Len(a) >= 3 /\ IsIdx(a[3]) THEN a[3].n.m ELSE len
       IN IF x.t = "list"
          THEN IF NCmp(i, j) <= 0 /\ NCmp(j, len) <= 0
               THEN Ok(VList(SubSeq(x.l, NToI(i) + 1, NToI(j)))) ELSE Err
          ELSE IF x.t = "str"
          THEN LET r == ByteSlice(x.s, i, j) IN IF r = <<>> THEN Err ELSE OkS(r[1])
          ELSE Err
EvalGroups(a) ==
  IF Len(a) < 2 \/ ~IsIdx(a[1]) \/ a[2].t # "list" THEN Err
  ELSE LET l == a[2].l
           g == IF a[1].n.g = 0 THEN 1 ELSE IF NFits(a[1].n.m) THEN MinN(NToI(a[1].n.m), MaxN(1, Len(l))) ELSE MaxN(1, Len(l))
           k == (Len(l) + g - 1) \div g
       IN Ok(VList([i \in 1..k |-> VList(SubSeq(l, (i - 1) * g + 1, MinN(i * g, Len(l))))]))
LenOf(v) == CASE v.t = "list" -> Len(v.l) [] v.t = "map" -> Len(v.m) [] v.t = "str" -> Utf8Len(v.s) [] OTHER -> 1
EvalListF(f, a) ==
  LET n == Len(a) IN
  CASE f = "list" -> Ok(VList(a))
    [] f = "len" -> Ok(VU(FoldLeft(LAMBDA s, v : s + LenOf(v), 0, a)))
    [] f = "append" -> Ok(VList(FoldLeft(LAMBDA s, v : IF v.t = "list" THEN s \o v.l ELSE Append(s, v), <<>>, a)))
    [] f = "sort" -> Ok(VList(SortBy(FoldLeft(LAMBDA s, v : IF v.t = "list" THEN s \o v.l ELSE s, <<>>, a),
                                    LAMBDA x, y : SortCmp(x, y) > 0)))
    [] f = "sort_on" -> LET cs == Crits(From(a, 2)) IN
                        IF n < 2 \/ ~CritsOK(cs) \/ a[1].t # "list" THEN Err
                        ELSE Ok(VList(SortBy(a[1].l, LAMBDA x, y : CritCmp(cs, x, y) > 0)))
    [] f \in {"bin_search", "bin_get"} ->
         IF n < 3 \/ a[1].t # "list" \/ ~CritsOK(Crits(From(a, 3))) THEN Err ELSE Open  \* judged in Allowed
    [] f = "index_of" ->
         IF n < 2 THEN Err ELSE IF a[2].t # "list" THEN Ok(VNull)
         ELSE LET l == a[2].l
                  k == Least(1, Len(l), LAMBDA j : VEq(l[j], a[1]))
              IN Ok(IF k > Len(l) THEN VNull ELSE VU(k - 1))
    [] f = "get" -> EvalGet(a)
    [] f = "slice" -> EvalSlice(a)
    [] f = "groups" -> EvalGroups(a)
    [] f = "map" ->
         LET k == n \div 2 IN
         IF \E i \in 1..k : a[2 * i - 1].t # "str" THEN Err
         ELSE Ok(VMap(FoldLeft(LAMBDA m, i : MPut(m, a[2 * i - 1].s, a[2 * i]), <<>>, Idx(k))))
\* searching: any element that ties will do; on a list in order, null only if none ties
Ordered(l, cs, x) ==
  \A i \in 1..(Len(l) - 1) : CritCmp(cs, l[i], x) <= CritCmp(cs, l[i + 1], x)
SearchOK(f, a, r) ==
  LET l == a[1].l  x == a[2]  cs == Crits(From(a, 3)) IN
  IF r.t = "null" /\ (f = "bin_search" \/ \A i \in 1..Len(l) : l[i].t # "null" \/ CritCmp(cs, l[i], x) # 0)
  THEN Ordered(l, cs, x) => \A i \in 1..Len(l) : CritCmp(cs, l[i], x) # 0
  ELSE IF f = "bin_search"
  THEN r.t = "uint" /\ NCmp(r.n.m, NOfI(Len(l))) < 0 /\ CritCmp(cs, l[NToI(r.n.m) + 1], x) = 0
  ELSE \E i \in 1..Len(l) : CritCmp(cs, l[i], x) = 0 /\ Same(l[i], r)

-----------------------------------------------------------------------------
(* Base 64 *)
B64Tbl == S("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
B64(b) ==
  FoldLeft(LAMBDA acc, i :
      LET k == 3 * i - 2
          n == Len(b) - k + 1            \* bytes left
          x == b[k] * 65536 + (IF n >= 2 THEN b[k + 1] * 256 ELSE 0) + (IF n >= 3 THEN b[k + 2] ELSE 0)
          d(j) == B64Tbl[((x \div (64 ^ (3 - j))) % 64) + 1]
      IN acc \o <<d(0), d(1), IF n >= 2 THEN d(2) ELSE 61, IF n >= 3 THEN d(3) ELSE 61>>,
    <<>>, Idx((Len(b) + 2) \div 3))
B64Val(c) == Least(1, 64, LAMBDA j : B64Tbl[j] = c) - 1
\* decoded bytes of a canonical text, <<>> otherwise
UnB64(t) ==
  IF Len(t) % 4 # 0 THEN <<>> ELSE
  LET pad == IF t = <<>> THEN 0 ELSE IF Last1(t) # 61 THEN 0 ELSE IF t[Len(t) - 1] # 61 THEN 1 ELSE 2
      v(i) == IF i > Len(t) - pad THEN 0 ELSE B64Val(t[i])
      okc == \A i \in 1..(Len(t) - pad) : v(i) < 64
      b == FoldLeft(LAMBDA acc, i :
             LET k == 4 * i - 3
                 x == v(k) * 262144 + v(k + 1) * 4096 + v(k + 2) * 64 + v(k + 3)
             IN acc \o <<x \div 65536, (x \div 256) % 256, x % 256>>, <<>>, Idx(Len(t) \div 4))
      r == SubSeq(b, 1, Len(b) - pad)
  IN IF okc /\ B64(r) = t THEN <<r>> ELSE <<>>
EvalBytes(f, a) ==
  IF a = <<>> \/ a[1].t \notin {"str", "bytes"} THEN Err
  ELSE LET b == IF a[1].t = "str" THEN Utf8Bytes(a[1].s) ELSE a[1].s IN
       IF f = "as_base64" THEN OkS(B64(b))
       ELSE LET r == UnB64(b)
                bad == \E i \in 1..Len(b) : B64Val(b[i]) = 64 /\ b[i] # 61
            IN IF r # <<>> THEN Ok(VBytes(r[1])) ELSE IF bad THEN Err ELSE Open

-----------------------------------------------------------------------------
(* JSON *)
RECURSIVE JImage(_)
JImage(v) ==          \* what the JSON text of v reads back as
  CASE v.t = "date" -> VStr(DateText(v))
    [] v.t = "bytes" -> VList([i \in 1..Len(v.s) |-> VU(v.s[i])])
    [] v.t = "tmpl" -> VNull
    [] v.t = "float" -> IF FNum(v) THEN v ELSE VNull
    [] v.t = "list" -> VList([i \in 1..Len(v.l) |-> JImage(v.l[i])])
    [] v.t = "map" -> VMap([i \in 1..Len(v.m) |-> [k |-> v.m[i].k, v |-> JImage(v.m[i].v)]])
    [] OTHER -> v
RECURSIVE PlainNums(_)
PlainNums(v) ==       \* no float that JSON writes with an exponent
  CASE v.t = "float" -> (FNum(v) /\ v.m # <<>>) => (NBits(v.m) + v.e <= 50 /\ NBits(v.m) + v.e >= -13)
    [] v.t = "list" -> \A i \in 1..Len(v.l) : PlainNums(v.l[i])
    [] v.t = "map" -> \A i \in 1..Len(v.m) : PlainNums(v.m[i].v)
    [] OTHER -> TRUE
JsonOK(a, r) ==
  LET img == IF Len(a) = 1 THEN JImage(a[1]) ELSE VList([i \in 1..Len(a) |-> JImage(a[i])])
  IN r.t = "str" /\ (PlainNums(img) => LET p == ReadData(r.s) IN p.i # 0 /\ DeepEq(p.v, img))

-----------------------------------------------------------------------------
(* Random numbers: the range *)
RandErr(a) ==
  LET n == Len(a) IN
  IF n = 0 THEN FALSE
  ELSE IF n = 2
  THEN ~(a[1].t = a[2].t /\ IsNum(a[1]) /\ VCmp(a[1], a[2]) = -1
         /\ (a[1].t = "float" => FNum(a[1]) /\ FNum(a[2])))
  ELSE ~(\/ IsWhole(a[1]) /\ a[1].n.g > 0
         \/ a[1].t = "float" /\ FNum(a[1]) /\ a[1].m # <<>> /\ a[1].g > 0
         \/ a[1].t = "list" /\ a[1].l # <<>>)
RandOK(a, r) ==
  IF Len(a) = 0 THEN r.t = "float" /\ FNum(r) /\ FCmp(r, FZero(1)) >= 0 /\ FCmp(r, VFl("num", 1, <<1>>, 0)) = -1
  ELSE IF Len(a) = 2 THEN r.t = a[1].t /\ VCmp(r, a[1]) \in {0, 1} /\ VCmp(r, a[2]) = -1
  ELSE IF a[1].t = "list" THEN \E i \in 1..Len(a[1].l) : Same(a[1].l[i], r)
  ELSE r.t = a[1].t /\ VCmp(r, VU(0)) \in {0, 1} /\ VCmp(r, a[1]) = -1

-----------------------------------------------------------------------------
(* Markup helpers *)
Q == <<34>>
Attr(n, v) == S(n) \o S("=") \o Q \o v \o Q
EvalSvg(f, a) ==
  LET n == Len(a)
      need == CASE f = "xy" -> 2 [] f \in {"xywh", "cxyrr", "xy12"} -> 4 [] f = "fl_stk" -> 3 [] f = "font" -> 1
      up == IF f = "font" THEN 3 ELSE need + 1
      u == IF n >= up THEN T(a[up]) ELSE <<>>
      len(k, i) == Attr(k, T(a[i]) \o u)
      row(ks) == JoinSeq([i \in 1..Len(ks) |-> len(ks[i], i)], <<32>>)
  IN IF n < need THEN Err
     ELSE IF ~Closed(SubSeq(a, 1, MinN(n, up))) THEN Open
     ELSE OkS(CASE f = "xy" -> row(<<"x", "y">>)
                [] f = "xywh" -> row(<<"x", "y", "width", "height">>)
                [] f = "cxyrr" -> row(<<"cx", "cy", "rx", "ry">>)
                [] f = "xy12" -> row(<<"x", "y", "x2", "y2">>)
                [] f = "fl_stk" -> Attr("fill", T(a[1])) \o <<32>> \o Attr("stroke", T(a[2])) \o <<32>> \o len("stroke-width", 3)
                [] f = "font" -> len("font-size", 1) \o <<32>>
                                 \o (IF n >= 2 THEN Attr("font-family", T(a[2])) \o <<32>> ELSE <<>>))
\* table notation: lines of cells; '*' marks a header row, '-' continues the row
TblLine(t) ==
  LET h == t # <<>> /\ t[1] = 42
      t1 == IF h THEN From(t, 2) ELSE t
      c == t1 # <<>> /\ t1[1] = 45
      t2 == IF c THEN From(t1, 2) ELSE t1
      blank == \A i \in 1..Len(t2) : IsWS(t2[i])
  IN [h |-> h, c |-> c, cells |-> IF blank THEN <<>> ELSE SplitText(t2, <<124>>)]
TblRow(cells, h) ==
  LET e == IF h THEN S("th") ELSE S("td") IN
  S("<tr>") \o FoldLeft(LAMBDA acc, x : acc \o S("<") \o e \o S(">") \o x \o S("</") \o e \o S(">"), <<>>, cells) \o S("</tr>") \o <<10>>
TableText(t, attrs) ==
  LET ls == SplitText(t, <<10>>)
      lastBlank == \A i \in 1..Len(Last1(ls)) : IsWS(Last1(ls)[i])
      lines == IF lastBlank THEN ButLast(ls) ELSE ls
      flush(st) == IF st.cur = <<>> THEN st.res ELSE st.res \o TblRow(st.cur[1], st.h)
      step(st, line) ==
        LET x == TblLine(line)
            s1 == IF x.c THEN st ELSE [res |-> flush(st), cur |-> <<>>, h |-> FALSE]
            s2 == [s1 EXCEPT !.h = @ \/ x.h]
            k == Len(x.cells)
            cs == SubSeq(x.cells, 2, k - 1)
        IN IF k <= 3 THEN s2
           ELSE IF s2.cur = <<>> THEN [s2 EXCEPT !.cur = <<[i \in 1..Len(cs) |-> TrimU(cs[i])]>>]
           ELSE LET v == s2.cur[1]
                    m == MaxN(Len(v), Len(cs))
                IN [s2 EXCEPT !.cur = <<[i \in 1..m |-> IF i > Len(v) THEN cs[i]
                                                        ELSE IF i <= Len(cs) THEN v[i] \o <<32>> \o cs[i] ELSE v[i]]>>]
      fin == FoldLeft(step, [res |-> <<>>, cur |-> <<>>, h |-> FALSE], lines)
  IN S("<table ") \o attrs \o S(">") \o <<10>> \o flush(fin) \o S("</table>") \o <<10>>
EvalTable(a) ==
  IF a = <<>> THEN Err
  ELSE IF ~Closed(SubSeq(a, 1, MinN(2, Len(a)))) THEN Open
  ELSE OkS(TableText(T(a[1]), IF Len(a) >= 2 THEN T(a[2]) ELSE <<>>))

-----------------------------------------------------------------------------
FBool == {"eq", "neq", "eq_any", "gt", "gte", "lt", "lte", "and", "nand", "or", "nor", "type_of", "is_null", "is_num"}
FStr == {"cat", "split", "string_from_ints", "str_contains", "str_replace", "str_replace_n", "html_esc", "xml_esc",
         "regex", "word_wrap", "debug", "join_with", "md"}
FArith == {"add", "sub", "mul", "div", "mod", "min", "max"}
FPath == {"parent", "join", "bread_crumbs", "base_name", "base_name_sure", "with_ext", "stem", "full_stem"}
FList == {"list", "sort", "append", "sort_on", "bin_search", "bin_get", "index_of", "get", "len", "slice", "groups", "map"}
FSvg == {"xy", "xywh", "cxyrr", "xy12", "fl_stk", "font"}
Defaults == FBool \cup FStr \cup FArith \cup FPath \cup FList \cup FSvg
            \cup {"filter", "r_json", "r_card", "w_json", "rand", "as_base64", "from_base64", "table"}
FolderReads == {"dir", "file", "file_bytes", "is_file", "is_dir", "scan_dir", "file_img_dimensions"}
FExec == {"exec", "exec_stdin", "env"}

RECURSIVE Eval(_, _), EvalE(_, _), EvalEs(_, _), EvalFirst(_, _, _)
\* an expression without scope: only the parameters ps (filter)
EvalEs(es, ps) ==
  FoldLeft(LAMBDA acc, e : IF acc.o # "ok" THEN acc
                           ELSE LET r == EvalE(e, ps) IN IF r.o = "ok" THEN Ok(Append(acc.v, r.v)) ELSE r,
           Ok(<<>>), es)
EvalFirst(es, i, ps) ==
  IF i > Len(es) THEN Ok(VNull)
  ELSE LET r == EvalE(es[i], ps) IN
       IF r.o = "any" THEN r
       ELSE IF r.o = "ok" /\ r.v.t # "null" THEN r ELSE EvalFirst(es, i + 1, ps)
EvalE(e, ps) ==
  CASE e.e = "lit" -> Ok(e.v)
    [] e.e = "var" ->
         IF e.p = <<>> \/ e.p[1].t = "i" THEN Err
         ELSE IF ~NFits(e.p[1].n) \/ NToI(e.p[1].n) >= Len(ps) THEN Err
         ELSE LET r == Walk(ps[NToI(e.p[1].n) + 1], Tail(e.p)) IN IF r = <<>> THEN Err ELSE Ok(r[1])
    [] e.e = "list" -> LET r == EvalEs(e.a, ps) IN IF r.o = "ok" THEN Ok(VList(r.v)) ELSE r
    [] e.e = "map" -> LET r == EvalEs([i \in 1..Len(e.m) |-> e.m[i][2]], ps) IN
                      IF r.o = "ok" THEN Ok(VMap(MOfPairs([i \in 1..Len(e.m) |-> <<e.m[i][1], r.v[i]>>]))) ELSE r
    [] e.e = "cmd" ->
         LET f == Str(e.f) IN
         IF f = "first" THEN EvalFirst(e.a, 1, ps)
         ELSE IF f = "select"
         THEN IF Len(e.a) < 3 THEN Err
              ELSE LET s == EvalE(e.a[1], ps) IN
                   IF s.o # "ok" THEN s
                   ELSE LET n == IF IsIdx(s.v) THEN (IF NFits(s.v.n.m) THEN NToI(s.v.n.m) + 2 ELSE Len(e.a) + 1)
                                 ELSE IF Truth(s.v) = "N" THEN 0 ELSE IF IsT(s.v) THEN 2 ELSE 3
                        IN IF n = 0 \/ n > Len(e.a) THEN Err ELSE EvalE(e.a[n], ps)
         ELSE LET r == EvalEs(e.a, ps) IN
              IF r.o # "ok" THEN r
              ELSE IF f = "run" /\ r.v # <<>> /\ r.v[1].t = "tmpl" THEN Open
              ELSE IF f \in Defaults THEN (IF OpenArgs(r.v) THEN Open ELSE Eval(f, r.v)) ELSE Err
EvalFilter(a) ==
  IF Len(a) < 2 THEN Err
  ELSE IF ~Closed(<<a[2]>>) THEN Open
  ELSE LET p == PExp(T(a[2]), 1) IN
       IF p.i = 0 \/ a[1].t # "list" THEN Err
       ELSE LET rs == [i \in 1..Len(a[1].l) |-> EvalE(p.v, <<a[1].l[i]>>)] IN
            IF \E i \in 1..Len(rs) : rs[i].o = "any" THEN Open
            ELSE Ok(VList(FoldLeft(LAMBDA acc, i : IF rs[i].o = "ok" /\ IsT(rs[i].v) THEN Append(acc, a[1].l[i]) ELSE acc,
                                   <<>>, Idx(Len(rs)))))
Eval(f, a) ==
  IF f \in FBool THEN EvalBool(f, a)
  ELSE IF f \in FArith THEN EvalArith(f, a)
  ELSE IF f \in FStr THEN EvalStr(f, a)
  ELSE IF f \in FPath THEN EvalPath(f, a)
  ELSE IF f \in FList THEN EvalListF(f, a)
  ELSE IF f \in FSvg THEN EvalSvg(f, a)
  ELSE CASE f = "filter" -> EvalFilter(a)
         [] f = "table" -> EvalTable(a)
         [] f \in {"as_base64", "from_base64"} -> EvalBytes(f, a)
         [] f = "r_json" -> IF a = <<>> \/ a[1].t # "str" THEN Err
                            ELSE LET p == ReadData(a[1].s) IN IF p.i = 0 THEN Err ELSE Ok(p.v)
         [] f = "r_card" -> IF a = <<>> \/ a[1].t # "str" THEN Err ELSE Open
         [] f = "w_json" -> Open                                             \* judged in Allowed
         [] f = "rand" -> IF RandErr(a) THEN Err ELSE Open                   \* judged in Allowed
         [] OTHER -> Open

\* r = [o |-> "ok", v] or [o |-> "err"] is a result the function may give
Allowed(f, a, r) ==
  IF r.o \notin {"ok", "err"} THEN FALSE                   \* never a panic or a hang
  ELSE IF OpenArgs(a) THEN TRUE
  ELSE LET e == Eval(f, a) IN
       CASE e.o = "err" -> r.o = "err"
         [] e.o = "ok" /\ f \in {"html_esc", "xml_esc"} -> r.o = "ok" /\ r.v.t = "str" /\ EscapeOK(CatText(a), r.v.s)
         [] e.o = "ok" -> r.o = "ok" /\ Same(e.v, r.v)
         [] f = "word_wrap" -> r.o = "ok" /\ (IF Closed(<<a[1]>>) THEN WrapOK(T(a[1]), a[2].n.m, r.v) ELSE TRUE)
         [] f \in {"bin_search", "bin_get"} -> r.o = "ok" /\ SearchOK(f, a, r.v)
         [] f = "rand" -> r.o = "ok" /\ RandOK(a, r.v)
         [] f = "w_json" -> r.o = "ok" /\ JsonOK(a, r.v)
         [] f = "md" -> r.o = "ok" /\ r.v.t = "str"
         [] f = "regex" -> r.o = "err" \/ r.v.t = "bool"
         [] OTHER -> TRUE
=============================================================================
