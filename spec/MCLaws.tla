------------------------------- MODULE MCLaws -------------------------------
(* The laws the properties state about the built-in functions, checked by    *)
(* TLC on the definitions of Lib.tla for every tuple of small universes (a   *)
(* configuration file lists jobs: a law, a universe per position, and calls  *)
(* of functions on parts of the tuple).  The results of the calls are        *)
(* printed, and the real functions have to give them.                        *)
EXTENDS Fs, Json, IOUtils

Jobs == JsonDeserialize(IOEnv.MC_CFG)
VARIABLES j,      \* the job
          x       \* the positions chosen so far
vars == <<j, x>>
J == Jobs[j]
Full == Len(x) = Len(J.uni)
V(k) == J.uni[k][x[k]]
Tup == [k \in 1..Len(x) |-> V(k)]

\* no library function needs the store here
MCL_RegHas(reg, f) == Str(f) \in Defaults

-----------------------------------------------------------------------------
(* What calls take: an element of the tuple, a constant, the whole tuple as  *)
(* a list, as records with their position, as one text, as text with a part  *)
(* before and after                                                          *)
Recs == [k \in 1..Len(x) |-> VMap(<<[k |-> <<105>>, v |-> VU(k - 1)], [k |-> <<107>>, v |-> V(k)]>>)]
ArgOf(d) ==
  CASE d.d = "i" -> V(d.i)
    [] d.d = "v" -> d.v
    [] d.d = "all" -> VList(Tup)
    [] d.d = "recs" -> VList(Recs)
    [] d.d = "text" -> VStr(FoldLeft(LAMBDA acc, v : acc \o v.s, <<>>, Tup))
    [] d.d = "sorted" -> VList(SortBy(Tup, LAMBDA p, q : SortCmp(p, q) > 0))
    [] d.d = "bytes" -> VBytes(FoldLeft(LAMBDA acc, v : Append(acc, NToI(v.n.m)), <<>>, Tup))
ArgsOf(c) == [k \in 1..Len(c.a) |-> ArgOf(c.a[k])]

-----------------------------------------------------------------------------
E(f, a) == Eval(f, a)
Tru(f, a) == LET r == Eval(f, a) IN r.o = "ok" /\ r.v = VBool(TRUE)
IsOk(r) == r.o = "ok"
RECURSIVE HasNan(_)
HasNan(v) == \/ v.t = "float" /\ v.c = "nan"
             \/ v.t = "list" /\ \E k \in 1..Len(v.l) : HasNan(v.l[k])
TextOf == FoldLeft(LAMBDA acc, v : acc \o v.s, <<>>, Tup)
N(i) == VU(i)
SameR(p, q) == p.o = q.o /\ (p.o = "ok" => Same(p.v, q.v))

\* C13
Cmp2 ==
  LET a == V(1)  b == V(2)
      lt == Tru("lt", <<a, b>>)  gt == Tru("gt", <<a, b>>)  ge == Tru("gte", <<a, b>>)  le == Tru("lte", <<a, b>>)  eq == Tru("eq", <<a, b>>)
      nan == HasNan(a) \/ HasNan(b)
  IN /\ lt = Tru("gt", <<b, a>>) /\ le = Tru("gte", <<b, a>>)
     /\ eq = Tru("eq", <<b, a>>) /\ eq = ~Tru("neq", <<a, b>>) /\ eq = Tru("eq_any", <<a, b>>)
     /\ lt => le /\ ~ge
     /\ gt => ge /\ ~le
     /\ ~(lt /\ gt)
     /\ eq => le /\ ge
     /\ (~nan => Cardinality({k \in 1..3 : CASE k = 1 -> lt [] k = 2 -> gt [] k = 3 -> le /\ ge}) = 1)
     /\ (nan /\ IsNum(a) /\ IsNum(b) => ~lt /\ ~gt /\ ~le /\ ~ge /\ ~eq)
     /\ Tru("and", <<a, b>>) = ~Tru("nand", <<a, b>>) /\ Tru("or", <<a, b>>) = ~Tru("nor", <<a, b>>)
     /\ Tru("and", <<a, b>>) = (Tru("and", <<a>>) /\ Tru("and", <<b>>))
     /\ Tru("or", <<a, b>>) = (Tru("or", <<a>>) \/ Tru("or", <<b>>))
     /\ Tru("or", <<a>>) = Tru("and", <<a>>)
     /\ Tru("is_null", <<a>>) = (E("type_of", <<a>>).v = VStr(S("null")))
     /\ (Tru("is_null", <<a>>) => ~Tru("or", <<a>>))
     /\ Tru("type_of", <<a, E("type_of", <<a>>).v>>)
     \* the ranking of types decides between different types, numbers being one
     /\ (~nan /\ a.t # b.t /\ ~(IsNum(a) /\ IsNum(b)) => lt = (Rank(a) < Rank(b)) /\ ~eq)
     \* printing tells whole numbers apart exactly as eq does
     /\ (IsWhole(a) /\ IsWhole(b) => eq = (Disp(a) = Disp(b)))
     /\ (a.t = "str" /\ b.t = "str" => eq = (a.s = b.s))
Cmp3 ==
  LET a == V(1)  b == V(2)  c == V(3) IN
  ~(HasNan(a) \/ HasNan(b) \/ HasNan(c)) =>
  /\ Tru("lt", <<a, b>>) /\ Tru("lt", <<b, c>>) => Tru("lt", <<a, c>>)
  /\ Tru("lte", <<a, b>>) /\ Tru("lte", <<b, c>>) => Tru("lte", <<a, c>>)
  /\ Tru("eq", <<a, b>>) /\ Tru("eq", <<b, c>>) => Tru("eq", <<a, c>>)
  /\ Tru("eq", <<a, b, c>>) = (Tru("eq", <<a, b>>) /\ Tru("eq", <<a, c>>))
  /\ Tru("eq_any", <<a, b, c>>) = (Tru("eq", <<a, b>>) \/ Tru("eq", <<a, c>>))
  /\ Tru("neq", <<a, b, c>>) = ~Tru("eq", <<a, b, c>>)
  /\ \A f \in {"lt", "gt", "lte", "gte"} : Tru(f, <<a, b, c>>) = (Tru(f, <<a, b>>) /\ Tru(f, <<a, c>>))

\* C14
Count(s, v) == Cardinality({k \in 1..Len(s) : s[k] = v})
Perm(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Count(s, s[k]) = Count(t, s[k])
SortLaw ==
  LET t == Tup
      s == E("sort", <<VList(t)>>).v.l
      r == Recs
      up == E("sort_on", <<VList(r), VStr(S("k"))>>).v.l
      dn == E("sort_on", <<VList(r), VStr(S("-k"))>>).v.l
      ui == E("sort_on", <<VList(r), VStr(S("k")), VStr(S("-i"))>>).v.l
      kk(v) == MGet(v.m, <<107>>)
      ii(v) == NToI(MGet(v.m, <<105>>).n.m)
      asc(l, sg, d) == \A k \in 1..(Len(l) - 1) :
        LET c == sg * SortCmp(kk(l[k]), kk(l[k + 1])) IN c < 0 \/ (c = 0 /\ d * ii(l[k]) < d * ii(l[k + 1]))
  IN /\ Perm(s, t) /\ E("sort", <<VList(s)>>).v.l = s
     /\ \A k \in 1..(Len(s) - 1) : SortCmp(s[k], s[k + 1]) <= 0 /\ ~Tru("gt", <<s[k], s[k + 1]>>)
     /\ (Len(t) > 1 => E("sort", <<VList(SubSeq(t, 1, 1)), VList(From(t, 2))>>).v.l = s)
     /\ Perm(up, r) /\ asc(up, 1, 1) /\ Perm(dn, r) /\ asc(dn, -1, 1) /\ Perm(ui, r) /\ asc(ui, 1, -1)
     /\ [k \in 1..Len(up) |-> kk(up[k])] = s
     \* in a sorted list every element is found, and nothing that ties with none
     /\ \A k \in 1..Len(s) : \E n \in 0..(Len(s) - 1) : SortCmp(s[n + 1], s[k]) = 0

\* C15
ListLaw ==
  LET t == Tup  n == Len(t)  l == VList(t) IN
  /\ E("list", t).v = l
  /\ E("len", <<l>>).v = N(n)
  /\ \A g \in 1..(n + 2) :
       LET gs == E("groups", <<N(g), l>>).v.l IN
       /\ FoldLeft(LAMBDA acc, v : acc \o v.l, <<>>, gs) = t
       /\ \A k \in 1..Len(gs) : (k < Len(gs) => Len(gs[k].l) = g) /\ Len(gs[k].l) \in 1..g
  /\ \A p \in 0..n : \A q \in p..n :
       LET s == E("slice", <<l, N(p), N(q)>>).v.l IN
       /\ Len(s) = q - p
       /\ \A k \in 1..Len(s) : s[k] = E("get", <<l, N(p + k - 1)>>).v
       /\ E("append", <<E("slice", <<l, N(0), N(p)>>).v, VList(s), E("slice", <<l, N(q)>>).v>>).v = l
  /\ \A p \in 0..(n + 1) : \A q \in 0..(n + 1) : (p > q \/ q > n) => ~IsOk(E("slice", <<l, N(p), N(q)>>))
  /\ E("get", <<l, N(n)>>).v = VNull /\ E("get", <<l, VInt(ZOf(-1, <<1>>))>>).v = VNull
  /\ \A k \in 1..n : LET r == E("index_of", <<t[k], l>>).v IN
       IF r.t = "null" THEN ~VEq(t[k], t[k])
       ELSE LET i == NToI(r.n.m) IN i < k /\ VEq(t[i + 1], t[k]) /\ \A q \in 1..i : ~VEq(t[q], t[k])
\* string positions count bytes
StrPosLaw ==
  LET t == TextOf  n == Utf8Len(t)  s == VStr(t) IN
  /\ E("len", <<s>>).v = N(n)
  /\ \A p \in 0..(n + 1) : \A q \in 0..(n + 1) :
       LET r == E("slice", <<s, N(p), N(q)>>) IN
       IsOk(r) => /\ p <= q /\ q <= n /\ Utf8Len(r.v.s) = q - p
                  /\ E("cat", <<E("slice", <<s, N(0), N(p)>>).v, r.v, E("slice", <<s, N(q)>>).v>>).v = s
  /\ \A p \in 0..n : LET r == E("get", <<s, N(p)>>) IN IsOk(r) => Len(r.v.s) = 1 /\ IsOk(E("slice", <<s, N(p), N(p + Utf8Len(r.v.s))>>))
MapLaw ==
  LET a == V(1)  b == V(2)  p == V(3)  q == V(4)
      r == E("map", <<a, p, b, q>>) IN
  IF a.t = "str" /\ b.t = "str"
  THEN /\ IsOk(r) /\ E("get", <<r.v, b>>).v = q
       /\ E("get", <<r.v, a>>).v = (IF a = b THEN q ELSE p)
       /\ E("len", <<r.v>>).v = N(IF a = b THEN 1 ELSE 2)
  ELSE ~IsOk(r)

\* C16
ArithLaw ==
  LET a == V(1)  b == V(2)
      add == E("add", <<a, b>>)  sub == E("sub", <<a, b>>)  mul == E("mul", <<a, b>>)  div == E("div", <<a, b>>)  mod == E("mod", <<a, b>>)
      mn == E("min", <<a, b>>)  mx == E("max", <<a, b>>)
  IN IF IsWhole(a) /\ IsWhole(b)
     THEN /\ SameR(add, E("add", <<b, a>>)) /\ SameR(mul, E("mul", <<b, a>>))
          /\ IsOk(add) => add.v.n = ZAdd(a.n, b.n)
          /\ IsOk(sub) => sub.v.n = ZSub(a.n, b.n) /\ (LET r == E("add", <<sub.v, b>>) IN IsOk(r) => VEq(r.v, a))
          /\ IsOk(mul) => mul.v.n = ZMul(a.n, b.n)
          /\ b.n.g = 0 => ~IsOk(div) /\ ~IsOk(mod)
          /\ IsOk(div) /\ IsOk(mod) =>
               /\ ZAdd(ZMul(div.v.n, b.n), mod.v.n) = a.n
               /\ NCmp(mod.v.n.m, b.n.m) < 0 /\ mod.v.n.g \in {0, a.n.g}
          /\ (a.n.g >= 0 /\ b.n.g >= 0 /\ b.n.g # 0 /\ IsI64(a.n) /\ IsI64(b.n)) => IsOk(div) /\ IsOk(mod) /\ IsOk(sub)
          \* an error only when the result does not fit its type
          /\ ~IsOk(add) => ~IsI64(ZAdd(a.n, b.n)) \/ ~IsI64(a.n) \/ ~IsI64(b.n)
          /\ IsOk(mn) /\ IsOk(mx) /\ ~Tru("gt", <<mn.v, a>>) /\ ~Tru("gt", <<mn.v, b>>) /\ ~Tru("lt", <<mx.v, a>>) /\ ~Tru("lt", <<mx.v, b>>)
          /\ (VEq(mn.v, a) \/ VEq(mn.v, b)) /\ (VEq(mx.v, a) \/ VEq(mx.v, b))
     ELSE IF IsNum(a) /\ IsNum(b)
     THEN /\ \A r \in {add, sub, mul, div, mod} : IsOk(r) /\ r.v.t = "float"
          /\ SameR(add, E("add", <<b, a>>)) /\ SameR(mul, E("mul", <<b, a>>))
          /\ SameR(sub, E("add", <<a, LET r == E("sub", <<E("add", <<b, VFl("num", -1, <<>>, 0)>>).v>>) IN r.v>>))
     ELSE \A r \in {add, sub, mul, div, mod, mn, mx} : ~IsOk(r)
Arith3 ==
  LET a == V(1)  b == V(2)  c == V(3) IN
  \A f \in {"add", "sub", "mul", "div", "mod", "min", "max"} :
    LET p == E(f, <<a, b>>) IN SameR(E(f, <<a, b, c>>), IF IsOk(p) THEN E(f, <<p.v, c>>) ELSE p)

\* C17
SplitLaw ==
  LET t == V(1)  p == V(2)  q == V(3)
      parts == E("split", <<t, p>>).v
      rep == E("str_replace", <<t, p, q>>).v
      k == Len(parts.l) - 1
  IN /\ E("join_with", <<p, parts>>).v = t
     /\ E("join_with", <<q, parts>>).v = rep
     /\ E("str_replace_n", <<t, p, q, N(k)>>).v = rep /\ E("str_replace_n", <<t, p, q, N(k + 3)>>).v = rep
     /\ E("str_replace_n", <<t, p, q, N(0)>>).v = t
     /\ SameR(E("str_replace_n", <<t, p, q>>), E("str_replace_n", <<t, p, q, N(1)>>))
     /\ E("str_replace", <<t, p, p>>).v = t
     /\ Tru("str_contains", <<t, p>>) = (k > 0)
     /\ p.s # <<>> => \A i \in 1..Len(parts.l) : ~Tru("str_contains", <<parts.l[i], p>>)
     \* the occurrences go from left to right, one by one
     /\ \A n \in 1..k : LET r == E("str_replace_n", <<t, p, q, N(n)>>).v IN
          Len(r.s) = Len(t.s) + n * (Len(q.s) - Len(p.s))
     /\ E("cat", <<t, p, q>>).v.s = t.s \o p.s \o q.s
     /\ E("len", <<E("cat", <<t, p, q>>).v>>).v = E("len", <<t, p, q>>).v

\* C18
EscLaw ==
  LET t == VStr(TextOf) IN
  \A f \in {"html_esc", "xml_esc"} :
    LET r == E(f, <<t>>).v.s IN
    /\ EscapeOK(t.s, r)
    /\ \A more \in {S("amp;"), S("lt;"), S("#60;"), S(";"), S("x")} : Decode(r \o more, 1, <<>>) = [ok |-> TRUE, t |-> t.s \o more]
    /\ E(f, Tup).v.s = r
    /\ Len(r) >= Len(t.s)

\* C23
B64Law ==
  LET b == VBytes(FoldLeft(LAMBDA acc, v : Append(acc, NToI(v.n.m)), <<>>, Tup))
      t == E("as_base64", <<b>>).v
  IN /\ E("from_base64", <<t>>).v = b
     /\ Len(t.s) = 4 * ((Len(b.s) + 2) \div 3)
\* data text: reading is insensitive to a second reading of what was read
DataLaw ==
  LET t == TextOf  r == E("r_json", <<VStr(t)>>) IN
  /\ IsOk(r) => E("r_json", <<VStr(<<32>> \o t \o <<10>>)>>).o = "ok"
  /\ IsOk(r) => ~IsOk(E("r_json", <<VStr(t \o S(" 1"))>>))
  /\ IsOk(r) => ~IsOk(E("r_json", <<VStr(t \o <<44>>)>>))

\* C25
PathLaw ==
  LET t == TextOf  p == VStr(t)
      par == E("parent", <<p>>)  nm == E("base_name", <<p>>)  st == E("stem", <<p>>)  fs == E("full_stem", <<p>>)
      cr == E("bread_crumbs", <<p>>).v.l
      cs(y) == LET c == PathComps(y) IN [k \in 1..Len(c) |-> SubSeq(y, c[k].a, c[k].z)]
  IN /\ IsOk(nm) => cs(E("join", <<par.v, nm.v>>).v.s) = cs(t)
     /\ E("base_name_sure", <<p>>).v.s = (IF IsOk(nm) THEN nm.v.s ELSE <<>>)
     /\ IsOk(st) = IsOk(nm) /\ IsOk(fs) = IsOk(nm)
     /\ IsOk(nm) => /\ IsPrefixAt(st.v.s, nm.v.s, 1) /\ st.v.s # <<>>
                    /\ st.v.s \notin {S("."), S("..")} => E("base_name", <<fs.v>>).v = st.v
                    /\ \A i \in 1..Len(nm.v.s) : nm.v.s[i] # 47
                    /\ nm.v.s # st.v.s => nm.v.s[Len(st.v.s) + 1] = 46 /\ \A i \in (Len(st.v.s) + 2)..Len(nm.v.s) : nm.v.s[i] # 46
                    /\ LET w == E("with_ext", <<p, VStr(S("zz"))>>) IN
                       /\ E("base_name", <<w.v>>).v.s = st.v.s \o S(".zz") /\ E("parent", <<w.v>>) = par /\ E("stem", <<w.v>>) = st
                    /\ cs(E("with_ext", <<p, VStr(<<>>)>>).v.s) = cs(fs.v.s)
     /\ Last1(cr) = p
     /\ \A k \in 1..(Len(cr) - 1) : E("parent", <<cr[k + 1]>>).v = cr[k] /\ Len(cr[k].s) < Len(cr[k + 1].s)
     /\ E("parent", <<cr[1]>>).v.s = <<>>
JoinLaw ==
  LET p == V(1)  q == V(2)  r == E("join", <<p, q>>).v.s IN
  /\ (q.s # <<>> /\ q.s[1] = 47 => r = q.s)
  /\ \A f \in FPath \ {"with_ext"} : SameR(E(f, <<p, q>>), E(f, <<VStr(r)>>))
  /\ (q.s = <<>> \/ q.s[1] # 47) /\ p.s # <<>> =>
       LET c == PathComps(p.s)  d == PathComps(r) IN Len(d) >= Len(c) /\ \A k \in 1..Len(c) : SubSeq(r, d[k].a, d[k].z) = SubSeq(p.s, c[k].a, c[k].z)

\* C27: a number's text reads back as the same number, and nothing else does
ShowLaw ==
  LET v == V(1)  t == E("cat", <<v>>).v IN
  /\ t.t = "str"
  /\ (IsNum(v) /\ (v.t # "float" \/ FNum(v))) =>
       \* (a whole float prints without a point: read as a decimal it is the same double)
       LET point == \E i \in 1..Len(t.s) : t.s[i] = 46
           r == E("r_json", <<IF v.t = "float" /\ ~point THEN VStr(t.s \o S(".0")) ELSE t>>)
       IN IsOk(r) /\ VEq(r.v, v) /\ \A i \in 1..Len(t.s) : IsDigit(t.s[i]) \/ t.s[i] \in {45, 46}
  /\ (v.t \in {"bool", "null", "date"} /\ (v.t = "date" => v.y \in 0..9999)) => LET r == E("r_json", <<t>>) IN v.t = "null" \/ (IsOk(r) /\ r.v = v)
  /\ (~IsOpenText(t.s) => E("cat", <<t>>).v = t)
  /\ (v.t = "list" /\ ~IsOpenText(t.s) => t.s = <<91>> \o E("join_with", <<VStr(<<44>>), v>>).v.s \o <<93>>)

\* C28: an error exactly when there is nothing to pick
RandLaw ==
  LET a == Tup IN
  /\ (Len(a) = 1 /\ a[1].t \in {"uint", "int"} /\ ~RandErr(a)) => RandOK(a, [a[1] EXCEPT !.n = ZOf(0, <<>>)]) /\ ~RandOK(a, a[1])
  /\ (Len(a) = 2 /\ ~RandErr(a)) => RandOK(a, a[1]) /\ ~RandOK(a, a[2])
  /\ (Len(a) = 2 /\ RandErr(a) /\ a[1].t = a[2].t /\ IsWhole(a[1])) => ~RandOK(a, a[1])
  /\ (Len(a) = 1 /\ a[1].t = "list" /\ ~RandErr(a)) => \E k \in 1..Len(a[1].l) : RandOK(a, a[1].l[k])

\* C29: rows and cells
CountIn(p, t) == Len(SplitText(t, p)) - 1
TableLaw ==
  LET t == TextOf  r == E("table", <<VStr(t)>>).v.s IN
  /\ CountIn(S("<tr>"), r) = CountIn(S("</tr>"), r)
  /\ CountIn(S("<td>"), r) + CountIn(S("<th>"), r) >= CountIn(S("<tr>"), r)
  /\ CountIn(S("<td>"), r) = CountIn(S("</td>"), r) /\ CountIn(S("<th>"), r) = CountIn(S("</th>"), r)
  /\ LET a == E("table", <<VStr(t), VStr(S("w=1"))>>).v.s IN ReplaceText(a, S("<table w=1>"), S("<table >"), 1) = r

\* C19, C20: a world before and after, and a locked folder
World == [base |-> J.base, w |-> J.w, open |-> FALSE]
InLock(p) == p = J.lock \/ IsUnder(J.lock, p)
Lk(k) == [k |-> k, p |-> J.lockp]         \* the text the host gave for the folder J.lock
Outside(w) == SelectSeq(w, LAMBDA e : ~InLock(e.k))
NoLinks == \A i \in 1..Len(J.w) : J.w[i].v.t # "link"
LockLaw ==
  LET t == TextOf
      at == Place(World, Lk("folder"), t)
      x1 == Written(World, Lk("write"), <<VStr(t), VStr(S("W"))>>)
      n == SafeNames(Lk("folder").p, t)
  IN \* what is named lies in the folder
     /\ (NoLinks /\ at.o \in {"at", "new"}) => InLock(at.p)
     /\ at.o # "out"
     \* no name that could lead out is left, and a name kept is a name given
     /\ n.ok => \A k \in 1..Len(n.cs) : n.cs[k].k = "name"
     /\ n.ok = (at.o # "refused")
     \* an absolute path is refused unless it names the folder itself
     /\ (t # <<>> /\ t[1] = 47 /\ at.o # "refused") =>
          LET c == CompsOf(t)  d == CompsOf(J.lockp) IN Len(c) >= Len(d) /\ SubSeq(c, 1, Len(d)) = d
     \* what a path that never steps up or starts anew names is not refused
     /\ (t = <<>> \/ t[1] # 47) /\ (\A k \in 1..Len(CompsOf(t)) : CompsOf(t)[k].k # "up") => at.o # "refused"
     \* what is written lies in the folder; everything else stays as it is
     /\ x1.o = "ok" => /\ (NoLinks => Outside(x1.w) = Outside(J.w))
                       /\ \A i \in 1..Len(J.w) : LET e == J.w[i] IN Node(x1.w, e.k) = e.v \/ (e.v.t = "file" /\ Node(x1.w, e.k) = NewFile(S("W")))
                       /\ Cardinality({i \in 1..Len(J.w) : Node(x1.w, J.w[i].k) # J.w[i].v}) <= 1
                       /\ \A i \in 1..Len(x1.w) : MHas(J.w, x1.w[i].k) \/ x1.w[i].v.t \in {"dir", "file"}
                       /\ LET y == Place([World EXCEPT !.w = x1.w], Lk("folder"), t) IN y.o = "at" /\ Node(x1.w, y.p) = NewFile(S("W"))
     /\ at.o = "refused" => x1.o = "err"
     /\ x1.o = "err" \/ x1.o = "ok" \/ x1.o = "any"

\* C22: one content in several representations
RECURSIVE Alike(_, _)
Alike(p, q) ==         \* equal but for how a number is held
  IF p.t = "list" /\ q.t = "list" THEN Len(p.l) = Len(q.l) /\ \A k \in 1..Len(p.l) : Alike(p.l[k], q.l[k])
  ELSE IF p.t = "map" /\ q.t = "map" THEN Len(p.m) = Len(q.m) /\ \A k \in 1..Len(p.m) : p.m[k].k = q.m[k].k /\ Alike(p.m[k].v, q.m[k].v)
  ELSE p = q \/ (IsNum(p) /\ IsNum(q) /\ VEq(p, q))
AlikeR(p, q) == Len(p) = Len(q) /\ (p # <<>> => Alike(p[1], q[1]))
Path(k) == [i \in 1..(Len(x) - k) |-> V(k + i)]
HostLaw ==
  LET h == V(1)  p == Path(1)  r == HostGet(h, p)
      flat == h.h \notin {"kv", "pair"}
  IN /\ \A k \in 0..Len(p) : LET q == HostGet(h, SubSeq(p, 1, k)) IN
          (h.h # "pair" /\ q # <<>>) => r = Walk(q[1], From(p, k + 1))
     /\ (h.h # "pair" /\ r # <<>>) => \A k \in (IF h.h = "kv" THEN 1 ELSE 0)..Len(p) : HostGet(h, SubSeq(p, 1, k)) # <<>>
     /\ h.h = "pair" => r = (IF HostGet(h.a, p) # <<>> THEN HostGet(h.a, p) ELSE HostGet(h.b, p))
     /\ (h.h \in {"td", "json", "toml", "map", "refmap"} /\ h.v.t = "map") =>
          \A k \in {"td", "json", "toml", "map", "refmap"} : AlikeR(HostGet([h EXCEPT !.h = k], p), r)
     /\ (flat /\ h.v.t \notin {"map", "list"} /\ p # <<>>) => r = <<>>
     \* converting first makes no difference
     /\ flat => LET c == HostGet(h, <<>>) IN c # <<>> /\ AlikeR(Walk(c[1], p), r)
\* C21: what each way of building a function set grants
CapsLaw ==
  LET d == DOMAIN RegOf(Tup)
      has(ks) == \E k \in 1..Len(x) : \E i \in 1..Len(ks) : V(k).s = ks[i]
      reads == Texts(FolderReads)  progs == Texts(FExec)
      named(ns) == \E k \in 1..Len(x) : V(k).s = "host" /\ V(k).n \in ns
  IN /\ (d \cap reads # {}) = (has(<<"folder", "free">>) \/ named(reads))
     /\ (S("write") \in d) = (has(<<"write", "free">>) \/ named({S("write")}))
     /\ (d \cap progs # {}) = (has(<<"exec">>) \/ named(progs))
     /\ has(<<"folder">>) => reads \subseteq d
     /\ \A k \in 1..Len(x) : V(k).s = "defaults" => StdNames \subseteq d
     /\ StdNames \cap (reads \cup progs \cup {S("write")}) = {}
     \* the last one registered under a name is the one called
     /\ \A f \in d : LET k == Greatest(1, Len(x), LAMBDA i : IF V(i).s = "host" THEN V(i).n = f ELSE f \in Sets[V(i).s]) IN
          k >= 1 /\ RegOf(Tup)[f] = EntryOf(V(k))

Law ==
  CASE J.law = "none" -> TRUE
    [] J.law = "cmp2" -> Cmp2 [] J.law = "cmp3" -> Cmp3 [] J.law = "sort" -> SortLaw
    [] J.law = "list" -> ListLaw [] J.law = "strpos" -> StrPosLaw [] J.law = "map" -> MapLaw
    [] J.law = "arith" -> ArithLaw [] J.law = "arith3" -> Arith3 [] J.law = "split" -> SplitLaw
    [] J.law = "esc" -> EscLaw [] J.law = "b64" -> B64Law [] J.law = "data" -> DataLaw
    [] J.law = "path" -> PathLaw [] J.law = "join" -> JoinLaw [] J.law = "show" -> ShowLaw
    [] J.law = "rand" -> RandLaw [] J.law = "table" -> TableLaw [] J.law = "lock" -> LockLaw
    [] J.law = "host" -> (x # <<>> => HostLaw) [] J.law = "caps" -> CapsLaw

-----------------------------------------------------------------------------
Init == j \in 1..Len(Jobs) /\ x = <<>>
Choose ==
  /\ Len(x) < Len(J.uni)
  /\ \E k \in 1..Len(J.uni[Len(x) + 1]) : x' = Append(x, k)
  /\ UNCHANGED j
Next == Choose
\* jobs whose tuples may be of any length up to the number of universes check every prefix
Due == Full \/ J.any
Answers ==
  CASE J.law = "host" -> IF x = <<>> THEN <<>> ELSE HostGet(V(1), Path(1))
    [] J.law = "caps" -> [k \in 1..Len(J.names) |-> J.names[k] \in DOMAIN RegOf(Tup)]
    [] OTHER -> [k \in 1..Len(J.calls) |->
         LET a == ArgsOf(J.calls[k]) IN IF OpenArgs(a) THEN Open ELSE Eval(J.calls[k].f, a)]
InvLaw == Due => Law = TRUE
Printed == (Due /\ (J.calls # <<>> \/ J.law \in {"host", "caps"})) =>
  PrintT("OUT " \o ToJson([j |-> j, x |-> x, r |-> Answers]))
=============================================================================
