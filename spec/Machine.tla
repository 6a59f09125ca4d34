------------------------------ MODULE Machine ------------------------------
(* The renderer as an abstract machine (src/template.rs, expr.rs, pattern.rs,*)
(* scope.rs, func_man.rs, temp_man.rs).                                      *)
(*                                                                           *)
(* A machine state m is a record                                             *)
(*   c   control: what happens next                                          *)
(*         go            continue the topmost continuation                   *)
(*         ev(e)         evaluate expression e                               *)
(*         val(v)        an expression gave v                                *)
(*         txt(s)        a template item rendered s                          *)
(*         err           unwinding after a failure                           *)
(*         call(f, a)    a host function is about to be called               *)
(*         done(o, ..)   the render ended: text and exports, or an error     *)
(*   K   stack of continuations, the topmost last                            *)
(*   A   stack of activations (one per template call), the running one last: *)
(*         ps   parameters the host or the caller passed                     *)
(*         pn   declared parameter names                                     *)
(*         fr   variable frames, the root frame first; each a sorted map     *)
(*   st  the template store: [k |-> "map" | "none", m |-> name -> template]  *)
(*   reg which set of host functions is in use (see RegHas)                  *)
(*   n   number of steps, ch the choices made where the order is open        *)
EXTENDS Lib
CONSTANT RegHas(_, _)      \* RegHas(reg, f): the host registered a function f in reg

K_run == S("run")  K_first == S("first")  K_select == S("select")
AtSign == <<64>>

-----------------------------------------------------------------------------
(* What a host value of each kind shows under a path (C22): <<>> or <<v>>.   *)
(* h.h is the kind; h.v its content as a value.                              *)
RECURSIVE JsonView(_), HostGet(_, _)
JsonView(v) ==        \* numbers come back signed when they fit; a TOML date-time is its text
  CASE IsWhole(v) -> IF IsI64(v.n) THEN VInt(v.n) ELSE VUInt(v.n.m)
    [] v.t = "list" -> VList([i \in 1..Len(v.l) |-> JsonView(v.l[i])])
    [] v.t = "map" -> VMap([i \in 1..Len(v.m) |-> [k |-> v.m[i].k, v |-> JsonView(v.m[i].v)]])
    [] v.t = "datetime" -> VStr(v.s)
    [] OTHER -> v
HostGet(h, path) ==
  CASE h.h \in {"json", "toml"} -> Walk(JsonView(h.v), path)
    [] h.h = "kv" -> IF path = <<>> \/ path[1] # PartI(h.k) THEN <<>> ELSE Walk(h.v, Tail(path))
    [] h.h = "pair" -> LET a == HostGet(h.a, path) IN IF a # <<>> THEN a ELSE HostGet(h.b, path)
    [] OTHER -> Walk(h.v, path)      \* values, maps, lists of text, cards and scalars

-----------------------------------------------------------------------------
(* Variables *)
Act(m) == Last1(m.A)
Lookup(m, p) ==
  IF p = <<>> THEN <<>>
  ELSE LET a == Act(m)  x == p[1] IN
  IF x.t = "n"
  THEN IF ~NFits(x.n) \/ NToI(x.n) >= Len(a.ps) THEN <<>> ELSE HostGet(a.ps[NToI(x.n) + 1], Tail(p))
  ELSE LET f == Greatest(1, Len(a.fr), LAMBDA j : MHas(a.fr[j], x.s))
           k == Least(1, Len(a.pn), LAMBDA j : a.pn[j] = x.s)
       IN IF f > 0 THEN Walk(MGet(a.fr[f], x.s), Tail(p))        \* the innermost binding decides
          ELSE IF k <= Len(a.pn) /\ k <= Len(a.ps) THEN HostGet(a.ps[k], Tail(p))
          ELSE <<>>
SetFr(m, i, name, v) == [m EXCEPT !.A[Len(m.A)].fr[i] = MPut(@, name, v)]
SetVar(m, name, v) == SetFr(m, Len(Act(m).fr), name, v)
SetRoot(m, name, v) == SetFr(m, 1, name, v)
PushFr(m) == [m EXCEPT !.A[Len(m.A)].fr = Append(@, <<>>)]
PopFr(m) == [m EXCEPT !.A[Len(m.A)].fr = ButLast(@)]

-----------------------------------------------------------------------------
(* Continuations and control *)
PushK(m, k) == [m EXCEPT !.K = Append(@, k)]
PopK(m) == [m EXCEPT !.K = ButLast(@)]
TopK(m) == Last1(m.K)
SetK(m, k) == [m EXCEPT !.K[Len(m.K)] = k]
Go(m) == [m EXCEPT !.c = [c |-> "go"]]
Val(m, v) == [m EXCEPT !.c = [c |-> "val", v |-> v]]
Txt(m, s) == [m EXCEPT !.c = [c |-> "txt", s |-> s]]
Ev(m, e) == [m EXCEPT !.c = [c |-> "ev", e |-> e]]
Fail(m) == [m EXCEPT !.c = [c |-> "err"]]
Done(m, r) == [m EXCEPT !.c = [c |-> "done", r |-> r]]

\* run a block of items in a new frame; it will give its text
RunBlock(m, items) ==
  Go(PushK(PushFr(m), [k |-> "items", w |-> "block", is |-> items, i |-> 1, acc |-> <<>>]))
\* a template called with arguments; it will give its value
Enter(m, pn, b, args) ==
  Go(PushK([m EXCEPT !.A = Append(@, [ps |-> [i \in 1..Len(args) |-> [h |-> "td", v |-> args[i]]], pn |-> pn, fr |-> <<<<>>>>])],
           [k |-> "items", w |-> "root", is |-> b, i |-> 1, acc |-> <<>>]))
\* a call by name: host function, else stored template, else failure
Call(m, f, args) ==
  IF RegHas(m.reg, f) THEN [m EXCEPT !.c = [c |-> "call", f |-> f, a |-> args]]
  ELSE IF m.st.k = "map" /\ MHas(m.st.m, f)
  THEN LET t == MGet(m.st.m, f) IN Enter(m, t.pn, t.b, args)
  ELSE Fail(m)

Atomic(e) == e.e \in {"lit", "var"}
AtomVal(m, e) == IF e.e = "lit" THEN <<e.v>> ELSE Lookup(m, e.p)
\* evaluate es left to right, then act on the values: w = "cmd", "run", "list", "map", "values"
Complete(m, x, vs) ==
  CASE x.w \in {"cmd", "values"} -> Call(m, x.f, vs)
    [] x.w = "run" -> IF vs # <<>> /\ vs[1].t = "tmpl" THEN Enter(m, vs[1].pn, vs[1].b, Tail(vs)) ELSE Call(m, x.f, vs)
    [] x.w = "list" -> Val(m, VList(vs))
    [] x.w = "map" -> Val(m, VMap(MOfPairs([i \in 1..Len(vs) |-> <<x.ks[i], vs[i]>>])))
RECURSIVE Args(_, _, _)
Args(m, x, vs) ==
  IF Len(vs) = Len(x.es) THEN Complete(m, x, vs)
  ELSE LET e == x.es[Len(vs) + 1] IN
       IF Atomic(e)
       THEN LET r == AtomVal(m, e) IN IF r = <<>> THEN Fail(m) ELSE Args(m, x, Append(vs, r[1]))
       ELSE Ev(PushK(m, [k |-> "args", x |-> x, vs |-> vs]), e)
\* 'first': the first argument, from the i-th on, that gives a value
RECURSIVE First(_, _, _)
First(m, es, i) ==
  IF i > Len(es) THEN Val(m, VNull)
  ELSE IF Atomic(es[i])
  THEN LET r == AtomVal(m, es[i]) IN
       IF r = <<>> \/ r[1].t = "null" THEN First(m, es, i + 1) ELSE Val(m, r[1])
  ELSE Ev(PushK(m, [k |-> "first", es |-> es, i |-> i]), es[i])
\* 'select': the argument chosen by the selector's value
Select(m, es, v) ==
  LET n == IF IsIdx(v) THEN (IF NFits(v.n.m) THEN NToI(v.n.m) + 2 ELSE 0)
           ELSE IF Truth(v) = "N" THEN 0 ELSE IF Truth(v) = "T" THEN 2 ELSE 3
  IN IF n = 0 \/ n > Len(es) THEN Fail(m) ELSE Ev(m, es[n])

EvalStep(m, e) ==
  CASE e.e = "lit" -> Val(m, e.v)
    [] e.e = "var" -> LET r == Lookup(m, e.p) IN IF r = <<>> THEN Fail(m) ELSE Val(m, r[1])
    [] e.e = "list" -> Args(m, [w |-> "list", es |-> e.a], <<>>)
    [] e.e = "map" -> Args(m, [w |-> "map", es |-> [i \in 1..Len(e.m) |-> e.m[i][2]],
                               ks |-> [i \in 1..Len(e.m) |-> e.m[i][1]]], <<>>)
    [] e.e = "cmd" ->
         IF e.f = K_run THEN Args(m, [w |-> "run", f |-> e.f, es |-> e.a], <<>>)
         ELSE IF e.f = K_first THEN First(m, e.a, 1)
         ELSE IF e.f = K_select
         THEN (IF Len(e.a) < 3 THEN Fail(m) ELSE Ev(PushK(m, [k |-> "sel", es |-> e.a]), e.a[1]))
         ELSE Args(m, [w |-> "cmd", f |-> e.f, es |-> e.a], <<>>)

-----------------------------------------------------------------------------
(* Loops: the elements left, as pairs <<key, value>>; any order for a map *)
LoopEls(v) ==
  CASE v.t = "list" -> [i \in 1..Len(v.l) |-> <<VU(i - 1), v.l[i]>>]
    [] v.t = "uint" -> [i \in 1..NToI(v.n.m) |-> <<VU(i - 1), VU(i - 1)>>]
    [] v.t = "int" -> [i \in 1..MaxN(0, ZToI(v.n)) |-> <<VU(i - 1), VInt(ZI(i - 1))>>]
    [] v.t = "map" -> [i \in 1..Len(v.m) |-> <<VStr(v.m[i].k), v.m[i].v>>]
LoopOn(m, x, i) ==        \* take the i-th of the elements left
  LET el == x.els[i]
      m1 == SetVar(SetVar(m, x.kn, el[1]), x.vn, el[2])
      m2 == SetK(m1, [x EXCEPT !.els = SubSeq(@, 1, i - 1) \o From(@, i + 1)])
      m3 == IF x.any THEN [m2 EXCEPT !.ch = Append(@, i)] ELSE m2
  IN RunBlock(m3, x.b)
LoopNext(m) ==            \* set of successors
  LET x == TopK(m) IN
  IF x.els = <<>> THEN {Txt(PopK(m), x.acc)}
  ELSE IF x.any THEN {LoopOn(m, x, i) : i \in 1..Len(x.els)} ELSE {LoopOn(m, x, 1)}

-----------------------------------------------------------------------------
(* Patterns.  work: what is still to be matched, in order.                   *)
WMatch(p, d) == [w |-> "match", p |-> p, d |-> d]
WBind(id, d) == [w |-> "bind", id |-> id, d |-> d]
WFail == [w |-> "fail"]
\* alternatives of a switch: one per pattern
Alts(cs) == Concat([i \in 1..Len(cs) |-> [j \in 1..Len(cs[i].ps) |-> [p |-> cs[i].ps[j], b |-> cs[i].b]]])
RECURSIVE Match(_, _), TryAlt(_, _)
\* TopK(m) is the "case" continuation of the attempt
Match(m, work) ==
  IF work = <<>>
  THEN LET x == TopK(m) IN RunBlock(SetK(m, [k |-> "scope"]), x.alts[x.i].b)
  ELSE LET h == work[1]
           rest == Tail(work)
           miss == LET x == TopK(m) IN TryAlt(PopK(PopFr(m)), [x EXCEPT !.i = @ + 1])
       IN IF h.w = "fail" THEN miss
          ELSE IF h.w = "bind" THEN Match(SetVar(m, h.id, h.d), rest)
          ELSE LET p == h.p  d == h.d IN
          CASE p.p = "any" -> Match(m, rest)
            [] p.p = "val" -> IF VEq(p.v, d) THEN Match(m, rest) ELSE miss
            [] p.p = "list" ->
                 IF d.t # "list" THEN miss
                 ELSE LET k == MinN(Len(p.l), Len(d.l))
                      IN Match(m, [i \in 1..k |-> WMatch(p.l[i], d.l[i])]
                                  \o (IF k < Len(p.l) THEN <<WFail>> ELSE rest))
            [] p.p = "map" ->
                 IF d.t # "map" THEN miss
                 ELSE LET k == Least(1, Len(p.m), LAMBDA j : ~MHas(d.m, p.m[j][1])) - 1
                      IN Match(m, [i \in 1..k |-> WMatch(p.m[i][2], MGet(d.m, p.m[i][1]))]
                                  \o (IF k < Len(p.m) THEN <<WFail>> ELSE rest))
            [] p.p = "cap" -> IF p.q = <<>> THEN Match(SetVar(m, p.id, d), rest)
                              ELSE Match(m, <<WMatch(p.q[1], d), WBind(p.id, d)>> \o rest)
            [] p.p = "filter" -> Ev(SetVar(PushFr(PushK(m, [k |-> "filter", work |-> rest])), AtSign, d), p.e)
\* x = [k |-> "case", v, alts, i]: try its i-th alternative
TryAlt(m, x) ==
  IF x.i > Len(x.alts) THEN Txt(m, <<>>)
  ELSE Match(PushFr(PushK(m, x)), <<WMatch(x.alts[x.i].p, x.v)>>)
\* the filter on top of K has been decided
FilterDone(m, ok) ==
  LET w == TopK(m).work  m1 == PopFr(PopK(m)) IN Match(m1, IF ok THEN w ELSE <<WFail>>)

-----------------------------------------------------------------------------
(* Items *)
RunItem(m, it) ==
  CASE it.k = "exp" -> Ev(PushK(m, [k |-> "exp"]), it.x)
    [] it.k = "let" -> Ev(PushK(m, [k |-> "let", as |-> it.as, i |-> 1, root |-> FALSE]), it.as[1][2])
    [] it.k = "export" -> Ev(PushK(m, [k |-> "let", as |-> it.as, i |-> 1, root |-> TRUE]), it.as[1][2])
    [] it.k = "return" -> Ev(PushK(m, [k |-> "return"]), it.x)
    [] it.k = "if" -> Ev(PushK(m, [k |-> "if", y |-> it.y, n |-> it.n]), it.x)
    [] it.k = "for" -> Ev(PushK(m, [k |-> "forx", kn |-> it.kn, vn |-> it.vn, b |-> it.b]), it.x)
    [] it.k = "block" -> RunBlock(PushK(m, [k |-> "blk", f |-> it.n, a |-> it.a]), it.b)
    [] it.k = "atlet" -> RunBlock(PushK(m, [k |-> "at", n |-> it.n, root |-> FALSE]), it.b)
    [] it.k = "atexport" -> RunBlock(PushK(m, [k |-> "at", n |-> it.n, root |-> TRUE]), it.b)
    [] it.k = "define" -> Txt(SetVar(m, it.n, VTmpl(it.ps, it.b)), <<>>)
    [] it.k = "global" -> Txt(IF m.st.k = "map" THEN [m EXCEPT !.st.m = MPut(@, it.n, [pn |-> it.ps, b |-> it.b])] ELSE m, <<>>)
    [] it.k = "switch" -> Ev(PushK(m, [k |-> "switch", alts |-> Alts(it.cs)]), it.x)
    [] it.k = "as" -> Ev(PushK(m, [k |-> "switch", alts |-> <<[p |-> it.p, b |-> it.b]>>]), it.x)

\* "go": the topmost continuation is a run of items, a loop or front matter
GoStep(m) ==
  LET x == TopK(m) IN
  CASE x.k = "items" ->
         IF x.i <= Len(x.is)
         THEN LET it == x.is[x.i]
                  m1 == [m EXCEPT !.K[Len(m.K)].i = @ + 1]
              IN IF it.k = "text" THEN [m1 EXCEPT !.K[Len(m.K)].acc = @ \o it.s]
                 ELSE IF it.k = "comment" THEN m1
                 ELSE RunItem(m1, it)
         ELSE IF x.w = "block" THEN Txt(PopFr(PopK(m)), x.acc)
         ELSE LET root == Act(m).fr[1]
                  m1 == PopK([m EXCEPT !.A = ButLast(@)])
              IN IF m1.K = <<>> THEN Done(m1, [o |-> "ok", text |-> x.acc, ex |-> root])
                 ELSE Val(m1, IF MHas(root, K_return) THEN MGet(root, K_return) ELSE VStr(x.acc))
    [] x.k = "fm" ->
         IF x.i > Len(x.todo) THEN Done(PopK([m EXCEPT !.A = ButLast(@)]), [o |-> "ok", text |-> <<>>, ex |-> Act(m).fr[1]])
         ELSE LET it == x.todo[x.i]
                  m1 == [m EXCEPT !.K[Len(m.K)].i = @ + 1]
              IN IF it.k = "atexport" THEN RunBlock(PushK(m1, [k |-> "fmat", n |-> it.n]), it.b)
                 ELSE Ev(PushK(m1, [k |-> "fmset", n |-> it.n]), it.x)

\* a value reaches the topmost continuation: set of successors
ValStep(m, v) ==
  LET x == TopK(m)
      p == PopK(m)
  IN CASE x.k = "args" -> {Args(p, x.x, Append(x.vs, v))}
       [] x.k = "first" -> {IF v.t = "null" THEN First(p, x.es, x.i + 1) ELSE Val(p, v)}
       [] x.k = "sel" -> {Select(p, x.es, v)}
       [] x.k = "exp" -> {Txt(p, Disp(v))}
       [] x.k = "let" -> LET m1 == IF x.root THEN SetRoot(m, x.as[x.i][1], v) ELSE SetVar(m, x.as[x.i][1], v) IN
                         {IF x.i = Len(x.as) THEN Txt(PopK(m1), <<>>)
                          ELSE Ev([m1 EXCEPT !.K[Len(m.K)].i = @ + 1], x.as[x.i + 1][2])}
       [] x.k = "return" -> {Txt(SetRoot(p, K_return, v), <<>>)}
       [] x.k = "if" -> {RunBlock(p, IF Truth(v) = "T" THEN x.y ELSE x.n)}
       [] x.k = "forx" ->
            IF v.t \in {"list", "map", "uint", "int"}
            THEN LoopNext(SetK(m, [k |-> "for", kn |-> x.kn, vn |-> x.vn, b |-> x.b, acc |-> <<>>,
                                   els |-> LoopEls(v), any |-> v.t = "map"]))
            ELSE {Fail(p)}
       [] x.k = "switch" -> {TryAlt(p, [k |-> "case", v |-> v, alts |-> x.alts, i |-> 1])}
       [] x.k = "filter" -> {FilterDone(m, v.t = "bool" /\ v.b)}
       [] x.k = "fmset" -> {Go(SetRoot(p, x.n, v))}

\* text reaches the topmost continuation: set of successors
TxtStep(m, s) ==
  LET x == TopK(m)
      p == PopK(m)
  IN CASE x.k = "items" -> {Go([m EXCEPT !.K[Len(m.K)].acc = @ \o s])}
       [] x.k = "for" -> LoopNext([m EXCEPT !.K[Len(m.K)].acc = @ \o s])
       [] x.k = "blk" -> LET q == PushK(p, [k |-> "exp"]) IN
                         {IF x.a = <<>> THEN Call(q, x.f, <<VStr(s)>>)
                          ELSE Args(SetVar(q, AtSign, VStr(s)), [w |-> "values", f |-> x.f, es |-> x.a], <<>>)}
       [] x.k = "at" -> {Txt(IF x.root THEN SetRoot(p, x.n, VStr(s)) ELSE SetVar(p, x.n, VStr(s)), <<>>)}
       [] x.k = "scope" -> {Txt(PopFr(p), s)}
       [] x.k = "fmat" -> {Go(SetRoot(p, x.n, VStr(s)))}

\* a failure reaches the topmost continuation
ErrStep(m) ==
  IF m.K = <<>> THEN Done(m, [o |-> "err"])
  ELSE LET x == TopK(m)
           p == PopK(m)
       IN CASE x.k = "items" /\ x.w = "block" -> PopFr(p)
            [] x.k = "items" /\ x.w = "root" -> [p EXCEPT !.A = ButLast(@)]
            [] x.k = "scope" -> PopFr(p)
            [] x.k = "if" -> RunBlock(p, x.n)
            [] x.k = "first" -> First(p, x.es, x.i + 1)
            [] x.k = "filter" -> FilterDone(m, FALSE)
            [] x.k \in {"fmset", "fmat"} -> Go(p)
            [] OTHER -> p

\* the steps the machine takes by itself (not "call", not "done")
Steps(m) ==
  LET r == CASE m.c.c = "go" -> {GoStep(m)}
             [] m.c.c = "ev" -> {EvalStep(m, m.c.e)}
             [] m.c.c = "val" -> ValStep(m, m.c.v)
             [] m.c.c = "txt" -> TxtStep(m, m.c.s)
             [] m.c.c = "err" -> {ErrStep(m)}
  IN {[x EXCEPT !.n = @ + 1] : x \in r}
\* the host function called gave r
Resume(m, r) == [IF r.o = "ok" THEN Val(m, r.v) ELSE Fail(m) EXCEPT !.n = @ + 1]

-----------------------------------------------------------------------------
(* Functions of the host's own, used as probes *)
HostEval(h, a) ==
  CASE h.kind = "id" -> IF a = <<>> THEN Err ELSE Ok(a[1])
    [] h.kind = "fail" -> Err
    [] h.kind = "const" -> Ok(h.v)
    [] h.kind = "args" -> Ok(VList(a))
    [] h.kind = "count" -> Ok(VU(Len(a)))


-----------------------------------------------------------------------------
StartRender(reg, st, items, ps) ==
  [c |-> [c |-> "go"], K |-> <<[k |-> "items", w |-> "root", is |-> items, i |-> 1, acc |-> <<>>]>>,
   A |-> <<[ps |-> ps, pn |-> <<>>, fr |-> <<<<>>>>]>>, st |-> st, reg |-> reg, n |-> 0, ch |-> <<>>]
\* the exports of the root, in order, one at a time
FMItems(items) ==
  Concat([i \in 1..Len(items) |->
            IF items[i].k = "export" THEN [j \in 1..Len(items[i].as) |-> [k |-> "export", n |-> items[i].as[j][1], x |-> items[i].as[j][2]]]
            ELSE IF items[i].k = "atexport" THEN <<items[i]>> ELSE <<>>])
StartFront(reg, items) ==
  [c |-> [c |-> "go"], K |-> <<[k |-> "fm", todo |-> FMItems(items), i |-> 1]>>,
   A |-> <<[ps |-> <<>>, pn |-> <<>>, fr |-> <<<<>>>>]>>, st |-> [k |-> "none", m |-> <<>>], reg |-> reg, n |-> 0, ch |-> <<>>]

-----------------------------------------------------------------------------
(* What holds in every state of the machine *)
FramePush(x) == (x.k = "items" /\ x.w = "block") \/ x.k \in {"scope", "case", "filter"}
IsRootK(x) == (x.k = "items" /\ x.w = "root") \/ x.k = "fm"
\* one activation per call in progress; frames match the blocks open in each
Balanced(m) ==
  LET roots == SelectSeq(Idx(Len(m.K)), LAMBDA i : IsRootK(m.K[i]))
      upto(j) == IF j < Len(roots) THEN roots[j + 1] - 1 ELSE Len(m.K)
  IN /\ Len(roots) = Len(m.A)
     /\ \A j \in 1..Len(roots) :
          Len(m.A[j].fr) = 1 + Cardinality({i \in roots[j]..upto(j) : FramePush(m.K[i])})
\* a step leaves the activations below the running one as they were
CallersUntouched(m, n) ==
  \A j \in 1..(MinN(Len(m.A), Len(n.A)) - 1) : n.A[j] = m.A[j]
\* a step binds names only in the running activation: its innermost frame, or its root
BindsLocally(m, n) ==
  Len(m.A) = Len(n.A) /\ m.A # <<>> =>
    LET a == Act(m).fr  b == Act(n).fr
        \* a filter decided: its frame goes, the match goes on in the one below
        d == IF m.K # <<>> /\ TopK(m).k = "filter" THEN 2 ELSE 1
    IN \A i \in 2..(MinN(Len(a), Len(b)) - d) : a[i] = b[i]
\* the store changes only by executing a global definition
StoreStep(m, n) ==
  n.st # m.st => /\ m.c.c = "go" /\ TopK(m).k = "items"
                 /\ TopK(m).is[TopK(m).i].k = "global"
\* text already rendered is never taken back
TextGrows(m, n) ==
  \A i \in 1..MinN(Len(m.K), Len(n.K)) :
    (m.K[i].k = "items" /\ n.K[i].k = "items" /\ m.K[i].is = n.K[i].is /\ m.K[i].i <= n.K[i].i)
      => IsPrefixAt(m.K[i].acc, n.K[i].acc, 1)
=============================================================================
