--------------------------------- MODULE MC ---------------------------------
(* Model checking of the renderer.  TLC puts templates together from an      *)
(* alphabet of pieces (tags and texts, given in a configuration file), parses *)
(* each with the grammar, runs it on the machine and checks, in every state   *)
(* and on every step, what the properties say of all of them.  The outcome of *)
(* every template is printed, and the real library has to agree with it.      *)
EXTENDS Machine, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MC_CFG)
P == Cfg.pieces
VARIABLES src,    \* the pieces so far
          stk,    \* the constructs open after them
          slips,  \* pieces that stand where no construct takes them
          m,      \* the machine; its control is "build" before the first run
          todo,   \* runs still to be made: of which template (t), "front" or "render" (w)
          ev,     \* host calls of the current run
          outs,   \* outcomes of the runs made
          sto,    \* the store as the last render left it
          marks   \* where blocks were entered, and the variables then
vars == <<src, stk, slips, m, todo, ev, outs, sto, marks>>

-----------------------------------------------------------------------------
StdN == {S(x) : x \in Defaults}
Probe == [p |-> "id", q |-> "fail", r |-> "args", count |-> "count"]
ProbeN == {S(x) : x \in DOMAIN Probe}
MC_RegHas(reg, f) == f \in ProbeN \/ f \in StdN
CallResult(f, a) ==
  IF f \in ProbeN THEN HostEval([kind |-> Probe[Str(f)]], a)
  ELSE IF OpenArgs(a) THEN Open ELSE Eval(Str(f), a)

-----------------------------------------------------------------------------
(* Putting templates together *)
Count(i) == Cardinality({k \in 1..Len(src) : src[k] = i})
Cost == FoldLeft(LAMBDA a, i : a + P[i].cost, 0, src)
\* a piece may carry its own position, written as the character 7
At(t, k) == [j \in 1..Len(t) |-> IF t[j] = 7 THEN 48 + (k % 10) ELSE t[j]]
Text == Cfg.pre \o Concat([k \in 1..Len(src) |-> At(P[src[k]].t, k)]) \o Cfg.post
\* the character 6 ends one template of a history and begins the next
Cuts(t) == SelectSeq(Idx(Len(t)), LAMBDA i : t[i] = 6)
NTexts == 1 + Cardinality({k \in 1..Len(src) : P[src[k]].t = <<6>>})
TextNo(k) == LET t == Text  c == <<0>> \o Cuts(t) \o <<Len(t) + 1>> IN IF NTexts = 1 THEN t ELSE SubSeq(t, c[k] + 1, c[k + 1] - 1)
\* every template in turn, each with all of runs, as many times over as there are laps
Plan == Concat([l \in 1..Cfg.laps |-> Concat([k \in 1..NTexts |-> [j \in 1..Len(Cfg.runs) |-> [t |-> k, w |-> Cfg.runs[j]]]])])
TopIs(ns) == stk # <<>> /\ \E j \in 1..Len(ns) : ns[j] = Last1(stk)
Fits(p) == (p.need = <<>> \/ TopIs(p.need)) /\ ~TopIs(p.notin)
Unclosed == \E i \in 1..Len(stk) : \E j \in 1..Len(Cfg.mustclose) : Cfg.mustclose[j] = stk[i]
Store0 == [k |-> Cfg.store, m |-> <<>>]
Build0 == [c |-> [c |-> "build"], K |-> <<>>, A |-> <<>>, n |-> 0, ch |-> <<>>, st |-> Store0]
Add(i) ==
  LET p == P[i] IN
  /\ m.c.c = "build"
  /\ Len(src) < Cfg.maxlen /\ Cost + p.cost <= Cfg.maxcost
  /\ Fits(p) \/ slips < Cfg.slips
  /\ Count(i) < p.max
  /\ src' = Append(src, i)
  /\ slips' = IF Fits(p) THEN slips ELSE slips + 1
  /\ stk' = IF ~Fits(p) THEN stk ELSE (IF p.need # <<>> THEN ButLast(stk) ELSE stk) \o (IF p.push = "" THEN <<>> ELSE <<p.push>>)
  /\ Len(stk') <= Cfg.depth
  /\ UNCHANGED <<m, todo, ev, outs, sto, marks>>
\* the machine that makes the run p when the store is st
First0(st, p) ==
  LET t == Parse(TextNo(p.t)) IN
  IF ~t.ok THEN Done([Build0 EXCEPT !.st = st], [o |-> "reject"])
  ELSE IF p.w = "front" THEN StartFront(0, t.v) ELSE StartRender(0, st, t.v, Cfg.ps)
Begin ==
  /\ m.c.c = "build" /\ src # <<>>
  /\ Cfg.slips > 0 \/ stk = <<>>
  /\ m' = First0(Store0, Plan[1])
  /\ todo' = IF NTexts = 1 /\ m'.c.c = "done" THEN <<>> ELSE Tail(Plan)
  /\ UNCHANGED <<src, stk, slips, ev, outs, sto, marks>>

-----------------------------------------------------------------------------
(* Running them *)
IsBlockK(x) == x.k = "items" /\ x.w = "block"
\* the variables of the running activation below its innermost frame
Below(mm) == ButLast(Act(mm).fr)
Mark(mm, n) ==
  IF n.A # <<>> /\ Len(n.K) > 0 /\ IsBlockK(TopK(n)) /\ TopK(n).i = 1 /\ TopK(n).acc = <<>> /\ Len(n.K) # Len(mm.K)
     /\ (marks = <<>> \/ Last1(marks).d < Len(n.K))
  THEN Append(marks, [d |-> Len(n.K), fr |-> Below(n), st |-> n.st])
  ELSE SelectSeq(marks, LAMBDA x : x.d <= Len(n.K))
Run ==
  /\ m.c.c \notin {"build", "call", "done"}
  /\ \E n \in Steps(m) :
       m' = IF Len(n.A) > 6 THEN Done(n, [o |-> "deep"]) ELSE n     \* recursion without end is not followed
  /\ marks' = Mark(m, m')
  /\ UNCHANGED <<src, stk, slips, todo, ev, outs, sto>>
CallStep ==
  /\ m.c.c = "call"
  /\ LET r == CallResult(m.c.f, m.c.a) IN
     m' = IF r.o = "any" THEN Done(m, [o |-> "open"]) ELSE Resume(m, r)
  /\ ev' = Append(ev, [f |-> m.c.f, a |-> m.c.a])
  /\ UNCHANGED <<src, stk, slips, todo, outs, sto, marks>>
Outcome == [r |-> m.c.r, ev |-> ev, ch |-> m.ch # <<>>]      \* ch: an order was chosen
Again ==          \* the next run, with the store as it is now
  /\ m.c.c = "done" /\ todo # <<>>
  /\ sto' = IF Plan[Len(outs) + 1].w = "render" THEN m.st ELSE sto
  /\ m' = First0(sto', todo[1])
  /\ outs' = Append(outs, Outcome)
  /\ todo' = Tail(todo) /\ ev' = <<>> /\ marks' = <<>>
  /\ UNCHANGED <<src, stk, slips>>
Report ==
  /\ m.c.c = "done" /\ todo = <<>>
  /\ PrintT("OUT " \o ToJson([s |-> src,  outs |-> Append(outs, Outcome)]))
  /\ m' = [m EXCEPT !.c = [c |-> "end"]]
  /\ UNCHANGED <<src, stk, slips, todo, ev, outs, sto, marks>>

Init == src = <<>> /\ stk = <<>> /\ slips = 0 /\ m = Build0 /\ todo = <<>> /\ ev = <<>> /\ outs = <<>> /\ sto = Store0 /\ marks = <<>>
RunNext == m.c.c # "end" /\ (Run \/ CallStep \/ Again \/ Report)
Next == (\E i \in 1..Len(P) : Add(i)) \/ Begin \/ RunNext

-----------------------------------------------------------------------------
(* What is checked *)
Running(x) == x.c.c \notin {"build", "done", "end"}
\* C02: the grammar accepts exactly the properly nested sequences
InvNesting == (m.c.c = "done" /\ Cfg.nest) => (m.c.r.o = "reject") = (slips > 0 \/ Unclosed)
\* C04, C06: one activation per call, frames as the blocks that are open
InvBalanced == Running(m) => Balanced(m)
\* C04, C06, C12, C01
StepLaws == Running(m) /\ Running(m') =>
  CallersUntouched(m, m') /\ BindsLocally(m, m') /\ StoreStep(m, m') /\ TextGrows(m, m')
\* C04: when a block has ended the enclosing blocks' variables are as they were
\* when it began, the top level (exports) and what the end itself binds aside
SameMiddle(a, b) == Len(a) = Len(b) /\ \A i \in 2..Len(a) : a[i] = b[i]
BlockLaw == (Running(m) /\ Running(m') /\ marks # <<>> /\ Len(m'.K) < Last1(marks).d /\ Len(m'.A) = Len(m.A)) =>
  LET a == Last1(marks).fr  b == Act(m').fr
      k == MinN(Len(a), Len(b))      \* a failure may leave several blocks at once
  IN \A i \in 2..k : a[i] = b[i]
\* C11: a failure that nothing is there to catch ends the run without further calls
Catches(x) == x.k \in {"if", "first", "filter", "fmset", "fmat"}
ErrLaw == (m.c.c = "err" /\ Running(m) /\ ~\E i \in 1..Len(m.K) : Catches(m.K[i])) => m'.c.c = "err" \/ (m'.c.c = "done" /\ m'.c.r.o = "err")
\* C12: nothing stored vanishes, and a host function is never looked up in the store
StoreGrows == (Running(m) /\ Running(m') /\ m.st.k = "map") => \A i \in 1..Len(m.st.m) : MHas(m'.st.m, m.st.m[i].k)
\* C07: a condition that fails runs the other branch
CondLaw == (m.c.c = "err" /\ m.K # <<>> /\ TopK(m).k = "if") => (m'.c.c = "go" /\ TopK(m').is = TopK(m).n)
\* C06: a call begins with the arguments and nothing else
EnterLaw == (Running(m) /\ Running(m') /\ Len(m'.A) > Len(m.A)) => Act(m').fr = <<<<>>>>
Laws == [][StepLaws /\ BlockLaw /\ ErrLaw /\ StoreGrows /\ CondLaw /\ EnterLaw]_vars
\* C05: the exports of a finished run are exactly the variables of the top level
\* C26: a template without global definitions gives the same every time
InvAgain == (m.c.c = "done" /\ Cfg.same /\ outs # <<>> /\ Plan[Len(outs) + 1] = Plan[1] /\ m.ch = <<>>) => outs[1] = Outcome
\* C24: front matter and rendering agree on what both give, when asked to
InvFront == (m.c.c = "done" /\ Cfg.front /\ outs # <<>> /\ outs[1].r.o = "ok" /\ m.c.r.o = "ok") =>
  \A i \in 1..Len(outs[1].r.ex) : LET e == outs[1].r.ex[i] IN MHas(m.c.r.ex, e.k) /\ MGet(m.c.r.ex, e.k) = e.v
=============================================================================
