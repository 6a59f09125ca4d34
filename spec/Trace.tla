------------------------------- MODULE Trace -------------------------------
(* Conformance: sessions recorded from the real library are behaviours of   *)
(* the specification.  A session is a sequence of host operations with what *)
(* each returned (res) and, for renders, every host function call made (ev: *)
(* function f, arguments a, result r, in order).  A session is accepted when*)
(* some behaviour of the machine makes exactly these calls with these       *)
(* arguments, gets results the library may give, and ends every operation   *)
(* with what was returned.                                                   *)
EXTENDS Fs, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Sessions)
Debug == IOEnv.TRACE_DEBUG = "1"

VARIABLES sid, pc, m, ei, tm, st, fs
vars == <<sid, pc, m, ei, tm, st, fs>>
\* runs are told apart by where they are as long as nothing was chosen
view == <<sid, pc, ei, m.n, m.c.c = "idle", IF m.ch = <<>> THEN <<>> ELSE <<[m EXCEPT !.ch = <<>>], tm, st>>>>

-----------------------------------------------------------------------------
Regs == [i \in 1..N |->
          LET ops == Sessions[i].ops
              F == SelectSeq(ops, LAMBDA o : o.op = "fm")
          IN [x \in {F[j].id : j \in 1..Len(F)} |->
                RegOf(F[CHOOSE j \in 1..Len(F) : F[j].id = x /\ \A k \in (j + 1)..Len(F) : F[k].id # x].steps)]]
Entry(reg, f) == Regs[reg.sid][reg.id][f]
TraceRegHas(reg, f) == IF reg.k = "std" THEN f \in StdNames ELSE f \in DOMAIN Regs[reg.sid][reg.id]

-----------------------------------------------------------------------------
Sess == Sessions[sid]
Ops == Sess.ops
Op == Ops[pc]
Lib1 == Sess.lib = 1

\* may the function registered as ent give r on a, the world being fs?
Judge(ent, f, a, r) ==
  LET n == Str(f) IN
  CASE ent.k = "lib" -> IF Lib1 THEN Allowed(n, a, r) ELSE r.o \in {"ok", "err"}
    [] ent.k = "host" -> LET e == HostEval(ent, a) IN e.o = r.o /\ (e.o = "ok" => Same(e.v, r.v))
    [] ent.k = "exec" -> ExecOK(n, a, r)
    [] fs.open -> r.o \in {"ok", "err"}
    [] n = "write" -> FileOK(fs, ent, n, a, r) /\ LET x == Written(fs, ent, a) IN x.o # "any" => x.o = r.o
    [] OTHER -> FileOK(fs, ent, n, a, r)
Effect(ent, f, a, r) ==
  IF ent.k \in {"write", "free"} /\ f = S("write")
  THEN LET x == Written(fs, ent, a) IN
       IF x.o = "any" THEN [fs EXCEPT !.open = TRUE] ELSE IF r.o = "ok" THEN [fs EXCEPT !.w = x.w] ELSE fs
  ELSE fs
\* the value to go on with: what was returned, or what the specification computes when templates are in it
Outcome(ent, f, a, r) ==
  IF r.o = "ok" /\ HasTmpl(r.v)
  THEN (IF ent.k = "host" THEN HostEval(ent, a) ELSE Eval(Str(f), a)) ELSE r

\* results
SameEx(spec, got) == Same(VMap(spec), VMap(got))
RenderOK(r, res) ==
  IF r.o = "err" THEN res.o = "err"
  ELSE /\ res.o = "ok"
       /\ (IsOpenText(r.text) \/ r.text = res.text)
       /\ (Op.mode = "exp" => SameEx(r.ex, res.ex))
FrontOK(r, res) == res.o = "ok" /\ SameEx(r.ex, res.ex)

SameWorld(w, x) ==
  Len(w) = Len(x) /\ \A i \in 1..Len(w) :
    /\ w[i].k = x[i].k /\ w[i].v.t = x[i].v.t
    /\ w[i].v.t = "file" => w[i].v.b = x[i].v.b

Idle == [c |-> [c |-> "idle"], n |-> 0, ch |-> m.ch]
Reg == [k |-> "s", sid |-> sid, id |-> Op.fm]
NoEv == Op.ev = <<>>

Put(f, x, v) == (x :> v) @@ f
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Advance == pc' = pc + 1 /\ ei' = 1 /\ UNCHANGED <<sid, m>>

DoParse(x, text) ==
  LET p == Parse(text) IN
  /\ Op.res.o = (IF p.ok THEN "ok" ELSE "err")
  /\ tm' = IF p.ok THEN Put(tm, x, p.v) ELSE Del(tm, x)
  /\ UNCHANGED <<st, fs>>
Immediate ==
  CASE Op.op = "fm" -> UNCHANGED <<tm, st, fs>>
    [] Op.op = "parse" -> DoParse(Op.t, Op.src)
    [] Op.op = "load" ->
         LET n == Node(fs.w, Op.path) IN
         IF n.t = "file" /\ n.u # <<>> THEN DoParse(Op.t, n.u[1])
         ELSE Op.res.o = "err" /\ tm' = Del(tm, Op.t) /\ UNCHANGED <<st, fs>>
    [] Op.op = "clone" -> tm' = (IF Op.from \in DOMAIN tm THEN Put(tm, Op.t, tm[Op.from]) ELSE Del(tm, Op.t)) /\ UNCHANGED <<st, fs>>
    [] Op.op = "store" -> st' = Put(st, Op.s, [k |-> Op.kind, m |-> <<>>]) /\ UNCHANGED <<tm, fs>>
    [] Op.op = "insert" ->
         /\ st' = IF Op.t \in DOMAIN tm /\ st[Op.s].k = "map"
                  THEN [st EXCEPT ![Op.s].m = MPut(@, Op.name, [pn |-> <<>>, b |-> tm[Op.t]])] ELSE st
         /\ UNCHANGED <<tm, fs>>
    [] Op.op = "peek" ->
         /\ Op.res.o = "ok"
         /\ \A i \in 1..Len(Op.names) : Op.res.v[i] = (st[Op.s].k = "map" /\ MHas(st[Op.s].m, Op.names[i]))
         /\ UNCHANGED <<tm, st, fs>>
    [] Op.op = "has" ->
         /\ Op.res.o = "ok"
         /\ \A i \in 1..Len(Op.names) : Op.res.v[i] = TraceRegHas(Reg, Op.names[i])
         /\ UNCHANGED <<tm, st, fs>>
    [] Op.op = "call" ->
         /\ IF ~TraceRegHas(Reg, Op.f) THEN Op.res.o = "none"
            ELSE Judge(Entry(Reg, Op.f), Op.f, Op.a, Op.res) = TRUE
         /\ fs' = IF TraceRegHas(Reg, Op.f) THEN Effect(Entry(Reg, Op.f), Op.f, Op.a, Op.res) ELSE fs
         /\ UNCHANGED <<tm, st>>
    [] Op.op = "getv" ->
         /\ LET r == HostGet(Op.h, Op.path) IN
            IF r = <<>> THEN Op.res.o = "none" ELSE Op.res.o = "ok" /\ Same(r[1], Op.res.v)
         /\ UNCHANGED <<tm, st, fs>>
    [] Op.op = "rands" ->
         /\ IF RandErr(Op.a) THEN Op.res.o = "err"
            ELSE /\ Op.res.o = "ok"
                 /\ \A i \in 1..Len(Op.res.vs) : RandOK(Op.a, Op.res.vs[i])
                 /\ Len(Op.res.vs) >= Op.least
         /\ UNCHANGED <<tm, st, fs>>
    [] Op.op = "mkfs" -> fs' = [base |-> Op.base, w |-> Op.w, open |-> FALSE] /\ UNCHANGED <<tm, st>>
    [] Op.op = "snap" -> (fs.open \/ SameWorld(fs.w, Op.res.w)) = TRUE /\ UNCHANGED <<tm, st, fs>>
    [] Op.op = "same" -> Ops[Op.i].res = Ops[Op.j].res /\ UNCHANGED <<tm, st, fs>>

-----------------------------------------------------------------------------
Init ==
  /\ sid \in 1..N
  /\ pc = 1 /\ ei = 1
  /\ m = [c |-> [c |-> "idle"], n |-> 0, ch |-> <<>>]
  /\ tm = [x \in {} |-> 0] /\ st = [x \in {} |-> 0]
  /\ fs = [base |-> <<>>, w |-> <<>>, open |-> FALSE]

Runs == {"render", "front"}
Ready == pc <= Len(Ops)
\* sessions of the kind "total": every operation ended, with a result or an error
Total ==
  /\ Ready /\ Sess.mode = "total"
  /\ \A i \in 1..Len(Ops) : Ops[i].res.o \in {"ok", "err", "none", "skip"}
  /\ pc' = Len(Ops) + 1
  /\ UNCHANGED <<sid, m, ei, tm, st, fs>>
DoImmediate ==
  /\ Ready /\ Sess.mode # "total" /\ m.c.c = "idle" /\ Op.op \notin Runs
  /\ Immediate /\ Advance
Skip ==          \* a template that did not parse cannot be rendered
  /\ Ready /\ Sess.mode # "total" /\ m.c.c = "idle" /\ Op.op \in Runs /\ Op.t \notin DOMAIN tm
  /\ Op.res.o = "skip"
  /\ Advance /\ UNCHANGED <<tm, st, fs>>
Start ==
  /\ Ready /\ Sess.mode # "total" /\ m.c.c = "idle" /\ Op.op \in Runs /\ Op.t \in DOMAIN tm
  /\ m' = [(IF Op.op = "render" THEN StartRender(Reg, st[Op.s], tm[Op.t], Op.ps) ELSE StartFront(Reg, tm[Op.t])) EXCEPT !.ch = m.ch]
  /\ UNCHANGED <<sid, pc, ei, tm, st, fs>>
\* Of the orders a loop over a map may take, only those are followed that
\* agree with the text rendered: the text gathered so far along the running
\* items and loops, which is never taken back, starts what was returned.
RECURSIVE Gathered(_, _)
Gathered(K, i) ==
  IF i > Len(K) THEN <<>>
  ELSE IF K[i].k \in {"items", "for"} THEN K[i].acc \o Gathered(K, i + 1)
  ELSE IF K[i].k = "scope" THEN Gathered(K, i + 1)
  ELSE <<>>
Plausible(n) ==
  Op.op # "render" \/ Op.res.o # "ok" \/ LET t == Gathered(n.K, 1) IN IsOpenText(t) \/ IsPrefixAt(t, Op.res.text, 1)
Run ==
  /\ m.c.c \notin {"idle", "call", "done"}
  /\ m' \in Steps(m)
  /\ (Len(m'.ch) > Len(m.ch) => Plausible(m')) = TRUE
  /\ UNCHANGED <<sid, pc, ei, tm, st, fs>>
CallMatches(e) ==
  /\ e.f = m.c.f
  /\ Len(e.a) = Len(m.c.a)
  /\ \A i \in 1..Len(e.a) : Same(m.c.a[i], e.a[i])
  /\ Judge(Entry(Reg, e.f), e.f, m.c.a, e.r) = TRUE
CallStep ==
  /\ m.c.c = "call" /\ ei <= Len(Op.ev)
  /\ LET e == Op.ev[ei] IN
     /\ CallMatches(e)
     /\ m' = Resume(m, Outcome(Entry(Reg, e.f), e.f, m.c.a, e.r))
     /\ fs' = Effect(Entry(Reg, e.f), e.f, m.c.a, e.r)
  /\ ei' = ei + 1
  /\ UNCHANGED <<sid, pc, tm, st>>
Finish ==
  /\ m.c.c = "done" /\ ei = Len(Op.ev) + 1
  /\ (IF Op.op = "render" THEN RenderOK(m.c.r, Op.res) ELSE FrontOK(m.c.r, Op.res)) = TRUE
  /\ st' = IF Op.op = "render" THEN Put(st, Op.s, m.st) ELSE st
  /\ m' = Idle
  /\ pc' = pc + 1 /\ ei' = 1
  /\ UNCHANGED <<sid, tm, fs>>
Next == Total \/ DoImmediate \/ Skip \/ Start \/ Run \/ CallStep \/ Finish

-----------------------------------------------------------------------------
(* Which sessions were accepted *)
ASSUME \A i \in 1..N : TLCSet(i, 0) /\ TLCSet(N + i, 0)
\* a session with more orders of maps than can be followed is given up
Limit == 20000
Within == m.ch = <<>> \/ TLCGet(N + sid) < Limit
Progress ==
  /\ m.ch # <<>> => TLCSet(N + sid, TLCGet(N + sid) + 1)
  /\ TLCSet(sid, MaxN(TLCGet(sid), IF pc > Len(Ops) THEN 1000000000 ELSE pc * 100000 + ei))
  /\ Debug => (IF pc <= Len(Ops) /\ ~ENABLED Next
               THEN PrintT(<<"STUCK", Sess.id, pc, ei,
                       IF m.c.c = "call" THEN <<"call", Str(m.c.f), [i \in 1..Len(m.c.a) |-> Str(Disp(m.c.a[i]))], m.c.a>>
                       ELSE IF m.c.c = "done" THEN <<"done", m.c.r, IF m.c.r.o = "ok" THEN Str(m.c.r.text) ELSE "">> ELSE <<m.c.c, Op.op>> >>)
               ELSE TRUE)
Reached(i) ==          \* over all workers
  LET r == TLCGet("all")[i] IN FoldLeft(LAMBDA a, x : MaxN(a, x), 0, r)
Report ==
  \A i \in 1..N : LET r == Reached(i) IN
    IF r = 1000000000 THEN TRUE
    ELSE IF Reached(N + i) >= Limit THEN PrintT(<<"GAVEUP", i, Sessions[i].id>>)
    ELSE PrintT(<<"REJECT", i, Sessions[i].id, r>>)
=============================================================================
