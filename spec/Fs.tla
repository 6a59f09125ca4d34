--------------------------------- MODULE Fs ---------------------------------
(* The file system as templates see it (src/funcs/folder.rs, free_file.rs,  *)
(* write.rs) and the functions that read and change it.                     *)
(*   fs.base   the scratch folder's path, the working directory             *)
(*   fs.w      what there is at and below it: entries [k, v] where k is the *)
(*             path below base ("" is base itself, else "/a/b") and v is    *)
(*               [t |-> "dir"], [t |-> "link", to |-> path below base], or  *)
(*               [t |-> "file", b |-> bytes, u |-> <<text>> or <<>> when    *)
(*                not UTF-8, img |-> <<w, h>> or <<>> when not an image]    *)
EXTENDS Machine

Node(w, p) == IF MHas(w, p) THEN MGet(w, p) ELSE [t |-> "none"]
NewFile(t) == [t |-> "file", b |-> Utf8Bytes(t), u |-> <<t>>, img |-> <<>>]
Slash == <<47>>
Below(p, n) == p \o Slash \o n
ParentOf(p) == LET j == Greatest(1, Len(p), LAMBDA i : p[i] = 47) IN SubSeq(p, 1, j - 1)
IsUnder(p, q) == Len(q) > Len(p) /\ IsPrefixAt(p, q, 1) /\ q[Len(p) + 1] = 47
Children(w, p) == SelectSeq(MKeys(w), LAMBDA q : q # <<>> /\ ParentOf(q) = p)
NameOf(q) == From(q, Greatest(1, Len(q), LAMBDA i : q[i] = 47) + 1)

\* names of a path text
CompsOf(t) == LET c == PathComps(t) IN [i \in 1..Len(c) |-> [k |-> c[i].k, s |-> SubSeq(t, c[i].a, c[i].z)]]
\* Where the names lead from the folder at, links followed.
\*   [o |-> "at", p]      an existing node (never a link)
\*   [o |-> "new", p]     nothing there, but the folder exists
\*   [o |-> "err"]        no way there
\*   [o |-> "out"]        outside the scratch folder: not specified
RECURSIVE Go2(_, _, _, _)
Go2(w, at, cs, fuel) ==
  IF fuel = 0 THEN [o |-> "err"]
  ELSE IF cs = <<>> THEN [o |-> "at", p |-> at]
  ELSE IF Node(w, at).t # "dir" THEN [o |-> "err"]
  ELSE LET c == cs[1]  rest == Tail(cs) IN
       IF c.k = "cur" THEN Go2(w, at, rest, fuel)
       ELSE IF c.k = "up" THEN (IF at = <<>> THEN [o |-> "out"] ELSE Go2(w, ParentOf(at), rest, fuel))
       ELSE LET q == Below(at, c.s)  n == Node(w, q) IN
            CASE n.t = "link" -> Go2(w, <<>>, CompsOf(From(n.to, 2)) \o rest, fuel - 1)
              [] n.t = "none" -> IF rest = <<>> THEN [o |-> "new", p |-> q] ELSE [o |-> "err"]
              [] OTHER -> Go2(w, q, rest, fuel)
\* the names below base of an absolute path, or <<>> / "out"
Rebase(fs, t) ==
  LET b == CompsOf(fs.base)  c == CompsOf(t) IN
  IF c # <<>> /\ c[1].k = "root"
  THEN IF Len(c) >= Len(b) /\ SubSeq(c, 1, Len(b)) = b THEN [o |-> "in", cs |-> From(c, Len(b) + 1)] ELSE [o |-> "out", cs |-> <<>>]
  ELSE [o |-> "in", cs |-> c]
\* a path text as the operating system reads it
Resolve(fs, t) ==
  IF t = <<>> THEN [o |-> "err"]
  ELSE LET r == Rebase(fs, t)  x == Go2(fs.w, <<>>, r.cs, 8) IN
       IF r.o = "out" THEN [o |-> "out"]
       ELSE IF x.o \in {"at", "new"} /\ (Last1(t) = 47 \/ (Len(t) > 1 /\ Last1(t) = 46 /\ t[Len(t) - 1] = 47))   \* "x/" and "x/." are folders
               /\ Node(fs.w, x.p).t # "dir" THEN [o |-> "err"] ELSE x

\* A path given to a function locked to the folder lock: the names below it,
\* steps up resolved by name, or refused.
SafeNames(lock, s) ==
  LET lc == CompsOf(lock)
      fc == CompsOf(PathPush(lock, s))
      rest == From(fc, Len(lc) + 1)
      fold == FoldLeft(LAMBDA acc, c : IF ~acc.ok THEN acc
                                       ELSE IF c.k = "cur" THEN acc
                                       ELSE IF c.k = "name" THEN [acc EXCEPT !.cs = Append(@, c)]
                                       ELSE IF c.k = "up" /\ acc.cs # <<>> THEN [acc EXCEPT !.cs = ButLast(@)]
                                       ELSE [ok |-> FALSE, cs |-> <<>>],
                       [ok |-> TRUE, cs |-> <<>>], rest)
  IN IF Len(fc) < Len(lc) \/ SubSeq(fc, 1, Len(lc)) # lc THEN [ok |-> FALSE, cs |-> <<>>] ELSE fold
SafeText(lock, cs) == FoldLeft(LAMBDA p, c : PathPush(p, c.s), lock, cs)
\* the place a function registered as ent (kind "folder", "write" or "free") means by s
Place(fs, ent, s) ==
  IF ent.k = "free" THEN Resolve(fs, s)
  ELSE LET n == SafeNames(ent.p, s) IN
       IF ~n.ok THEN [o |-> "refused"]
       ELSE LET l == Rebase(fs, ent.p) IN
            IF l.o = "out" THEN [o |-> "out"] ELSE Go2(fs.w, <<>>, l.cs \o n.cs, 8)
PlaceText(ent, s) == IF ent.k = "free" THEN s ELSE SafeText(ent.p, SafeNames(ent.p, s).cs)

-----------------------------------------------------------------------------
\* a list of the names in v, in any order
SameBag(xs, ys) ==
  Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) :
     Cardinality({j \in 1..Len(xs) : xs[j] = xs[i]}) = Cardinality({j \in 1..Len(ys) : ys[j] = xs[i]})
\* lists of values, in any order (values: Same is the equality)
SameBagV(xs, ys) ==
  Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) :
     Cardinality({j \in 1..Len(xs) : Same(xs[j], xs[i])}) = Cardinality({j \in 1..Len(ys) : Same(xs[i], ys[j])})
DirNames(fs, p) == LET c == Children(fs.w, p) IN [i \in 1..Len(c) |-> VStr(NameOf(c[i]))]
DirOK(fs, p, v) == v.t = "list" /\ SameBag(DirNames(fs, p), v.l)

\* the front matter of a text, with the default functions: <<exports>>, or <<>> when open
RECURSIVE RunAlone(_)
RunAlone(m) ==
  IF m.c.c = "done" THEN <<m.c.r.ex>>
  ELSE IF m.c.c = "call"
  THEN LET r == IF OpenArgs(m.c.a) THEN Open ELSE Eval(Str(m.c.f), m.c.a) IN IF r.o = "any" THEN <<>> ELSE RunAlone(Resume(m, r))
  ELSE LET n == Steps(m) IN IF Cardinality(n) # 1 THEN <<>> ELSE RunAlone(CHOOSE x \in n : TRUE)
FrontOf(text) ==
  LET p == Parse(text) IN IF ~p.ok THEN <<<<>>>> ELSE RunAlone(StartFront([k |-> "std"], p.v))

K_full == S("item_full_path")  K_path == S("item_path")  K_file == S("item_file")
\* what scan_dir reports for the folder at p (text full, short below the start): <<list>> or <<>> when open
RECURSIVE Scan(_, _, _, _, _, _)
Scan(fs, p, full, short, depth, re) ==
  LET cs == SelectSeq(Children(fs.w, p), LAMBDA q : NameOf(q) # <<>> /\ NameOf(q)[1] # 95)
      one(q) ==
        LET n == Node(fs.w, q)  nm == NameOf(q)  fp == PathPush(full, nm) IN
        IF n.t = "file"
        THEN IF re.on /\ ~RegexLitMatch(re.x, fp) THEN <<<<>>>>
             ELSE LET ex == FrontOf(IF n.u = <<>> THEN <<>> ELSE n.u[1]) IN
                  IF ex = <<>> THEN <<>>
                  ELSE <<<<VMap(FoldLeft(LAMBDA acc, e : MPut(acc, e.k, e.v),
                                  MPut(MPut(MPut(<<>>, K_full, VStr(fp)), K_path, VStr(short)), K_file, VStr(nm)), ex[1]))>>>>
        ELSE IF n.t = "dir" /\ depth > 0 THEN Scan(fs, q, fp, PathPush(short, nm), depth - 1, re)
        ELSE <<<<>>>>
      all == [i \in 1..Len(cs) |-> one(cs[i])]
  IN IF \E i \in 1..Len(all) : all[i] = <<>> THEN <<>>
     ELSE <<FoldLeft(LAMBDA acc, x : acc \o x[1], <<>>, all)>>

\* Is r a result the file function f may give?
FileOK(fs, ent, f, a, r) ==
  LET at == [i \in 1..Len(a) |-> Place(fs, ent, T(a[i]))]
      node(i) == IF at[i].o = "at" THEN Node(fs.w, at[i].p) ELSE [t |-> "none"]
      outs == \E i \in 1..Len(a) : at[i].o = "out"
  IN
  CASE r.o \notin {"ok", "err"} -> FALSE
    [] ~Closed(a) -> TRUE
    [] f \in {"is_file", "is_dir"} ->
         LET want == IF f = "is_file" THEN "file" ELSE "dir"
             j == Least(1, Len(a), LAMBDA i : at[i].o = "refused" \/ node(i).t # want)
         IN IF outs THEN TRUE ELSE IF j > Len(a) THEN r = Ok(VBool(TRUE))
               ELSE IF at[j].o = "refused" THEN r.o = "err" ELSE r = Ok(VBool(FALSE))
    [] f = "file" ->
         IF outs THEN TRUE ELSE IF \A i \in 1..Len(a) : node(i).t = "file" /\ node(i).u # <<>>
            THEN r = Ok(VStr(FoldLeft(LAMBDA acc, i : acc \o node(i).u[1], <<>>, Idx(Len(a)))))
            ELSE r.o = "err"
    [] f = "file_bytes" ->
         IF outs THEN TRUE ELSE IF \A i \in 1..Len(a) : node(i).t = "file"
            THEN r = Ok(VBytes(FoldLeft(LAMBDA acc, i : acc \o node(i).b, <<>>, Idx(Len(a)))))
            ELSE r.o = "err"
    [] f = "dir" ->
         IF outs THEN TRUE ELSE IF \E i \in 1..Len(a) : node(i).t # "dir" THEN r.o = "err"
            ELSE r.o = "ok" /\ (IF Len(a) = 1 THEN DirOK(fs, at[1].p, r.v)
                                ELSE r.v.t = "list" /\ Len(r.v.l) = Len(a) /\ \A i \in 1..Len(a) : DirOK(fs, at[i].p, r.v.l[i]))
    [] f = "file_img_dimensions" ->
         IF a = <<>> \/ a[1].t # "str" THEN r.o = "err"
         ELSE IF outs THEN TRUE ELSE IF node(1).t = "file" /\ node(1).img # <<>>
                 THEN r = Ok(VMap(<<[k |-> <<104>>, v |-> VU(node(1).img[2])], [k |-> <<119>>, v |-> VU(node(1).img[1])]>>))
                 ELSE r.o = "err"
    [] f = "scan_dir" ->
         IF a = <<>> THEN r.o = "err"
         ELSE IF at[1].o = "out" THEN TRUE ELSE IF node(1).t # "dir" THEN r.o = "err"
                 ELSE LET re == RegexLit(IF Len(a) >= 3 THEN T(a[3]) ELSE <<>>)
                          depth == IF Len(a) >= 2 /\ IsIdx(a[2]) THEN (IF NFits(a[2].n.m) THEN NToI(a[2].n.m) ELSE 1000) ELSE 0
                          want == IF ~re.ok THEN <<>>
                                  ELSE Scan(fs, at[1].p, PlaceText(ent, T(a[1])), <<>>, depth,
                                            [on |-> Len(a) >= 3, x |-> re])
                      IN r.o = "ok" /\ (want = <<>> \/ (r.v.t = "list" /\ SameBagV(want[1], r.v.l)))
    [] f = "write" -> r.o = "err" \/ r = Ok(VStr(<<>>))        \* success decided by Written

\* every folder on the way to p, p not included
RECURSIVE Mkdirs(_, _)
Mkdirs(w, p) == IF MHas(w, p) THEN w ELSE MPut(Mkdirs(w, ParentOf(p)), p, [t |-> "dir"])
\* Where a path of names leads when missing folders are created: <<path>> or <<>>
RECURSIVE Reach(_, _, _, _)
Reach(w, at, cs, fuel) ==
  IF fuel = 0 THEN <<>>
  ELSE IF cs = <<>> THEN <<at>>
  ELSE IF Node(w, at).t \notin {"dir", "none"} THEN <<>>
  ELSE LET c == cs[1]  rest == Tail(cs)  q == Below(at, c.s)  n == Node(w, q) IN
       IF c.k # "name" THEN <<>>
       ELSE IF n.t = "link" THEN Reach(w, <<>>, CompsOf(From(n.to, 2)) \o rest, fuel - 1)
       ELSE Reach(w, q, rest, fuel)
\* the outcome of write: [o |-> "ok", w |-> new world], [o |-> "err"] or open
Written(fs, ent, a) ==
  IF Len(a) < 2 THEN [o |-> "err"]
  ELSE IF ~Closed(a) THEN Open
  ELSE LET s == T(a[1])
           n == IF ent.k = "free" THEN [ok |-> TRUE, cs |-> <<>>] ELSE SafeNames(ent.p, s)
           l == Rebase(fs, IF ent.k = "free" THEN s ELSE ent.p)
           body == IF ent.k = "free" THEN FoldLeft(LAMBDA acc, v : acc \o T(v), <<>>, Tail(a)) ELSE T(a[2])
           plain == \A i \in 1..Len(l.cs) : l.cs[i].k # "up"
           lk == IF ent.k = "free" \/ l.o = "out" THEN [o |-> "no"] ELSE Go2(fs.w, <<>>, l.cs, 8)
       IN IF ~n.ok \/ (ent.k # "free" /\ n.cs = <<>>) THEN [o |-> "err"]
          ELSE IF l.o = "out" \/ (~plain /\ lk.o # "at") \/ (ent.k = "free" /\ (s = <<>> \/ Last1(s) = 47 \/ (Len(s) > 1 /\ Last1(s) = 46 /\ s[Len(s) - 1] = 47))) THEN Open
          ELSE LET q == IF lk.o = "at" THEN Reach(fs.w, lk.p, n.cs, 8)
                         ELSE Reach(fs.w, <<>>, SelectSeq(l.cs \o n.cs, LAMBDA c : c.k = "name"), 8) IN
               IF q = <<>> \/ Node(fs.w, q[1]).t = "dir" THEN [o |-> "err"]
               ELSE [o |-> "ok", w |-> MPut(Mkdirs(fs.w, ParentOf(q[1])), q[1], NewFile(body))]

-----------------------------------------------------------------------------
(* Programs and the environment: only what is the same everywhere *)
EnvVars == <<[k |-> S("TV_ENV_A"), v |-> S("alpha beta")], [k |-> S("TV_ENV_E"), v |-> <<>>]>>
ExecOK(f, a, r) ==
  CASE r.o \notin {"ok", "err"} -> FALSE
    [] ~Closed(a) -> TRUE
    [] f = "env" -> IF a = <<>> THEN r.o = "err"
                    ELSE IF MHas(EnvVars, T(a[1])) THEN r = Ok(VStr(MGet(EnvVars, T(a[1]))))
                    ELSE IF IsPrefixAt(S("TV_"), T(a[1]), 1)
                    THEN (IF Len(a) >= 2 THEN r.o = "ok" /\ Same(a[2], r.v) ELSE r.o = "err") ELSE TRUE
    [] f = "exec" -> IF a = <<>> THEN r.o = "err"
                     ELSE IF T(a[1]) = S("echo") /\ \A i \in 2..Len(a) : T(a[i]) = <<>> \/ T(a[i])[1] # 45
                     THEN r = Ok(VStr(JoinSeq([i \in 1..(Len(a) - 1) |-> T(a[i + 1])], <<32>>) \o <<10>>))
                     ELSE IF T(a[1]) = S("tv-no-such-program") THEN r.o = "err" ELSE TRUE
    [] f = "exec_stdin" -> IF Len(a) <= 1 THEN r.o = "err"
                           ELSE IF T(a[1]) = S("cat") /\ Len(a) = 2 THEN r = Ok(VStr(T(a[2])))
                           ELSE TRUE
-----------------------------------------------------------------------------
(* The function sets the host built *)
Texts(names) == {S(x) : x \in names}
Sets ==
  [defaults |-> Texts(Defaults), bools |-> Texts(FBool), math |-> Texts(FArith), lists |-> Texts((FList \ {"map"}) \cup {"filter"}),
   strings |-> Texts((FStr \ {"xml_esc", "join_with"}) \cup {"table"}), path |-> Texts(FPath \cup {"join_with"}),
   maps |-> Texts({"map"}), format |-> Texts({"r_json", "r_card", "w_json"}), rand |-> Texts({"rand"}),
   bytes |-> Texts({"as_base64", "from_base64"}), svg |-> Texts(FSvg \cup {"xml_esc"}),
   folder |-> Texts(FolderReads), write |-> {S("write")}, free |-> Texts(FolderReads \cup {"write"}), exec |-> Texts(FExec)]
EntryOf(s) ==
  CASE s.s \in {"folder", "write"} -> [k |-> s.s, p |-> s.p]
    [] s.s = "free" -> [k |-> "free"]
    [] s.s = "exec" -> [k |-> "exec"]
    [] s.s = "host" -> s
    [] OTHER -> [k |-> "lib"]
StepReg(reg, s) ==
  (IF s.s = "host" THEN s.n :> EntryOf(s) ELSE [x \in Sets[s.s] |-> EntryOf(s)]) @@ reg
RegOf(steps) == FoldLeft(StepReg, [x \in {} |-> 0], steps)
StdNames == Texts(Defaults)
=============================================================================
