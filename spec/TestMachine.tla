---- MODULE TestMachine ----
EXTENDS Machine
VARIABLE m
Src == S("a {{let x = 1}}{{for k v in [1 2 3]}}{{$v}}{{/for}} {{if false}}no{{else}}{{$x}}{{/if}}{{export y=$x}}{{@let q}}zz{{$x}}{{/let}}{{$q}}{{switch [1 2]}}{{case [2]}}no{{case [<a> _]}}<{{$a}}>{{/switch}}{{define t p}}[{{$p}}]{{return $p}}{{/define}}{{run $t 7}}{{first $nope null 4}}{{select 0 5 6}}")
MC_RegHas(r,f) == FALSE
Tm == Parse(Src)
Init == m = StartRender(0, [k |-> "map", m |-> <<>>], Tm.v, <<>>)
Next == m.c.c \notin {"call","done"} /\ m' \in Steps(m)
Inv == m.c.c = "done" => PrintT(<<m.n, Str(m.c.r.text), m.c.r.ex>>)
Bal == Balanced(m)
A1 == [][CallersUntouched(m,m') /\ BindsLocally(m,m') /\ StoreStep(m,m') /\ TextGrows(m,m')]_m
====
