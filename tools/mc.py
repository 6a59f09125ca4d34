"""Model checking of the specification itself (spec/MC.tla), and every
behaviour it produced replayed into the real library."""
import json, os, re, subprocess, tempfile, time, random
import drive
from enc import *
from gen_prog import PROBES

class Result:
    def __init__(self): self.states = self.generated = self.replayed = 0; self.cov = {}; self.samples = []; self.rejected = []

POS = "\x07"       # stands for the position of the piece
def pc(t, need=(), push="", cost=1, max=9, notin=()):
    return {"t": codes(t), "need": list(need), "push": push, "cost": cost, "max": max, "notin": list(notin)}
def op(t, g, **kw): return pc(t, push=g, **kw)
def cl(t, *g, **kw): return pc(t, need=g, **dict({"cost": 0}, **kw))
def obs(*ns): return "".join('{{first $%s "-"}}' % n for n in ns) + ";"
def conf(pieces, quick, thorough, sim=(0, 0), pre="", post="", ps=(), runs=("render",), store="map", slips=0, depth=3, same=False, front=False, nest=True, mustclose=(), laps=1):
    return dict(pieces=pieces, pre=codes(pre), post=codes(post), ps=list(ps), runs=list(runs), store=store, slips=slips, depth=depth,
                same=same, front=front, nest=nest, mustclose=list(mustclose), maxlen=99, laps=laps, quick=quick, thorough=thorough, sim=sim)

def toks(words, quick, thorough, sim, pre, post, **kw):
    """sequences of tokens in a context: what is a template and what is not"""
    return conf([pc(x) for x in words], quick, thorough, sim, pre=pre, post=post, slips=99, nest=False, **kw)
EXPR = ["p", " ", "(", ")", "[", "]", "1", '"a"', "$x", "@", ",", ":", "{", "}", ".", "-", "=", ";", "let ", "x", "if ", "#", "/"]
TAGS = ["{{", "}}", "{{-", "-}}", "if", " true", "/if", "{{if true}}", "{{/if}}", "{{else}}", "t", " ", "@", "p", "/p", "switch 1", "case 1", "define x", "/", '"s"', "as", "1", ":", "for k v in 2"]
LITS = ["1", "0", ".", "e", "-", '"', "\\", "n", "/", "2020", "true", "null", "[", "]", " ", ",", "{", "}", "a", ":", "_", "u0041", "r#", "12"]
PATS = ["<", "x", ">", "_", "[", "]", "1", " ", "?", "(p 1)", "{", "}", "a", ":", "<x>", "@", ",", "(q)", "$x", '"s"']
# values of every type, with the corners of each; and what a construct does with each of them
VALS = ["null", "true", "false", "0", "1", "7", "-1", "-0", "(sub 0)", "18446744073709551615", "9223372036854775808", "-9223372036854775808", "0.0", "-0.0", "1.5", "-1.5", "2.0", "0.1", "100000000000000000000.0", "(div 0.0 0.0)", "(div 1.0 0.0)", "(div -1.0 0.0)",
        '""', '" "', '"a"', '"0"', '"false"', '"null"', '"[]"', '"\u00e9"', "[]", "[0]", "[null]", "[[]]", "[1 2]", "[true [1] 2.5]", "{}", "{a:null}", "{a:0}", "{'x y':1}", "1/1/2020", "31/12/1999", '(from_base64 "")', '(from_base64 "YQ==")', "$t", "[$t]", "(list)", "(map)"]
LITV = [v for v in VALS if v[0] not in "(${" and "$" not in v]
def each(forms, vals, quick=1, thorough=1, pre="{{define t}}T{{/define}}", **kw):
    return conf([pc(f.replace("%V", v), max=1) for f in forms for v in vals], quick, thorough, slips=99, nest=False, pre=pre, **kw)
def each2(forms, vs, ws, quick=1, **kw):
    return conf([pc(f.replace("%V", v).replace("%W", w), max=1) for f in forms for v in vs for w in ws], quick, 1, slips=99, nest=False, pre="{{define t}}T{{/define}}", **kw)
DATES = [x % m for x in ("1/%s/2020", "31/%s/1999", "30/%s/2020", "2020/%s/1", "9-%s-0", "2000-%s-29", "29/%s/1900") for m in ("jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec", "sept", "june", "Jan", "JUL", "ma", "1", "01", "02", "6", "9", "11", "12", "13", "00", "0", "001")] + \
    ["1/1/%s" % y for y in ("0", "1", "99", "-1", "-0", "9999", "10000", "-10000", "262142", "262143", "262144", "-262143", "-262144", "99999999999", "01", "0001", "1.0")] + ["%s/2/2020" % d for d in ("0", "00", "1", "01", "001", "29", "30", "31", "32", "99", "100")] + ["1/2-2020", "1-2/2020", "1/2", "1/2/3/4", "1 /2/3", "1/ 2/3", "1.5/2/3", "-1/2/3", "1/-2/3", "1//2", "1/2/", "1-2-3", "1-1", "5-3", "1/1/2020 ", "[1/1/2020 2]", "1/1/2020a", "12/31/2020"]
FORMS = {
    "C04": ["{{let x=%V}}{{if true}}{{export a=$x}}{{let x=3}}{{/if}}{{export b=$x}}{{as %V:<x>}}{{export c=$x}}{{/as}}{{export d=$x}}", "{{for k v in [%V]}}{{export a=$v}}{{/for}}", "{{let x=5}}{{if true}}{{let x=%V}}{{export a=(first $x 1)}}{{/if}}"],
    "C05": ["{{export a=%V}}{{export b=[$a]}}", "{{return 5}}{{return %V}}", "{{define f}}TXT{{return %V}}{{/define}}{{export a=(run $f)}}{{export b=(type_of (run $f))}}", "{{global g}}TXT{{if true}}{{return %V}}{{/if}}{{/global}}{{export a=(g)}}{{export b=(type_of (g))}}", "{{global g}}{{return %V}}{{return 1}}{{/global}}{{export a=(g)}}", "{{export a=1}}{{export a=%V}}", "{{@cat}}{{export a=%V}}{{/cat}}{{let b=%V}}", "{{define f}}{{return %V}}T{{/define}}[{{run $f}}]", "{{global g}}{{return %V}}{{/global}}{{@g}}{{/g}}", "{{export x=5}}{{@export x}}{{/export}}{{let x=%V}}"],
    "C06": ["{{define f a b}}{{export a=$a}}{{return [(first $a 9) (first $0 9) (first $b 9) (first $1 9)]}}{{/define}}{{export r=(run $f %V)}}{{export s=(run $f 1 %V)}}{{export q=(run $f %V 2)}}", "{{global g a b}}{{let b=%V}}{{return [(first $a 9) (first $0 9) (first $b 9) (first $1 9)]}}{{/global}}{{export r=(g %V)}}{{export s=(g 1 %V)}}{{export q=(g %V 2)}}{{@g %V @}}B{{/g}}"],
    "C07": ["{{if %V}}T{{else}}F{{/if}}", "{{if false}}A{{elif %V}}T{{else}}F{{/if}}", "{{if q}}A{{elif (p %V)}}T{{elif true}}F{{/if}}", "{{if %V}}T{{/if}}.", "{{let x=%V}}{{if $x}}T{{elif p 1}}F{{/if}}", "{{define f}}{{return %V}}{{/define}}{{if run $f}}T{{else}}F{{/if}}", "{{if first %V true}}T{{else}}F{{/if}}", "{{select %V 7 8 9}}"],
    "C08": ["{{for k v in %V}}[{{type_of $k}} {{p $k $v}}]{{/for}}" , "{{for k v in [%V 1 %V]}}{{p $k}}{{p $v}}{{/for}}", "{{for k k in [%V 5]}}{{p $k}}{{/for}}", "{{let v=3}}{{for k v in (p %V)}}{{let v=9}}.{{/for}}{{first $v \"-\"}}"],
    "C10": ["{{@r @ %V}}x{{/r}}", "{{@r %V}}x{{p 1}}{{/r}}", "{{@p}}{{%V}}{{/p}}", "{{@let x}}{{%V}}{{/let}}{{export y=$x}}", "{{@export x}}{{%V}}{{/export}}", "{{let x=%V}}{{@let x}}{{/let}}[{{$x}}]", "{{@r (p @) [@ %V]}}{{@p @}}i{{/p}}{{/r}}", "{{export x=%V}}{{@export x}}{{/export}}"],
    "C11": ["{{r (p %V) (p 1) %V}}", "{{first (p %V) (p 2)}}", "{{first (q) %V (p 3)}}", "{{select (p %V) (p 7) (p 8) (p 9)}}", "{{first $nope (p null) (p %V) (p 4)}}", "{{r [(p 1) %V (p 2)] {z:(p %V),a:(p 2),z:(p 3)}}}", "{{p {b:(p 1),a:(p %V),b:(q)}}}", "{{run (p $t) (p %V)}}", "{{run %V (p 1)}}", "{{run (p %V) (p 1) (p 2)}}"],
    "C12": ["{{let g=%V}}{{g}}", "{{global p}}G{{/global}}{{p %V}}{{@p}}{{%V}}{{/p}}", "{{global g}}G{{first $0 1}}{{/global}}{{g %V}}{{@g}}x{{/g}}{{@g %V}}x{{/g}}"],
    "C24": ["{{export a=%V}}{{export b=[$a]}}", "{{export a=1}}{{export a=%V}}", "{{export a=%V b=$a}}", "{{export a=2; b=%V; a=(q); c=$a}}", "{{@export a}}{{let x=%V}}{{q}}{{/export}}{{export b=$x}}{{export c=2}}", "{{@export a}}{{%V}}{{/export}}{{export b=(first $x 1)}}", "{{export a=1}}{{@export a}}{{/export}}{{export b=[$a %V]}}", "{{@export a}}{{export b=%V}}{{(q)}}{{/export}}{{export c=$b}}", "{{@export a}}{{if true}}{{let x=%V}}{{$nope}}{{/if}}{{/export}}{{export x=(first $x 4)}}{{export a=(first $a 4)}}", "{{@export a}}{{for k v in [%V]}}{{(q)}}{{/for}}{{/export}}{{export c=[(first $k 4) (first $v 4)]}}", "{{@export a}}{{as %V:<x>}}{{(q)}}{{/as}}{{/export}}{{export b=$x}}", "{{@export a}}{{switch %V}}{{case <x>}}{{(q)}}{{/switch}}{{/export}}{{export b=$x}}", "{{@export a}}{{@r @ (q)}}c{{/r}}{{/export}}{{export b=@}}{{export c=%V}}"],
    "C26": ["{{export x=[(first $x 1) %V]}}{{let x=%V}}", "{{first (p %V) 1}}{{define f}}{{return %V}}{{/define}}{{export a=(run $f)}}"],
}
def alphabets(prop):
    L = alphabets0(prop)
    if prop in FORMS:
        kw = {"C24": dict(runs=["front", "render"]), "C26": dict(runs=["render", "front", "render"])}.get(prop, {})
        L.append(each(FORMS[prop], VALS if prop != "C08" else [v for v in VALS if len(v) < 15 or not v.isdigit()], **kw))
    if prop == "C09":
        L.append(each2(["{{switch %V}}{{case %W}}A{{case _}}B{{/switch}}", ], VALS, [v for v in LITV if "[" not in v] + ["_", "[_]", "[_ _]", "{a}", "{a:_}", "?(eq @ @)"]))
        L.append(each2(["{{as [%V %V]:[<x:%W> _]}}A{{first $x 0}}{{/as}}{{first $x 4}}", "{{switch [1 %V]}}{{case [<x> [_ _]] [_ %W]}}A{{first $x 0}}{{case [_]}}B{{/switch}}"], VALS, [v for v in LITV if "[" not in v] + ["_", "[_]", "[_ _]", "{a}", "{a:_}", "?(eq @ @)"], quick=0))
        L.append(each(["{{switch 3}}{{case ?(%V)}}A{{first @ 4}}{{case _}}B{{/switch}}", "{{as %V:<x:?(p true)>}}{{export a=[$x (first @ 4)]}}{{/as}}{{first $x 4}}", "{{as [%V]:[?(p true) _]}}A{{/as}}{{first @ 4}}", "{{@r @ 1}}{{as %V:?(p true)}}{{first @ 4}}{{/as}}{{/r}}", "{{switch {a:%V}}}{{case {a:_}}}{{export r=1}}{{/switch}}", "{{switch {b:%V}}}{{case {b:<x> a:_} {b:<x>}}}{{export r=$x}}{{/switch}}", "{{switch [%V 2]}}{{case [<x> 3] [_ <y>] [<y>]}}{{export r=(first $x 8)}}{{export s=$y}}{{/switch}}", "{{as [%V]:[<x> _]}}A{{/as}}{{as [%V _]:[<x> _]}}A{{/as}}", "{{switch [%V]}}{{case [_ _] [_ <x>] [<x> _]}}A{{case [<x>]}}{{export r=$x}}{{/switch}}"], VALS))
    if prop in HIST: L.append(HIST[prop]())
    return L
# histories: several templates with one store, each rendered in every round
NEXT = "\x06"
def hist_C12():
    A = [pc(NEXT, notin=["gl", "if", "bp"], max=2, cost=0)] + [op("{{global %s}}%s%s" % (n, n.upper(), POS), "gl", max=2) for n in ("g", "h")] + [cl("{{/global}}", "gl"), pc("{{first (g) \"?\"}}", max=3), pc("{{h}}", max=3), pc("{{(q)}}", max=1), op("{{if false}}", "if", max=1), cl("{{/if}}", "if"), op("{{define g}}D{{/define}}", "", max=1), pc("{{let h=%s}}" % POS, max=1), pc("{{export g=(g)}}", max=1), pc("{{", max=1), op("{{@g}}", "bp", max=1), cl("{{/g}}", "bp")]
    return conf(A, 2, 3, (150, 7), runs=["render"], laps=2, depth=2, nest=False, slips=0, pre="<", post=">")
def hist_C26():
    A = [pc(NEXT, notin=["def", "let"], max=2, cost=0), pc("{{let x=%s}}" % POS), pc("{{export y=%s}}" % POS), pc('{{first $x "-"}}'), pc('{{first $y "-"}}'), pc("{{(q)}}", max=1), op("{{@let x}}", "let", max=1), cl("{{/let}}", "let"), pc("{{return %s}}" % POS, max=1), pc('{{first @ "-"}}', max=1), pc("{{@r @ 1}}c{{/r}}", max=1), op("{{define x a}}", "def", max=1), cl("{{/define}}", "def"), pc('{{first (run $x 4) "?"}}', max=1), pc('{{first $0 "?"}}', max=1), pc("{{as [1 2]:[<x> 3]}}{{/as}}", max=1), pc("{{for x y in [3]}}{{(q)}}{{/for}}", max=1)]
    return conf(A, 2, 3, (80, 6), runs=["render", "front"], laps=2, depth=2, nest=False, pre="<", post=">")
def hist_C24():
    A = [pc(NEXT, notin=["ex", "if"], max=1, cost=0)] + [pc("{{export %s=%s}}" % (n, e)) for n in ("a", "b") for e in (POS, "$a", "(q)", "(g)", "(first $b 5)")] + [op("{{@export a}}", "ex", max=1), cl("{{/export}}", "ex"), op("{{if true}}", "if", max=1), cl("{{/if}}", "if"), pc("{{global g}}{{return %s}}{{/global}}" % POS, max=1), pc("{{let a=%s}}" % POS, max=1)]
    return conf(A, 2, 3, (150, 6), runs=["front", "render"], laps=2, depth=2, nest=False)
def hist_C05():
    A = [pc(NEXT, notin=["gl", "if"], max=1, cost=0)] + [pc("{{export %s=%s}}" % (n, e)) for n in ("x", "return") for e in (POS, "(first (g) $x 0)")] + [pc("{{return [(first (g) 0) %s]}}" % POS), op("{{global g}}", "gl", max=2), cl("{{/global}}", "gl"), pc("t", max=1), pc("{{first $return \"-\"}}", max=1), op("{{if true}}", "if", max=1), cl("{{/if}}", "if"), pc("{{(q)}}", max=1)]
    return conf(A, 2, 3, (150, 6), runs=["render"], laps=2, depth=2, nest=False)
HIST = {"C12": hist_C12, "C26": hist_C26, "C24": hist_C24, "C05": hist_C05}
def alphabets0(prop):
    o = obs("x", "y")
    if prop == "C03":
        return [toks(EXPR, 3, 4, (1200, 8), "{{", "}}"), toks(TAGS, 3, 4, (1200, 7), "", ""), toks(LITS, 2, 3, (600, 7), "{{export x=", "}}"), toks(PATS, 2, 3, (600, 7), "{{as [1 2]:", "}}T{{first $x 0}}{{/as}}")]
    if prop == "C23": return [toks(LITS, 3, 4, (1500, 7), "{{export x=", "}}"), each(["{{export x=%V}}"], DATES), toks(["1", "0", "9", "5", ".", "e", "-", "00", "_"], 4, 6, (500, 12), "{{export x=", "}}")]
    if prop == "C01":
        return [conf([pc(x) for x in ("a", " ", "\n", "{", "}", "\\", '{{"e"}}', '{{-"e"}}', '{{"e"-}}', "{{#c#}}", "{{let x=1}}", "é")], 4, 5, slips=99, nest=False),
                conf([pc(x) for x in ("x", " ", "\n", "\r", "\t", "\f", "{", "\\", "{{ -1}}", "{{-1}}", "{{- -1 -}}", "{{-\n1\n-}}", "{{1 -}}", "{{ 1 }}", "{{ #c# -}}", "{{- - 1}}", "{{1 - }}", "\u00a0", "-", "}")], 3, 4, slips=99, nest=False)]
    if prop == "C02":
        ns = ["switch"]
        A = [op("{{if true}}", "if", notin=ns), op("{{if false}}", "if", notin=ns), cl("{{/if}}", "if", "else"), pc("{{else}}", need=["if"], push="else"), pc("{{elif true}}", need=["if"], push="if"),
             op("{{for k v in 1}}", "for", notin=ns), cl("{{/for}}", "for"), op("{{switch 1}}", "switch", notin=ns), pc("{{case 1}}", need=["switch", "case"], push="case"),
             cl("{{/switch}}", "switch", "case"), op("{{@p}}", "p", notin=ns), cl("{{/p}}", "p"), pc("t" + POS), op("{{as 1:1}}", "as", notin=ns), cl("{{/as}}", "as"), op("{{@let x}}", "let", notin=ns), cl("{{/let}}", "let"), pc('{{"e"}}', notin=ns)]
        for x in A: x["cost"] = 1
        # names that are beginnings of one another, or of the names of constructs
        N = [op("{{if true}}", "if"), op("{{for k v in 1}}", "for"), op("{{define i}}", "define"), op("{{global for}}", "global"), op("{{as 1:1}}", "as"), op("{{@let for}}", "let"), op("{{@export le}}", "export"), op("{{switch 1}}{{case 1}}", "switch")] + \
            [op("{{@%s}}" % n, "@" + n) for n in ("p", "pp", "le", "let_", "f", "fo", "if", "for", "switch", "define", "else_", "i", "'p '")] + [op("{{@as for}}", "@as"), op("{{@p 'let'}}", "@p")] + \
            [cl("{{/%s}}" % n, n, "@" + n, cost=1) for n in ("if", "for", "define", "global", "as", "let", "export", "switch", "p", "pp", "le", "let_", "f", "fo", "else_", "i", "'p '")] + [pc("{{/%s}}" % n, need=["none"]) for n in ("P", "pp_", "e", "end", "s", "swit", "a", "d", "l", "expor", "IF", "@p", "'p'  '")]
        more = [conf(N, 2, 3, slips=99, depth=9, mustclose=["if"]), toks(EXPR, 3, 4, (800, 7), "{{", "}}"), toks(TAGS, 3, 4, (800, 7), "", "")]
        return [conf(A, 3, 4, slips=99, depth=9, mustclose=["if"]), conf(A, 3, 4, (700, 10), slips=1, depth=9, mustclose=["if"]), conf([x for x in A], 4, 5, depth=4)] + more
    if prop == "C04":
        A = [pc("{{let x=%s}}" % POS + o), pc("{{let y=(first $x 9)}}" + o), pc("{{export x=%s}}" % POS + o, max=1), op("{{if true}}" + o, "if"), cl("{{/if}}" + o, "if"),
             op("{{for x y in [7 8]}}" + o, "for", max=2), cl("{{/for}}" + o, "for"), op("{{@let x}}" + o, "let"), cl("{{/let}}" + o, "let"), op("{{@p}}" + o, "p"), cl("{{/p}}" + o, "p"),
             op("{{as [6 5]:[<y>]}}" + o, "as"), cl("{{/as}}" + o, "as"), pc("{{as [6]:[<y> _]}}!{{/as}}" + o), op("{{switch [5 4]}}{{case [<x> 9]}}!{{case [<y> <x>]}}" + o, "sw"), cl("{{/switch}}" + o, "sw"),
             op("{{if (q)}}!{{else}}" + o, "if"), op("{{define t x}}" + o, "def", max=1), cl("{{/define}}" + o, "def"), pc("{{first (run $t 4) \"?\"}}" + o, max=2), pc("{{(q)}}", max=1), op("{{@export y}}" + o, "ex", max=1), cl("{{/export}}" + o, "ex")]
        return [conf(A, 2, 3, (1000, 5))]
    if prop == "C05":
        A = [pc("{{export x=%s}}" % POS), pc("{{let x=%s}}" % POS), pc('{{export y=(first $x "none")}}'), pc("{{return %s}}" % POS), pc('{{return [(first $x null) "r"]}}'), op("{{if true}}", "if"), cl("{{/if}}", "if"),
             op("{{for k v in [7 8]}}", "for", max=1), cl("{{/for}}", "for"), op("{{@export x}}", "ex"), cl("{{/export}}", "ex"), op("{{define t}}", "def", max=1), cl("{{/define}}", "def"), op("{{global g}}", "gl", max=1), cl("{{/global}}", "gl"),
             pc("{{let r=(first (run $t) \"?\")}}{{p $r}}", max=2), pc("{{p (first (g) \"?\")}}", max=2), pc("T" + POS, max=2), op("{{@p}}", "p", max=1), cl("{{/p}}", "p"), op("{{as [6]:[<x>]}}", "as", max=1), cl("{{/as}}", "as"), pc("{{return null}}", max=1), pc("{{return false}}", max=1)]
        return [conf(A, 2, 3, (2500, 6), post=obs("x", "y", "return") + "{{p (first (g) \"?\")}}")]
    if prop == "C06":
        oo = obs("x", "y", "a", "b", "0", "1")
        A = [pc("{{let x=%s}}" % POS), pc("{{let a=%s}}" % POS), pc("{{export y=%s}}" % POS), op("{{define t a b}}" + oo, "def", max=1), cl("{{/define}}", "def"), op("{{global g a b}}" + oo, "gl", max=1), cl("{{/global}}", "gl"),
             op("{{global h x}}" + oo, "gl", max=1), pc("{{first (run $t %s) \"?\"}}" % POS), pc("{{first (run $t null %s) \"?\"}}" % POS), pc("{{first (g $x %s) \"?\"}}" % POS), pc("{{first (g) \"?\"}}"), pc("{{first (h 1 2 %s) \"?\"}}" % POS), pc("{{first (run $0 %s) \"?\"}}" % POS),
             pc("{{first (g $t) \"?\"}}", max=1), pc("{{return $a}}", max=1), op("{{@g @ 5}}", "bg", max=1), cl("{{/g}}", "bg"), op("{{@g}}", "bg", max=1), pc("{{(q)}}", max=1), op("{{if true}}", "if", max=1), cl("{{/if}}", "if"), op("{{@let a}}", "let", max=1), cl("{{/let}}", "let")]
        return [conf(A, 2, 4, (2500, 6), post=obs("x", "y", "a"), ps=[td(u(7)), td(s("P"))], depth=2)]
    if prop == "C07":
        A = []
        for c in ("true", "false", "p 0", "p [0]", "q", "$nope", "$x"):
            A.append(op("{{if %s}}" % c, "if")); A.append(pc("{{elif %s}}" % c, need=["if"], push="if"))
        A += [pc("{{else}}", need=["if"], push="else", cost=0), cl("{{/if}}", "if", "else"), pc("t" + POS), pc("{{let x=true}}", max=1), pc("{{p %s}}" % POS), pc("{{export y=%s}}" % POS, max=1), pc("{{(q)}}", max=1), op("{{for k v in [0 1]}}", "for", max=1), cl("{{/for}}", "for"), pc("{{elif $v}}", need=["if"], push="if")]
        return [conf(A, 2, 4, (2500, 7), depth=2, post="." + obs("y"))]
    if prop == "C08":
        A = [op("{{for k v in %s}}[{{$k}}={{p $v}}]" % e, "for") for e in ("[]", "[4]", "[4 5 6]", "0", "3", "(add -1 3)", "-2", "{}", "{a:1}", "{a:1,b:2}", '"abc"', "null", "[[1 2] [3]]", "$v", "$x", "(r 1 2)", "true", "1.5")] + \
            [cl("{{/for}}" + obs("k", "v"), "for"), pc("{{let x=[%s]}}" % POS), pc("{{let v=2}}"), pc("{{let k=9}}"), pc("{{if (eq $k 1)}}{{(q)}}{{/if}}", max=1), pc("t" + POS, max=2)]
        return [conf(A, 2, 3, (800, 6), pre="{{let x=[8 9]}}", depth=2)]
    if prop == "C09":
        o3 = obs("x", "y")
        vals = ["1", "[1]", "[1 2]", "[1 [2 3]]", "{a:1}", "{a:1,b:[2]}", '"a"', "null", "true"]
        pats = ["1", "_", "<x>", "[<x>]", "[<x> <y>]", "[_ [<y>]]", "{a}", "{a:<x>}", "{a:1 b:<y>}", "?(eq @ 1)", "?(q)", "?(p 1)", "[?(p true) <x>]", "<x:[<y>]>", "<x:[<y> 9]>", '"a"', "[<x> <x>]", "{}", "[]", "null", "{b:[<x>] a}", "<x:?(eq (first $x 1) 1)>", "[<x> ?(eq @ $x)]"]
        A = [pc("{{switch %s}}" % v, push="sw") for v in vals] + [pc("{{case %s}}C%s:" % (p, POS) + o3, need=["sw", "case"], push="case") for p in pats] + \
            [pc("{{case %s %s}}D%s:" % (p, r, POS) + o3, need=["sw", "case"], push="case") for p, r in (("[<x> 9]", "[<y>]"), ("2", "1"), ("[_ _ _]", "{a:<y>}"), ("<x:2>", "?(eq (first $x 5) 5)"))]
        A += [cl("{{/switch}}" + o3, "case"), cl("{{case _}}!{{/switch}}", "sw")]
        return [conf(A, 2, 3, (1200, 5), pre="{{let x=5}}", depth=1)] + [toks(PATS, 3, 4, (800, 7), "{{as [1 2]:", "}}T{{first $x 0}}{{/as}}")]
    if prop == "C10":
        A = [op("{{@%s}}" % f, "b" + f) for f in ("p", "r", "cat", "count", "q", "g")] + [cl("{{/%s}}" % f, "b" + f) for f in ("p", "r", "cat", "count", "q", "g")] + \
            [op("{{@r %s}}" % a, "br") for a in ("@", "1", "@ @", "(p @) (p 2)", "$x", "(cat @ $x)", "(q)")] + [op("{{@g @ 7}}", "bg"),
             op("{{@let x}}", "let"), cl("{{/let}}" + obs("x"), "let"), op("{{@export y}}", "ex"), cl("{{/export}}" + obs("y"), "ex"), pc("t" + POS), pc("{{p %s}}" % POS), pc("{{let x=%s}}" % POS), pc('{{first @ "-"}}'), op("{{if true}}", "if", max=1), cl("{{/if}}", "if"), op("{{for k v in 2}}", "for", max=1), cl("{{/for}}", "for")]
        return [conf(A, 2, 3, (2500, 6), pre="{{global g a b}}<{{$0}}|{{first $b \"-\"}}|{{first @ \"-\"}}>{{/global}}", post=obs("x", "y"))]
    if prop == "C11":
        at = ["(p %s)" % POS, "(p null)", "(q)", "$nope", "$x", "null", "[(p %s)]" % POS, "{a:(p %s),b:(q)}" % POS]
        # expressions: a tag, then arguments, then its end
        A = [pc("{{%s" % h, push="arg", max=2, notin=["arg", "in"]) for h in ("r", "cat", "first", "select", "select true", "select 1", "run $t", "g", "let y = r", "export y = first", "return r")] + [pc(" " + a, need=["arg"], push="arg", max=1 if a in ("(q)", "$nope") else 3) for a in at] + [pc(" (%s" % h, need=["arg"], push="in", max=1) for h in ("r", "first", "select 0", "run $t", "g")] + \
            [pc(" " + a, need=["in"], push="in", max=1 if a in ("(q)", "$nope") else 3) for a in at[:5]] + [cl("}}", "arg"), pc(")", need=["in"], push="arg", cost=0)]
        return [conf(A, 3, 4, (3000, 8), pre="{{let x=5}}{{define t a b}}{{p $a}}{{p $b}}{{return $b}}{{/define}}{{global g a b}}{{p $a}}{{p $b}}{{/global}}", post="{{p 0}}")]
    if prop == "C12":
        A = [op("{{global %s}}G%s" % (n, POS), "gl") for n in ("g", "h", "cat", "p", "first")] + [cl("{{/global}}", "gl"), op("{{define g}}D%s" % POS, "def", max=1), cl("{{/define}}", "def"), pc("{{let g=%s}}" % POS, max=1)] + \
            [pc("{{first (%s) \"?\"}}" % n) for n in ("g", "h", "cat", "p 1", "first 2")] + [op("{{if false}}", "if", max=1), op("{{if true}}", "if", max=1), cl("{{/if}}", "if"), op("{{@p}}", "bp", max=1), cl("{{/p}}", "bp"), pc("{{(q)}}", max=1), pc("{{g}}", max=1), op("{{for k v in 2}}", "for", max=1), cl("{{/for}}", "for")]
        return [conf(A, 3, 4, (2500, 6), runs=["render", "render"], depth=2), conf(A, 2, 3, (500, 6), runs=["render", "render"], store="none", depth=2)]
    if prop == "C24":
        A = [pc("{{export %s=%s}}" % (n, e)) for n in ("a", "b") for e in (POS, "$a", "$b", "(q)", "(first $a 5)", "$0", "(cat $a $b)")] + [pc("{{export a=%s; b=$a}}" % POS), op("{{@export a}}", "ex", max=2), cl("{{/export}}", "ex"), pc("{{let a=%s}}" % POS, max=1), op("{{if true}}", "if", max=1), cl("{{/if}}", "if"), pc("t" + POS, max=1), pc("{{$a}}", max=2), pc("{{(q)}}", max=1), op("{{global g}}", "gl", max=1), cl("{{/global}}", "gl"), pc("{{export b=(g)}}", max=1), pc("{{p %s}}" % POS, max=1), pc("{{return 3}}", max=1), op("{{define a}}", "def", max=1), cl("{{/define}}", "def")]
        B = [pc("{{export %s=%s}}" % (n, e)) for n in ("a", "b", "c") for e in (POS, "$a", "$b", "(p $a)", "[%s $a]" % POS, "{k:$b}")] + [pc("{{export a=%s; b=$a}}" % POS)]
        return [conf(A, 2, 3, (2000, 6), runs=["front", "render"]), conf(B, 2, 3, (1000, 6), runs=["front", "render"], front=True)]
    if prop == "C26":
        A = [pc(x) for x in ("{{let x=%s}}" % POS, "{{export y=%s}}" % POS, '{{first $x "-"}}', '{{first $y "-"}}', "{{p %s}}" % POS, "t" + POS)] + [pc("{{(q)}}", max=1), op("{{if true}}", "if"), cl("{{/if}}", "if"), op("{{for k v in [1 2]}}", "for", max=1), cl("{{/for}}", "for"), op("{{@let x}}", "let"), cl("{{/let}}", "let"), op("{{define x a}}", "def", max=1), cl("{{/define}}", "def"), pc('{{first (run $x 4) "?"}}'), op("{{as [1 2]:[<x> <y>]}}", "as", max=1), cl("{{/as}}", "as"), pc("{{return %s}}" % POS, max=1), pc('{{first @ "-"}}', max=1), op("{{@r @ 1}}", "br", max=1), cl("{{/r}}", "br")]
        G = A + [op("{{global g}}", "gl", max=1), cl("{{/global}}", "gl"), pc('{{first (g) "?"}}', max=2)]
        return [conf(A, 2, 3, (1500, 6), runs=["render", "render", "front", "render"], same=True, depth=2), conf(G, 2, 3, (500, 6), runs=["render", "render"], depth=2)]
    return []

def text_of(c, src):
    t = []
    for k, i in enumerate(src):
        t += [48 + (k + 1) % 10 if x == 7 else x for x in c["pieces"][i - 1]["t"]]
    return "".join(map(chr, c["pre"] + t + c["post"]))

def blank(x):
    """template values carry no content"""
    if isinstance(x, dict):
        if x.get("t") == "tmpl": return {"t": "tmpl"}
        return {k: blank(v) for k, v in x.items() if k != "ch"}
    return [blank(v) for v in x] if isinstance(x, list) else x
def open_out(o):      # the sign of a number may be -1
    def walk(x):
        if isinstance(x, dict): return x.get("t") == "any" or x.get("o") == "open" or any(walk(v) for k, v in x.items() if k not in ("n", "g", "e"))
        if isinstance(x, list): return any(walk(v) for v in x)
        return x == -1
    return walk(o)

def tlc_run(c, cost, sim, seed, workers=None, timeout=3000, only=None):
    """[(pieces, bad, outcomes)], states, generated"""
    cfg = dict(c, maxcost=cost)
    for k in ("quick", "thorough", "sim"): cfg.pop(k)
    with tempfile.NamedTemporaryFile("w", suffix=".json", prefix="tv-mc-", delete=False) as fh:
        json.dump(cfg, fh)
    try:
        extra = ["-simulate", "num=%d" % sim, "-depth", "3000", "-seed", str(seed)] if sim else []
        rc, out = drive.tlc("MC.tla", "MC.cfg", {"MC_CFG": fh.name}, workers=workers or drive.CPU, heap="6g", extra=extra, timeout=timeout)
    finally:
        os.unlink(fh.name)
    res = []
    for l in out.splitlines():
        if l.startswith('"OUT '):
            res.append(json.loads(json.loads(l)[4:]))
    if re.search(r"^Error:", out, re.M) or not res:
        raise drive.Trouble("the specification does not have a property it should have:\n" + "\n".join(x[:400] for x in out.splitlines() if x.startswith(("Error", "Invariant", "The ")) or x.startswith("/\\ src"))[-3000:])
    m = re.search(r"(\d+) states generated, (\d+) distinct", out)
    if m: st, gen = int(m.group(2)), int(m.group(1))
    else:
        m = re.findall(r"(\d+) states checked|number of states generated: (\d+)|The number of states generated: (\d+)", out)
        gen = st = max([int(a or b or d) for a, b, d in m] or [0])
    return res, st, gen

def plan(c, ts): return [("T%d" % k, w) for _ in range(c["laps"]) for k in range(len(ts)) for w in c["runs"]]
def replay(c, res, binary, scratch, tag, prop, per=25):
    """runs every template in the library; returns the sessions of those that differ"""
    want = {}
    deep = {tuple(r["s"]) for r in res if any(o["r"]["o"] == "deep" for o in r["outs"])}
    for r in res:
        if tuple(r["s"]) not in deep: want.setdefault(tuple(r["s"]), []).append(r["outs"])
    keys = list(want)
    sessions, sizes = [], {}
    for k in range(0, len(keys), per):
        ops = [op_fm("F", st("defaults"), *PROBES)]
        for q in keys[k:k + per]:
            ts = text_of(c, q).split("\x06")
            ops += [op_store("S", c["store"])] + [op_parse("T%d" % j, x) for j, x in enumerate(ts)]
            for w in plan(c, ts): ops.append(op_front(w[0], "F") if w[1] == "front" else op_render(w[0], "S", "F", c["ps"]))
            sizes[q] = (len(ts), len(plan(c, ts)))
        sessions.append(session("%s-%d" % (tag, k), prop, ops, lib=0))
    drive.parallel_execute(binary, sessions, scratch)
    diff, opens = [], 0
    for x, k in zip(sessions, range(0, len(keys), per)):
        at = 1
        for q in keys[k:k + per]:
            nt, nr = sizes[q]
            n = 1 + nt + nr
            mine = x["ops"][at:at + n]
            at += n
            outs = want[q]
            if prop != "C03" and any(open_out(o) for o in outs): opens += 1; continue
            if len(mine) < n: ok = False
            else:
                got = []
                for y in mine[1 + nt:]:
                    e = {"o": "reject" if y["res"]["o"] == "skip" else y["res"]["o"]}
                    if e["o"] == "ok":
                        e["ex"] = y["res"]["ex"]
                        e["text"] = y["res"]["text"] if y["op"] == "render" else []
                    got.append({"r": e, "ev": [{"f": v["f"], "a": v["a"]} for v in y.get("ev", [])]})
                if nt == 1 and got[0]["r"]["o"] == "reject": got = got[:1]
                got = blank(got)
                ok = any(blank(o) == got for o in outs)
            if prop == "C03": ok = len(mine) == n and all(y["res"]["o"] in ("ok", "err", "skip") for y in mine)
            if not ok: diff.append(dict(x, chosen=any(y.get("ch") for o in outs for y in o), id="%s-%s" % (tag, "-".join(map(str, q))), ops=x["ops"][:1] + mine, mode="total" if prop == "C03" else "full"))
    return diff, len(keys), opens

def run(prop, tier, seed, binary, scratch, budget):
    R = Result()
    cs = alphabets(prop)
    t0 = time.time()
    programs = opens = 0
    for n, c in enumerate(cs):
        jobs = [(c[tier], 0)] if c[tier] else []
        if c["sim"][0]: jobs.append((c["sim"][1], c["sim"][0] * (1 if tier == "quick" else 10)))
        for cost, sim in jobs:
            res, st_, gen = tlc_run(c, cost, sim, seed)
            R.states += st_; R.generated += gen
            diff, k, o = replay(c, res, binary, scratch, "mc%d%s" % (n, "s" if sim else "x"), prop)
            programs += k; opens += o
            if k:
                q = res[len(res) // 2]
                R.samples.append({"template": text_of(c, q["s"])[:600], "outcome": q["outs"][-1]["r"]["o"]})
            if diff:
                # an order of a map other than the one chosen in a simulation is no difference: the trace decides
                sure = [x for x in diff if not x["chosen"]]
                rej, _ = drive.check(sure[:40] + [x for x in diff if x["chosen"]][:200], scratch)
                R.cov["orders_left_to_trace_validation"] = R.cov.get("orders_left_to_trace_validation", 0) + len(diff)
                R.rejected += rej
            if R.rejected: break
    R.replayed = programs
    R.cov["templates_from_model"] = programs
    R.cov["templates_left_open"] = opens
    R.cov["model_seconds"] = round(time.time() - t0, 1)
    return R
