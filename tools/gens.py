"""What is tried, per property: sessions for the harness.
gen(prop, seed, part, n): about n sessions, a function of its arguments."""
import random, re, string
from enc import *
from gen_prog import *
from gen_val import *
from gen_lib import L
import gen_prog

NAMES_ALL = ["eq", "neq", "eq_any", "gt", "gte", "lt", "lte", "and", "nand", "or", "nor", "type_of", "is_null", "is_num",
             "cat", "split", "string_from_ints", "str_contains", "str_replace", "str_replace_n", "html_esc", "xml_esc", "regex", "word_wrap", "debug", "join_with", "md",
             "add", "sub", "mul", "div", "mod", "min", "max", "parent", "join", "bread_crumbs", "base_name", "base_name_sure", "with_ext", "stem", "full_stem",
             "list", "sort", "append", "sort_on", "bin_search", "bin_get", "index_of", "get", "len", "slice", "groups", "map",
             "xy", "xywh", "cxyrr", "xy12", "fl_stk", "font", "filter", "r_json", "r_card", "w_json", "rand", "as_base64", "from_base64", "table"]
FILES = ["dir", "file", "file_bytes", "is_file", "is_dir", "scan_dir", "file_img_dimensions", "write"]
PROGS = ["exec", "exec_stdin", "env"]

def prog(id, prop, src, ps=(), fm=None, kind="map", lib=0, mode="exp", extra=()):
    return session(id, prop, [fm or std_fm(), op_store("S", kind), *extra, op_parse("T", src), op_render("T", "S", "F", ps, mode)], lib=lib)
def progs(id, prop, srcs, ps=(), lib=0):
    """independent templates in one session"""
    ops = [std_fm()]
    for s_ in srcs:
        ops += [op_store("S"), op_parse("T", s_), op_render("T", "S", "F", ps)]
    return session(id, prop, ops, lib=lib)
def calls(id, prop, cs, fm=None):
    return session(id, prop, [fm or op_fm("F", st("defaults"))] + [op_call("F", f_, *a) for f_, a in cs], lib=1)

def some_params(rng):
    v = V(rng)
    out = []
    for _ in range(rng.choice([0, 1, 2, 2, 3])):
        k = rng.random()
        if k < .3: out.append(td(v.num()))
        elif k < .5: out.append(td(v.str_()))
        elif k < .7: out.append(td(lst(u(1), s("b"), lst(u(2)))))
        elif k < .85: out.append(host("json", mp({"a": i(4), "x": s("px"), "l": lst(i(1), s("q"))})))
        else: out.append(td(mp({"a": u(9), "id": s("i")})))
    return out

PROFILE = {
 "C04": dict(weights=dict(let=8, atlet=4, vis=9, iff=4, loop=3, as_=4, switch=4, block=4, define=2, glob=2, call=4, text=2, emit=2, export=3, special=1)),
 "C05": dict(weights=dict(export=7, atexport=4, let=4, ret=3, define=3, glob=3, call=5, iff=3, text=2, emit=2, vis=2), retbody=.8),
 "C06": dict(weights=dict(let=4, export=3, define=5, glob=5, call=8, block=3, vis=4, text=2, emit=2, atlet=2), retbody=.35),
 "C07": dict(weights=dict(iff=12, let=3, vis=4, text=3, emit=1, loop=1, export=2)),
 "C08": dict(weights=dict(loop=12, let=3, vis=3, text=2, emit=2, iff=2, export=2)),
 "C09": dict(weights=dict(switch=9, as_=9, vis=5, let=3, text=1, emit=1, iff=1, loop=1)),
 "C10": dict(weights=dict(block=12, atlet=6, atexport=5, vis=3, let=2, text=3, emit=2)),
 "C11": dict(weights=dict(special=12, emit=6, let=4, err=1, call=3, define=2, export=3, vis=1, text=1), errors=.12),
 "C02": dict(),
}
def random_progs(prop, rng, id, n=1, **kw):
    """one session with n random templates over one store each"""
    o = dict(PROFILE.get(prop, {}))
    o.update(kw)
    srcs = []
    for _ in range(n):
        g = G(rng, **o)
        srcs.append(g.stmts(3, rng.randint(3, 8)))
    return progs(id, prop, srcs, some_params(rng))

# ----------------------------------------------------------------- C01
def text_piece(r):
    x = r.random()
    if x < .35: return r.choice(["a", "B7", "word", "é", "\U0001F600", "日", "<p class=\"x\">", "&amp;", "'", "\"", "#", "@", "$x", "-", "--", "%", "end.", ";", "=", "/if", "e\u0301"])
    if x < .6: return r.choice([" ", "  ", "\n", "\n\n", "\t", " \n ", "\r\n", "\r", "\u00a0", "\u2003", "\x0b", "\x0c", "\u0085", "\u200b"])
    if x < .72: return r.choice(["{", "}", "}}", "{ {", "{a}", "{-", "-}", "-}}", "{}", "} }", "a{b", "{\n{", "}}}", "{ ", "}{", "{\"k\":1}"])
    if x < .84: return r.choice(["\\{", "\\{{", "\\\\", "\\a", "\\}", "\\ ", "\\\n", "\\ \\", "\\ \n  \\", "\\\n\n", "\\é", "\\\"", "\\{\\{", "\\\\\\\\", "\\\t\\x", "\\-", "\\\u00a0", "\\\r\n", "\\ \\ ", "\\ \\\\"])
    o = r.choice(["{{", "{{-", "{{- ", "{{ "]); c = r.choice(["}}", "-}}", " -}}", " }}"])
    b = r.choice(['"T"', '"T"', "#c#", "# {{x}} #", "##", "let x=1", '"}}"', '"{{"', 'r#"\\"#', '"a\\\\"', "1", '" "', '""', "#-#"])
    if o == "{{-" and b[0] in "-0123456789": o = "{{- "
    return o + b + c
def c01(rng, id, n=5):
    out = []
    for _ in range(n):
        t = "".join(text_piece(rng) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12, 20])))
        x = rng.random()
        if x < .35:
            o = lambda b: rng.choice(["{{", "{{-"]) + b + rng.choice(["}}", "-}}"])
            q = "".join(text_piece(rng) for _ in range(rng.randint(0, 4)))
            z = "".join(text_piece(rng) for _ in range(rng.randint(0, 4)))
            w = rng.choice([("if true", "/if"), ("if false", "else", "/if"), ("for k v in 2", "/for"), ("@p", "/p"), ("@let z", "/let"), ("as 1 : _", "/as"), ("switch 1", "case 1", "/switch"),
                            ("define d", "/define"), ("global d", "/global"), ("@export z", "/export"), ("if false", "elif true", "/if"), ("@cat @", "/cat")])
            t = q + o(w[0]) + (t + o(w[1]) + t if len(w) == 3 and w[0] != "switch 1" else o(w[1]) + t if len(w) == 3 else t) + o(w[-1]) + z
            if "z" in w[0].split(): t += "{{first $z \"-\"}}"
            if w[0] == "define d": t += "{{run $d}}"
            if w[0] == "global d": t += "{{d}}"
        out.append(t)
    return progs(id, "C01", out)
C01_FIX = ["", " ", "\n", "a", "{", "}", "{a", "a{", "{ {", "\\", "a\\", "\\\\", "\\\\\\", "\\ ", " \\ ", "\\ \\", "\\ \\x", "\\ \\\\x", "a \\\n   b", "a\\{{\"x\"}}b", "a\\\\{{\"x\"}}b", "{{\"x\"}}", " {{\"x\"}} ", " {{- \"x\" -}} ",
           "a {{- \"x\"}} b", "a {{\"x\" -}} b", "\n\n{{- \"x\" -}}\n\n", "a\u00a0{{- \"x\" -}}\u00a0b", "{{#c#}}", "a{{#c#}}b", "a {{-#c#-}} b", "{{#a}}#}}b", "{{{\"x\"}}}", "{{{a:1}}}", "a}}b", "}}", "{{\"}}\"}}", "a{{\"x\"}}{{\"y\"}}b", "{{\"x\"}} {{\"y\"}}",
           "{{- \"x\" -}} {{- \"y\" -}}", "\\{\\{x}}", "\\{{x}}", "{\\{x}}", "a\\\u00a0b", "a\\\u2003\\b", "\r\n{{- 1 -}}\r\n", "x  {{-  \"y\"  -}}  z", "\\  \n {{\"x\"}}", "\\\n{{- \"x\"}}", "a \\ {{- \"x\" -}} \\ b", "{{if true}} a {{/if}} b", "{{if true -}} a {{- /if}} b", "{{for k v in 2}}{ }{{/for}}",
           "{{let x=1}}\n{{let y=2}}\n", "a{{let x=1}}b", "a {{- let x=1 -}} b", "tab\t{{\"x\"}}\tend", "\u200b{{- \"x\"}}", "\x0b{{- \"x\" -}}\x0c", "{-", "{{\"x\"}}-}}", "-}}", "{{\"a\"}}}", "{{{", "{{\"a\"", "{", "x{{", "{{}}", "{{ }}", "{{-}}", "{{--}}", "{{-1}}", "{{- -1}}", "{{-  1-}}", "{{1-}}x"]
# ----------------------------------------------------------------- C02
OPENS = [("if true", "if"), ("if false", "if"), ("for k v in [1 2]", "for"), ("for k v in 0", "for"), ("switch 1", "switch"), ("as 1 : 1", "as"), ("as 1 : 2", "as"), ("@p", "p"), ("@cat @", "cat"), ("@let x", "let"), ("@export x", "export"),
         ("define d", "define"), ("global g", "global"), ("@if", "if"), ("@for 1", "for"), ("@as", "as"), ("@switch", "switch"), ("@define", "define"), ("@let", "let"), ("@elif", "elif"), ("@else", "else"), ("@case", "case")]
MIDS = ["else", "elif true", "elif false", "case 1", "case 2", "case _", "case"]
def tags(rng, n):
    """mostly well nested"""
    out, stack = [], []
    m = [0]
    def t():
        m[0] += 1
        return rng.choice(["t%d", "t%d", "t%d ", "\n"]).replace("%d", str(m[0]))
    for _ in range(n):
        x = rng.random()
        if x < .3 and len(stack) < 6:
            o, c = rng.choice(OPENS if rng.random() < .5 else OPENS[:13])
            out.append("{{%s}}" % o); stack.append(c)
            if c == "switch" and rng.random() < .85: out.append("{{%s}}" % rng.choice(MIDS[3:6]))
        elif x < .52 and stack: out.append("{{/%s}}" % stack.pop())
        elif x < .64:
            c = stack[-1] if stack else ""
            out.append("{{%s}}" % (rng.choice(MIDS[:3]) if c == "if" else rng.choice(MIDS[3:]) if c == "switch" else rng.choice(MIDS) if rng.random() < .25 else '"e"'))
        elif x < .7 and rng.random() < .4: out.append("{{/%s}}" % rng.choice([c for _, c in OPENS] + ["q", "p", "case", "else", "elif"]))
        else: out.append(t())
    if rng.random() < .75:
        while stack: out.append("{{/%s}}" % stack.pop()); out.append(t()) if rng.random() < .3 else 0
    if rng.random() < .2 and out:
        k = rng.randrange(len(out))
        if rng.random() < .5: del out[k]
        elif len(out) > 1:
            j = rng.randrange(len(out)); out[k], out[j] = out[j], out[k]
    return "".join(out)
def c02(rng, id, n=6): return progs(id, "C02", [tags(rng, rng.choice([2, 3, 4, 6, 9, 14])) for _ in range(n)])
C02_FIX = ["{{$x!}}", "{{$x$y}}", "a {{- $x!}}", "{{$x.y!}}", "{{$x(a)}}", "{{$x-", "ok {{$x}!", "{{$1!}}", "{{$!}}", "{{ .1! }}", "{{/if}}", "{{else}}", "{{elif true}}", "{{case 1}}", "{{if true}}", "{{if true}}a{{else}}b", "{{if true}}a{{elif true}}b", "{{if true}}a{{/for}}", "{{for k v in 1}}a{{/if}}", "{{for k v in 1}}a{{else}}b{{/for}}", "{{if true}}{{for k v in 1}}{{/if}}{{/for}}",
           "{{if true}}a{{else}}b{{else}}c{{/if}}", "{{if false}}a{{else}}b{{elif true}}c{{/if}}", "{{switch 1}}{{case 1}}a{{else}}b{{/switch}}", "{{switch 1}}a{{/switch}}", "{{switch 1}}{{\"a\"}}{{case 1}}b{{/switch}}", "{{switch 1}}{{#c#}}{{case 1}}b{{/switch}}", "{{switch 1}}a{{case 1}}b{{/switch}}c",
           "{{switch 1}}{{case 1}}{{if true}}{{case 2}}{{/if}}{{/switch}}", "{{switch 1}}{{case 1}}{{switch 2}}{{case 2}}x{{/switch}}y{{case 3}}z{{/switch}}w", "{{switch 1}}", "{{switch 1}}{{case 1}}a", "{{for k v in 1}}a", "{{@p}}a", "{{@let x}}a", "{{define d}}a", "{{global g}}a", "{{as 1 : 1}}a",
           "{{@if}}a{{/if}}", "{{@if true}}a{{else}}b{{/if}}", "{{@let x}}a{{/let}}{{$x}}", "{{@let}}a{{/let}}", "{{@export x}}a{{/export}}{{$x}}", "{{@p}}a{{/q}}", "{{@p}}{{@p}}a{{/p}}b{{/p}}", "{{@p}}{{@cat}}a{{/p}}b{{/cat}}", "{{if true}}{{if false}}a{{else}}b{{/if}}c{{else}}d{{/if}}e",
           "{{if false}}{{if true}}a{{/if}}{{else}}d{{/if}}e", "{{if true}}a{{elif true}}b{{if true}}c{{/if}}d{{else}}e{{/if}}f", "{{for k v in 2}}{{if $v}}a{{else}}b{{/if}}{{/for}}", "{{/p}}", "a{{/}}", "{{/if }}", "{{if true}}a{{/if x}}", "{{else x}}", "{{if true}}a{{else x}}b{{/if}}", "{{elif}}", "{{if}}", "{{for}}", "{{define}}", "{{let}}", "{{switch}}", "{{case}}", "{{as}}", "{{return}}", "{{export}}", "{{global}}",
           "{{if true}}a{{/if}}{{/if}}", "{{as 1 : 1}}a{{else}}b{{/as}}", "{{define d}}{{/if}}{{/define}}", "{{define d}}{{if true}}{{/define}}{{/if}}", "{{if true}}{{define d}}x{{/define}}{{run $d}}{{/if}}", "{{ifx true}}", "{{if_ true}}", "{{elsewhere}}", "{{lettuce=4}}", "{{/if}}{{if true}}", "{{if true}}{{@cat}}{{else}}{{/cat}}{{/if}}", "{{switch 1}}{{case 1}}{{for k v in 1}}{{case 2}}{{/for}}{{/switch}}", "{{for k v in 1}}{{/for}}{{/for}}",
           "{{if false}}a{{elif false}}b{{elif true}}c{{elif true}}d{{else}}e{{/if}}f", "{{if false}}a{{elif false}}b{{else}}c{{/if}}{{if true}}d{{/if}}"]
def c02_all(maxlen):
    """every sequence of tags of up to maxlen"""
    A = ["{{if true}}", "{{/if}}", "{{else}}", "{{elif true}}", "{{for k v in 1}}", "{{/for}}", "{{switch 1}}", "{{case 1}}", "{{/switch}}", "{{@p}}", "{{/p}}", "t", "{{as 1:1}}", "{{/as}}", "{{@let x}}", "{{/let}}"]
    import itertools
    seqs = ["".join(q) for n in range(1, maxlen + 1) for q in itertools.product(A, repeat=n)]
    return [progs("c02x%d" % k, "C02", seqs[k:k + 60]) for k in range(0, len(seqs), 60)]

def chains(prop, conds, bodies=("", "t%d")):
    """every if / elif / else chain of up to three conditions, bodies empty or not"""
    import itertools
    out = []
    for n in (1, 2, 3):
        for cs in itertools.product(conds, repeat=n):
            for bs in itertools.product(bodies, repeat=n):
                a = "".join("{{%s %s}}%s" % ("elif" if k else "if", cs[k], bs[k].replace("%d", str(k))) for k in range(n))
                for e in ("", "{{else}}", "{{else}}e"): out.append(a + e + "{{/if}}z")
    return [progs("chain%d" % k, prop, out[k:k + 60]) for k in range(0, len(out), 60)]
# ----------------------------------------------------------------- hand-written corners of the interpreter
V5 = '{{first $x "-"}}{{first $y "-"}}{{first $z "-"}}{{first $a "-"}};'
FIX = {
 "C04": ["{{let x=1}}{{if true}}{{let x=2}}{{$x}}{{/if}}{{$x}}", "{{if true}}{{let x=2}}{{/if}}" + V5, "{{if false}}{{let x=2}}{{else}}{{let y=3}}" + V5 + "{{/if}}" + V5, "{{let x=1}}{{for k v in [5 6]}}{{let x=$v}}{{$x}}{{/for}}{{$x}}" + "{{first $k \"-\"}}{{first $v \"-\"}}",
         "{{let x=1}}{{@let y}}{{let x=2}}{{$x}}{{/let}}" + V5, "{{let x={a:1}}}{{if true}}{{let x={b:2}}}{{first $x.a \"-\"}}{{$x.b}}{{/if}}{{$x.a}}", "{{let x=1}}{{if true}}{{export x=2}}{{$x}}{{/if}}{{$x}}", "{{let x=1}}{{if true}}{{let x=5}}{{export x=2}}{{$x}}{{/if}}{{$x}}",
         "{{for k v in [1]}}{{for k v in [2]}}{{$v}}{{/for}}{{$v}}{{/for}}", "{{@p}}{{let x=1}}{{/p}}" + V5, "{{as [1 2] : [<x> <y>]}}" + V5 + "{{/as}}" + V5, "{{as [1 2] : [<x> 9]}}a{{/as}}" + V5, "{{switch 3}}{{case [<x>] <y>}}" + V5 + "{{/switch}}" + V5, "{{switch [1 2]}}{{case [<x> 3]}}a{{case [<y> 2]}}" + V5 + "{{/switch}}" + V5,
         "{{if (q)}}{{let x=1}}{{else}}{{let y=1}}" + V5 + "{{/if}}" + V5, "{{let x=1; y=$x; z=$y}}" + V5, "{{let x=1}}{{let x=$x}}{{let x=(add $x 1)}}{{$x}}", "{{define x a}}{{$a}}{{let y=2}}{{/define}}{{run $x 4}}{{first $y \"-\"}}", "{{let x=1}}{{if true}}{{define x}}T{{/define}}{{run $x}}{{/if}}{{$x}}",
         "{{let x=1}}{{if true}}{{@let x}}i{{/let}}{{$x}}{{/if}}{{$x}}", "{{let x=1}}{{if true}}{{@export x}}i{{/export}}{{$x}}{{/if}}{{$x}}", "{{if true}}{{if true}}{{let x=1}}{{/if}}" + V5 + "{{let x=2}}" + V5 + "{{/if}}" + V5, "{{let x=1}}{{@cat @ $x}}{{let x=2}}{{$x}}{{/cat}}{{$x}}",
         "{{let x=null}}{{first $x \"-\"}}{{if true}}{{let x=0}}{{first $x \"-\"}}{{/if}}", "{{let x=1}}{{if true}}{{let x=null}}{{first $x \"-\"}}{{/if}}{{$x}}", "{{for k v in 2}}" + V5 + "{{let x=$v}}" + V5 + "{{/for}}" + V5, "{{@let x}}a{{let x=3}}{{$x}}b{{/let}}{{$x}}", "{{let $=1}}", "{{let x=$x}}", "{{let x=1}}{{if $x}}{{let y=$x}}{{let x=0}}{{/if}}{{if $x}}Y{{/if}}" + V5,
         "{{@p}}a{{/p}}{{first @ \"-\"}}", "{{let x=1}}{{switch 1}}{{case <x>}}{{let x=7}}{{$x}}{{/switch}}{{$x}}", "{{let x=5}}{{as {x:1,y:2} : {x y}}}" + V5 + "{{/as}}" + V5, "{{if true}}{{let x=1}}{{(q)}}{{/if}}{{$x}}", "{{let a=[1 2 3]}}{{for k v in $a}}{{let a=[]}}{{$v}}{{/for}}{{len $a}}"],
 "C05": ["{{export a=1}}", "{{export a=1; b=\"x\"}}{{export a=2}}", "{{if true}}{{export a=1}}{{let b=2}}{{/if}}", "{{for k v in [1 2]}}{{export a=$v}}{{/for}}", "{{let a=1}}", "{{@export a}}t{{\"x\"}}{{/export}}{{$a}}", "{{if true}}{{if true}}{{@export a}}t{{/export}}{{$a}}{{/if}}{{/if}}{{$a}}", "{{global g}}a{{return 5}}b{{/global}}{{type_of (g)}}{{g}}",
         "{{global g}}a{{return 5}}b{{return \"z\"}}{{/global}}{{type_of (g)}}{{g}}", "{{global g}}a{{if false}}{{return 5}}{{/if}}{{/global}}{{type_of (g)}}{{g}}", "{{global g}}a{{if true}}{{for k v in 3}}{{return $v}}{{/for}}{{/if}}{{/global}}{{let r=g}}{{$r}}", "{{global g}}{{return null}}x{{/global}}{{let r=(g)}}{{type_of $r}}", "{{global g}}{{return [1 2]}}x{{/global}}{{len (g)}}",
         "{{return 5}}text", "{{if true}}{{return 5}}{{/if}}x{{first $return \"-\"}}", "{{global g}}{{export return=5}}x{{/global}}{{g}}", "{{global g}}{{let return=5}}x{{/global}}{{g}}", "{{global g}}{{if true}}{{let return=5}}{{/if}}x{{/global}}{{g}}", "{{global g}}{{export a=5}}x{{/global}}{{g}}{{first $a \"-\"}}", "{{define d a}}{{return $a}}{{/define}}{{export r=(run $d 7)}}",
         "{{define d}}{{return {a:1}}}{{/define}}{{let m=(run $d)}}{{$m.a}}", "{{global g}}{{return (run (h))}}{{/global}}{{global h}}x{{/global}}{{g}}", "{{global h}}{{return 3}}{{/global}}{{global g}}y{{h}}z{{/global}}{{g}}", "{{global h}}{{return 3}}{{/global}}{{global g}}y{{return (add (h) 1)}}z{{/global}}{{type_of (g)}}{{g}}", "{{export a=1}}{{if true}}{{let a=2}}{{export b=$a}}{{/if}}",
         "{{as [1] : [<c>]}}{{export c=$c}}{{/as}}", "{{switch 1}}{{case <c>}}{{let d=1}}{{export e=2}}{{/switch}}", "{{@p}}{{export a=1}}t{{/p}}", "{{@let a}}{{export b=1}}{{let c=3}}t{{/let}}", "{{for k v in [7]}}{{/for}}", "{{if true}}{{for k v in [7]}}{{/for}}{{/if}}", "{{define d}}x{{/define}}", "{{export a=(q)}}", "{{export a=1}}{{(q)}}", "{{export a=1,b=$a}}", "{{@export a}}{{/export}}",
         "{{define d}}{{return \"r\"}}{{/define}}{{@p}}{{run $d}}{{/p}}", "{{global g}}a{{return false}}{{/global}}{{if (g)}}T{{else}}F{{/if}}", "{{global g a}}{{if $a}}{{return \"one\"}}{{/if}}{{return \"two\"}}{{/global}}{{g true}}{{g false}}"],
 "C06": ["{{let x=1}}{{global g}}{{first $x \"-\"}}{{/global}}{{g}}", "{{global g a b}}{{first $a \"-\"}}{{first $b \"-\"}}{{first $0 \"-\"}}{{first $1 \"-\"}}{{first $2 \"-\"}}{{/global}}{{g}}|{{g 1}}|{{g 1 2}}|{{g 1 2 3}}", "{{define d a}}{{first $a \"-\"}}{{first $x \"-\"}}{{/define}}{{let x=1}}{{let a=2}}{{run $d}}{{run $d 3}}", "{{global g}}{{let x=5}}{{export y=6}}{{/global}}{{let x=1}}{{g}}" + V5,
         "{{global g a}}{{let a=(add $a 1)}}{{$a}}{{$0}}{{/global}}{{g 1}}", "{{global g a}}{{if gt $a 0}}{{$a}}{{g (sub $a 1)}}{{$a}}{{/if}}{{/global}}{{g 3}}", "{{@p}}{{global g}}{{first @ \"-\"}}{{/global}}x{{g}}{{/p}}", "{{global g}}{{first @ \"-\"}}{{/global}}{{@p (g)}}x{{/p}}", "{{global g}}{{first $0 \"-\"}}{{first @ \"-\"}}{{/global}}{{@g}}x{{/g}}{{@g @ 1}}y{{/g}}{{@g 1}}z{{/g}}",
         "{{for k v in [1]}}{{global g}}{{first $k \"-\"}}{{first $v \"-\"}}{{/global}}{{g}}{{/for}}", "{{global h}}{{first $a \"-\"}}{{first $0 \"-\"}}{{/global}}{{global g a}}{{h}}{{h 9}}{{$a}}{{/global}}{{g 1}}", "{{global g a}}{{$a}}{{/global}}{{g $0}}{{g [1 2]}}{{g (p 4)}}", "{{define d a b}}{{first $b \"-\"}}{{first $a \"-\"}}{{/define}}{{run $d 1 2}}{{define e b a}}{{run $a 1 $b}}{{/define}}{{run $e 5 $d}}",
         "{{global g}}{{define d}}in{{/define}}{{return $d}}{{/global}}{{run (g)}}", "{{global g d}}{{run $d 1}}{{/global}}{{define d a}}<{{$a}}{{first $d \"-\"}}>{{/define}}{{g $d}}", "{{global g a a}}{{$a}}{{/global}}{{g 1 2}}", "{{as 5 : <x>}}{{global g}}{{first $x \"-\"}}{{/global}}{{g}}{{$x}}{{/as}}", "{{global g a}}{{export a=9}}{{$a}}{{first $0 \"-\"}}{{/global}}{{g 1}}{{first $a \"-\"}}", "{{global g a}}{{if true}}{{let a=9}}{{/if}}{{$a}}{{/global}}{{g 1}}", "{{global g}}{{(q)}}{{/global}}{{let x=1}}{{first (g) \"F\"}}{{$x}}", "{{global g}}{{let x=2}}{{(q)}}{{/global}}{{let x=1}}{{first (g) \"F\"}}{{$x}}",
         "{{global g a}}{{$a.b}}{{$0.b}}{{$a.b.0}}{{/global}}{{g {b:[1 2]}}}"],
 "C07": ["{{if true}}a{{else}}b{{/if}}", "{{if false}}a{{elif true}}b{{elif true}}c{{else}}d{{/if}}", "{{if false}}a{{elif false}}b{{elif true}}c{{else}}d{{/if}}", "{{if false}}a{{elif false}}b{{elif false}}c{{elif true}}d{{else}}e{{/if}}", "{{if false}}a{{elif false}}b{{elif false}}c{{else}}e{{/if}}", "{{if q}}a{{else}}b{{/if}}", "{{if (q)}}a{{elif (q)}}b{{else}}c{{/if}}", "{{if p true}}a{{elif p true}}b{{/if}}", "{{if p false}}a{{elif p true}}b{{elif p true}}c{{/if}}",
         "{{if $nope}}a{{elif true}}b{{/if}}", "{{if true}}{{(q)}}{{else}}b{{/if}}", "{{if false}}a{{/if}}", "{{if true}}a{{/if}}", "{{if \"false\"}}a{{else}}b{{/if}}", "{{if \"\"}}a{{else}}b{{/if}}", "{{if 0}}a{{else}}b{{/if}}", "{{if 0.0}}a{{else}}b{{/if}}", "{{if []}}a{{else}}b{{/if}}", "{{if {}}}a{{else}}b{{/if}}", "{{if null}}a{{else}}b{{/if}}", "{{if [null]}}a{{else}}b{{/if}}", "{{if -0.0}}a{{else}}b{{/if}}", "{{if 1/1/2000}}a{{else}}b{{/if}}",
         "{{define d}}{{/define}}{{if $d}}a{{else}}b{{/if}}", "{{if true}}{{if false}}a{{/if}}b{{else}}c{{/if}}d", "{{if false}}{{if true}}a{{else}}b{{/if}}{{else}}{{if true}}c{{else}}d{{/if}}{{/if}}", "{{if true}}{{export a=1}}{{elif (p true)}}{{export a=2}}{{else}}{{export a=3}}{{/if}}", "{{if (p true)}}{{let x=(p 1)}}{{/if}}{{if (p false)}}{{let x=(p 2)}}{{/if}}", "{{if cat (q)}}a{{else}}{{p 1}}{{/if}}", "{{for k v in [true false (p 1) \"\"]}}{{if $v}}Y{{$k}}{{else}}N{{$k}}{{/if}}{{/for}}", "{{if false}}{{nosuch}}{{elif true}}ok{{else}}{{nosuch}}{{/if}}", "{{if true}}a{{elif nosuch}}b{{/if}}", "{{if false}}a{{elif (first (q) true)}}b{{/if}}", "{{if -1}}a{{else}}b{{/if}}", "{{if -0}}a{{else}}b{{/if}}"],
 "C08": ["{{for k v in [10 20 30]}}{{$k}}:{{$v}};{{/for}}", "{{for k v in 4}}{{$k}}:{{$v}};{{/for}}", "{{for k v in 0}}x{{/for}}", "{{for k v in -3}}x{{/for}}", "{{for k v in (add -1 4)}}{{$k}}{{type_of $k}}{{$v}}{{type_of $v}};{{/for}}", "{{for k v in []}}x{{/for}}", "{{for k v in {}}}x{{/for}}", "{{for k v in {a:1}}}{{$k}}={{$v}};{{/for}}", "{{for k v in {a:1,b:2,c:3}}}{{$k}}={{$v}};{{/for}}", "{{for k v in \"abc\"}}x{{/for}}", "{{for k v in null}}x{{/for}}", "{{for k v in true}}x{{/for}}", "{{for k v in 1.5}}x{{/for}}", "{{for k v in 1/1/2000}}x{{/for}}",
         "{{for k v in $nope}}x{{/for}}", "{{for k v in (q)}}x{{/for}}", "{{let l=[1 2 3]}}{{for k v in $l}}{{export l=[]}}{{$v}}{{/for}}{{len $l}}", "{{let n=3}}{{for k v in $n}}{{let n=1}}{{$v}}{{/for}}", "{{for k v in (p [1 2])}}{{p $v}}{{/for}}", "{{for i r in [[1 2] [] [3]]}}<{{for j v in $r}}{{$i}}{{$j}}{{$v}} {{/for}}>{{/for}}", "{{for k v in [1 2 3]}}{{if eq $v 2}}{{(q)}}{{/if}}{{$v}}{{/for}}", "{{for k v in [1 (q)]}}{{$v}}{{/for}}", "{{for k v in [null false \"\" []]}}{{$k}}{{type_of $v}};{{/for}}", "{{for k k in [7 8]}}{{$k}}{{/for}}", "{{for k v in [7 8]}}{{let k=9}}{{let v=9}}{{$k}}{{/for}}", "{{for k v in [7 8]}}{{export k=9}}{{$k}}{{$v}}{{/for}}{{$k}}",
         "{{for k v in 2}}{{for k v in 2}}{{$k}}{{/for}}{{$k}};{{/for}}", "{{for k v in [1 2]}}{{@let x}}{{$v}}{{/let}}{{$x}}{{/for}}", "{{for k v in (list 1 2 1 2)}}{{$v}}{{/for}}", "{{define d}}{{/define}}{{for k v in $d}}x{{/for}}", "{{for k v in $0}}{{$k}}={{$v}};{{/for}}", "{{for k v in -0}}x{{/for}}", "{{for k v in -9223372036854775808}}x{{/for}}", "{{for k v in 1}}{{for a b in $v}}x{{/for}}{{$k}}{{/for}}", "{{for k v in [1 2]}}{{return $v}}{{/for}}", "{{for 'a b' v in [1]}}{{$'a b'}}{{/for}}"],
 "C09": ["{{switch 1}}{{case 1}}a{{case 1}}b{{case _}}c{{/switch}}", "{{switch 2}}{{case 1}}a{{case 2 3}}b{{case _}}c{{/switch}}", "{{switch 3}}{{case 1}}a{{case 2 3}}b{{case _}}c{{/switch}}", "{{switch 4}}{{case 1}}a{{case 2 3}}b{{/switch}}d", "{{switch 4}}{{case 1}}a{{case}}b{{case _}}c{{/switch}}", "{{switch [1 2 3]}}{{case [1 2]}}a{{/switch}}", "{{switch [1]}}{{case [1 2]}}a{{case [1]}}b{{/switch}}", "{{switch []}}{{case [_]}}a{{case []}}b{{/switch}}", "{{switch {a:1,b:2}}}{{case {a:2}}}x{{case {c}}}y{{case {a:1}}}z{{/switch}}", "{{switch {a:1}}}{{case {}}}z{{/switch}}", "{{switch [1]}}{{case {}}}z{{case []}}y{{/switch}}", "{{switch {a:[1 {b:2}]}}}{{case {a:[<x> {b:<y>}]}}}{{$x}}{{$y}}{{/switch}}" + V5,
         "{{switch 5}}{{case ?(gt @ 3)}}big{{case _}}small{{/switch}}", "{{switch 2}}{{case ?(gt @ 3)}}big{{case _}}small{{/switch}}", "{{switch 2}}{{case ?(p 1)}}one{{case ?(p \"true\")}}str{{case ?(p true)}}t{{/switch}}", "{{switch 2}}{{case ?(q)}}e{{case ?($nope)}}f{{case _}}c{{/switch}}", "{{switch [1 2]}}{{case [<x> ?(eq @ $x)]}}same{{case [<x> ?(gt @ $x)]}}more{{$x}}{{/switch}}" + V5, "{{switch [2 2]}}{{case [<x> ?(eq @ $x)]}}same{{$x}}{{/switch}}", "{{let y=2}}{{switch [1 2]}}{{case [<x> ?(eq @ $y)]}}{{$x}}{{$y}}{{/switch}}", "{{as 1 : 1}}a{{/as}}", "{{as 1 : 2}}a{{/as}}b", "{{as [1 [2 3]] : <x:[_ <y:[2 <z>]>]>}}{{len $x}}{{len $y}}{{$z}}{{/as}}" + V5, "{{as {a:1} : {a:<x>}}}{{$x}}{{first $a \"-\"}}{{/as}}",
         "{{as {a:1,x:2} : {a x}}}{{$a}}{{$x}}{{/as}}" + V5, "{{as {a:1} : {a x}}}q{{/as}}" + V5, "{{as (q) : _}}a{{/as}}", "{{switch (q)}}{{case _}}a{{/switch}}", "{{as 1 : 1.0}}a{{/as}}", "{{as 1.0 : 1}}a{{/as}}", "{{as -1 : -1}}a{{/as}}", "{{as \"1\" : 1}}a{{/as}}", "{{as true : 1}}a{{/as}}", "{{as null : null}}a{{/as}}", "{{as 1/1/2000 : 1/jan/2000}}a{{/as}}", "{{as \"\" : null}}a{{/as}}", "{{as [] : []}}a{{/as}}", "{{switch 1}}{{case <x:2>}}a{{case <x:1>}}b{{$x}}{{/switch}}" + V5, "{{switch [1 2]}}{{case [<x> <y:3>]}}a{{case [<y> <x>]}}" + V5 + "{{/switch}}" + V5, "{{switch [1 2]}}{{case [<x> 3] [<y> 2]}}" + V5 + "{{/switch}}",
         "{{switch 1}}{{case 2 <x>}}{{$x}}{{/switch}}" + V5, "{{switch 5}}{{case ?(lt @ 3)}}a{{case ?(eq @ 5)}}{{first @ \"-\"}}b{{/switch}}{{first @ \"-\"}}", "{{switch \"s\"}}{{case <x>}}{{case _}}b{{/switch}}c", "{{switch [1 2]}}{{case [1 2] }}{{(q)}}{{case _}}b{{/switch}}", "{{as [1] : [<x>]}}{{(q)}}{{/as}}", "{{first (p null) (p 1)}}{{as [{a:1} {a:2}] : [_ {a:<x>}]}}{{$x}}{{/as}}", "{{as 5 : ?(p @)}}a{{/as}}", "{{as true : ?(p @)}}a{{/as}}", "{{as [1 2 3] : [_ _]}}a{{/as}}", "{{as [1 2 3] : [_ _ _ _]}}a{{/as}}b"],
 "C10": ["{{@p}}a{{\"b\"}}c{{/p}}", "{{@cat @ \"-\" @}}x{{/cat}}", "{{@cat 1 2}}x{{/cat}}", "{{@r}}x{{/r}}", "{{@r @}}x{{/r}}", "{{@r 1 @ (p 2)}}x{{/r}}", "{{@p}}{{@p}}in{{/p}}out{{/p}}", "{{@cat @ 1}}{{@cat @ 2}}i{{/cat}}o{{/cat}}", "{{@let x}}a{{p 1}}b{{/let}}<{{$x}}>", "{{if true}}{{@let x}}a{{/let}}{{$x}}{{/if}}{{first $x \"-\"}}", "{{if true}}{{@export x}}a{{/export}}{{$x}}{{/if}}{{$x}}", "{{@let x}}{{/let}}<{{$x}}>{{type_of $x}}", "{{@p}}{{p 1}}{{p 2}}{{/p}}", "{{@q}}x{{/q}}y", "{{@p}}{{(q)}}{{/p}}y", "{{@nosuch}}{{p 1}}{{/nosuch}}", "{{global g a}}<{{$a}}{{$0}}>{{/global}}{{@g}}x{{/g}}{{@g 1}}y{{/g}}{{@g @ 1}}z{{/g}}",
         "{{@len}}abc{{/len}}", "{{@html_esc}}<b>{{\"&\"}}{{/html_esc}}", "{{@type_of}}5{{/type_of}}", "{{@cat @ (cat @ @)}}x{{/cat}}", "{{@p (cat @)}}{{let x=1}}{{/p}}{{first $x \"-\"}}", "{{@run}}x{{/run}}", "{{@first @}}x{{/first}}", "{{@select true @ 1}}x{{/select}}", "{{@p}}{{/p}}", "{{@cat}}{{/cat}}|", "{{@count}}{{/count}}{{@count 1 2 3}}{{/count}}{{@count @}}{{/count}}", "{{@let x}}a{{@let y}}b{{/let}}{{$y}}c{{/let}}{{$x}}{{first $y \"-\"}}", "{{@let x}}{{let y=1}}{{export z=2}}{{/let}}" + V5, "{{@cat @ $y}}{{let y=1}}{{/cat}}", "{{let y=2}}{{@cat @ $y}}{{let y=1}}{{$y}}{{/cat}}", "{{@if}}x{{/if}}", "{{@cat [@ @] {a:@}.a}}x{{/cat}}", "{{@r [@ @] {a:@}}}x{{/r}}", "{{@p}}a{{/p}}{{first @ \"-\"}}", "{{@p @}}a{{/p}}{{first @ \"-\"}}", "{{@p}}{{@cat @ 1}}a{{/cat}}{{first @ \"-\"}}{{/p}}", "{{for k v in 2}}{{@p}}{{$v}}{{/p}}{{/for}}", "{{@let x}}1{{/let}}{{eq $x \"1\"}}{{eq $x 1}}"],
 "C11": ["{{r (p 1) (p 2) (p 3)}}", "{{r (p (p 1)) (p 2)}}", "{{r [(p 1) (p 2)] {a:(p 3),b:(p 4)}}}", "{{r (p 1) (q) (p 2)}}", "{{cat [(p 1) (q) (p 2)]}}", "{{p {a:(p 1),b:(q),c:(p 2)}}}", "{{first (p null) (p 1) (p 2)}}", "{{first (q) (p 1) (p 2)}}", "{{first (q) $nope (p null)}}", "{{first}}", "{{first (p false) (p 1)}}", "{{first (p 0)}}", "{{first (cat (q)) (p 1)}}", "{{first (r (p 1) (q)) (p 2)}}", "{{select (p true) (p 1) (p 2)}}", "{{select (p false) (p 1) (p 2)}}", "{{select (p 0) (p 1) (p 2) (p 3)}}", "{{select (p 1) (p 1) (p 2) (p 3)}}", "{{select (p 2) (p 1) (p 2) (p 3)}}", "{{select (p 3) (p 1) (p 2) (p 3)}}", "{{select (q) (p 1) (p 2)}}", "{{select true (q) (p 2)}}", "{{select false (q) (p 2)}}",
         "{{select true (p 1)}}", "{{select \"x\" (p 1) (p 2)}}", "{{select \"\" (p 1) (p 2)}}", "{{select null (p 1) (p 2)}}", "{{select -1 (p 1) (p 2)}}", "{{select 1.5 (p 1) (p 2)}}", "{{select 0.0 (p 1) (p 2)}}", "{{a}}{{(q)}}{{p 1}}", "{{p 1}}{{(q)}}{{p 2}}", "{{p 1}}{{if true}}{{(q)}}{{/if}}{{p 2}}", "{{let x=(p 1); y=(q); z=(p 2)}}", "{{export x=(p 1); y=(q); z=(p 2)}}", "{{nosuch (p 1)}}", "{{nosuch (p 1) (q)}}", "{{global g}}{{p 2}}{{(q)}}{{p 3}}{{/global}}{{r (p 1) (g) (p 4)}}", "{{global g}}{{first $0 \"-\"}}{{/global}}{{g (p 1) (p 2)}}", "{{define d}}{{p 9}}{{/define}}{{run $d (p 1) (p 2)}}", "{{run (p 1) (p 2)}}", "{{run (q) (p 2)}}", "{{run}}", "{{run 1}}",
         "{{@r (p 1) @ (p 2)}}{{p 0}}{{/r}}", "{{if (r (p 1) (q))}}a{{else}}{{p 2}}{{/if}}", "{{for k v in [(p 1) (p 2)]}}{{p $v}}{{/for}}", "{{switch (p 1)}}{{case ?(p false)}}a{{case ?(p true)}}b{{case ?(p 3)}}c{{/switch}}", "{{return (p 1)}}{{p 2}}", "{{first (first (q) (p null)) (p 1)}}", "{{first (select (q) 1 2) (p 1)}}", "{{and (p false) (p true)}}", "{{or (p true) (p false)}}", "{{first [(q)] (p 1)}}", "{{first {a:(q)} (p 1)}}", "{{first [(p null)] (p 1)}}", "{{select (eq (p 1) 1) (cat (p 2) (p 3)) (p 4)}}", "{{select 0 (p 1) (p 2) (q)}}", "{{select true (p 1) (p 2) (p 3)}}", "{{select 1 (p 1)}}", "{{select}}", "{{first (run $nope) (p 2)}}", "{{r (first (q) (p 1)) (q) (p 3)}}", "text{{(q)}}", "{{q}}", "{{r (p 1) $nope (p 3)}}", "{{@let x}}{{p 1}}{{(q)}}{{p 2}}{{/let}}{{p 3}}", "{{first (g) (p 1)}}{{global g}}{{p 5}}{{(q)}}{{/global}}{{first (g) (p 1)}}"],
}
# ----------------------------------------------------------------- C12
def c12(rng, id):
    ops = []
    names = ["g0", "g1", "cat", "len", "p"]
    def fm(fid):
        steps = []
        if rng.random() < .8: steps.append(st("defaults"))
        for _ in range(rng.randint(0, 4)):
            x = rng.random()
            if x < .65: steps.append(probe(rng.choice(names), "const", s("H%d" % rng.randint(1, 9))))
            elif x < .8: steps.append(probe(rng.choice(names), rng.choice(["count", "args", "id", "fail"])))
            else: steps.append(st(rng.choice(["strings", "lists", "bools", "math"])))
        rng.shuffle(steps) if rng.random() < .5 else None
        return op_fm(fid, *steps)
    fms = ["F", "E"]
    ops += [fm("F"), fm("E")]
    stores = ["S"]
    ops.append(op_store("S"))
    if rng.random() < .4: ops.append(op_store("R", rng.choice(["map", "none"]))); stores.append("R")
    tn = 0
    def call():
        n = rng.choice(names)
        return rng.choice(["{{%s}}", "{{%s 1}}", "{{first (%s) \"F\"}}", "{{first (%s 1 2) \"F\"}}", "{{@%s}}b{{/%s}}", "{{cat (%s)}}", "{{first (run (%s)) \"F\"}}"]).replace("%s", n) + ";"
    def gdef():
        n = rng.choice(names)
        b = rng.choice(["D%d" % rng.randint(0, 9), "D{{first $0 \"-\"}}", "D" + call(), "{{return %d}}" % rng.randint(0, 9)]) if rng.random() < .8 else "N" + "{{global %s}}I{{/global}}" % rng.choice(names)
        if n in b: b = "D"
        return "{{global %s%s}}%s{{/global}}" % (n, rng.choice(["", " a"]), b)
    def safe(x):
        # no template may call itself through others: bodies that call only host-free names could recurse
        return x
    for _ in range(rng.randint(3, 7)):
        x = rng.random()
        if x < .62:
            parts = []
            for _ in range(rng.randint(1, 5)):
                y = rng.random()
                if y < .45: parts.append(first_only(call(), rng))
                elif y < .65: parts.append(gdef0(rng, names))
                elif y < .8: parts.append("{{if %s}}%s{{else}}%s{{/if}}" % (rng.choice(["true", "false", "(q)"]), gdef0(rng, names), gdef0(rng, names) if rng.random() < .5 else ""))
                elif y < .85: parts.append("{{for k v in %d}}%s{{/for}}" % (rng.choice([0, 1, 2]), gdef0(rng, names)))
                elif y < .9: parts.append("{{define d}}%s{{/define}}%s" % (gdef0(rng, names), rng.choice(["", "{{run $d}}"])))
                else: parts.append("{{first (q) \"F\"}}")
            tn += 1
            ops += [op_parse("T%d" % tn, "".join(parts)), op_render("T%d" % tn, rng.choice(stores), rng.choice(fms), mode=rng.choice(["exp", "exp", "run"]))]
        elif x < .75:
            tn += 1
            ops += [op_parse("T%d" % tn, rng.choice(["I%d" % tn, "I{{first $0 \"-\"}}{{first $1 \"-\"}}", "I{{return 4}}", "I{{(q)}}", gdef0(rng, names) + "J"])), op_insert(rng.choice(stores), rng.choice(names), "T%d" % tn)]
        elif x < .82: ops.append(op_peek(rng.choice(stores), names))
        elif x < .9: ops.append(op_has(rng.choice(fms), names))
        elif x < .94: ops.append(op_store(rng.choice(stores), rng.choice(["map", "map", "none"])))
        else: ops.append(op_render("T%d" % max(1, tn), rng.choice(stores), rng.choice(fms)) if tn else op_peek("S", names))
    ops += [op_peek(x, names) for x in stores]
    ops += [op_has(x, names) for x in fms]
    return session(id, "C12", ops, lib=0)
def gdef0(rng, names):
    """a global definition whose body calls only names later in the list (no recursion)"""
    k = rng.randrange(len(names))
    later = names[k + 1:]
    b = rng.choice(["D%d" % rng.randint(0, 9), "D{{first $0 \"-\"}}", "{{return %d}}" % rng.randint(0, 9), ""])
    return "{{global %s%s}}%s{{/global}}" % (names[k], rng.choice(["", " a"]), b)
def first_only(c, rng): return c
C12_FIX = ["{{g0}}", "{{global g0}}a{{/global}}{{g0}}{{global g0}}b{{/global}}{{g0}}", "{{if false}}{{global g0}}a{{/global}}{{/if}}{{g0}}", "{{if true}}{{global g0}}a{{/global}}{{/if}}{{g0}}", "{{first (g0) \"F\"}}{{global g0}}a{{/global}}{{first (g0) \"F\"}}", "{{global cat}}mine{{/global}}{{cat 1 2}}", "{{global p}}mine{{/global}}{{p 1}}", "{{define g0}}a{{/define}}{{first (g0) \"F\"}}{{run $g0}}",
           "{{let g0=1}}{{first (g0) \"F\"}}", "{{global g0}}{{global g1}}x{{/global}}y{{/global}}{{first (g1) \"F\"}}{{g0}}{{g1}}", "{{global run}}x{{/global}}{{first (run) \"F\"}}{{@run}}y{{/run}}", "{{global first}}x{{/global}}{{first 1}}{{@first}}y{{/first}}", "{{global g0 a}}{{$a}}{{/global}}{{global g0}}n{{first $a \"-\"}}{{/global}}{{g0 1}}"]
# ----------------------------------------------------------------- C21
READF = FILES[:-1]
def c21(rng, id, root):
    base = root
    w = {"": None, "/in": None, "/in/a.txt": b"INSIDE {{export t = \"ti\"}}{{export f = file \"a.txt\"}}{{export e = env \"TV_ENV_A\"}}{{export x = exec \"echo\" \"hi\"}}", "/out": None, "/out/s.txt": b"SECRET"}
    # what a scanned file does on its own must not reach further than the values it exports
    reach = ['file "%s/out/s.txt"', 'file "%s/in/a.txt"', 'write "%s/out/w.txt" "W"', 'write "%s/in/w.txt" "W"', 'is_file "%s/in/a.txt"', 'dir "%s/in"', 'scan_dir "%s/in" 0', 'file_bytes "%s/out/s.txt"', 'env "TV_ENV_A"', 'exec "echo" "%s"', 'exec_stdin "cat" "%s"', 'p 1', 'cat "a" "b"', 'first (file "%s/out/s.txt") 5']
    for k in range(rng.randint(1, 3)):
        c = rng.choice(reach)
        w[rng.choice(["/in/s%d.txt", "/in/s%d.md"]) % k] = ("{{export t = \"%d\"}}{{export f = %s}}" % (k, c.replace("%s", base))).encode()
    kinds = [[], [st("folder", p=codes(base + "/in"))], [st("write", p=codes(base + "/in"))], [st("folder", p=codes(base + "/in")), st("write", p=codes(base + "/in"))], [st("exec")], [st("free")], [st("folder", p=codes(base + "/in")), st("exec")]]
    ops = [op_mkfs(base, w)]
    for n, k in enumerate(rng.sample(kinds, 3)):
        pre = rng.choice([[st("defaults")], [st("bools"), st("strings")], [st("strings"), st("lists"), st("path"), st("math"), st("format"), st("maps"), st("bools"), st("bytes"), st("rand"), st("svg")], []])
        steps = pre + k
        if rng.random() < .4: rng.shuffle(steps)
        ops.append(op_fm("F%d" % n, *(steps + [probe("p", "id")])))
        ops.append(op_has("F%d" % n, FILES + PROGS + ["cat", "filter", "p", "scan", "read", "open", "system", "sh", "exec_", "File", "getenv", "read_file"]))
        ops.append(op_store("S"))
        for _ in range(6):
            call = rng.choice(['file "a.txt"', 'file "in/a.txt"', 'file "%s/out/s.txt"' % base, 'file_bytes "a.txt"', 'dir "."', 'dir "in"', 'is_file "a.txt"', 'is_dir "in"', 'write "new.txt" "W"', 'write "in/new.txt" "W"', 'env "TV_ENV_A"', 'env "TV_ENV_NONE" "D"', 'exec "echo" "hi"', 'exec_stdin "cat" "hello"', 'scan_dir "." 1', 'scan_dir "in" 0', 'file_img_dimensions "a.txt"'])
            x = rng.random()
            if x < .45: src = "{{%s}}" % call
            elif x < .6: src = "{{first (%s) \"NO\"}}" % call
            elif x < .7: src = "{{len (filter [1] %s)}}" % strlit(call)
            elif x < .78: src = "{{@%s}}a.txt{{/%s}}" % (call.split()[0], call.split()[0])
            elif x < .86: src = "{{global g}}{{%s}}{{/global}}{{g}}" % call
            elif x < .93: src = "{{export v = %s}}" % call
            else: src = "{{for k v in (scan_dir \".\" 1)}}{{first $v.t \"-\"}}{{first $v.f \"-\"}}{{first $v.e \"-\"}}{{first $v.x \"-\"}}{{/for}}"
            if "scan_dir" in call and rng.random() < .5 and any(y["s"] in ("free", "folder") for y in k): ops.append(op_call("F%d" % n, "scan_dir", s(base + "/in" if k[0]["s"] == "free" else "."), u(rng.choice([0, 1, 3]))))
            ops += [op_parse("T", src), op_render("T", "S", "F%d" % n)]
            if rng.random() < .15: ops.append(op_front("T", "F%d" % n))
        ops.append(SNAP)
    return session(id, "C21", ops, lib=0)
def strlit(x): return '"' + x.replace("\\", "\\\\").replace('"', '\\"') + '"'
# ----------------------------------------------------------------- C22
def c22_value(rng, kind, d=3):
    """content a host value of this kind can carry"""
    v = V(rng)
    ks = ["a", "b", "c", "Name", "0", "1", "x y", "é"]
    def plain(d, js):
        x = rng.random()
        if d <= 0 or x < .5:
            c = [lambda: s(rng.choice(["t", "", "u v", "é", "7"])), lambda: boolean(rng.random() < .5), lambda: i(rng.choice([0, 1, -5, 7, 2**40, -2**63, 2**63 - 1])), lambda: f(rng.choice([1.5, -0.25, 2.0, 1e10]))]
            if js == "json": c += [lambda: NULL, lambda: u(rng.choice([0, 3, 2**63, U64]))]
            if js == "td": c += [lambda: NULL, lambda: u(rng.choice([0, 3, 2**63, U64])), lambda: date(2020, 2, 29), lambda: byts(b"ab")]
            if js == "toml": c += [lambda: {"t": "datetime", "s": codes(rng.choice(["1979-05-27T07:32:00Z", "1979-05-27", "07:32:00"]))}]
            return rng.choice(c)()
        if x < .72: return lst(*[plain(d - 1, js) for _ in range(rng.randint(0, 3))])
        return mp({k: plain(d - 1, js) for k in rng.sample(ks, rng.randint(0, 3))})
    if kind in ("td", "json", "toml"):
        x = plain(d, kind)
        while rng.random() < .6 and x["t"] not in ("map", "list"): x = plain(d, kind)
        if kind == "toml" and x["t"] != "map" and rng.random() < .5: x = mp({"a": x})
        return host(kind, x)
    if kind in ("map", "refmap"): return host(kind, mp({k: plain(d - 1, "td") for k in rng.sample(ks, rng.randint(0, 4))}))
    if kind == "strmap": return host(kind, mp({k: s(rng.choice(["t", "", "u"])) for k in rng.sample(ks, rng.randint(0, 4))}))
    if kind == "nummap": return host(kind, mp({k: u(rng.randint(0, 9)) for k in rng.sample(ks, rng.randint(0, 4))}))
    if kind == "strs": return host(kind, lst(*[s("s%d" % j) for j in range(rng.randint(0, 4))]))
    if kind == "kv": return host(kind, rng.choice([s("kv"), u(4), plain(2, "td")]), k=codes(rng.choice(ks)))
    if kind == "pair": return host("pair", a=c22_value(rng, rng.choice(C22_KINDS), 2), b=c22_value(rng, rng.choice(C22_KINDS), 2))
    if kind in ("string", "str"): return host(kind, s(rng.choice(["", "abc", "é"])))
    if kind == "usize": return host(kind, u(rng.choice([0, 5, 2**40])))
    if kind == "f64": return host(kind, f(rng.choice([0.0, 1.5, -2.0])))
    if kind == "bool": return host(kind, boolean(rng.random() < .5))
    cd = lambda d: s("c") if d <= 0 or rng.random() < .4 else i(rng.choice([1, -2])) if rng.random() < .4 else lst(*[cd(d - 1) for _ in range(rng.randint(0, 2))]) if rng.random() < .5 else mp({k: cd(d - 1) for k in rng.sample(ks[:3], rng.randint(0, 2))})
    if kind == "cdata": return host(kind, cd(2))
    m = {k: cd(2) for k in rng.sample(ks[:3], rng.randint(0, 3))}
    m["Name"] = s("N"); m["Num"] = u(rng.randint(0, 5))
    return host(kind, mp(m))
C22_KINDS = ["td", "json", "toml", "map", "refmap", "strmap", "nummap", "strs", "kv", "pair", "string", "str", "usize", "f64", "bool", "card", "cardx", "cdata"]
def c22_paths(rng, h):
    """a path that may lead somewhere"""
    if h["h"] == "pair": return c22_paths(rng, rng.choice([h["a"], h["b"]]))
    out = []
    v = h["v"]
    if h["h"] == "kv": out.append(h["k"] if rng.random() < .85 else codes("zz"))
    while rng.random() < .9:
        if v["t"] == "map":
            if v["m"] and rng.random() < .85:
                e = rng.choice(v["m"]); out.append(e["k"]); v = e["v"]; continue
            out.append(rng.choice([codes("zz"), 0, 1])); v = {"t": "null"}
        elif v["t"] == "list":
            if v["l"] and rng.random() < .85:
                k = rng.randrange(len(v["l"])); out.append(k); v = v["l"][k]; continue
            out.append(rng.choice([len(v["l"]), codes("a"), 2**40, U64])); v = {"t": "null"}
        else:
            if rng.random() < .6: break
            out.append(rng.choice([codes("a"), 0, 1]))
    return out
def c22(rng, id):
    ops = [std_fm(), op_store("S")]
    for _ in range(4):
        h = c22_value(rng, rng.choice(C22_KINDS if rng.random() < .6 else ["td", "json", "toml", "pair", "kv", "map"]))
        for _ in range(4):
            p = c22_paths(rng, h)
            ops.append(op_getv(h, [{"t": "n", "n": limbs(x)} if isinstance(x, int) else {"t": "i", "s": x} for x in p]))
        pt = c22_paths(rng, h)
        tx = "".join("." + (str(x) if isinstance(x, int) else txt(x) if re.fullmatch("[A-Za-z][A-Za-z0-9_]*", txt(x)) else "'" + txt(x) + "'") for x in pt)
        src = rng.choice(["{{let v=$0%s}}{{type_of $v}}", "{{export v=$0%s}}", "{{first (type_of $0%s) \"-\"}}", "{{global g a}}{{export v=(type_of $a)}}{{return $a}}{{/global}}{{export w=(g $0%s)}}", "{{let w=$0}}{{export v=$w%s}}", "{{$0%s}}", "{{first (type_of .0%s) (type_of $0%s) \"-\"}}", "{{export v=[$0%s]}}"]).replace("%s", tx)
        ops += [op_parse("T", src), op_render("T", "S", "F", [h] + ([td(u(1))] if rng.random() < .2 else []))]
    return session(id, "C22", ops, lib=0)
def same_kinds(rng, id):
    """the same data in each representation that can carry it"""
    m = mp({"a": lst(s("x"), s("y"), mp({"b": s("z")})), "n": s("7"), "m": mp({"k": lst(lst(s("deep")))})})
    hs = [host("td", m), host("json", m), host("toml", m), host("map", m), host("refmap", m), host("pair", a=host("strmap", mp({})), b=host("json", m)), host("pair", a=host("kv", m["m"][0]["v"], k=codes("a")), b=host("map", m))]
    srcs = ["{{$0.a.0}}{{$0.a.2.b}}{{$0.n}}{{$0.m.k.0.0}}", "{{for k v in $0.a}}{{$k}}{{first $v.b $v}};{{/for}}", "{{len $0.a}}{{first $0.zz \"-\"}}{{first $0.a.3 \"-\"}}{{first $0.a.b \"-\"}}{{first $0.n.0 \"-\"}}{{first $0.m.0 \"-\"}}"]
    ops = [std_fm(), op_store("S")]
    for x in srcs:
        ops.append(op_parse("T", x))
        for h in hs: ops.append(op_render("T", "S", "F", [h]))
    return session(id, "C22", ops, lib=0)
# ----------------------------------------------------------------- C23 literals
def c23_lit(rng, d=2):
    r = rng
    x = r.random()
    if d > 0 and x < .22:
        return "[" + r.choice(["", " ", "\n"]) * 0 + r.choice([" ", ",", ", ", " , ", "\n"]).join(c23_lit(r, d - 1) for _ in range(r.randint(0, 3))) + "]"
    if d > 0 and x < .38:
        return "{" + ",".join("%s:%s" % (r.choice(["a", "b", "'x y'", '"q\\"k"', "c_1", "a"]), c23_lit(r, d - 1)) for _ in range(r.randint(0, 3))) + "}"
    k = r.randrange(8)
    if k == 0: return r.choice(["null", "true", "false"])
    if k == 1: return str(r.choice(WHOLE + [r.getrandbits(70), U64 + 1, 10**20, 7]))
    if k == 2: return "-" + str(r.choice(WHOLE[:-3] + [I63, I63 + 1]))
    if k == 3:
        q = r.choice(["", "-"]) + r.choice(["0", "1", "12", "123456789", "9007199254740993", "0001", "1_0", "179769313486231570000"]) + "." + r.choice(["", "0", "5", "25", "1", "000001", "1234567890123456789", "3_3", "9999999999999999999"]) + r.choice(["", "", "", "e3", "e-3", "e0", "e22", "e-22", "e308", "e-320", "e400", "e-400"])
        return q
    if k == 4: return "%s/%s/%s" % (r.choice(["1", "29", "30", "31", "0", "32", "01"]), r.choice(["1", "2", "4", "12", "13", "0", "feb", "dec", "Jan", "02"]), r.choice(["2020", "2021", "1900", "0", "-1", "99999", "262142", "262143", "2000"]))
    if k == 5: return '"' + "".join(r.choice(["a", " ", "\\n", "\\t", "\\\"", "\\\\", "\\/", "\\u00e9", "\\u0041", "é", "\U0001F600", "\n", "\\b", "\\f", "\\r", "{{", "}}", "'", "\\uFFFD", "\\u12", "\\ud800", "\\q", "\\u000a"]) if r.random() < .8 else "x" for _ in range(r.randint(0, 4))) + '"'
    if k == 6: return r.choice(['r#"raw"#', 'r#"a"b"#', 'r#"\\n"#', 'r#""#', 'r#"}}"#', "1_000", "1__0", "00", "007", "-007", "1.", "-0", "-0.0", ".5"])
    return str(r.randint(0, 99))
def c23(rng, id):
    l = L(rng)
    if rng.random() < .5:
        ops = [std_fm()]
        for _ in range(8):
            e = c23_lit(rng)
            src = rng.choice(["{{export v=%s}}", "{{export v=%s}}", "{{export v=(%s)}}", "{{p %s}}", "{{export v = %s ; w=1}}", "{{export v=[%s]}}", "{{as 1:%s}}m{{/as}}"]).replace("%s", e) if not e.startswith(".") else "{{export v=%s}}" % e
            ops += [op_store("S"), op_parse("T", src), op_render("T", "S", "F")]
        return session(id, "C23", ops, lib=0)
    cs = [l.data() for _ in range(10)]
    ops = [std_fm()] + [op_call("F", f_, *a) for f_, a in cs]
    for _ in range(4):
        jv = l.jval()
        ops += [op_store("S"), op_parse("T", "{{let j=(w_json $0)}}{{export r=(r_json $j)}}"), op_render("T", "S", "F", [td(jv)])]
    b = byts(bytes(rng.randrange(256) for _ in range(rng.randint(0, 9))))
    ops += [op_store("S"), op_parse("T", "{{export r=(from_base64 (as_base64 $0))}}"), op_render("T", "S", "F", [td(b)])]
    return session(id, "C23", ops, lib=1)
# ----------------------------------------------------------------- C24
def c24(rng, id):
    g = G(rng, weights=dict(export=8, atexport=4, let=2, iff=2, loop=1, as_=1, switch=1, block=1, define=1, glob=1, call=1, text=3, emit=2, err=1), errors=.15)
    src = g.stmts(2, rng.randint(2, 7))
    ops = [std_fm(), op_store("S"), op_parse("T", src), op_front("T", "F"), op_render("T", "S", "F", [td(u(1))] if rng.random() < .5 else []), op_front("T", "F"), op_peek("S", ["g0", "g1"])]
    return session(id, "C24", ops, lib=0)
C24_FIX = ["{{export a=1}}{{export b=$a}}{{export c=$nope}}{{export d=(cat $b \"x\")}}", "{{export a=1; b=(q); c=$a}}", "{{export a=1; a=2}}{{export b=$a}}", "{{export a=$0}}{{export b=2}}", "{{@export a}}t{{\"x\"}}{{/export}}{{export b=$a}}", "{{@export a}}t{{(q)}}{{/export}}{{export b=(first $a \"none\")}}", "{{if true}}{{export a=1}}{{/if}}{{export b=2}}", "{{let a=1}}{{export b=$a}}", "{{let a=1}}{{export b=(first $a 5)}}", "{{p 1}}{{export a=2}}", "{{export a=1}}{{export a=(q)}}{{export b=$a}}", "{{global g}}x{{/global}}{{export a=(g)}}{{export b=1}}", "{{define d}}x{{/define}}{{export a=(run $d)}}{{export b=1}}", "{{@export a}}{{let z=1}}{{$z}}{{/export}}{{export b=(first $z \"-\")}}", "{{@export a}}{{export q=1}}{{/export}}{{export b=(first $q \"-\")}}", "{{@export a}}{{if true}}{{let z=3}}{{(q)}}{{/if}}{{/export}}{{export b=(first $z \"-\")}}", "text", "", "{{export a=[1 2]}}{{export b=$a.1}}{{export c=$a.2}}{{export d={k:$b}}}{{export e=$d.k}}", "{{(q)}}{{export a=1}}", "{{export a=1}}{{(q)}}{{export b=2}}", "{{@export a}}{{global g}}x{{/global}}y{{/export}}{{export b=(first (g) \"-\")}}", "{{for k v in 2}}{{export a=$v}}{{/for}}{{export b=1}}", "{{return 5}}{{export a=1}}", "{{export return=5}}", "{{export a=@}}{{export b=1}}", "{{export x=(p 1); y=(p $x)}}{{@export z}}{{p $y}}{{/export}}"]
# ----------------------------------------------------------------- C26
ONE = re.compile(r"[{][^{}]*,[^{}]*[}]")
def no_wide_maps(src): return not re.search(r"\{[^{}]*:[^{}]*,", src.replace("{{", "\x01").replace("}}", "\x02"))
def one_map_prog(rng, **kw):
    for _ in range(60):
        g = G(rng, **kw)
        src = g.stmts(3, rng.randint(2, 6))
        if no_wide_maps(src) and " b:" not in src and ",b:" not in src: return src
    return "{{let x=1}}{{$x}}"
def c26(rng, id, base):
    src = one_map_prog(rng, weights=dict(glob=1 if rng.random() < .3 else 0))
    other = one_map_prog(rng, errors=.4, weights=dict(err=4, glob=0, let=6, export=4))
    ps = [td(u(7)), td(lst(s("a"), u(2)))][:rng.randint(0, 2)]
    w = {"": None, "/d": None, "/d/t.ito": src.encode()}
    ops = [op_mkfs(base, w), std_fm(), op_fm("G", st("defaults"), *PROBES), op_store("S"), op_store("R"), op_parse("T", src), op_parse("O", other)]
    first = len(ops) + 1
    def rend(t, store="S", fmm="F", p=ps): ops.append(op_render(t, store, fmm, p)); return len(ops)
    # a template that defines globals starts from what is stored: use one warm-up render, then compare
    glob = "global" in src
    if glob: rend("T")
    a = rend("T")
    idx = []
    for _ in range(rng.randint(2, 5)):
        x = rng.random()
        if x < .25: idx.append(rend("T"))
        elif x < .45: rend("O", p=[td(s("zz"))]); idx.append(rend("T"))
        elif x < .6: ops.append(op_clone("U", "T")); idx.append(rend("U"))
        elif x < .75: ops.append(op_parse("U", src)); idx.append(rend("U"))
        elif x < .9: ops.append(op_load("U", "/d/t.ito")); idx.append(rend("U"))
        else:
            ops.append(op_front("T", "F")); idx.append(rend("T", fmm="G"))
    for j in idx: ops.append(op_same(a, j))
    ops.append(op_render("T", "S", "F", ps, "run"))
    ops.append(op_peek("S", ["g0", "g1", "x", "y"]))
    return session(id, "C26", ops, lib=0)
def wide(x):
    """holds a map of several entries, whose order is not fixed"""
    if isinstance(x, dict):
        if x.get("t") == "map" and len(x["m"]) > 1: return True
        return any(wide(y) for y in x.values())
    return isinstance(x, list) and any(wide(y) for y in x)
C26_RX = ["abc", "ABC", "a.c", "a\\.c", "(", "^a", "a$", "", "(?i)abc", "[a-c]+", "é"]
def c26_calls(rng, id, base):
    """a handful of calls made again and again in random order: what a call
    returns does not depend on the calls made before it"""
    l = L(rng)
    w = {"": None, "/a": b"first", "/b": "s\u00e9cond".encode(), "/bad": b"ok\xff\xfe", "/d": None, "/d/x.md": b"{{export t=1}}x", "/d/y.md": b"{{export t=", "/d/z.txt": b"z"}
    pool = []
    kinds = ["compare", "sortf", "searchf", "listf", "arith", "strf", "escf", "data", "pathf", "markup"]
    while len(pool) < 5:
        f_, a = getattr(l, rng.choice(kinds))()
        if not wide(a) and f_ != "rand" and "map" not in f_: pool.append((f_, a))
    subj = rng.choice(["abc", "ABC", "xabcx", "a.c", ""])
    rx = rng.sample(C26_RX, 2)
    rx.append(rx[0].upper() if rng.random() < .5 else rx[0].lower())
    for x in rx: pool.append(("regex", [s(subj), s(x)]))
    P = lambda *n: [s(base + "/" + x) for x in n]
    pool += [("file", P(*a)) for a in rng.sample([("a",), ("b",), ("a", "b"), ("a", "none"), ("none", "a"), ("none",), ("bad",), ("a", "bad"), ("d",), ("b", "d")], 4)]
    pool += [("file_bytes", P(*a)) for a in rng.sample([("a",), ("bad",), ("a", "none"), ("none",), ("a", "d")], 2)]
    pool += rng.sample([("scan_dir", P("d")), ("scan_dir", P("d") + [u(1), s("md$")]), ("scan_dir", P("none")), ("scan_dir", P("d") + [u(1), s("(")]), ("dir", P("d")), ("dir", P("a")), ("is_file", P("a")), ("is_dir", P("a")), ("is_file", P("none"))], 2)
    pool += rng.sample([("r_json", [s(x)]) for x in ("[1,2", "[1,2]", "{\"a\":1}", "{\"a\":", "\"x", "\"x\"", "1.5", "1.5x")], 2)
    ops = [op_mkfs(base, w), op_fm("F", st("defaults"), st("free"), *PROBES)]
    first, n = {}, 26
    def call(k):
        ops.append(op_call("F", pool[k][0], *pool[k][1]))
        if k in first: same.append((first[k], len(ops)))
        else: first[k] = len(ops)
    same = []
    some = rng.sample(range(len(pool)), min(len(pool), 9))
    for k in some: call(k)
    for _ in range(n): call(rng.choice(some))
    for a, b in same: ops.append(op_same(a, b))
    ops.append({"op": "snap"})
    return session(id, "C26", ops, lib=0)
# ----------------------------------------------------------------- C27
def c27(rng, id):
    l = L(rng)
    v = l.v
    ops = [std_fm()] + [op_call("F", *(lambda f_, a: (f_, *a))(*l.show())) for _ in range(12)]
    def val():
        x = rng.random()
        if x < .4: return v.num()
        if x < .55: return v.num_f()
        if x < .8: return v.scalar()
        return v.list_(2)
    for _ in range(8):
        a = val()
        src = rng.choice(["{{$0}}", "{{$0}}|{{cat $0}}|{{@let x}}{{$0}}{{/let}}{{$x}}", "{{cat \"<\" $0 \">\"}}", "{{p $0}}", "{{[$0 1]}}", "{{join_with \"|\" [$0 $0]}}", "{{for k v in [$0]}}{{$v}}{{/for}}", "{{@cat @ $0}}{{$0}}{{/cat}}", "{{global g a}}{{$a}}{{/global}}{{g $0}}", "{{if true}}{{$0}}{{/if}}", "{{html_esc $0}}", "{{str_replace $0 \"~\" \"\"}}", "{{select true $0 1}}", "{{first $0 \"NULL\"}}", "{{len (cat $0)}}", "{{split $0 \"~\"}}"])
        ops += [op_store("S"), op_parse("T", src), op_render("T", "S", "F", [td(a)] if rng.random() < .8 or a["t"] in ("bytes",) else [td(a)])]
    lit = rng.choice(["1.10", "100", "-5", "1.0", "0.1", "12/03/2020", "1/jan/99", "null", "true", "[1 2]", "[]", "[\"a\" [1.5]]", "18446744073709551615", "1.5e3", "0.000001", "123456789.125", "{}", "\"\"", "-0.0", "1.0e15", "1.0e22", "1.5e-7", "5/6/12345"])
    ops += [op_store("S"), op_parse("T", "{{%s}}" % lit), op_render("T", "S", "F")]
    return session(id, "C27", ops, lib=1)
# ----------------------------------------------------------------- C28
def c28(rng, id):
    ops = []
    for _ in range(6):
        x = rng.random()
        k = 0
        if x < .3:
            n = rng.choice([1, 2, 3, 5, 8, 10**6, 2**40, U64, 2**63])
            a = [u(n)]; k = n
        elif x < .45:
            n = rng.choice([1, 2, 5, 2**40, I63 - 1]); a = [i(n)]; k = n
        elif x < .6:
            lo = rng.choice([0, 1, 5, 100, 2**40]); n = rng.choice([1, 2, 4, 8, 1000]); t = rng.choice([(u, u), (i, i), (u, i), (i, u)])
            a = [t[0](lo), t[1](lo + n)]; k = n
        elif x < .72:
            lo = rng.choice([-1, -5, -100, -I63]); n = rng.choice([1, 2, 3, 7, 200]); a = [i(lo), rng.choice([i])(lo + n)]; k = n
        elif x < .8:
            lo = rng.choice([0.0, -1.5, 2.0, 1e10]); a = [f(lo), f(lo + rng.choice([1.0, 0.5, 100.0]))]; k = 1
            if rng.random() < .3: a = [rng.choice([u(0), i(-3)]), f(4.5)]
        elif x < .9:
            n = rng.randint(1, 6); a = [lst(*[u(10 * j) if rng.random() < .5 else s("e%d" % j) for j in range(n)])]; k = len({repr(e) for e in a[0]["l"]})
        elif x < .93: a = []; k = 2
        else: a = rng.choice([[u(0)], [i(0)], [i(-1)], [u(3), u(3)], [u(5), u(3)], [lst()], [s("x")], [NULL], [u(1), s("x")], [f(float("nan"))], [f(float("inf"))], [f(1.0), f(1.0)], [f(0.0)], [f(-1.0)], [mp({"a": u(1)})], [f(2.0), f(1.0)], [f(-1e308), f(1e308)], [f(1.0), f(float("nan"))], [s("a"), u(3)], [u(1), u(2), u(3)], [lst(u(1)), u(2)], [boolean(True)]])
        big = k > 8
        ops.append(op_rands(a, 400 if k <= 8 else 60, min(k, 8) if k <= 8 else 1))
    return session(id, "C28", ops, lib=1)
# ----------------------------------------------------------------- C19, C20: the file system
def png(w, h):
    import zlib, struct
    def ch(t, d): return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d) & 0xffffffff)
    return b"\x89PNG\r\n\x1a\n" + ch(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 0, 0, 0, 0)) + ch(b"IDAT", zlib.compress((b"\0" + b"\0" * w) * h)) + ch(b"IEND", b"")
FRONT = [b"plain", b"", b"{{export title = \"T1\"}}body", b"{{export a = 1; b = $a}}{{let c = 3}}", b"{{export a = 1}}{{export z = $nope}}{{export d = [1 2]}}", b"{{if true}}broken", b"{{@export t}}x{{\"y\"}}{{/export}}", b"\xff\xfe", b"{{export item_path = \"own\"}}", b"{{for k v in 2}}{{export q=1}}{{/for}}{{export r=2}}"]
def world(rng):
    w = {"": None, "/in": None, "/out": None, "/inner": None, "/out/s.txt": b"SECRET", "/inner/i.txt": b"INNER", "/out/sub": None, "/out/sub/a.txt": b"OUTSUB", "/top.txt": b"TOP"}
    dirs = ["/in"]
    for d in ["/in/sub", "/in/sub/deep", "/in/_priv", "/in/sub/_p", "/in/empty", "/in/.dot", "/in/in", "/in/b c"]:
        if rng.random() < .6 and d.rsplit("/", 1)[0] in w: w[d] = None; dirs.append(d)
    for n in range(rng.randint(2, 8)):
        d = rng.choice(dirs)
        p = d + "/" + rng.choice(["a.txt", "b.md", "c.tar.gz", "_h.txt", ".hid", "noext", "é.txt", "p.png", "x y", "s.txt", "..a", "a..b", "..."])
        if p in w: continue
        if p.endswith("png"): a, b = rng.randint(1, 9), rng.randint(1, 9); w[p] = ("img", png(a, b), a, b)
        else: w[p] = rng.choice(FRONT) if rng.random() < .7 else ("n%d" % n).encode()
    if rng.random() < .35: w["/in/lnk"] = ("link", "/out")
    if rng.random() < .25: w["/in/lf"] = ("link", "/out/s.txt")
    if rng.random() < .2 and "/in/sub" in w: w["/in/sub/up"] = ("link", "/in")
    return w
SEG = ["a.txt", "b.md", "sub", "deep", "_priv", "..", "..", ".", "", "in", "out", "inner", "s.txt", "new", "lnk", "lf", "up", "p.png", "é.txt", "empty", "i.txt", "top.txt", "x y", ".hid", "noext", "...", "..a", "a..b", "nosuch", ".dot", "b c"]
def fpath(rng, w, base, known=True):
    x = rng.random()
    paths = [p for p in w if p]
    if x < .35:
        p = rng.choice(paths)
        if p.startswith("/in/") and rng.random() < .8: p = p[4:]
        elif rng.random() < .5: p = p[1:]
        else: p = rng.choice(["", base]) + p
        if rng.random() < .3:
            q = p.split("/")
            k = rng.randrange(len(q) + 1)
            q[k:k] = rng.choice([["."], ["sub", ".."], ["nosuch", ".."], [".."], ["in", ".."], ["..", "in"], ["..", "inner"], [""], ["empty", "..", "sub", ".."]])
            p = "/".join(q)
        return p
    p = "/".join(rng.choice(SEG) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])))
    if x < .5: p = "../" * rng.randint(1, 3) + rng.choice(["out/s.txt", "inner/i.txt", "in/a.txt", "out", "inner", "in", "top.txt", "", p, "out/sub/a.txt", "inner/new"])
    elif x < .6: p = rng.choice([base + "/in/", base + "/out/", base + "/inner/", base + "/", "/", "//", base + "/in", base + "/in/../out/", base + "/inner"]) + p
    return p
def fsess(rng, id, prop, base):
    w = world(rng)
    ops = [op_mkfs(base, w)]
    lock = rng.choice([base + "/in"] * 5 + ["in", "./in", base + "/in/sub" if "/in/sub" in w else base + "/in", base + "/./in", base + "/in/.", base + "//in", "in/.", base + "/out/../in"])
    wl = lock if rng.random() < .7 else base + "/in"
    ops.append(op_fm("F", st("defaults"), st("folder", p=codes(lock)), st("write", p=codes(wl))))
    ops.append(op_fm("X", st("defaults"), st("free")))
    free = prop == "C20"
    n = 14
    recent = []
    for _ in range(n):
        fm = "X" if free and rng.random() < .4 else "F"
        f_ = rng.choice(["file", "file", "file_bytes", "is_file", "is_dir", "dir", "scan_dir", "file_img_dimensions", "write", "write", "write"])
        def pth():
            if recent and rng.random() < .35: return rng.choice(recent)
            for _ in range(50):
                p = fpath(rng, w, base)
                if fm == "X":
                    # stay inside the scratch folder
                    if p.startswith("/") and not p.startswith(base): continue
                    rel = p[len(base):] if p.startswith(base) else p
                    d = 0; ok = True
                    for c in rel.split("/"):
                        if c == "..": d -= 1
                        elif c not in ("", "."): d += 1
                        if d < 0: ok = False
                    if not ok: continue
                    if f_ == "write" and (p.endswith("/") or ".." in p.split("/") or p == ""): continue
                    if p.startswith(base) and p[len(base):][:1] not in ("", "/"): continue
                return p
            return "in/a.txt"
        if f_ in ("file", "file_bytes", "is_file", "is_dir", "dir"):
            a = [s(pth()) for _ in range(rng.choice([1, 1, 1, 1, 2, 3, 0]))]
        elif f_ == "scan_dir":
            p = rng.choice([".", "", "sub", "in", base + "/in"]) if rng.random() < .7 else pth()
            if fm == "X" and p == "": p = "."
            a = [s(p)] + rng.choice([[], [u(0)], [u(1)], [u(2)], [i(1)], [u(9)], [s("x")], [u(2), s("txt")], [u(2), s("\\.txt$")], [u(1), s("sub")], [u(3), s("^/tmp")], [u(3), s("a")], [u(2), s("")], [u(2), s("(")]])
        elif f_ == "file_img_dimensions": a = [s(rng.choice(["p.png", "sub/p.png", "in/p.png", pth()]))] if rng.random() < .95 else rng.choice([[], [u(1)]])
        else:
            p = pth()
            if rng.random() < .5: p = rng.choice(["new.txt", "sub/new.txt", "n1/n2/n3.txt", "a.txt", "n1/x", "n1", "sub/../w.txt", "sub/deep/z"]) if fm == "F" else rng.choice(["in/new.txt", "w/new.txt", "in/sub/q", base + "/in/a.txt", "n1/n2"])
            recent.append(p)
            body = rng.choice(["", "A", "content\n", "é\U0001F600", "{{export k = 5}}", "x" * 50, "A"])
            a = [s(p), s(body)] + ([s("more")] if rng.random() < .15 else [])
            if rng.random() < .05: a = a[:1]
            if len(a) > 1 and rng.random() < .05: a[1] = rng.choice([u(42), NULL, lst(u(1), s("a")), f(1.5), boolean(True)])
        if rng.random() < .12 and all(x["t"] == "str" and '"' not in txt(x["s"]) and "\\" not in txt(x["s"]) for x in a):
            ops += [op_store("S"), op_parse("T", "{{let r = (%s %s)}}{{export r=$r}}" % (f_, " ".join('"%s"' % txt(x["s"]) for x in a))), op_render("T", "S", fm)]
        else: ops.append(op_call(fm, f_, *a))
        if f_ == "write" and rng.random() < .5: ops.append(SNAP)
    ops.append(SNAP)
    return session(id, prop, ops, lib=1)
def f19_fixed(base):
    """every way out there is, tried on every function"""
    w = {"": None, "/in": None, "/in/sub": None, "/in/sub/a.txt": b"A", "/in/a.txt": b"A0", "/out": None, "/out/s.txt": b"SECRET", "/out/p.png": ("img", png(3, 4), 3, 4), "/inner": None, "/inner/i.txt": b"I", "/in/in": None, "/in/in/x": b"X"}
    outs = ["..", "../", "../out", "../out/s.txt", "../out/p.png", "../inner", "../inner/i.txt", "sub/../../out/s.txt", "sub/../..", "/", "/..", base, base + "/", base + "/out", base + "/out/s.txt", base + "/inner/i.txt", base + "/in/../out/s.txt", base + "/in/../../w/out/s.txt", "../in/../out/s.txt", "nosuch/../../out/s.txt", "./../out/s.txt", "sub/./../../inner/i.txt", "../../w/out/s.txt", "//" + base + "/out/s.txt",
            "../in/a.txt", "sub/../a.txt", "./a.txt", "a.txt", "", ".", "sub", "sub/..", "sub/../sub/a.txt", base + "/in", base + "/in/a.txt", base + "/in/sub/../a.txt", "in/x", "in/../a.txt", "a.txt/../../out/s.txt", "a.txt/..", "../inner/new", "../out/new", base + "/inner/new", base + "/in/new2", "new/../new3", "../new4", "new5/../../out/new5", base + "/innew", "...", ".../x"]
    S_ = []
    for k in range(0, len(outs), 12):
        ops = [op_mkfs(base + "%d" % k, {p: c for p, c in w.items()})]
        b2 = base + "%d" % k
        ops.append(op_fm("F", st("defaults"), st("folder", p=codes(b2 + "/in")), st("write", p=codes(b2 + "/in"))))
        for p in outs[k:k + 12]:
            p = p.replace(base, b2)
            for f_ in FILES:
                a = [s(p)] + ([s("W")] if f_ == "write" else [])
                ops.append(op_call("F", f_, *a))
            ops.append(SNAP)
        S_.append(session("f19-%d" % k, "C19", ops, lib=1))
    return S_
# ----------------------------------------------------------------- C03
def mutate(rng, t):
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        if not t: t = "{{"
        k = rng.randrange(len(t) + 1)
        x = rng.random()
        if x < .3: t = t[:k] + t[k + rng.choice([1, 1, 2, 5]):]
        elif x < .75: t = t[:k] + rng.choice(["{{", "}}", "{", "}", "\\", "-", "\"", "'", "#", "$", ".", "@", "(", ")", "[", "]", ":", ";", ",", "=", "<", ">", "?", "/", "é", "\U0001F600", "\u00a0", "\n", " ", "r#\"", "\"#", "{{-", "-}}", "0", "_", "{{/if}}", "{{else}}", "{{case", "/", "1/1/", "e", "0.", "\\u"]) + t[k:]
        elif x < .9:
            j = rng.randrange(len(t) + 1); a, b = min(j, k), max(j, k)
            t = t[:a] + t[b:] if rng.random() < .5 else t[:b] + t[a:b][:30] + t[b:]
        else: t = t[:k]
    return t
def safe_src(t):
    if "global" in t or ("run" in t and "define" in t): return False
    if "for" in t and re.search(r"\d{3,}", t): return False
    return True
def c03_templates(rng, id, n):
    ops = [std_fm()]
    k = 0
    while k < n:
        x = rng.random()
        if x < .5: t = mutate(rng, G(rng, weights=dict(glob=0, call=0, define=0)).stmts(2, rng.randint(1, 4)))
        elif x < .65: t = mutate(rng, tags(rng, rng.randint(1, 8)))
        elif x < .8: t = "".join(text_piece(rng) for _ in range(rng.randint(1, 12)))
        elif x < .9: t = "{{" + "".join(rng.choice(["a", "1", " ", ".", "$", "(", ")", "[", "]", "{", "}", "\"", "'", ":", ",", "let ", "if ", "for ", "=", "-", "@", "/", "#", "<", ">", "?", "_", "é", "\\", "x", "in ", "null", "true", "case ", "as ", "switch ", "\n", ";"]) for _ in range(rng.randint(1, 14))) + rng.choice(["}}", "}}", "", "-}}", "}"])
        else: t = mutate(rng, "{{export v=%s}}" % c23_lit(rng))
        if not safe_src(t): continue
        ops += [op_store("S"), op_parse("T", t), op_render("T", "S", "F", some_params(rng)), op_front("T", "F")]
        k += 1
    return session(id, "C03", ops, lib=0, mode="total")
RX = ["", "a", "(", ")", "[", "a{1000000}", "a{2}{3}", "*", "(?P<x>a)", "\\", "\\d+", "(a|b)*c", "^$", "[[:alpha:]]", "(?i)A", "\\p{L}", "é+", "a**", "(?:", "x{,3}"]
MD = ["# h", "*a* **b**", "- x\n- y", "1. a\n2. b", "> q\n> r", "```\ncode", "`c`", "[l](u)", "![i](u)", "a\n===", "| a | b |\n|---|---|\n| 1 | 2 |", "<b>", "&amp;", "[^1]\n[^1]: x", "***", "\\*", "- [ ] x", "a  \nb", "~~s~~", "\t\tcode", "[a", "](", "![", "<!--", "&#0;", "\u0000"]
CARDS = ["", "a", "Name:x", "2 Card\n  a:1", "3 c\n a:b\n b:[1,2]\n", "Card\n\tx: {a:1}\n", "1 a\n2 b", "-", "x 1\n:", "[", "{", "1 \n", "99999999999999999999 a", "a\n b:\n c", "é\n é:é"]
def c03_calls(rng, id, n):
    l = L(rng)
    v = l.v
    ops = [op_fm("F", st("defaults"))]
    for _ in range(n):
        x = rng.random()
        if x < .7: f_, a = l.wild(NAMES_ALL)
        elif x < .76: f_, a = "regex", [v.str_(), s(rng.choice(RX) + rng.choice(RX))]
        elif x < .82: f_, a = "md", [s("\n".join(rng.choice(MD) for _ in range(rng.randint(1, 4))))]
        elif x < .87: f_, a = "r_card", [s(mutate(rng, rng.choice(CARDS)))]
        elif x < .92: f_, a = "r_json", [s(mutate(rng, l.rjson(l.jval(3))))]
        elif x < .95: f_, a = "table", [s(mutate(rng, txt(l.tablef()[1][0]["s"]) if False else "|a|b|\n-|c|d|\n*|e|f|"))]
        elif x < .975: f_, a = rng.choice(["filter", "sort_on"]), [v.list_(2), s(mutate(rng, rng.choice(["gt $0 1", "a.b", "-a", "eq .a [1 2]", "select $0 1 2", "first (x) $0", "run", "0", ""])))]
        else: f_, a = "word_wrap", [s("".join(rng.choice([" ", "a", "é", "\n", "\u2003", "\u00a0", "bcd", "\u200b"]) for _ in range(rng.randint(0, 15)))), v.small()]
        if f_ == "debug": f_ = "cat"
        ops.append(op_call("F", f_, *a))
    return session(id, "C03", ops, lib=1, mode="total")
def c03_files(rng, id, base):
    x = fsess(rng, id, "C03", base)
    l = L(rng)
    for _ in range(6):
        x["ops"].append(op_call("F", rng.choice(["file", "dir", "scan_dir", "is_file", "is_dir", "file_bytes", "file_img_dimensions"]), *[l.v.any(1) if rng.random() < .5 else s(rng.choice(SEG)) for _ in range(rng.randint(0, 3))]))
        x["ops"].append(op_call("F", "write", *[s(rng.choice(["w1", "sub/w2", "", ".", "..", "w1/w3", "/"])), l.v.any(1)][:rng.randint(0, 2)]))
    x["mode"] = "total"
    return x
def c03_get(rng, id):
    x = c22(rng, id)
    x["mode"] = "total"; x["prop"] = "C03"
    return x
C03_FIX = ["{{$x!}}", "{{$x$y}}", "a {{- $x!}}", "{{$x.y!}}", "{{$x(a)}}", "{{$x-", "ok {{$x}!", "{{$1!}}", "{{$!}}", "{{ .1! }}", "{{run}}", "{{run 1}}", "\\", "a\\", "{{'", "{{\"", "{{r#\"", "{{#", "{{$", "{{$.a}}", "{{.}}", "{{.a.}}", "{{$a.}}", "{{$0.18446744073709551616}}", "{{$18446744073709551615}}", "{{select 18446744073709551615 1 2}}", "{{select 18446744073709551614 1 2}}", "{{select 2 1 2}}", "{{select 3 1 2}}", "{{first}}", "{{for k v in 0}}", "{{switch}}", "{{case}}", "{{as 1:}}", "{{as 1:[}}", "{{let x=}}", "{{1/1/99999999999999999999}}", "{{99999999999999999999}}", "{{1.5e999999999999999999999}}", "{{1e5}}", "{{-}}", "{{--1}}", "{{@}}", "{{@ }}", "{{/}}", "{{@a}}{{/b}}", "{{if}}", "{{\"\\u\"}}", "{{\"\\ud800\"}}", "{{get}}", "{{get 1}}", "{{sort}}", "{{sort_on}}", "{{sort_on [1 2] \"\"}}", "{{groups 0 [1 2]}}", "{{slice [1 2] 5 1}}", "{{slice \"é\" 1 2}}", "{{slice \"abc\" 2 1}}", "{{get \"é\" 1}}", "{{word_wrap \"a\u2003b\" 1}}", "{{word_wrap \"abc\" 0}}", "{{str_replace \"a\" \"\" \"b\"}}", "{{split \"a\" \"\"}}", "{{div 1 0}}", "{{mod 1 0}}", "{{div -9223372036854775808 -1}}", "{{mod -9223372036854775808 -1}}", "{{div 1.5 0}}", "{{mod 1.5 0.0}}", "{{rand 0}}", "{{rand []}}", "{{rand -1 -5}}", "{{table \"\"}}", "{{table \"|\"}}", "{{table \"-|\"}}", "{{table \"*|a|\\n-|b|c|d|\"}}", "{{string_from_ints 55296}}", "{{string_from_ints -1}}", "{{parent \"\"}}", "{{base_name \"/\"}}", "{{with_ext \"\" \"a\"}}", "{{with_ext \"/\" \"a\"}}", "{{stem \"..\"}}", "{{bread_crumbs \"\"}}", "{{bread_crumbs \"/\"}}", "{{join}}", "{{filter [1] \"(\"}}", "{{filter [1] \"\"}}", "{{bin_search [] 1 \"a\"}}", "{{bin_get [] 1 \"a\"}}", "{{bin_search [1] 1}}", "{{index_of 1 []}}", "{{map 1}}", "{{map \"a\"}}", "{{len}}", "{{html_esc}}", "{{xy}}", "{{font}}", "{{regex \"a\" \"(\"}}", "{{r_card \"x\"}}", "{{from_base64 \"=\"}}", "{{min}}", "{{max}}", "{{add}}", "{{sub}}", "{{eq}}", "{{and}}", "{{not 1}}", "{{type_of}}", "{{is_null}}"]

# ----------------------------------------------------------------- size
def big(prop):
    """what holds for small things has to hold for large ones: long loops and
    lists, deep nesting, many names, arguments, cases and calls"""
    T, C, ps = [], [], []
    N = range
    seq = lambda n, sep=" ", w="%d": sep.join(w.replace("%d", str(k)) for k in N(n))
    def nest(a, body, z, n): return "".join(a.replace("%d", str(k)) for k in N(n)) + body + "".join(z.replace("%d", str(k)) for k in reversed(N(n)))
    if prop == "C01":
        T = ["ab \n" * 700, seq(300, "", "{{%d}}\n"), seq(200, "", " a {{- %d -}} \\\n  b"), "a" + " \n" * 300 + "{{-1-}}" + "\t" * 300 + "b", "\\{{" * 300, "\\" + "\n" * 400 + "x", "é\U0001F600" * 400, seq(200, "", "{{#%d " + "x" * 9 + "#}}y")]
    if prop == "C02":
        for a, z in (("{{if 1}}", "{{/if}}"), ("{{@cat @}}", "{{/cat}}"), ("{{for k v in 1}}", "{{/for}}"), ("{{as 1:_}}", "{{/as}}"), ("{{switch 1}}{{case _}}", "{{/switch}}"), ("{{define f}}", "{{/define}}"), ("{{@let x}}", "{{/let}}")):
            T += [nest(a, "b", z, 30), nest(a, "b", z, 30) + z, nest(a, "b", z, 15) + nest(a, "{{/nosuch}}", z, 15)]
    if prop == "C04":
        T = [seq(60, "", "{{let x%d=%d}}") + seq(60, "", "{{$x%d}} "), "{{let x=1}}" + nest("{{if true}}", "{{$x}}{{let x=2}}{{$x}}", "{{$x}}{{/if}}", 40) + "{{$x}}", nest("{{let x=%d}}{{as %d:<y>}}", "{{$x}}{{$y}}", "{{$y}}{{/as}}{{$x}} ", 25), nest("{{for k%d v in [%d]}}", "{{$k0}}{{$k19}}{{$v}}", "{{$v}}{{/for}}{{first $k%d 0}}", 20), seq(40, "", "{{if true}}{{let x=%d}}{{export y%d=$x}}{{/if}}{{first $x 0}}") + seq(40, "", "{{$y%d}}"), nest("{{@let a%d}}{{let b%d=1}}", "{{first $b0 0}}", "{{first $b%d 0}}{{/let}}{{first $b%d 2}}{{$a%d}}", 20)]
    if prop == "C05":
        T = [seq(60, "", "{{export x%d=%d}}"), nest("{{if true}}{{export x%d=%d}}", "", "{{export y%d=$x%d}}{{/if}}", 30), "".join("{{global g%d}}{{export a=%d}}{{return [%d (first (g%d) 0)]}}{{/global}}" % (k, k, k, k - 1) for k in N(20)) + "{{g19}}{{first $a \"-\"}}", seq(300, "", "{{return %d}}")]
    if prop == "C06":
        T = ["{{define f " + seq(30, " ", "p%d") + "}}" + seq(30, "", "{{$p%d}},") + seq(30, "", "{{$%d}},") + "{{first $30 \"-\"}}{{/define}}{{run $f " + seq(30) + "}}", "{{define f " + seq(30, " ", "p%d") + "}}" + seq(30, "", "{{first $p%d \"-\"}},") + "{{/define}}{{run $f " + seq(12) + "}}", "{{global g n}}{{for k v in $n}}{{g $v}}{{/for}}{{len $n}}{{/global}}{{g " + "[" * 30 + "]" * 30 + "}}", "".join("{{define d%d a}}{{let b=%d}}<%s{{$a}}{{$b}}>{{/define}}" % (k, k, "{{run $0.f $0}}" if False else "") for k in N(25)) + seq(25, "", "{{run $d%d %d}}"), "{{let x=1}}" + "".join("{{global g%d a}}%s{{first $x \"-\"}}{{$a}}{{/global}}" % (k, "{{g%d %d}}" % (k - 1, k) if k else "") for k in N(25)) + "{{g24 9}}{{$x}}"]
    if prop == "C07":
        T = ["{{if false}}a" + seq(60, "", "{{elif false}}b%d") + "{{elif true}}c{{else}}d{{/if}}", nest("{{if true}}a%d", "", "{{else}}b%d{{/if}}", 40), nest("{{if false}}a%d{{else}}c", "", "{{/if}}", 40), seq(100, "", "{{if %d}}y{{else}}n{{/if}}")]
    if prop == "C08":
        T = ["{{for k v in 300}}{{$k}} {{/for}}", "{{for k v in 2100}}a{{/for}}", "{{for k v in (add -1 1100)}}b{{/for}}", "{{for k v in [" + seq(300) + "]}}{{$k}}{{/for}}", "{{for k v in (split \"" + "a," * 1100 + "\" \",\")}}{{$v}}{{/for}}", "{{for k v in (split \"" + "a," * 300 + "\" \",\")}}{{$k}} {{/for}}", "{{for k v in 9}}{{for a b in 9}}{{for k v in 3}}{{$v}}{{/for}}{{$a}}{{/for}}{{$k}};{{/for}}", nest("{{for k v in [%d]}}", "{{$k}}{{$v}}", "{{$v}}{{/for}}", 30)]
    if prop == "C09":
        T = ["{{as [" + seq(30) + "]:[" + seq(30, " ", "<x%d>") + "]}}" + seq(30, "", "{{$x%d}} ") + "{{/as}}{{first $x3 \"-\"}}", "{{as [" + seq(40) + "]:[" + seq(39) + " 40]}}a{{/as}}", "{{as [" + seq(40) + "]:[" + seq(40) + "]}}a{{/as}}", "{{switch 59}}" + seq(60, "", "{{case %d}}c%d") + "{{case _}}no{{/switch}}", "{{switch 99}}" + seq(60, "", "{{case %d}}c%d") + "{{case <x>}}x{{$x}}{{/switch}}", "{{switch 59}}{{case " + seq(60) + "}}a{{case _}}b{{/switch}}", "{{as " + "[" * 25 + "7" + "]" * 25 + ":" + "[" * 25 + "<x>" + "]" * 25 + "}}{{$x}}{{/as}}", "{{as {" + seq(30, ",", "a%d:%d") + "}:{" + seq(30, " ", "a%d:<x%d>") + "}}}" + seq(30, "", "{{$x%d}} ") + "{{/as}}", "{{as {" + seq(30, ",", "a%d:%d") + "}:{" + seq(31, " ", "a%d") + "}}}{{$a3}}{{/as}}{{first $a2 0}}", "{{as {" + "a:{" * 20 + "a:7" + "}" * 20 + "}:{" + "a:{" * 20 + "a" + "}" * 20 + "}}}{{$a}}{{/as}}"]
    if prop == "C10":
        T = [nest("{{@cat @ %d}}", "b", "{{/cat}}", 25), "{{@r " + seq(30, " ", "@ %d") + "}}t{{/r}}", nest("{{@let x%d}}%d", "b", "{{/let}}{{$x%d}}", 25), "{{@p}}" + "ab\n" * 500 + "{{/p}}"]
    if prop == "C11":
        T = ["{{r " + seq(60, " ", "(p %d)") + "}}", "{{r " + seq(40, " ", "(p %d)") + " (q) (p 1)}}", "{{first " + seq(60, " ", "(q)") + " (p null) (p 7) (p 8)}}", "{{first " + seq(60, " ", "(q)") + "}}", "{{select 50 " + seq(60, " ", "(p %d)") + "}}", "{{select 60 " + seq(60, " ", "(p %d)") + "}}", "{{" + nest("p (", "p 1", ")", 40) + "}}", "{{[" + seq(60, " ", "(p %d)") + "]}}", "{{type_of {" + seq(60, ",", "a%d:(p %d)") + "}}}"]
    if prop == "C12":
        T = [seq(80, "", "{{global g%d}}%d {{/global}}") + seq(80, "", "{{g%d}}"), seq(60, "", "{{global g}}%d{{/global}}{{g}}") + "{{first (h) \"-\"}}", "".join("{{global g}}%s{{/global}}" % ("a%d" % k) for k in N(60)) + "{{g}}", nest("{{global g%d}}", "x", "{{/global}}{{g%d}}", 20), "{{for k v in 60}}{{if eq $k 40}}{{global g}}x{{/global}}{{/if}}{{first (g) \"-\"}}{{/for}}", seq(600, "", "{{first (h%d) \"\"}}") + "{{first (x) \"-\"}}"]
    if prop == "C26":
        ops = [std_fm(), op_store("S"), op_parse("A", "{{first (x) \"-\"}}{{first (len 1 2) 0}}{{first $y 1}}"), op_parse("B", seq(60, "", "{{first (h%d) \"\"}}") + "{{x}}"), op_parse("D", "{{define f}}{{(q)}}{{/define}}{{run $f}}"), op_parse("E", "{{if true}}{{let y=2}}{{export z=[" + seq(50) + "]}}{{md \"*a*\"}}{{$y}}{{/if}}")]
        for k in N(60): ops += [op_render(t, "S", "F") for t in ("A", "B", "D", "A", "E")] + [op_front("E", "F")]
        return [session("big", prop, ops, lib=0)]
    if prop == "C24":
        F_ = [seq(60, "", "{{export x%d=%d}}t"), seq(30, "", "{{export x%d=%d; y%d=(q); z%d=$x%d}}"), seq(40, "", "{{@export b%d}}t%d{{/export}}{{export c%d=(len $b%d)}}"), "t" * 3000 + "{{export a=1}}", "{{export a=" + "[" * 30 + "]" * 30 + "}}"]
        return [session("big%d" % k, prop, [std_fm(), op_store("S"), op_parse("T", x), op_front("T", "F"), op_render("T", "S", "F"), op_front("T", "F")], lib=0) for k, x in enumerate(F_)]
    n40 = [u(k) for k in N(40)]
    L300 = lst(*[u((k * 7919) % 301) for k in N(300)])
    if prop == "C13": C = [(f_, [u(5)] * 40 + [x]) for f_ in ("eq", "neq", "eq_any", "gt", "gte", "lt", "lte") for x in (u(5), u(4), u(6), f(5.0))] + [(f_, [x] + [u(k) for k in N(1, 40)]) for f_ in ("eq_any", "gt", "lt", "neq") for x in (u(39), u(40), u(0))] + [(f_, [x] * 40 + [y]) for f_ in ("and", "or", "nand", "nor") for x in (u(0), u(1)) for y in (u(0), u(1))] + [(f_, [s("a" * 300 + x), s("a" * 300 + y)]) for f_ in ("eq", "lt", "gt", "lte") for x in ("", "a", "b") for y in ("", "a", "b")]
    if prop == "C14":
        recs = [lst(u((k * 7) % 5), u((k * 11) % 7), u(k)) for k in N(60)]
        C = [("sort", [L300]), ("sort", [lst(*[s("k%d" % ((k * 37) % 101)) for k in N(101)])]), ("sort", [lst(u(k)) for k in (5, 3, 4, 1, 2)])] + [("sort_on", [lst(*recs[:n])] + [s(c) for c in cs]) for n in (8, 9, 16, 17, 20, 21, 22, 33, 60) for cs in (["0"], ["-0"], ["0", "1"], ["-0", "1"], ["0", "-1"], ["-1", "-0"], ["1", "0", "-2"])]
        asc = sorted(((k * 7) % 50, k) for k in N(50))
        C += [(f_, [lst(*[lst(u(a), u(b)) for a, b in asc]), lst(u(a), u(b)), s("0"), s("1")]) for f_ in ("bin_search", "bin_get") for a, b in asc[::3] + [(3, 99), (99, 0)]]
        C += [(f_, [lst(*[lst(u(k // 10), u(k)) for k in N(50)]), lst(u(a), u(b)), s("0"), s("1")]) for f_ in ("bin_search", "bin_get") for a in (0, 2, 4) for b in (0, 1, 23, 25, 29, 40, 49)]
        C += [(f_, [lst(*[lst(u(9 - k // 10), u(k)) for k in N(100)]), lst(u(a), u(b)), s("-0"), s("1")]) for f_ in ("bin_search", "bin_get") for a, b in ((9, 5), (0, 99), (4, 50), (4, 59), (4, 60))]
    if prop == "C15": C = [("len", [L300]), ("len", [s("é" * 300)]), ("list", n40), ("append", [lst(u(k), u(k)) for k in N(30)]), ("index_of", [u(299), lst(*[u(k) for k in N(300)])]), ("get", [L300, u(299)]), ("get", [L300, u(300)]), ("slice", [L300, u(10), u(290)]), ("slice", [s("ab" * 300), u(10), u(590)]), ("filter", [lst(*[u(k) for k in N(80)]), s("gt $0 39")])] + [("groups", [u(g), lst(*[u(k) for k in N(n)])]) for g in (1, 2, 3, 4, 7, 16, 40) for n in (1, 14, 15, 16, 17, 31, 33, 64, 65)] + [("map", [x for k in N(40) for x in (s("k%d" % (k % 30)), u(k))])]
    if prop == "C16": C = [(f_, [v(k) for k in N(1, n)]) for f_ in ("add", "sub", "min", "max", "div", "mod") for n in (8, 9, 10, 17, 18, 33, 34, 60) for v in (u, i, lambda k: f(k * .5))] + [("mul", [u(2)] * n) for n in (8, 9, 10, 33, 63, 64, 65)] + [("mul", [f(1.5)] * n) for n in (9, 20)] + [(f_, [u(7)] * 30 + [x]) for f_ in ("min", "max") for x in (u(6), u(8), f(6.5), f(8.5), i(-1))] + [("add", [u(2**24 + 1), f(.5)]), ("add", [u(2**24 + 1), f(0.0)]), ("sub", [f(2.0**40), u(2**33 + 1)]), ("mul", [u(2**31 + 1), f(2.0)]), ("add", [f(.5), i(-2**33 - 1)]), ("div", [u(2**52 + 1), f(1.0)]), ("max", [u(2**24 + 1), f(2.0**24)])]
    if prop == "C17":
        w = " ".join("word%d" % (k * k) for k in N(60))
        C = [("split", [s("a," * 300), s(",")]), ("split", [s("x\n" * 200)]), ("str_replace", [s("ab" * 300), s("a"), s("cd")]), ("str_replace_n", [s("ab" * 300), s("a"), s("cd"), u(150)]), ("str_contains", [s("a" * 300 + "b")] + [s("x%d" % k) for k in N(40)] + [s("ab")]), ("cat", [s("p%d" % k) for k in N(60)]), ("join_with", [s(", "), lst(*n40)]), ("string_from_ints", [u(97 + k % 26) for k in N(200)]), ("word_wrap", [s(w), u(20)]), ("word_wrap", [s(w), u(80)]), ("word_wrap", [s("é" * 200), u(30)]), ("word_wrap", [s(w.replace("o", "\u00f6")), u(33)])]
    if prop == "C18": C = [(f_, [s(x)]) for f_ in ("html_esc", "xml_esc") for x in ("<" * 300, "a" * 400 + "&", "<a href=\"x\">" * 40, "é&\U0001F600" * 90, "".join(map(chr, N(1, 384))), "".join(map(chr, (0x2028, 0xfeff, 0xfffd, 0x202e, 0x10ffff, 0xad, 0x300))))] + [(f_, [s("<%d>" % k) for k in N(40)]) for f_ in ("html_esc", "xml_esc")]
    if prop == "C22":
        v = s("end")
        for k in reversed(N(12)): v = mp({"k%d" % k: v}) if k % 2 else lst(u(0), v)
        I, K = lambda x: {"t": "i", "s": codes(x)}, lambda n: {"t": "n", "n": limbs(n)}
        path = [K(1) if k % 2 == 0 else I("k%d" % k) for k in N(12)]
        wide = mp({"a%d" % k: u(k) for k in N(80)})
        ops = [std_fm()]
        for kd in ("td", "json", "toml", "pair", "pair2"):
            h = host("pair", a=host("kv", u(1), k=codes("zz")), b=host("json", v)) if kd == "pair" else host("pair", a=host("toml", v), b=host("json", wide)) if kd == "pair2" else host(kd, v)
            ops += [op_getv(h, path[:n]) for n in range(0, 13)] + [op_getv(h, path[:n] + [I("q")]) for n in range(0, 13)]
        ops += [op_getv(host("kv", v, k=codes("a")), [I("a")] + path[:n]) for n in range(0, 13)]
        ops += [op_getv(host(kd, mp({"a": v}) if kd in ("map", "refmap", "td") else v), ([I("a")] if kd in ("map", "refmap", "td") else []) + path[:n]) for kd in ("map", "refmap", "td") for n in range(0, 13)]
        ops += [op_getv(host(kd, wide), [I("a%d" % k)]) for kd in ("td", "json", "toml", "map", "refmap", "nummap") for k in (0, 9, 10, 41, 79, 80)]
        ops += [op_getv(host("strs", lst(*[s("s%d" % k) for k in N(300)])), [K(k)]) for k in (0, 9, 255, 256, 299, 300)]
        return [session("big", prop, ops)]
    if prop == "C23": C = [("r_json", [s(x)]) for x in ("[" * 40 + "1" + "]" * 40, "[" + seq(200, ",") + "]", "\"" + "a\\n" * 200 + "\"", "{" + seq(60, ",", "\"k%d\":%d") + "}", "0" * 60 + "7", "1_" * 18 + "1", "0." + "0" * 40 + "1", "1" * 40 + ".0", "r#\"" + "a\\\"" * 60 + "\"#", "\"" + "\\u00e9" * 80 + "\"")]
    if prop == "C25": C = [(f_, [s(x)]) for f_ in ("parent", "join", "base_name", "base_name_sure", "stem", "full_stem", "bread_crumbs") for x in ("/".join("d%d" % k for k in N(40)), "/" + "/".join("d%d" % k for k in N(40)) + ".a.b", "a" * 200 + ".txt", "../" * 20 + "x.y", "." * 20 + "/x", "a" + ".b" * 30)] + [("join", [s("d%d" % k) for k in N(40)]), ("bread_crumbs", [s("d%d" % k) for k in N(30)]), ("with_ext", [s("a/" * 30 + "b" + ".c" * 30), s("x" * 60)])]
    if prop == "C27":
        C = [("cat", [x]) for x in (lst(*n40), lst(*[lst(u(k), lst(s("a"), NULL)) for k in N(40)]), L300, s("é" * 400), u(2**64 - 1), i(-2**63), f(1e15), f(1e16), f(1e17), f(1e20), f(1.5e-5), f(1e-5), f(1e-6), f(1e-7), f(1.25e-7), f(1e-8), f(1e-9), f(1e-12), f(123456789.125), f(9007199254740993.0), f(0.1), f(1 / 3))]
        v = u(1)
        for k in N(40): v = lst(v)
        C += [("cat", [v])]
        T = ["{{[" + seq(60) + "]}}", "{{cat " + seq(60) + "}}", "{{0.00000001}} {{0.0000001}} {{0.000001}} {{100000000000000000.0}} {{123456789012345678.0}}"]
    if prop == "C29":
        C = [("table", [s(x)]) for x in ("|" + seq(30, "|", "c%d") + "|\n", "*|" + seq(12, "|", "h%d") + "|\n" + ("|" + seq(12, "|", "c%d") + "|\n") * 12, "|" + "|".join("" if k % 3 else "x" for k in N(14)) + "|\n", "|a|b|\n" + "-|c|d|\n" * 20, "|a|b|\n-|" + seq(20, "|", "d%d") + "|\n", "*|" + "|".join("" if k % 3 else "x" for k in N(14)) + "|\n-|" + "|".join("" if k % 2 else "y" for k in N(17)) + "|\n")] + [("table", [s("|a|b|\n"), s("class=" + "x" * 200)])] + [(f_, [u(10**k % 97 + 10**12) for k in N(n)] + [s("unit" * 20)]) for f_, n in (("xy", 2), ("xywh", 4), ("cxyrr", 4), ("xy12", 4), ("fl_stk", 3), ("font", 2))]
    out = [progs("big%d" % k, prop, [x], ps, lib=1 if prop == "C27" else 0) for k, x in enumerate(T)]
    return out + [calls("bigc%d" % k, prop, C[k:k + 8]) for k in range(0, len(C), 8)]

# ----------------------------------------------------------------- dispatch
LIBGEN = {"C13": ["compare"], "C14": ["sortf", "sortf", "searchf"], "C15": ["listf"], "C16": ["arith"], "C17": ["strf"], "C18": ["escf"], "C25": ["pathf"], "C29": ["markup"]}
def fixed(prop, root): return fixed0(prop, root) + big(prop)
def fixed0(prop, root):
    if prop == "C01": return [progs("fix%d" % k, prop, C01_FIX[k:k + 8]) for k in range(0, len(C01_FIX), 8)]
    if prop == "C02": return [progs("fix%d" % k, prop, C02_FIX[k:k + 8]) for k in range(0, len(C02_FIX), 8)] + c02_all(2) + chains("C02", ("true", "false"))
    if prop in FIX: return (chains(prop, ("true", "false", "p false", "q"), ("", "t%d")) if prop == "C07" else []) + [progs("fix%d" % k, prop, FIX[prop][k:k + 5], [td(lst(u(5), s("z")))]) for k in range(0, len(FIX[prop]), 5)]
    if prop == "C12": return [prog("fix%d%s" % (k, kd), prop, x, kind=kd) for k, x in enumerate(C12_FIX) for kd in ("map", "none")]
    if prop == "C03":
        ops = [std_fm()]
        for x in C03_FIX: ops += [op_store("S"), op_parse("T", x), op_render("T", "S", "F", [td(u(1))]), op_front("T", "F")]
        return [session("fix", prop, ops, mode="total")]
    if prop == "C24": return [session("fix%d" % k, prop, [std_fm(), op_store("S"), op_parse("T", x), op_front("T", "F"), op_render("T", "S", "F"), op_front("T", "F")], lib=0) for k, x in enumerate(C24_FIX)]
    if prop == "C19": return f19_fixed(root + "/fix")
    if prop == "C22": return [same_kinds(None, "kinds")]
    return []
def one(prop, rng, id, root):
    base = "%s/%s/p/q/w" % (root, id)
    if prop == "C01": return c01(rng, id)
    if prop == "C02": return c02(rng, id)
    if prop == "C03":
        x = rng.random()
        if x < .45: return c03_templates(rng, id, 30)
        if x < .9: return c03_calls(rng, id, 60)
        if x < .95: return c03_get(rng, id)
        return c03_files(rng, id, base)
    if prop in ("C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11"): return random_progs(prop, rng, id, 2)
    if prop == "C12": return c12(rng, id)
    if prop in LIBGEN:
        l = L(rng)
        return calls(id, prop, [getattr(l, rng.choice(LIBGEN[prop]))() for _ in range(25)])
    if prop in ("C19", "C20"): return fsess(rng, id, prop, base)
    if prop == "C21": return c21(rng, id, base)
    if prop == "C22": return c22(rng, id)
    if prop == "C23": return c23(rng, id)
    if prop == "C24": return c24(rng, id)
    if prop == "C26": return c26(rng, id, base) if rng.random() < .5 else c26_calls(rng, id, base)
    if prop == "C27": return c27(rng, id)
    if prop == "C28": return c28(rng, id)
    raise KeyError(prop)
NUM = {"C01": 500, "C02": 500, "C03": 700, "C12": 600, "C13": 250, "C14": 160, "C15": 260, "C16": 260, "C17": 260, "C18": 260, "C19": 240, "C20": 240, "C21": 200, "C22": 300, "C23": 260, "C24": 600, "C25": 260, "C26": 350, "C27": 250, "C28": 200, "C29": 250}
def gen(prop, seed, part, root, n=None):
    n = n or NUM.get(prop, 450)
    out = fixed(prop, root) if part == 0 else []
    for j in range(n):
        rng = random.Random("%s-%s-%s-%s" % (prop, seed, part, j))
        out.append(one(prop, rng, "s%d-%d" % (part, j), root))
    return out
