"""Random templates.  The specification parses and runs the text itself, so
only text is produced here; kinds of variables are tracked just well enough
that most programs do not end early."""
from enc import *

NAMES = ["x", "y", "z", "a", "b", "k", "v", "acc", "x1", "u_", "long_name"]
SCAL = ["s", "u", "i", "b", "f"]

DEFAULT = dict(text=6, emit=6, let=4, export=2, atlet=2, atexport=1, vis=3, iff=3, loop=2, switch=2, as_=2,
               block=2, define=1, glob=1, call=2, ret=0, comment=1, err=0, special=2)

class Ctx:
    def __init__(self, frames=None, defs=None, params=None):
        self.frames = frames or [{}]
        self.params = params or []          # kinds

class G:
    def __init__(self, rng, weights=None, names=None, fancy=0.15, errors=0.05, templates=(), probes=True, trims=0.1, depth=3, retbody=0.3, blockat=True):
        self.r = rng
        self.w = dict(DEFAULT)
        self.w.update(weights or {})
        self.names = names or rng.sample(NAMES, rng.randint(2, 5))
        self.fancy = fancy
        self.errors = errors
        self.templates = list(templates)    # names callable, innermost-safe order
        self.globals = []                   # names defined by global tags so far
        self.trims = trims
        self.maxdepth = depth
        self.retbody = retbody
        self.c = Ctx()
        self.mark = 0
        self.budget = 40
        self.indef = False
        self.inloop = 0     # loops around the place being generated
        self.maps = 0       # loops over larger maps: the specification tries every order

    # --- helpers
    def ch(self, *a): return self.r.choice(a)
    def p(self, x): return self.r.random() < x
    def name(self): return self.r.choice(self.names)
    def bind(self, n, k, root=False): self.c.frames[0 if root else -1][n] = k
    def kind(self, n):
        for fr in reversed(self.c.frames):
            if n in fr: return fr[n]
        return None
    def bound(self, kinds=None):
        out = []
        for n in self.names:
            k = self.kind(n)
            if k and (kinds is None or k in kinds): out.append(n)
        return out
    def sp(self):
        if self.p(self.fancy): return self.ch("  ", "\n", "\t", " \n ")
        return " "
    def osp(self):
        if self.p(self.fancy): return self.ch(" ", "\n", "  ", "\t")
        return ""
    def tag(self, body):
        o, c = "{{", "}}"
        if self.p(self.trims): o = "{{-"
        if self.p(self.trims): c = "-}}"
        if o == "{{-" and body[:1] in "0123456789.": o = "{{- "
        return o + self.osp() + body + self.osp() + c
    # --- expressions
    def string(self):
        r = self.r
        x = r.choice(["", "a", "b", "xy", "hello w", "A<b>", "é", "\U0001F600", "0", "false", "q\"q", "it's", "back\\slash", "{{", "tab\tx", "nl\nx", "zz"])
        if r.random() < .15: return 'r#"%s"#' % x
        return '"' + x.replace("\\", "\\\\").replace('"', '\\"') + '"'
    def lit(self, k):
        r = self.r
        if k == "s": return self.string()
        if k == "u": return str(r.choice([0, 1, 2, 3, 5, 10, 42]))
        if k == "i": return r.choice(["-1", "-2", "(add -1 4)", "-42", "-0", "-9223372036854775808"])
        if k == "b": return r.choice(["true", "false"])
        if k == "n": return "null"
        if k == "f": return r.choice(["1.5", "0.25", "-2.5", "3.0", "0.1", "-0.0"])
        if k == "d": return r.choice(["29/02/2020", "31/dec/1999"])
        if k == "l":
            n = r.choice([0, 1, 2, 2, 3, 3, 4])
            kk = r.choice(SCAL)
            return "[" + r.choice([" ", ","]).join(self.lit(kk if r.random() < .7 else r.choice(["s", "u", "l2", "n"])) for _ in range(n)) + "]"
        if k == "l2": return "[" + " ".join(self.lit(r.choice(["u", "s"])) for _ in range(r.randint(0, 2))) + "]"
        if k == "m":
            n = r.choice([0, 1, 1, 2, 3])
            ks = r.sample(["a", "b", "c", "Name", "k_1", '"sp ace"'], n)
            return "{" + ",".join("%s:%s" % (x, self.lit(r.choice(["u", "s", "b", "l2", "i"]))) for x in ks) + "}"
        raise KeyError(k)
    def kind1(self): return self.r.choice(["s", "s", "u", "u", "i", "b", "l", "l", "f", "n"])
    def expr(self, k=None, d=2):
        """(text, kind); text is atomic"""
        r = self.r
        k = k or self.kind1()
        if r.random() < self.errors * .12: return r.choice(["$nope", "(q)", "$9", "(nosuch 1)", "$x.zz"]), k
        bs = self.bound({k})
        if bs and r.random() < .5: return "$" + r.choice(bs), k
        ps = [n for n, kk in enumerate(self.c.params) if kk == k]
        if ps and r.random() < .3: return "$%d" % r.choice(ps), k
        if d <= 0 or r.random() < .35: return self.lit(k), k
        e = lambda kk=None: self.expr(kk, d - 1)[0]
        x = r.random()
        if x < .35: return "(p%s%s)" % (self.sp(), e(k)), k
        if x < .45: return "(first %s %s)" % (r.choice(["$nope", "null", "(q)", e(k), "(p null)"]), e(k)), k
        if x < .55: return "(select %s %s %s)" % (e(r.choice(["b", "u"])) if r.random() < .3 else r.choice(["true", "false", "0", "1", "(p 1)"]), e(k), e(k)), k
        if k == "s": return r.choice(["(cat %s %s)" % (e(), e()), "(cat %s)" % e(), "(type_of %s)" % e()]), k
        if k == "u": return "(%s)" % r.choice(["len %s" % e("l"), "count %s %s" % (e(), e()), "len %s" % e("s")]), k
        if k == "b": return "(%s %s %s)" % (r.choice(["eq", "neq", "lt", "gte", "and", "or"]), e("u"), e("u")), k
        if k == "l":
            return r.choice(["(r %s %s)" % (e(), e()), "[%s %s]" % (e(), e()), "(append %s %s)" % (e("l"), e("l")), "(r)"]), k
        if k == "m": return "{a:%s,b:%s}" % (e(), e()), k
        return self.lit(k), k
    def top(self, k=None):
        e, kk = self.expr(k)
        if e.startswith("(") and e.endswith(")") and self.p(.6) and self._bare(e): e = e[1:-1]
        return e, kk
    def _bare(self, e):
        w = e[1:].split()[0].rstrip(")")
        return w not in ("let", "if", "for", "export", "return", "switch", "case", "as", "define", "global", "else", "elif")
    # --- statements
    def text(self):
        self.mark += 1
        return self.ch("t%d" % self.mark, " t%d " % self.mark, "\n", ".", "<%d>" % self.mark, "t%d\n" % self.mark)
    def stmts(self, d, n=None):
        if n is None: n = self.r.choice([0, 1, 1, 2, 2, 3, 3, 4])
        out = []
        for _ in range(n):
            if self.budget <= 0: break
            out.append(self.stmt(d))
        return "".join(out)
    def block(self, d, extra=None, n=None):
        self.c.frames.append(dict(extra or {}))
        s = self.stmts(d - 1, n)
        self.c.frames.pop()
        return s
    def stmt(self, d):
        self.budget -= 1
        w = self.w
        ks = [k for k in w if w[k] > 0 and (d > 0 or k in ("text", "emit", "let", "export", "vis", "comment", "err", "call", "ret", "special"))]
        k = self.r.choices(ks, [w[x] for x in ks])[0]
        return getattr(self, "st_" + k)(d)
    def st_text(self, d): return self.text()
    def st_emit(self, d):
        if self.p(.06): return self.tag(self.ch("18446744073709551615", "-9223372036854775808", "9223372036854775808", "1_000", "0.1", "-0.0", "1.25e3", "1/feb/2000", "3.0", "[]", "[[] {}]", "r#\"}}\"#", "\"\\u00e9\\n\""))
        return self.tag(self.top()[0])
    def st_err(self, d): return self.tag(self.ch("$nope", "q", "nosuch 1", "first_ 1", "q (p 1)", "r (p 1) (q) (p 2)"))
    def st_vis(self, d):
        return "".join(self.see(n) + "," for n in self.r.sample(self.names, self.r.randint(1, len(self.names)))) \
            if self.p(.8) else "".join(map(self.see, "012"))
    def see(self, n):
        """shows a variable, or that there is none"""
        return "{{first (type_of $%s) \"-\"}}" % n if self.p(.25) else "{{first $%s \"-\"}}" % n
    def st_comment(self, d): return self.tag("#" + self.ch("c", " let x = 3 ", "{{if}}", "", " }} ") + "#")
    def st_special(self, d):
        e = lambda: self.expr(None, 1)[0]
        return self.tag(self.ch(
            "first %s %s %s" % (e(), e(), e()), "first", "first (q) (p null) $nope",
            "select %s %s %s" % (self.ch("true", "false", "0", "1", "(p 1)", '""', "[]", "(p 0)") if not self.p(self.errors * 2) else self.ch("(p 2)", "-1", "5", "(q)", "1.5"), "(p 7)", "(p 8)"),
            "select %s (p 7) (p 8) (p 9)" % self.ch("0", "1", "2", "2", "true", "false", '"a"', "(p true)"),
            "r (p %s) (p %s) [(p 1) (p 2)] {m:(p 3),n:(p 4)}" % (e(), e())) if not self.p(self.errors * 2) else
            self.ch("select true 1", "select", "select 3 (p 7) (p 8) (p 9)", "r (p 1) (q) (p 2)", "cat [(p 1) $nope (p 2)]", "p {a:(q),b:(p 1)}"))
    def asg(self, root):
        n = self.name()
        e, k = self.top(self.ch(None, None, "m", "l", "d") )
        self.bind(n, k, root)
        return "%s%s=%s%s" % (n, self.sp(), self.sp(), e)
    def asgs(self, root):
        l = [self.asg(root) for _ in range(self.ch(1, 1, 1, 2, 3))]
        line = all(x.split("=", 1)[1].strip()[:1] in "$[{(\"0123456789-" for x in l) or self.p(.05)
        return self.ch("; ", ",", " ; ", "\n" if line else ";").join(l)
    def st_let(self, d): return self.tag("let " + self.asgs(False))
    def st_export(self, d): return self.tag("export " + self.asgs(True))
    def st_atlet(self, d):
        n = self.name()
        b = self.block(d)
        self.bind(n, "s")
        return self.tag("@let " + n) + b + self.tag("/let")
    def st_atexport(self, d):
        n = self.name()
        b = self.block(d)
        self.bind(n, "s", True)
        return self.tag("@export " + n) + b + self.tag("/export")
    def cond(self):
        x = self.r.random()
        if x < .35: return self.ch("true", "false", "p true", "p false")
        if x < .5: return self.ch("$nope", "q", "p $nope", "nosuch")
        if x < .8: return self.ch("0", "1", '""', '"a"', "[]", "[0]", "{}", "{a:0}", "null", "0.0", "-0.0", "1.5", "-1", "1/1/2020", "-0", "p null", "\"false\"")
        return self.top()[0]
    def st_iff(self, d):
        s = self.tag("if " + self.cond()) + self.block(d)
        for _ in range(self.ch(0, 0, 1, 1, 2, 3)): s += self.tag("elif " + self.cond()) + self.block(d)
        if self.p(.5): s += self.tag("else") + self.block(d)
        return s + self.tag("/if")
    def st_loop(self, d):
        k, v = self.name(), self.name()
        x = self.r.random()
        if x < .4: e = self.expr("l")[0]
        elif x < .55: e = self.ch("0", "1", "2", "3", "(p 2)")
        elif x < .7: e = self.ch("(add -1 3)", "-1", "-0", "(add -1 4)", "-3")
        elif x < .9 and (self.inloop or self.indef or self.maps): e = self.ch("{}", "{a:1}", "{b:[1 2]}")
        elif x < .9:
            self.maps += 1
            e = self.ch("{}", "{a:1}", "{a:1,b:2}", "{a:[1],b:\"x\",c:null}") if self.p(.6) else self.lit("m")
        elif x < .95: e = self.expr()[0]
        else: e = self.ch('"abc"', "null", "true", "1.5", "$nope") if self.p(self.errors * 4) else "[5 6]"
        if "{" in e and "," in e and (self.inloop or self.indef): e = "[5 6]"
        self.bind(k, "u"); self.bind(v, "?")
        self.inloop += 1
        body = self.block(d, n=self.r.randint(0, 3))
        self.inloop -= 1
        if self.p(.6): body = "{{$%s}}=" % k + ("{{p $%s}};" % v if "{" not in e else "{{$%s}}" % k) + body
        return self.tag("for %s %s in %s" % (k, v, e)) + body + self.tag("/for")
    # patterns
    def val(self, d=2):
        r = self.r
        x = r.random()
        if d <= 0 or x < .45: return r.choice([1, 2, 3, "a", "b", True, False, None, -1, 2.5, ""])
        if x < .8: return [self.val(d - 1) for _ in range(r.randint(0, 3))]
        return {k: self.val(d - 1) for k in r.sample(["a", "b", "c", "id"], r.randint(0, 3))}
    def vtext(self, v):
        if v is None: return "null"
        if v is True: return "true"
        if v is False: return "false"
        if isinstance(v, str): return '"%s"' % v
        if isinstance(v, list): return "[" + " ".join(map(self.vtext, v)) + "]"
        if isinstance(v, dict): return "{" + ",".join("%s:%s" % (k, self.vtext(x)) for k, x in v.items()) + "}"
        return str(v)
    def pat(self, v, caps, d=2):
        r = self.r
        x = r.random()
        if x < .18:
            n = self.name(); caps.append(n)
            if r.random() < .5: return "<%s>" % n
            return "<%s:%s>" % (n, self.pat(v, caps, d - 1))
        if x < .26: return "_"
        if x < .36:
            return r.choice(["?(eq @ %s)" % self.vtext(v) if not isinstance(v, (list, dict)) else "?(eq (len @) %d)" % len(v),
                             "?(gt @ 1)", "?(lt @ 3)", "?(q)", "?(p 1)", "?(p true)", "?(is_num @)", '?(eq (type_of @) "list")', "?(eq @ $%s)" % self.name(), "?(p @)", "?(nosuch)"])
        if r.random() < .12: v = self.val(1)
        if isinstance(v, list):
            items = [self.pat(y, caps, d - 1) for y in v]
            if items and r.random() < .25: items = items[:-1]
            elif r.random() < .12: items.append("_")
            return "[" + " ".join(items) + "]"
        if isinstance(v, dict):
            es = []
            for k, y in v.items():
                if r.random() < .25: continue
                if r.random() < .4: es.append(k); caps.append(k)
                else: es.append("%s:%s" % (k, self.pat(y, caps, d - 1)))
            if r.random() < .1: es.append("zz")
            r.shuffle(es)
            return "{" + " ".join(es) + "}"
        return self.vtext(v)
    def st_switch(self, d):
        v = self.val()
        e = self.vtext(v)
        if self.p(.3): e = "p " + e
        s = self.tag("switch " + e) + self.ch("", "\n", "drop", " ")
        for _ in range(self.r.randint(1, 4)):
            caps = []
            ps = [self.pat(v, caps) if self.p(.75) else self.pat(self.val(), caps) for _ in range(self.ch(1, 1, 1, 2, 3))]
            seen = "".join("{{first $%s \"-\"}}|" % c for c in caps[:2] if c.isidentifier()) + self.visn(2)
            s += self.tag("case " + self.sp().join(ps)) + self.text() + seen + self.block(d, {c: "?" for c in caps}, n=self.r.randint(0, 2))
        return s + self.tag("/switch") + (self.visn(3) if self.p(.6) else "")
    def visn(self, n): return "".join(self.see(x) + "," for x in self.r.sample(self.names, min(n, len(self.names))))
    def st_as_(self, d):
        v = self.val()
        caps = []
        pt = self.pat(v, caps)
        if self.p(.3): caps = ["a"]; pt = "[<a> %s]" % self.ch("_", "99", "?(q)")
        e = self.vtext(v)
        return self.tag("as %s:%s%s" % (e, self.ch("", " "), pt)) + self.text() + self.visn(3) + self.block(d, {c: "?" for c in caps}) + self.tag("/as") + self.visn(3)
    def st_block(self, d):
        f = self.ch("cat", "r", "p", "len", "type_of", "html_esc", "p") if not self.templates or self.p(.7) else self.r.choice(self.templates)
        if self.p(self.errors * .5): f = self.ch("q", "nosuch")
        b = self.block(d)
        if self.p(.4): a = ""
        else: a = " " + " ".join(self.ch("@", "@", "(cat @ 1)", self.expr(None, 1)[0]) for _ in range(self.r.randint(1, 3)))
        return self.tag("@" + f + a) + b + self.tag("/" + f) + (self.ch("", "{{first @ \"-\"}}", "") )
    def body(self, d, nparams):
        """text of a template body: its own variables only"""
        old, oldb = self.c, self.budget
        names = self.r.sample(self.names + ["p1", "p2", "p3"], nparams)
        self.c = Ctx([{n: "?" for n in names}], params=["?"] * nparams)
        self.budget = min(self.budget, 8)
        w = self.w
        self.w = dict(w, define=0, glob=0, ret=w.get("ret", 0))
        all_ = self.names
        if names and self.p(.4): self.names = names + [self.name()]     # the body sets its own parameters
        s = self.stmts(d - 1, self.r.randint(0, 4))
        if names and self.p(.2): s = "{{let %s = %s}}" % (self.ch(*names), self.expr(None, 1)[0]) + s
        if self.p(.5): s += "".join(map(self.see, ["0", "1", "2"][:self.r.randint(1, 3)])) + self.visn(2)
        if names and self.p(.5): s += "".join(map(self.see, names))
        if self.p(self.retbody): s += self.tag("return " + self.top()[0]) + self.ch("", "after", self.stmts(d - 1, 1))
        self.w = w
        self.names = all_
        self.c = old
        self.budget = oldb - 2
        return names, s
    def st_define(self, d):
        n = self.name()
        ns, b = self.body(d, self.ch(0, 1, 2, 2, 3))
        self.bind(n, "t")
        return self.tag("define " + " ".join([n] + ns)) + b + self.tag("/define")
    def st_glob(self, d):
        n = "g%d" % len(self.globals)
        sv = self.templates
        ns, b = self.body(d, self.ch(0, 1, 2, 2, 3))
        if self.p(.25) and self.globals: n = self.r.choice(self.globals); b = "G%d" % self.mark
        elif n not in self.globals: self.globals.append(n)
        self.templates = sv + ([n] if n not in sv else [])
        return self.tag("global " + " ".join([n] + ns)) + b + self.tag("/global")
    def st_call(self, d):
        a = " ".join("null" if self.p(.08) else self.expr(None, 1)[0] for _ in range(self.r.choice([0, 1, 2, 2, 3, 3, 4])))
        ts = self.bound({"t"})
        if ts and self.p(.6): return self.tag(("run $%s " % self.r.choice(ts) + a).strip())
        if self.templates: return self.tag((self.r.choice(self.templates) + " " + a).strip())
        return self.tag("run (p \"x\") 1") if self.p(self.errors) else self.text()
    def st_ret(self, d): return self.tag("return " + self.top()[0])

PROBES = [probe("p", "id"), probe("q", "fail"), probe("r", "args"), probe("count", "count")]
def std_fm(id="F", extra=()): return op_fm(id, st("defaults"), *PROBES, *extra)

def fix_at_end(src):
    """a closed block at the end is not required, text after is; nothing to do"""
    return src
