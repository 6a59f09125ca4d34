"""Calls of the built-in functions, per property."""
from enc import *
from gen_val import *

CMP = ["eq", "neq", "eq_any", "gt", "gte", "lt", "lte"]
LOG = ["and", "nand", "or", "nor"]

class L:
    def __init__(self, rng):
        self.r = rng
        self.v = V(rng)
    def ch(self, *a): return self.r.choice(a)
    def p(self, x): return self.r.random() < x
    def few(self, f, *w): return [f() for _ in range(self.r.choice(w))]

    # C13
    def compare(self):
        v = self.v
        x = self.r.random()
        if x < .75:
            f_ = self.ch(*CMP)
            a = v.any(1)
            if self.p(.5): a = v.num()
            n = self.ch(0, 1, 1, 1, 1, 2, 2, 3)
            return f_, [a] + [v.like(a) if self.p(.7) else v.any(1) for _ in range(n)] if self.p(.98) else []
        if x < .88:
            return self.ch(*LOG), self.few(lambda: self.truthy(), 0, 1, 2, 2, 3, 4)
        f_ = self.ch("is_null", "is_num", "type_of", "type_of")
        a = [v.any(2)] if self.p(.96) else []
        if a and f_ == "type_of" and self.p(.5):
            a.append(s(self.ch("string", "null", "bool", "int", "uint", "float", "list", "map", "date", "bytes", "template", "number")))
        return f_, a
    def truthy(self):
        return self.ch(NULL, boolean(True), boolean(True), boolean(False), s(""), s("false"), s("0"), u(0), u(1), i(0), i(-1), f(0.0), f(-0.0), f(float("nan")), f(.5),
                       lst(), lst(NULL), mp({}), mp({"a": NULL}), date(2020, 1, 1), byts(b""), byts(b"x"), TMPL, self.v.any(1))
    # C16
    def arith(self):
        v = self.v
        f_ = self.ch("add", "sub", "mul", "div", "mod", "min", "max")
        n = self.ch(1, 2, 2, 2, 2, 2, 3, 3, 4)
        fl = self.p(.12)
        a = [v.num() if fl else self.ch(v.num_u, v.num_i)() for _ in range(n)]
        if self.p(.3): a = [v.small() if self.p(.6) else x for x in a]
        if self.p(.04): a[self.r.randrange(n)] = v.any(1)
        if self.p(.01): a = []
        return f_, a
    # C17
    def strf(self):
        v = self.v
        f_ = self.ch("cat", "split", "split", "join_with", "str_contains", "str_replace", "str_replace", "str_replace_n", "string_from_ints", "word_wrap", "word_wrap", "regex")
        S_ = v.str_
        if f_ == "cat": a = self.few(lambda: v.any(1), 0, 1, 2, 3)
        elif f_ == "split":
            t, sep = self.textsep()
            a = self.ch([s(t), s(sep)], [s(t), s(sep)], [s(t)], [s(t), u(1)], [v.any(1), s(sep)], [s(t), s(sep), s("x")])
        elif f_ == "join_with":
            a = [S_() if self.p(.8) else v.scalar(), lst(*[v.scalar() for _ in range(self.r.randint(0, 5))])]
            if self.p(.08): a = self.ch([S_()], [S_(), S_()], [], a + [S_()])
        elif f_ == "str_contains":
            t, sep = self.textsep()
            a = [s(t), s(sep)] + self.few(S_, 0, 0, 1, 2)
            if self.p(.05): a = a[:1]
        elif f_ in ("str_replace", "str_replace_n"):
            t, sep = self.textsep()
            a = [s(t), s(sep), self.ch(s(""), s("x"), s(sep + sep), s("a"), s("<é>"), u(7))]
            if f_ == "str_replace_n" and self.p(.8): a.append(self.ch(u(0), u(1), u(2), u(3), i(2), i(-1), s("2"), u(U64), f(2.0)))
            if self.p(.04): a = a[:2]
        elif f_ == "string_from_ints":
            a = [self.ch(u, i)(self.ch(65, 97, 0, 10, 233, 0x1F600, 0xD7FF, 0xE000, 0x10FFFF, 48, 32)) for _ in range(self.r.randint(0, 5))]
            if self.p(.3): a.append(self.ch(u(0xD800), u(0xDFFF), u(0x110000), u(2**32 + 65), u(2**40 + 97), u(U64), i(-65), f(65.0), s("A"), NULL))
            self.r.shuffle(a)
        elif f_ == "word_wrap":
            a = [s(self.words()) if self.p(.95) else v.any(1), self.ch(u, u, i)(self.ch(0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 20, 40))]
            if self.p(.04): a = self.ch(a[:1], [a[0], i(-1)], [a[0], s("5")], [a[0], u(U64)], [])
        else:
            t, sep = self.textsep()
            e = "".join("\\" + c if c in ".*+?()[]{}|^$\\" else c for c in sep)
            a = [s(t), s(self.ch("", "", "^") + e + self.ch("", "", "$"))]
            if self.p(.05): a = a[:1]
        return f_, a
    def textsep(self):
        r = self.r
        sep = r.choice(["", ",", "a", "aa", "ab", "\n", " ", "é", ", ", "aba", "\U0001F600", "--"])
        al = [sep, sep, sep[:1], "a", "b", "", "é", "x y"]
        return "".join(r.choice(al) for _ in range(r.randint(0, 8))), sep
    def words(self):
        r = self.r
        w = ["a", "bb", "ccc", "dddd", "hello", "é", "日本語", "a-b", "longwordindeed", "x,", "end."]
        return "".join(r.choice(w) + r.choice([" ", " ", " ", "  ", "\n", "\n\n", "\t", "", "\u00a0", "\u2003", " \n"]) for _ in range(r.randint(0, 9)))
    # C18
    def escf(self):
        f_ = self.ch("html_esc", "xml_esc")
        def t():
            x = self.r.random()
            if x < .6: return s("".join(self.ch("&", "<", ">", '"', "'", "a", ";", "#", "lt", "amp", " ", "é", "39", "&lt;", "x27", "\n", "=", "`", "/") for _ in range(self.r.randint(0, 7))))
            if x < .8: return self.v.str_()
            return self.v.any(1)
        return f_, self.few(t, 0, 1, 1, 1, 2, 3)
    # C14
    def sortv(self, kind):
        r, v = self.r, self.v
        if kind == 0: return v.small()
        if kind == 1: return v.num()
        if kind == 2: return s(r.choice(["a", "b", "c", "ab", "B", "", "é", "10", "9"]))
        if kind == 3: return v.any(1)
        if kind == 4:   # numbers that tie, told apart by kind
            n = r.randint(0, 4); return r.choice([u(n), i(n), f(float(n))])
        if kind == 5: return r.choice([lst(u(r.randint(0, 9))), lst(), mp({"a": u(r.randint(0, 9))}), mp({})])   # all tie, all differ
        if kind == 6: return v.date()
        return v.scalar()
    def record(self, j):
        r = self.r
        d = {}
        if r.random() < .85: d["a"] = r.choice([u, i, lambda n: f(float(n))])(r.randint(0, 3))
        if r.random() < .85: d["b"] = s(r.choice("xyz"))
        if r.random() < .4: d["c"] = mp({"d": u(r.randint(0, 2)), "l": lst(u(r.randint(0, 1)), s("q"))})
        d["n"] = u(j)
        if r.random() < .05: return r.choice([u(j), lst(u(r.randint(0, 2)), u(j)), NULL, s("str")])
        return mp(d)
    def pairs(self, j): return lst(*[u(self.r.randint(0, 3)), s(self.ch("p", "q")), u(j)][:self.ch(3, 3, 3, 1)])
    def crit(self, lists=False):
        c = self.ch("0", "1", "0", "2") if lists else self.ch("a", "b", "a", "b", "c.d", "c.l.0", "zz", "n", "c.zz")
        return s(self.ch("", "", "-") + c)
    def biglen(self): return self.ch(0, 1, 2, 3, 4, 5, 6, 8, 12, 24, 33, 50)
    def sortf(self):
        r = self.r
        if self.p(.45):
            kind = r.randint(0, 7)
            k = self.ch(1, 1, 1, 2, 3)
            a = [lst(*[self.sortv(kind) for _ in range(self.biglen() // k)]) for _ in range(k)]
            if self.p(.08): a.insert(r.randrange(len(a) + 1), self.v.scalar())
            if self.p(.01): a = []
            return "sort", a
        li = self.p(.25)
        n = self.biglen()
        l = lst(*[(self.pairs(j) if li else self.record(j)) for j in range(n)])
        cs = [self.crit(li) for _ in range(self.ch(1, 1, 2, 2, 3))]
        if self.p(.04): cs = self.ch([], [u(1)], [s("")], [s("a b")], [s("--a")], [s("a..b")], [s("a."), s("b")])
        if self.p(.02): l = self.v.any(1)
        return "sort_on", [l] + cs
    # searching a list sorted by the same criteria
    def searchf(self):
        r = self.r
        import functools
        f_ = self.ch("bin_search", "bin_get")
        n = self.ch(0, 1, 2, 3, 5, 8, 13, 21, 34)
        k = self.ch("a", "a", "c.d")
        down = self.p(.4)
        vals = sorted(r.choice([r.randint(0, 3), r.randint(0, 50)]) for _ in range(n))
        if down: vals.reverse()
        wrap = (lambda x, j: mp({"a": self.ch(u, i)(x), "n": u(j)})) if k == "a" else (lambda x, j: mp({"c": mp({"d": u(x)}), "n": u(j)}))
        l = [wrap(x, j) for j, x in enumerate(vals)]
        cs = [s(("-" if down else "") + k)]
        if self.p(.12): r.shuffle(l)                       # not in order: an answer must still tie
        x = wrap(self.ch(r.choice(vals) if vals else 1, r.randint(-1 if False else 0, 51)), 99)
        if self.p(.06): x = self.ch(NULL, mp({}), u(3), mp({"a": s("z")}))
        a = [lst(*l), x] + cs
        if self.p(.05): a = self.ch(a[:2], a[:1], [], [u(1), x] + cs, [a[0], x, u(1)])
        return f_, a
    # C15
    def listf(self):
        v, r = self.v, self.r
        f_ = self.ch("list", "append", "groups", "slice", "slice", "get", "get", "len", "index_of", "filter", "filter", "map")
        ls = lambda d=1, n=None: v.list_(d + 1, n)
        if f_ == "list": a = self.few(lambda: v.any(2), 0, 1, 2, 3)
        elif f_ == "append": a = self.few(lambda: ls() if self.p(.6) else v.any(2), 0, 1, 2, 2, 3)
        elif f_ == "groups":
            n = self.ch(0, 1, 2, 3, 4, 5, 6, 7, 10)
            a = [self.ch(u, u, i)(self.ch(0, 1, 1, 2, 2, 3, 4, 5, 7)), lst(*[v.scalar() if self.p(.4) else u(j) for j in range(n)])]
            if self.p(.06): a = self.ch(a[:1], a[::-1], [u(U64), a[1]], [i(-1), a[1]], [f(2.0), a[1]], a + [u(1)])
        elif f_ == "slice":
            if self.p(.6): x = lst(*[u(j) for j in range(r.randint(0, 6))])
            else: x = self.ch(v.str_(), s("aé日\U0001F600b"), s("hello"))
            I = lambda: self.ch(u, u, i)(r.randint(0, 8))
            a = [x, I()] + ([I()] if self.p(.7) else [])
            if self.p(.08): a = self.ch(a[:1], [x, i(-1)], [x, u(U64)], [x, u(0), u(U64)], [x, s("1")], [v.any(1), u(0), u(1)], [x, u(1), s("2")], [x, u(0), NULL], [x, f(1.0)], [x, u(1), i(-1)])
        elif f_ == "get":
            x = r.random()
            if x < .45: a = [lst(*[v.scalar() if self.p(.5) else u(10 * j) for j in range(r.randint(0, 5))]), self.ch(u, u, i)(r.randint(0, 6))]
            elif x < .65: a = [self.ch(s("aé日\U0001F600b"), s("hello"), v.str_()), self.ch(u, i)(r.randint(0, 10))]
            else: a = [mp({k: v.scalar() for k in r.sample(KEYS, r.randint(0, 4))}), s(r.choice(KEYS))]
            if self.p(.1): a = self.ch(a[:1], [], [a[0], i(-1)], [a[0], u(U64)], [a[0], s("0")], [a[0], u(0)], [v.any(1), u(0)], a + [u(1)], [a[0], f(1.0)], [a[0], NULL])
        elif f_ == "len": a = self.few(lambda: v.any(2), 0, 1, 1, 1, 2, 3)
        elif f_ == "index_of":
            l = [v.scalar() for _ in range(r.randint(0, 6))]
            x = v.like(r.choice(l)) if l and self.p(.8) else v.scalar()
            if l and self.p(.3): l.append(x)
            a = [x, lst(*l)] if self.p(.94) else self.ch([x], [x, v.scalar()], [])
        elif f_ == "filter":
            l = [self.ch(v.small, v.small, v.scalar, lambda: self.record(r.randint(0, 9)))() for _ in range(r.randint(0, 6))]
            e = self.ch("gt $0 2", "lt $0 3", "(eq $0 1)", "$0", "is_num $0", "not", "$0.a", "gt .a 1", "eq .b \"x\"", "true", "false", "0", "\"\"", "len $0", "and $0 (gt $0 1)", "first $0.a false",
                        "$1", "$x", "lte 2 $0", "neq $0 null", "eq (type_of $0) \"string\"", "is_null $0", "select $0 true false", "add $0 1", "(gt $0 1", "", "gt $0", "type_of $0 \"list\"", "[]", "[0]", "null", "$0.c.d", "eq .c.d 1", "sub $0 2")
            a = [lst(*l), s(e)]
            if self.p(.05): a = self.ch(a[:1], [v.scalar(), s(e)], [a[0], boolean(True)], [a[0], u(1)], [])
        else:
            ks = [r.choice(KEYS) for _ in range(r.randint(0, 4))]
            a = [y for k in ks for y in (s(k), v.any(1))]
            if self.p(.2): a.append(v.scalar())
            if self.p(.08) and a: a[self.r.randrange(len(a)) & ~1] = self.ch(u(1), NULL)
        return f_, a
    # C23
    def rjson(self, v_):
        """JSON text of a value, in odd but correct writing"""
        w = lambda: self.ch("", "", "", " ", "\n", "\t", " \r\n ")
        t = v_["t"]
        if t == "null": return "null"
        if t == "bool": return "true" if v_["b"] else "false"
        if t in ("uint", "int"): return str(val_of(v_))
        if t == "str":
            o = '"'
            for c in txt(v_["s"]):
                if c in '"\\' : o += "\\" + c
                elif c == "/" and self.p(.3): o += "\\/"
                elif ord(c) < 32: o += {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\b": "\\b", "\f": "\\f"}.get(c, "\\u%04x" % ord(c))
                elif ord(c) < 0x10000 and self.p(.15): o += ("\\u%04x" if self.p(.5) else "\\u%04X") % ord(c)
                else: o += c
            return o + '"'
        if t == "list": return "[" + w() + ("," + w()).join(self.rjson(x) + w() for x in v_["l"]) + "]"
        if t == "map": return "{" + w() + ("," + w()).join(self.rjson(s(txt(e["k"]))) + w() + ":" + self.rjson(e["v"]) + w() for e in self.again(v_["m"])) + "}"
        if t == "float":
            x = val_of(v_)
            return repr(x) if x == x and abs(x) != float("inf") else "null"
        return "null"
    def again(self, es):
        """sometimes a key appears twice, with another value before or after"""
        if not es or self.p(.8): return es
        e = dict(self.r.choice(es), v=self.jval(1))
        k = self.r.randint(0, len(es))
        return es[:k] + [e] + es[k:]
    def jval(self, d=2):
        v = self.v
        x = self.r.random()
        if d <= 0 or x < .6:
            k = self.r.randrange(6)
            if k == 0: return NULL
            if k == 1: return boolean(self.p(.5))
            if k == 2: return v.num_u()
            if k == 3: return v.num_i()
            if k == 4:
                while True:
                    q = v.num_f()
                    if q["c"] == "num" and 1e-4 < abs(val_of(q) or 1) < 1e15: return q
            return v.str_()
        if x < .8: return lst(*[self.jval(d - 1) for _ in range(self.r.randint(0, 4))])
        return mp({k: self.jval(d - 1) for k in self.r.sample(KEYS, self.r.randint(0, 3))})
    def data(self):
        r = self.r
        x = r.random()
        if x < .3: return "w_json", [self.jval() for _ in range(self.ch(1, 1, 1, 1, 2, 0))]
        if x < .36: return "w_json", [self.v.any(2)]
        if x < .6: return "r_json", [s(self.ch("", " ", "\n") + self.rjson(self.jval()) + self.ch("", " ", "\n\t"))]
        if x < .8:
            t = self.rjson(self.jval(1))
            t = self.ch(t + "x", t + " 1", t + ",", "x" + t, t[:-1], t + t, "", " ", "nul", "truex", "nullx", "[1,2", "{\"a\":1,}", "[1,]", "[,1]", "{a:1}", "[1 2]", "01", "-", "+1", "1.", ".5", "1e5", "1.5e3", "1.5e-3", "0x1",
                        "18446744073709551616", "-9223372036854775809", "9223372036854775808", "\"abc", "\"\\q\"", "\"\\u12\"", "\"\\ud800\"", "'a'", "[[[[]]]]", "{\"a\":{\"b\":[]}}", "1/2/2020", "30/feb/2020", "r#\"x\"#", "[1]]", "}", "\"a\" \"b\"", "1.7976931348623159e308x", "{\"a\":1 \"b\":2}", "-0", "1_000")
            return "r_json", [s(t)]
        if x < .83: return "r_json", self.ch([u(1)], [], [NULL], [lst()], [s("1"), s("2")])
        b = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 30])))
        import base64
        if x < .92: return "as_base64", self.ch([byts(b)], [byts(b)], [self.v.str_()], [u(1)], [], [byts(b), u(1)])
        t = base64.b64encode(b).decode()
        return "from_base64", [s(self.ch(t, t, t, t + "!", t.replace("A", "-", 1), " " + t))] if self.p(.9) else self.ch([byts(t.encode())], [NULL], [])
    # C25
    def pathf(self):
        f_ = self.ch("join", "parent", "base_name", "base_name_sure", "stem", "full_stem", "with_ext", "with_ext", "bread_crumbs")
        def seg(): return self.ch("a", "b.txt", "c", "d.tar.gz", "..", ".", "", ".hidden", "x.", "..x", "a b", "é.md", "...", "e")
        def path():
            t = self.ch("", "", "/") + "/".join(seg() for _ in range(self.r.randint(0, 4))) + self.ch("", "", "", "/")
            return s(t)
        a = [path() if self.p(.93) else self.v.scalar() for _ in range(self.ch(1, 1, 1, 2, 3))]
        if f_ == "with_ext":
            a = [path(), self.ch(s("md"), s("tar.gz"), s(""), s("a b"), s("é"), u(7), s(".x"), s("x/y"), s("/"), s(".."), s("html"))]
            if self.p(.05): a = a[:1]
            if self.p(.05): a = a + [s("z")]
        if self.p(.02): a = []
        return f_, a
    # C29
    def svgf(self):
        v = self.v
        f_ = self.ch("xy", "xywh", "cxyrr", "xy12", "fl_stk", "font")
        n = {"xy": 2, "xywh": 4, "cxyrr": 4, "xy12": 4, "fl_stk": 3, "font": 1}[f_]
        k = n + self.ch(0, 0, 0, 1, 1, 2, -1)
        return f_, [self.ch(v.small, v.num, v.str_, v.scalar)() if self.p(.9) else s("mm") for _ in range(max(0, k))]
    def tablef(self):
        r = self.r
        rows = []
        for _ in range(r.randint(0, 6)):
            x = r.random()
            cell = lambda: self.ch("a", "b c", "", " x ", "<i>", "é", "1", "-", "*", "\u00a0y", "  ")
            n = self.ch(0, 1, 2, 2, 3, 3, 4, 5)
            pre = self.ch("", "", "", "", "*", "-", "-", "*-", "-*")
            if x < .06: rows.append(self.ch("", "  ", "text", "*", "-", "*-", "|", "||", "|||", "-|", "*||"))
            else: rows.append(pre + "|" + "|".join(cell() for _ in range(n)) + self.ch("|", "|", "|", "|", "", "| ", "|tail"))
            if self.p(.1): rows[-1] = self.ch("x", " ") + rows[-1]
        t = "\n".join(rows) + self.ch("", "\n", "\n\n", "\n  ")
        if self.p(.05): t = t.replace("\n", "\r\n")
        return "table", ([s(t)] + self.ch([], [], [s("class=\"x\"")], [s("")], [u(1)], [s("a"), s("b")])) if self.p(.98) else self.ch([], [u(5)], [NULL])
    def markup(self): return self.svgf() if self.p(.35) else self.tablef()
    # C27
    def show(self):
        v = self.v
        return "cat", self.few(lambda: v.any(2) if self.p(.6) else v.num(), 1, 1, 2)
    # anything at all
    def wild(self, names):
        v = self.v
        f_ = self.r.choice(names)
        x = self.r.random()
        if x < .45:
            a = [v.any(2) for _ in range(self.ch(0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6))]
            if self.p(.3) and a: a[0] = self.ch(v.list_(2), v.str_(), v.num())
            return f_, a
        g, a = self.r.choice([self.compare, self.arith, self.strf, self.escf, self.sortf, self.searchf, self.listf, self.data, self.pathf, self.svgf, self.tablef, self.show])()
        if self.p(.5): f_ = g
        if a and self.p(.5):
            k = self.r.randrange(len(a))
            a = a[:k] + [v.any(2)] + a[k + 1:]
        if self.p(.1): a = a + [v.any(1)]
        return f_, a
