"""Random values and arguments for the built-in functions."""
from enc import *

U64 = 2**64 - 1
I63 = 2**63
WHOLE = [0, 1, 2, 3, 4, 7, 9, 10, 11, 99, 100, 127, 128, 255, 256, 1000, 9999, 10000, 10001, 65535, 65536, 99999999, 100000000,
         2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**53 - 1, 2**53, 2**53 + 1, 2**53 + 2, 2**62, I63 - 1, I63, I63 + 1, I63 + 2, U64 - 1, U64]
FLOATS = [0.0, -0.0, 0.1, 0.5, 0.25, 1.0, 1.5, 2.0, 2.5, 3.0, -0.1, -0.5, -1.0, -1.5, -2.0, -3.25, 10.0, 100.0, 1e15, 1e16, 123456.789, 1e-7, 0.3,
          2.0**53, 2.0**53 + 2, -2.0**53, 2.0**62, 2.0**63, -2.0**63, 2.0**63 + 2048, 2.0**64, 2.0**64 - 2048, 3.141592653589793, 1e21, 2.0 ** -30, float("nan"), float("inf"), float("-inf")]
STRS = ["", "a", "b", "c", "ab", "abc", "aa", "aaa", "A", "B", "Z", "z", "a b", " a ", "0", "1", "-1", "1.5", "true", "false", "null", "é", "ée", "日本", "\U0001F600", "a\U0001F600b",
        "\n", "a\nb", "\t", "&", "<", ">", "\"", "'", "&amp;", "<b>\"x\"</b>", "it's", "a,b,c", ",", "a/b", "/", ".", "..", "x.y", "foo.tar.gz", "\\", "{{x}}", "}}", "NULL", "number", "string", "list",
        "\x00", "\x7f", "\u0085", "\u00a0x", "\u2028", "hello world", "Hello", "a-b_c"]
DATES = [(2020, 2, 29), (2020, 2, 28), (2020, 3, 1), (1999, 12, 31), (2000, 1, 1), (1, 1, 1), (9999, 12, 31), (2020, 10, 9), (2021, 2, 29 - 1), (-5, 6, 7), (12345, 1, 2)]
KEYS = ["a", "b", "c", "id", "name", "k1", "x y", "é", "0", "1"]

class V:
    def __init__(self, rng): self.r = rng
    def ch(self, *a): return self.r.choice(a)
    def p(self, x): return self.r.random() < x
    def whole(self):
        r = self.r
        x = r.random()
        if x < .5: n = r.choice(WHOLE)
        elif x < .8: n = r.randint(0, 20)
        else: n = r.getrandbits(r.randint(1, 64))
        return n
    def num_u(self): return u(self.whole())
    def num_i(self):
        n = self.whole() % (I63 + 1)
        return i(-n if self.p(.55) or n == I63 else n)
    def num_f(self):
        if self.p(.7): return f(self.r.choice(FLOATS))
        if self.p(.5): return f(self.r.randint(-2000, 2000) / 2 ** self.r.randint(0, 12))
        return f(round(self.r.uniform(-1000, 1000), self.r.randint(0, 6)))
    def num(self): return getattr(self, self.ch("num_u", "num_u", "num_i", "num_i", "num_f"))()
    def small(self): return self.ch(u, i)(self.r.randint(0, 6))
    def str_(self):
        if self.p(.75): return s(self.r.choice(STRS))
        return s("".join(self.r.choice("aabbc ,.-é\n/<&") for _ in range(self.r.randint(0, 9))))
    def date(self): return date(*self.r.choice(DATES)) if self.p(.7) else date(self.r.randint(1900, 2100), self.r.randint(1, 12), self.r.randint(1, 28))
    def scalar(self):
        x = self.r.random()
        if x < .12: return NULL
        if x < .22: return boolean(self.p(.5))
        if x < .5: return self.num()
        if x < .58: return self.small()
        if x < .85: return self.str_()
        if x < .95: return self.date()
        return byts(bytes(self.r.randrange(256) for _ in range(self.r.randint(0, 5))))
    def list_(self, d=1, n=None):
        return lst(*[self.any(d - 1) for _ in range(self.r.randint(0, 4) if n is None else n)])
    def map_(self, d=1):
        return mp({k: self.any(d - 1) for k in self.r.sample(KEYS, self.r.randint(0, 3))})
    def any(self, d=2):
        x = self.r.random()
        if d <= 0 or x < .7: return self.scalar() if self.p(.98) else TMPL
        if x < .87: return self.list_(d)
        return self.map_(d)
    def plain(self, d=2):
        """any value without templates"""
        while True:
            v = self.any(d)
            if '"tmpl"' not in repr(v).replace("'", '"'): return v
    def like(self, v):
        """a value likely to be equal or close to v"""
        r = self.r
        t = v["t"]
        if t in ("uint", "int", "float"):
            try: n = val_of(v)
            except (OverflowError, ValueError): return v
            x = r.random()
            if x < .3: pass
            elif x < .6: n = n + r.choice([-1, 1, 2, -2])
            elif x < .7: n = -n
            k = r.choice(["uint", "int", "float"])
            try:
                if k == "float": return f(float(n))
                n = int(n)
            except (OverflowError, ValueError): return v
            if k == "uint" and 0 <= n <= U64: return u(n)
            if -I63 <= n < I63: return i(n)
            return u(n) if 0 <= n <= U64 else v
        if t == "str":
            x = txt(v["s"])
            return s(r.choice([x, x + "a", x[:-1], x.upper(), x + " ", "a" + x]))
        if t == "date":
            return date(v["y"], v["m"], v["d"]) if self.p(.5) else self.date()
        if t == "bool": return r.choice([boolean(True), boolean(False), u(1), u(0), s("true")])
        if t == "null": return r.choice([NULL, NULL, u(0), s(""), boolean(False), lst(), mp({})])
        return v if self.p(.6) else self.any()
def val_of(v):
    if v["t"] == "float":
        if v["c"] == "nan": return float("nan")
        if v["c"] == "inf": return v["g"] * float("inf")
        n = 0
        for d in reversed(v["m"]): n = n * B + d
        return v["g"] * n * 2.0 ** v["e"] if v["m"] else v["g"] * 0.0
    n = 0
    for d in reversed(v["n"]["m"]): n = n * B + d
    return v["n"]["g"] * n
