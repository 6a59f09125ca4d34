"""Model checking of the laws of the built-in functions (spec/MCLaws.tla) on
all tuples of small universes, and the same calls made in the real library."""
import itertools, json, os, re, tempfile
import drive
from enc import *
from gen_val import U64, I63

class Job(dict): pass
def I(k): return {"d": "i", "i": k}
def C(v): return {"d": "v", "v": v}
ALL, RECS, TEXT, SORTED, BYTES = ({"d": x} for x in ("all", "recs", "text", "sorted", "bytes"))
def call(f_, *a): return {"f": f_, "a": list(a)}
def job(law, uni, calls=(), any=False, **kw): return dict(law=law, uni=[list(x) for x in uni], calls=list(calls), any=any, **kw)

def texts(alpha, n):
    """all strings of up to n pieces"""
    seen = {}
    for k in range(n + 1):
        for c in itertools.product(alpha, repeat=k): seen.setdefault("".join(c))
    return list(seen)
NAN, INF = f(float("nan")), f(float("inf"))
MANY = [NULL, boolean(True), boolean(False), u(0), u(1), i(0), i(1), i(-1), u(U64), i(2**63 - 1), i(-2**63), u(2**63), f(0.0), f(-0.0), f(0.5), f(1.0), f(2.0**63), f(2.0**53), u(2**53 + 1), NAN, INF,
        s(""), s("a"), s("b"), s("ab"), s("1"), s("0"), s("true"), s("NULL"), s("é"), s("null"), date(2020, 2, 29), date(2020, 3, 1), date(1999, 12, 31), lst(), lst(u(1)), lst(s("a"), NULL), mp({}), mp({"a": u(1)}), byts(b""), byts(b"a"), TMPL]
NUMS = [u(0), u(1), u(2), u(3), u(7), u(10), u(2**32), u(2**53 + 1), u(2**63 - 1), u(2**63), u(2**63 + 1), u(U64 - 1), u(U64), i(0), i(1), i(-1), i(2), i(-2), i(3), i(-3), i(7), i(-7), i(-10), i(2**32), i(-2**32), i(2**62), i(2**63 - 1), i(-2**63), i(-2**63 + 1),
        f(0.0), f(-0.0), f(1.0), f(-1.0), f(0.5), f(-2.5), f(3.0), f(7.0), f(2.0**53), f(2.0**64), f(1e300), NAN, INF, f(float("-inf"))]
ODD = [NULL, boolean(True), s("1"), s(""), lst(u(1)), date(2020, 1, 1), mp({})]

def jobs(prop, tier, base=None):
    deep = tier != "quick"
    if prop == "C13":
        two = [call(x, I(1), I(2)) for x in ("eq", "neq", "eq_any", "lt", "gt", "lte", "gte", "and", "or", "nand", "nor")]
        m = MANY if deep else [x for k, x in enumerate(MANY) if k not in (9, 17, 18, 22, 25, 27, 28, 30, 36, 39)]
        three = [call(x, I(1), I(2), I(3)) for x in ("eq", "neq", "eq_any", "lt", "gt", "lte", "gte", "and", "or", "nand", "nor")]
        nums = [x for x in MANY if x["t"] in ("uint", "int", "float")]
        return [job("cmp2", [MANY, MANY], two + [call("type_of", I(1), I(2))]), job("none", [MANY], [call(x, I(1)) for x in ("type_of", "is_null", "is_num", "eq", "neq", "eq_any", "lt", "gte", "and", "or", "nand", "nor")]),
                job("cmp3", [m, m, m]), job("cmp3", [nums, nums, nums] if deep else [nums[::2]] * 3, three), job("none", [[x for x in MANY if x["t"] not in ("uint", "int", "float")][::1 if deep else 3]] * 3, three)]
    if prop == "C14":
        e = [NULL, u(1), i(1), f(1.0), u(2), i(-1), s("a"), s("b"), boolean(True), NAN]
        small = [u(1), i(1), u(2), s("a")]
        cs = [call("sort", ALL), call("sort_on", RECS, C(s("k"))), call("sort_on", RECS, C(s("-k"))), call("sort_on", RECS, C(s("k")), C(s("-i"))), call("sort_on", RECS, C(s("i"))), call("sort_on", RECS, C(s("-z")), C(s("k")))]
        return [job("sort", [e] * (4 if deep else 3), cs, any=True), job("sort", [small] * (6 if deep else 4), cs, any=True),
                job("none", [[mp({}), mp({"k": u(1)}), mp({"k": u(2)}), mp({"k": lst(u(1))}), u(1), mp({"k": mp({"z": s("a")})}), mp({"j": u(1)})]] * (4 if deep else 3),
                    [call("sort_on", ALL, C(s(c))) for c in ("k", "-k", "k.0", "k.z", "-k.z", "j", "0")] + [call("sort_on", ALL, C(s("-j")), C(s("k")))], any=True)]
    if prop == "C15":
        e = [u(1), i(1), s("a"), lst(u(1)), NULL]
        n = 5 if deep else 4
        lists = lambda k: [call("list", *[I(x + 1) for x in range(k)])]
        num = [C(x) for x in (u(0), u(1), u(2), u(3), i(1), i(-1), u(9), f(1.0), s("1"), i(-2**32), i(1 - 2**32), u(2**32), u(2**32 + 1), i(-2**63), i(2 - 2**63), u(2**63), u(U64), u(2**63 + 1), i(2**32 + 1), f(-1.0), f(0.5), NULL, i(-2), i(-3), i(256), i(-256), i(-255), u(257), u(65537), i(-65535))]
        cs = [call("groups", x, ALL) for x in num] + [call("get", ALL, x) for x in num] + [call("slice", ALL, x) for x in num] + [call("slice", ALL, x, y) for x in num[:4] for y in num[:5]] + [call("len", ALL), call("append", ALL), call("append", ALL, C(u(7)), ALL), call("index_of", C(u(1)), ALL), call("index_of", C(s("a")), ALL), call("index_of", C(lst(u(1))), ALL)]
        chars = [s("a"), s("é"), s("日"), s("\U0001F600")]
        pos = [C(u(x)) for x in range(6)]
        keys = [s("a"), s("b"), s(""), u(1)]
        return [job("list", [e] * n, cs, any=True), job("strpos", [chars] * (4 if deep else 3), [call("len", TEXT)] + [call("get", TEXT, p) for p in pos] + [call("slice", TEXT, p) for p in pos] + [call("slice", TEXT, p, q) for p in pos for q in pos], any=True),
                job("map", [keys, [u(1), s("x")], keys, [u(2), NULL]], [call("map", I(1), I(2), I(3), I(4))]),
                job("none", [[u(0), u(1), s(""), s("a"), NULL, f(0.0), lst()]] * (4 if deep else 3), [call("filter", ALL, C(s(x))) for x in ("$0", "eq $0 1", "gt $0 0", "first $0 1", "len $0", "eq (type_of $0) \\\"string\\\"", "eq (type_of $0) \"string\"", "get $0 0", "select $0 0 1", "[$0]", "$0.0", "$1", "nor $0")], any=True),
                job("none", [MANY if deep else MANY[::2], [u(1), s("a"), NULL]], [call("filter", ALL, C(s(x))) for x in ("$0", "first $0 1", "[$0]", "eq $0 $0", "type_of $0", "select true $0 1", "and $0", "or $0 $0", "is_null $0")], any=True),
                job("none", [MANY], [call("filter", ALL, C(s("$0"))), call("filter", C(mp({"a": u(1)})), I(1)), call("filter", I(1), C(s("true"))), call("len", I(1)), call("append", I(1), C(lst(u(1)))), call("append", C(lst(u(1))), I(1)), call("append", ALL, I(1)), call("get", I(1), C(u(0))), call("get", I(1), C(s("a"))), call("get", C(lst(u(5), u(6))), I(1)), call("get", C(mp({"a": u(1), "1": u(2), "true": u(3), "": u(4)})), I(1)), call("slice", I(1), C(u(0))), call("slice", C(lst(u(5), u(6))), I(1)), call("slice", C(lst(u(5), u(6))), C(u(0)), I(1)), call("slice", C(s("a\u00e9b")), I(1)), call("slice", C(s("a\u00e9b")), C(u(0)), I(1)), call("groups", I(1), C(lst(u(1), u(2), u(3)))), call("groups", C(u(2)), I(1)), call("index_of", I(1), ALL), call("index_of", I(1), C(lst(u(0), s("1"), NULL, f(1.0)))), call("index_of", C(u(1)), I(1)), call("map", I(1), C(u(1))), call("map", C(s("k")), I(1)), call("map", I(1)), call("list", I(1))])]
    if prop == "C16":
        two = [call(x, I(1), I(2)) for x in ("add", "sub", "mul", "div", "mod", "min", "max")]
        allv = NUMS + ODD
        t3 = [u(0), u(1), u(3), u(U64), u(2**63), i(-1), i(2), i(-2**63), i(2**63 - 1), f(0.5), f(2.0**63), s("x")]
        if not deep: t3 = t3[:-2:1]
        return [job("arith", [allv, allv], two), job("none", [allv], [call(x, I(1)) for x in ("add", "sub", "mul", "div", "mod", "min", "max")]),
                job("arith3", [t3] * 3, [call(x, I(1), I(2), I(3)) for x in ("add", "sub", "mul", "div", "mod", "min", "max")])]
    if prop == "C17":
        t = [s(x) for x in texts("ab,", 4 if deep else 3)] + [s(x) for x in ("aaaa", "ababa", "é,é", "a\nb", "日日", "aXaXa")]
        p = [s(x) for x in ("", "a", "b", "aa", "ab", ",", "aba", ",,", "é", "日")]
        q = [s(x) for x in ("", "x", "a", "aa", "é")]
        return [job("split", [t, p, q], [call("str_replace", I(1), I(2), I(3)), call("str_replace_n", I(1), I(2), I(3))] + [call("str_replace_n", I(1), I(2), I(3), C(n)) for n in (u(0), i(2), u(9), i(-1))]),
                job("none", [t, p], [call("split", I(1), I(2)), call("str_contains", I(1), I(2)), call("str_contains", I(1), C(s("b")), I(2)), call("cat", I(1), I(2), I(1)), call("join_with", I(2), C(lst(s("a"), u(1), s("")))), call("string_from_ints", C(u(97)), C(u(8364)), C(u(55296)), C(u(1114112)))]),
                job("none", [[s(x) for x in texts(["a", "bb", " ", "\n", "é"], 5 if deep else 4)], [u(0), u(1), u(2), u(3), i(5)]], [call("word_wrap", I(1), I(2))]),
                job("none", [[s(x) for x in texts(["日", "bb", " "], 6 if deep else 5)], [u(3), u(4), u(5)]], [call("word_wrap", I(1), I(2))]),
                job("none", [[s(x) for x in texts(["a", "bb", " ", "\t"], 6 if deep else 5)], [u(2), u(3), u(4)] + ([u(5), u(6)] if deep else [])], [call("word_wrap", I(1), I(2))]),
                job("none", [MANY, [s(""), s("a"), u(1), NULL]], [call(x, I(1), I(2)) for x in ("split", "str_contains", "cat", "join_with", "word_wrap", "debug" , "str_replace", "string_from_ints")][:5] + [call("str_replace", I(1), I(2), C(s("z"))), call("str_replace", C(s("a1a")), I(1), I(2)), call("str_replace", C(s("a1a")), I(2), I(1)), call("str_replace_n", C(s("a1a")), C(s("a")), C(s("b")), I(1)), call("split", I(2), I(1)), call("word_wrap", C(s("a b c")), I(1)), call("join_with", I(1), ALL), call("string_from_ints", I(1), I(2)), call("string_from_ints", ALL)])]
    if prop == "C18":
        a = [s(x) for x in ("&", "<", "a", ";", "#", "\"", "'", ">", "lt", "é")]
        return [job("esc", [a] * (5 if deep else 4), [call("html_esc", TEXT), call("xml_esc", TEXT)], any=True)]
    if prop == "C23":
        b = [u(x) for x in (0, 1, 63, 128, 255)]
        a = [s(x) for x in ("{", "}", "[", "]", ",", ":", "\"", "a", "1", " ", "-", ".", "\\")]
        d = [s(x) for x in ("0", "1", "9", "-", ".", "e", "_", "/", "12", "2020", "u")]
        st_ = [s(x) for x in ("\"", "\\", "n", "u", "{", "}", "41", "é", "\n", "'", "{{", "r#")]
        w = [NULL, boolean(True), u(1), u(U64), i(-1), i(-2**63), i(5), f(0.5), f(-1.0), f(1e15), f(0.1), s(""), s("a\"b\\\n"), s("\x01é\u2028"), lst(), mp({}), date(2020, 2, 29)]
        return [job("b64", [b] * (5 if deep else 4), [call("as_base64", BYTES)], any=True), job("data", [a] * (5 if deep else 4), [call("r_json", TEXT)], any=True), job("data", [d] * (5 if deep else 4), [call("r_json", TEXT)], any=True),
                job("data", [st_] * (5 if deep else 4), [call("r_json", TEXT)], any=True), job("none", [w] * (3 if deep else 2), [call("w_json", ALL), call("w_json", RECS), call("w_json", C(mp({"z": lst()})), ALL)], any=True),
                job("none", [[s(x) for x in ("A", "Q", "=", "+", "/", "-", "z", "9")]] * 4, [call("from_base64", TEXT)], any=True)]
    if prop == "C25":
        a = [s(x) for x in ("/", ".", "a", "b.c", "..")]
        one = [call(x, TEXT) for x in ("join", "parent", "bread_crumbs", "base_name", "base_name_sure", "stem", "full_stem")] + [call("with_ext", TEXT, C(s(x))) for x in ("", "z", ".z", "a/b", "..", "t.u")]
        t = [s(x) for x in texts(["/", ".", "a", "b.c"], 3)]
        return [job("path", [a] * (6 if deep else 5), one, any=True), job("join", [t, t], [call(x, I(1), I(2)) for x in ("join", "parent", "bread_crumbs", "base_name", "base_name_sure", "stem", "full_stem", "with_ext")])]
    if prop == "C27":
        nums = NUMS + [f(x) for x in (0.1, 1e-7, 123456.789, 1e21, 2.0**-30, 1e15, 9.5367431640625e-07, 0.30000000000000004, 5e-324, 1.7976931348623157e308, 123456789012345680.0, 2.0**70)] + [u(10**k) for k in range(20)] + [i(-10**k) for k in range(19)]
        if not deep: nums = [x for x in nums if x["t"] != "float" or abs(x["e"]) < 500]
        vals = MANY + nums + [lst(x) for x in MANY] + [lst(x, y) for x in MANY[::3] for y in MANY[::4]] + [date(y, m, d_) for y in (0, 1, 999, 1000, 9999, 10000, -1, -9999, -10000) for m, d_ in ((1, 1), (12, 31), (9, 10))] + [lst(lst(), lst(lst(s("x"), NULL)), s(",")), byts(bytes([0, 9, 255]))]
        return [job("show", [vals], [call("cat", I(1)), call("cat", I(1), C(s("|")), I(1)), call("join_with", C(s("-")), C(lst(u(1), f(2.0)))), call("join_with", I(1), C(lst(s("a"), s("b")))), call("str_contains", I(1), I(1))])]
    if prop == "C28":
        v = [u(0), u(1), u(5), u(U64), i(0), i(1), i(5), i(-1), i(-5), i(2**63 - 1), i(-2**63), f(0.0), f(1.0), f(-2.5), NAN, INF, f(-0.0), lst(), lst(u(1)), lst(s("a"), NULL, u(3)), s("5"), NULL, boolean(True), mp({})]
        return [job("rand", [v, v], [call("rand", I(1), I(2))]), job("rand", [v], [call("rand", I(1))]), job("none", [v[::3]] * 3, [call("rand", I(1), I(2), I(3))])]
    if prop == "C29":
        a = [s(x) for x in ("|", "a", "*", "-", "\n", " ")]
        full = [s(x) for x in ("|a|b|\n", "*|a|b|\n", "-|c|d|\n", "|x|\n", "*-|e|f|g|\n", "\n", " \n", "t\n", "-||\n", "*||k|\n")]
        v = [u(1), i(-2), f(2.5), s("a"), s(""), s("\""), NULL, lst(u(1), u(2))]
        return [job("table", [a] * (6 if deep else 5), [call("table", TEXT)], any=True), job("table", [full] * (5 if deep else 4), [call("table", TEXT), call("table", TEXT, C(s("class=\"k\"")))], any=True),
                job("none", [v] * 2, [call(x, I(1), I(2)) for x in ("xy", "xywh", "fl_stk", "font", "cxyrr")] + [call("xy", I(1), I(2), I(1)), call("font", I(1), I(2), I(1)), call("fl_stk", I(1), I(2), I(1)), call("fl_stk", I(2), I(1), I(2), I(1)), call("font", I(1))] +
                    [call(x, I(1), I(2), C(u(3)), C(u(4))) for x in ("xywh", "cxyrr", "xy12")] + [call(x, C(u(3)), C(u(4)), I(1), I(2), C(s("px"))) for x in ("xywh", "cxyrr", "xy12")])]
    if prop == "C03":
        from gens import NAMES_ALL
        m = MANY + [s("2"), s("a.b"), s("-a"), u(3), lst(lst(s("b"), u(1)), lst(s("a"), u(2))), s("|a|b|\n-|c|"), s("{{x}}"), s("$0"), s("gt $0 1"), s("\\"), s("(")]
        fs = [x for x in NAMES_ALL if x not in ("debug",)]
        one, two = [call(x, I(1)) for x in fs], [call(x, I(1), I(2)) for x in fs]
        few = [NULL, u(1), i(-1), f(0.5), s("a"), s(""), lst(u(1), u(2)), mp({"a": u(1)}), u(U64), NAN, byts(b"x"), TMPL]
        return [job("none", [m], one), job("none", [m[::1 if deep else 4], m[::1 if deep else 3]], two), job("none", [few[::1 if deep else 3]] * 3, [call(x, I(1), I(2), I(3)) for x in fs] + [call(x, I(1), I(2), I(3), C(u(2)), C(s("z"))) for x in fs]), job("none", [], [call(x) for x in fs], any=True)]
    if prop == "C21":
        from gens import NAMES_ALL, FILES, PROGS
        steps = [st(x) for x in ("defaults", "bools", "math", "lists", "strings", "path", "maps", "format", "rand", "bytes", "svg", "free", "exec")] + [st("folder", p=codes("@")), st("write", p=codes("@")), probe("file", "id"), probe("exec", "id"), probe("add", "id")]
        return [job("caps", [steps] * (4 if deep else 3), any=True, names=[codes(x) for x in NAMES_ALL + FILES + PROGS + ["run", "p"]])]
    if prop == "C22":
        m = mp({"a": lst(s("x"), i(7), mp({"b": s("z"), "0": f(1.5)})), "n": s("7"), "0": boolean(True), "m": mp({"a": lst(lst(s("d")))}), "e": lst(), "b": mp({})})
        m2 = mp({"a": s("over"), "q": i(2)})
        hs = [host(k, v) for k in ("td", "json", "toml", "map", "refmap") for v in (m, m2)] + [host(k, v) for k in ("td", "json") for v in (s("t"), i(4), NULL, lst(m, i(1)), u(U64), f(2.5))] + \
             [host("strmap", mp({"a": s("1"), "0": s("z")})), host("nummap", mp({"a": u(1)})), host("strs", lst(s("p"), s("q"))), host("string", s("t")), host("str", s("")), host("usize", u(5)), host("f64", f(1.5)), host("bool", boolean(True)), host("kv", m, k=codes("a")), host("kv", s("v"), k=codes("0")), host("cdata", lst(s("c"), i(1), mp({"a": s("x")})))] + [host(k, mp({"Name": s("N"), "Num": u(3), "a": i(-1)})) for k in ("card", "cardx")]
        hs += [host("pair", a=a, b=b) for a in hs[:12:3] + hs[-4:-1] for b in hs[1:12:3] + hs[-6:]]
        parts = [{"t": "i", "s": codes(x)} for x in ("a", "b", "m", "0", "Name", "zz")] + [{"t": "n", "n": limbs(x)} for x in (0, 1, 2, 2**40)]
        return [job("host", [hs] + [parts] * (4 if deep else 3), any=True)]
    return []

NEAR = ["abc", "ABC", "abc ", " abc", "abc\n", "ab", "a.c", "abc.", "[1]", "[1 ]", "{{x}}", "{{ x}}", "gt $0 1", "1", "1 ", "01", "1.0", "-a", "a/b.c", "a/b.c/", "|a|", "{\"a\":1}", "{\"a\":1.0}", "(", ""]
def memo_sessions(prop, tier):
    """Calls that differ in little, each made straight after each other one:
    what a call gives may not depend on the calls before it."""
    from gens import NAMES_ALL
    deep = tier != "quick"
    vals = [s(x) for x in NEAR] + [u(1), i(1), f(1.0), u(0), boolean(True), NULL, lst(u(1)), lst(i(1)), lst(s("1")), lst(lst(u(1))), lst(s("abc"), s("ABC")), lst(s("ABC"), s("abc")), mp({"a": u(1)}), mp({"A": u(1)}), byts(b"abc"), date(2020, 1, 1), lst()]
    S = []
    for f_ in sorted(set(NAMES_ALL) - {"rand", "debug", "env", "exec", "exec_stdin"}):
        for c in range(4 if deep else 3):
            a = [[v] for v in vals] if c == 0 else [[s("xabcx"), v] for v in vals] if c == 1 else [[v, s("abc")] for v in vals] if c == 2 else [[lst(u(1), u(2), s("abc")), v, s("a")] for v in vals]
            if not deep: a = a[:23:2] + a[1:23:4] + a[23::2]
            seq = [k for x in range(len(a)) for y in range(x) for k in (x, y)]
            S.append((f_, a, seq))
    return S
def run_memo(prop, tier, binary, scratch, R):
    rows = memo_sessions(prop, tier)
    X = [session("memo-%d" % n, prop, [op_fm("F", st("defaults"))] + [op_call("F", f_, *a[k]) for k in seq], lib=0) for n, (f_, a, seq) in enumerate(rows)]
    drive.parallel_execute(binary, X, scratch)
    bad, n = [], 0
    for x, (f_, a, seq) in zip(X, rows):
        first = {}
        for k, o in zip(seq, x["ops"][1:]):
            n += 1
            r = json.dumps(o["res"], sort_keys=True)
            if k not in first: first[k] = (o, r)
            elif first[k][1] != r and not (o["res"]["o"] == "err" and first[k][0]["res"]["o"] == "err"):
                # the call, what it gave first, and what it gave now
                at = x["ops"].index(o)
                bad.append(session(x["id"], prop, [x["ops"][0], first[k][0]] + x["ops"][at - 1:at + 1] + [op_same(2, 4)], lib=0)); break
    R.cov["calls_in_every_order"] = n
    R.replayed += len(X)
    if bad: R.rejected += drive.check(bad, scratch)[0]

LINKED = [False, True]
def lock_jobs(prop, tier, base):
    """paths put together from pieces, for a folder in a small world"""
    js, ws = [], []
    for linked in LINKED:
        w = {"": None, "/in": None, "/in/a": None, "/in/a/f": b"IAF", "/in/f": b"IF", "/in/in": None, "/in/in/f": b"IIF", "/in/_h": None, "/in/_h/f": b"H", "/a": None, "/a/f": b"SECRET A", "/f": b"SECRET", "/inner": None, "/inner/f": b"INNER"}
        if linked: w.update({"/in/l": ("link", "/a"), "/in/lf": ("link", "/f"), "/in/a/up": ("link", "/in")})
        for lock, txt_ in (("/in", base + "/in"), ("/in", base + "//in/."), ("/in/a", "in/a"), ("", base)) if not linked else (("/in", base + "/in"), ("/in/a", base + "/in/a")):
            ps = ["../", "a/", "f", "./", "..", "/", "in", "new", base + "/", "inner/"] + (["l/", "lf", "up/"] if linked else ["_h/"])
            if prop == "C20": ps = ["a/", "f", "in/", "new", "_h/", ".", "/", "n/", "../"] + (["l/", "up/", "lf"] if linked else [])
            js.append(job("lock", [[s(x) for x in ps]] * (3 if tier == "quick" else 4), any=True, base=codes(base), w=op_mkfs(base, w)["w"], lock=codes(lock), lockp=codes(txt_)))
            ws.append(w)
    return js, ws
def lock_sessions(prop, tier, js, ws, roots):
    """the same paths, given to every function"""
    S = []
    k = 0
    for j, w in zip(js, ws):
        seen = {}
        for n in range(len(j["uni"]) + 1):
            for x in itertools.product(j["uni"][0], repeat=n): seen.setdefault("".join(txt(v["s"]) for v in x))
        ps = list(seen)
        old = txt(j["base"])
        def start():
            nonlocal k
            b = "%s/law%d/p/q/w" % (roots, k)
            k += 1
            lp = codes(txt(j["lockp"]).replace(old, b))
            return b, [op_mkfs(b, w), op_fm("F", st("defaults"), st("folder", p=lp), st("write", p=lp)), op_fm("X", st("defaults"), st("free"))]
        for c in range(0, len(ps), 60):
            b, ops = start()
            for p in ps[c:c + 60]:
                q = p.replace(old, b)
                for fm in ["F"] + (["X"] if prop == "C20" and not q.startswith("/") else []):
                    for f_ in ["file", "is_file", "is_dir", "dir"] + (["file_bytes", "scan_dir"] if tier != "quick" else []): ops.append(op_call(fm, f_, s(q)))
            S.append(session("lock-r%d" % k, prop, ops + [SNAP], lib=1))
        for c in range(0, len(ps), 25):
            b, ops = start()
            for n, p in enumerate(ps[c:c + 25]):
                q = p.replace(old, b)
                x = "X" if prop == "C20" and n % 3 == 2 and not q.startswith("/") and ".." not in q else "F"
                ops += [op_call(x, "write", s(q), s("W%d" % n)), SNAP]
                if n % 3 == 0: ops.append(op_call(x, "file", s(q)))
            S.append(session("lock-w%d" % k, prop, ops, lib=1))
    return S

def args_of(j, x, c):
    t = [j["uni"][k][n - 1] for k, n in enumerate(x)]
    def one(d):
        k = d["d"]
        if k == "i": return t[d["i"] - 1]
        if k == "v": return d["v"]
        if k == "all": return lst(*t)
        if k == "recs": return lst(*[mp({"i": u(n), "k": v}) for n, v in enumerate(t)])
        if k == "text": return {"t": "str", "s": [y for v in t for y in v["s"]]}
        if k == "bytes": return {"t": "bytes", "s": [(v["n"]["m"] or [0])[0] for v in t]}
    return [one(d) for d in c["a"]]

def tlc_run(js, timeout=3000):
    with tempfile.NamedTemporaryFile("w", suffix=".json", prefix="tv-ml-", delete=False) as fh: json.dump(js, fh)
    try:
        rc, out = drive.tlc("MCLaws.tla", "MCLaws.cfg", {"MC_CFG": fh.name}, workers=drive.CPU, heap="8g", timeout=timeout)
    finally:
        os.unlink(fh.name)
    res = [json.loads(json.loads(l)[4:]) for l in out.splitlines() if l.startswith('"OUT ')]
    m = re.search(r"(\d+) states generated, (\d+) distinct", out)
    if re.search(r"^Error:", out, re.M) or not m:
        raise drive.Trouble("a law does not hold of the specification:\n" + "\n".join(x[:600] for x in out.splitlines() if not x.startswith('"OUT'))[-3000:])
    return res, int(m.group(2)), int(m.group(1))

def replay(prop, js, res, binary, scratch, per=400):
    """makes the calls; the sessions of those not equal to what was computed"""
    want, order = {}, []
    for r in res:
        j = js[r["j"] - 1]
        for c, w in zip(j["calls"], r["r"]):
            a = args_of(j, r["x"], c)
            key = json.dumps([c["f"], a])
            if key not in want: want[key] = w; order.append((c["f"], a, key))
    fm = op_fm("F", st("defaults"))
    S = [session("laws-%d" % k, prop, [fm] + [op_call("F", f_, *a) for f_, a, _ in order[k:k + per]], lib=1) for k in range(0, len(order), per)]
    drive.parallel_execute(binary, S, scratch)
    diff, relational = [], 0
    for x, k in zip(S, range(0, len(order), per)):
        got = x["ops"][1:]
        for n, (f_, a, key) in enumerate(order[k:k + per]):
            if n >= len(got): break                 # the process died: the last one reported it
            w, r = want[key], got[n]["res"]
            if prop == "C03" and r["o"] in ("ok", "err"): continue
            if w["o"] == "any": relational += 1
            elif w["o"] == r["o"] and (w["o"] == "err" or w["v"] == r.get("v")): continue
            diff.append(got[n])
    return [session("laws-rest-%d" % k, prop, [fm] + diff[k:k + 250], lib=1, mode="total" if prop == "C03" else "full") for k in range(0, len(diff), 250)], len(order), relational, len(diff)

def replay_other(prop, js, res, binary, scratch, per=300):
    """host values and function sets"""
    rows = [(js[r["j"] - 1], r) for r in res if r["x"] or js[r["j"] - 1]["law"] == "caps"]
    S = []
    for k in range(0, len(rows), per):
        ops = []
        for j, r in rows[k:k + per]:
            t = [j["uni"][n][y - 1] for n, y in enumerate(r["x"])]
            if j["law"] == "host": ops.append(op_getv(t[0], t[1:]))
            else: ops += [op_fm("F", *[dict(y, p=codes(scratch.fs)) if "p" in y else y for y in t]), dict(op_has("F", []), names=j["names"])]
        S.append(session("laws-o%d" % k, prop, ops, lib=1))
    drive.parallel_execute(binary, S, scratch)
    bad, n = [], 0
    for x, k in zip(S, range(0, len(rows), per)):
        step = 1 if js[0]["law"] == "host" else 2
        for q, (j, r) in enumerate(rows[k:k + per]):
            ops = x["ops"][step * q:step * (q + 1)]
            n += 1
            if len(ops) < step: bad.append(session("%s-%d" % (x["id"], q), prop, x["ops"][step * (q - 1):] if not ops else ops, lib=1)); break
            got = ops[-1]["res"]
            w = r["r"]
            if j["law"] == "host": ok = (got["o"] == "none" and w == []) or (got["o"] == "ok" and w and w[0] == got["v"])
            else: ok = got["o"] == "ok" and got["v"] == w
            if not ok: bad.append(session("%s-%d" % (x["id"], q), prop, ops, lib=1))
    return bad[:200], n

def run(prop, tier, binary, scratch, R):
    if prop in ("C19", "C20"):
        js, ws = lock_jobs(prop, tier, scratch.fs + "/law")
        _, states, gen = tlc_run(js)
        S = lock_sessions(prop, tier, js, ws, scratch.fs)
        drive.parallel_execute(binary, S, scratch)
        rej, st_ = drive.check(S, scratch)
        R.states += states + st_.states; R.generated += gen + st_.generated; R.replayed += len(S)
        R.cov["laws_tuples"] = states
        R.cov["file_calls_from_model"] = sum(1 for x in S for o in x["ops"] if o["op"] == "call")
        R.rejected += rej
        return
    if prop == "C26": run_memo(prop, tier, binary, scratch, R)
    js = jobs(prop, tier)
    if not js: return
    res, states, gen = tlc_run(js)
    R.states += states; R.generated += gen
    if prop in ("C21", "C22"):
        bad, n = replay_other(prop, js, res, binary, scratch)
        R.cov["laws_tuples"], R.cov["lookups_from_model"] = states, n
        R.replayed += n
        if bad: R.rejected += drive.check(bad, scratch)[0]
        return
    S, n, rel, nd = replay(prop, js, res, binary, scratch)
    R.cov["laws_tuples"] = states
    R.cov["calls_from_model"] = n
    R.cov["calls_with_several_answers"] = rel
    R.replayed += n
    if S:
        rej, _ = drive.check(S, scratch)
        R.rejected += rej
    mid = res[len(res) // 2] if res else None
    if mid: R.samples.append({"law": js[mid["j"] - 1]["law"], "call": enc_call(js[mid["j"] - 1], mid), "result": show(mid["r"][0]["v"])[:200] if mid["r"][0]["o"] == "ok" else mid["r"][0]["o"]})
def enc_call(j, r): return j["calls"][0]["f"] + " " + " ".join(show(v) for v in args_of(j, r["x"], j["calls"][0]))[:300]
