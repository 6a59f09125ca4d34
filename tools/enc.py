"""Text, values and sessions in the encoding of the specification (spec/Values.tla)."""
import json, struct, math

B = 10000

def codes(s):
    return [ord(c) for c in s]

def limbs(n):
    r = []
    while n > 0:
        r.append(n % B)
        n //= B
    return r

def z(n):
    return {"g": (n > 0) - (n < 0), "m": limbs(abs(n))}

NULL = {"t": "null"}
def boolean(b): return {"t": "bool", "b": bool(b)}
def s(x): return {"t": "str", "s": codes(x)}
def u(n): return {"t": "uint", "n": z(n)}
def i(n): return {"t": "int", "n": z(n)}
def lst(*a): return {"t": "list", "l": list(a)}
def date(y, m, d): return {"t": "date", "y": y, "m": m, "d": d}
def byts(b): return {"t": "bytes", "s": list(b)}
def mp(d):
    """map from {python str: value}"""
    return {"t": "map", "m": [{"k": codes(k), "v": d[k]} for k in sorted(d, key=codes)]}
TMPL = {"t": "tmpl"}
def f(x):
    x = float(x)
    g = -1 if math.copysign(1, x) < 0 else 1
    if x != x:
        return {"t": "float", "c": "nan", "g": 1, "m": [], "e": 0}
    if math.isinf(x):
        return {"t": "float", "c": "inf", "g": g, "m": [], "e": 0}
    if x == 0:
        return {"t": "float", "c": "num", "g": g, "m": [], "e": 0}
    n, d = abs(x).as_integer_ratio()
    e = -(d.bit_length() - 1)
    while n % 2 == 0:
        n //= 2
        e += 1
    return {"t": "float", "c": "num", "g": g, "m": limbs(n), "e": e}

# operations
def op_fm(id, *steps): return {"op": "fm", "id": id, "steps": list(steps)}
def st(name, **kw): return dict(s=name, **kw)
def probe(name, kind, v=None):
    d = {"s": "host", "n": codes(name), "k": "host", "kind": kind}
    if v is not None:
        d["v"] = v
    return d
def op_parse(t, src): return {"op": "parse", "t": t, "src": codes(src)}
def op_load(t, path): return {"op": "load", "t": t, "path": codes(path)}
def op_clone(t, frm): return {"op": "clone", "t": t, "from": frm}
def op_store(x, kind="map"): return {"op": "store", "s": x, "kind": kind}
def op_insert(x, name, t): return {"op": "insert", "s": x, "name": codes(name), "t": t}
def op_peek(x, names): return {"op": "peek", "s": x, "names": [codes(n) for n in names]}
def op_has(fm, names): return {"op": "has", "fm": fm, "names": [codes(n) for n in names]}
def op_render(t, x, fm, ps=(), mode="exp"):
    return {"op": "render", "t": t, "s": x, "fm": fm, "ps": list(ps), "mode": mode}
def op_front(t, fm): return {"op": "front", "t": t, "fm": fm}
def op_call(fm, fn, *a): return {"op": "call", "fm": fm, "f": codes(fn), "a": list(a)}
def op_getv(h, path): return {"op": "getv", "h": h, "path": path}
def op_rands(a, n, least=1): return {"op": "rands", "a": list(a), "n": n, "least": least}
def op_same(a, b): return {"op": "same", "i": a, "j": b}
def op_mkfs(base, w):
    """w: {path below base: None (dir) | bytes | ("link", to) | ("img", bytes, w, h)}"""
    out = []
    for k in sorted(w, key=codes):
        c = w[k]
        if c is None:
            v = {"t": "dir"}
        elif isinstance(c, tuple) and c[0] == "link":
            v = {"t": "link", "to": codes(c[1])}
        else:
            img = []
            if isinstance(c, tuple):
                c, img = c[1], [c[2], c[3]]
            try:
                uu = [codes(c.decode("utf8"))]
            except UnicodeDecodeError:
                uu = []
            v = {"t": "file", "b": list(c), "u": uu, "img": img}
        out.append({"k": codes(k), "v": v})
    return {"op": "mkfs", "base": codes(base), "w": out}
SNAP = {"op": "snap"}
def host(h, v=None, **kw):
    d = {"h": h}
    if v is not None:
        d["v"] = v
    d.update(kw)
    return d
def td(v): return host("td", v)
def session(id, prop, ops, lib=1, mode="full"):
    return {"id": id, "prop": prop, "lib": lib, "mode": mode, "ops": ops}

# reading back, for messages
def txt(c): return "".join(chr(x) for x in c)
def show(v):
    t = v["t"]
    if t == "str": return repr(txt(v["s"]))
    if t in ("uint", "int"):
        n = 0
        for d in reversed(v["n"]["m"]): n = n * B + d
        return "%s%d" % ("-" if v["n"]["g"] < 0 else "" if t == "uint" else "+", n)
    if t == "bool": return str(v["b"]).lower()
    if t == "null": return "null"
    if t == "list": return "[" + ", ".join(map(show, v["l"])) + "]"
    if t == "map": return "{" + ", ".join("%s: %s" % (txt(e["k"]), show(e["v"])) for e in v["m"]) + "}"
    if t == "float":
        if v["c"] != "num": return ("-" if v["g"] < 0 else "") + v["c"]
        n = 0
        for d in reversed(v["m"]): n = n * B + d
        from fractions import Fraction
        try:
            return repr(float(v["g"] * n * Fraction(2) ** v["e"])) + "f"
        except OverflowError:
            return "bigf"
    if t == "date": return "%04d-%02d-%02d" % (v["y"], v["m"], v["d"])
    if t == "bytes": return "bytes%r" % bytes(v["s"])
    return t
def show_op(o):
    try:
        return show_op1(o)
    except Exception:       # only a message; what was found matters more
        return json.dumps(o)
def show_op1(o):
    k = o["op"]
    if k == "parse": r = "parse %s %r" % (o["t"], txt(o["src"]))
    elif k == "call": r = "call %s(%s)" % (txt(o["f"]), ", ".join(map(show, o["a"])))
    elif k == "render": r = "render %s store=%s funcs=%s params=%s" % (o["t"], o["s"], o["fm"], [show_host(p) for p in o["ps"]])
    elif k == "rands": r = "rand(%s) x %d" % (", ".join(map(show, o["a"])), o["n"])
    elif k == "getv": r = "get %s path %s" % (show_host(o["h"]), [p["n"] if p["t"] == "n" else txt(p["s"]) for p in o["path"]])
    elif k == "fm": r = "functions %s = %s" % (o["id"], [(s["s"],) + tuple(txt(s[x]) for x in ("n", "p") if x in s) + tuple(s[x] for x in ("kind",) if x in s) for s in o["steps"]])
    elif k == "insert": r = "insert %r = %s into %s" % (txt(o["name"]), o["t"], o["s"])
    elif k in ("peek", "has"): r = "%s %s" % (k, [txt(n) for n in o["names"]])
    elif k == "mkfs": r = "mkfs %s %s" % (txt(o["base"]), [txt(e["k"]) for e in o["w"]])
    else: r = " ".join([k] + ["%s=%s" % (a, txt(b) if isinstance(b, list) else b) for a, b in o.items() if a not in ("op", "res", "ev")])
    if "res" in o:
        e = o["res"]
        q = e["o"]
        if "text" in e: q += " text=%r" % txt(e["text"])
        if "ex" in e: q += " exports={%s}" % ", ".join("%s: %s" % (txt(x["k"]), show(x["v"])) for x in e["ex"])
        if "v" in e and isinstance(e["v"], dict): q += " " + show(e["v"])
        elif "v" in e: q += " %s" % e["v"]
        if "vs" in e: q += " %s" % [show(x) for x in e["vs"]]
        r += "  -> " + q
    if o.get("ev"):
        for e in o["ev"]:
            r += "\n      call %s(%s) -> %s" % (txt(e["f"]), ", ".join(map(show, e["a"])), show(e["r"]["v"]) if e["r"]["o"] == "ok" else "error")
    return r
def show_host(h):
    if h["h"] == "pair": return "(%s, %s)" % (show_host(h["a"]), show_host(h["b"]))
    if h["h"] == "kv": return "KV(%s, %s)" % (txt(h["k"]), show(h["v"]))
    return "%s:%s" % (h["h"], txt(h["v"]["s"]) if h["v"]["t"] == "datetime" else show(h["v"]))
