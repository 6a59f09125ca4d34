---- MODULE TestLib ----
EXTENDS Lib
s(x) == VStr(S(x))
I(n) == VInt(ZI(n))
P(r) == IF r.o = "ok" THEN (IF r.v.t = "str" THEN Str(r.v.s) ELSE Str(Disp(r.v))) ELSE r.o
ASSUME PrintT(<<P(Eval("add",<<VU(2),I(-3),VU(9)>>)), P(Eval("sub",<<VU(2),VU(5)>>)), P(Eval("div",<<I(-7),VU(2)>>)), P(Eval("mod",<<I(-7),VU(2)>>)), P(Eval("sub",<<VUInt(UMAX)>>)), P(Eval("add",<<VUInt(UMAX),VU(1)>>))>>)
ASSUME PrintT(<<P(Eval("parent",<<s("a//b/../c/")>>)), P(Eval("join",<<s("a"),s("b/"),s("c"),s("")>>)), P(Eval("bread_crumbs",<<s("/a/b/./c")>>)), P(Eval("with_ext",<<s("x/a.tar.gz/"),s("md")>>)), P(Eval("full_stem",<<s("x/.a.b")>>)), P(Eval("stem",<<s("..")>>)), P(Eval("parent",<<s("./a")>>)), P(Eval("parent",<<s("//a")>>))>>)
ASSUME PrintT(<<P(Eval("split",<<s("a,b,,c"),s(",")>>)), P(Eval("split",<<s("ab"),s("")>>)), P(Eval("str_replace_n",<<s("aaaa"),s("aa"),s("b"),VU(1)>>)), P(Eval("html_esc",<<s("<a&'\">"),VU(3)>>)), P(Eval("str_replace",<<s("ab"),s(""),s("-")>>))>>)
ASSUME PrintT(<<P(Eval("sort",<<VList(<<I(3),s("x"),VU(1),VNull,VBool(TRUE)>>),VList(<<I(2)>>)>>)), P(Eval("groups",<<VU(2),VList(<<I(3),I(4),I(5)>>)>>)), P(Eval("filter",<<VList(<<I(3),I(4),I(5)>>),s("gt $0 (add 1 2)")>>)), P(Eval("slice",<<s("hello"),VU(1),VU(3)>>)), P(Eval("get",<<s("hello"),VU(1)>>))>>)
ASSUME PrintT(<<P(Eval("as_base64",<<s("hello")>>)), P(Eval("from_base64",<<s("aGVsbG8=")>>)), P(Eval("table",<<VStr(S("*|a|b|")\o <<10>> \o S("-|c| d|e|") \o <<10>> \o S("|x|y|")),s("k=1")>>)), P(Eval("font",<<VU(3),s("Arial"),s("px")>>)), P(Eval("cxyrr",<<VU(3),VU(3),VU(3),VU(4),s("px")>>))>>)
ASSUME Allowed("bin_search", <<VList(<<I(1),I(3),I(3),I(7)>>), I(3), s("a")>>, Ok(VU(2)))
ASSUME ~Allowed("bin_search", <<VList(<<I(1),I(3),I(3),I(7)>>), I(3), s("a")>>, Ok(VNull))
ASSUME Allowed("w_json", <<VMap(<<[k |-> S("a"), v |-> VList(<<I(1),s("x\"y")>>)]>>)>>, Ok(s("{\"a\":[1,\"x\\\"y\"]}")))
ASSUME EscapeOK(S("<a&'"), S("&lt;a&amp;&#x27;")) /\ ~EscapeOK(S("<a&'"), S("&lt;a&amp;&#x27")) /\ ~EscapeOK(S("<a&'"), S("&lt;a&;&#39;"))
====
