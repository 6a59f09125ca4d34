---- MODULE TestBase ----
EXTENDS Base
ASSUME S("aZ~ ") = <<97,90,126,32>>
ASSUME Str(S("hello world")) = "hello world"
ASSUME NText(NMul(NOfText(S("18446744073709551615")),NOfText(S("18446744073709551615")))) = S("340282366920938463426481119284349108225")
ASSUME LET r == NDivMod(NOfText(S("340282366920938463426481119284349108299")),NOfText(S("18446744073709551615"))) IN NText(r.q) = S("18446744073709551615") /\ NText(r.r)=S("74")
ASSUME NText(UMAX)=S("18446744073709551615")
ASSUME NText(NPow(2,64)) = S("18446744073709551616")
ASSUME Least(3,1,LAMBDA j: TRUE) = 3
ASSUME Greatest(1,5,LAMBDA j: j<3) = 2
ASSUME Greatest(1,5,LAMBDA j: j>7) = 0
ASSUME Greatest(1,0,LAMBDA j: j>7) = 0
ASSUME FindFrom(S("abcabc"),S("bc"),3) = 5
ASSUME FindFrom(S("abcabc"),S("bcx"),1) = 0
ASSUME CharAt(<<97,233,98>>, 1) = 2 /\ CharAt(<<97,233,98>>, 2) = 0 /\ CharAt(<<97,233,98>>, 4) = 4 /\ CharAt(<<97,233,98>>, 5) = 0
====
