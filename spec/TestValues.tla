---- MODULE TestValues ----
EXTENDS Values
Dec(s,k) == FOfDec(1, NOfText(S(s)), k)
T(s,k) == Str(FText(Dec(s,k)))
ASSUME PrintT(<<T("3",-1), T("75",-2), T("1",300), T("12345678901234567890",0), T("1",-7), T("33333333333333333333",-20), T("5",-324), T("17976931348623157",292), T("9007199254740993",0),T("1",23), T("30000000000000004",-17)>>)
ASSUME FDiv(Dec("1",0),Dec("3",0)) = Dec("33333333333333331483",-20)
ASSUME Str(FText(FMul(Dec("3",0),Dec("1082",-1)))) = "324.6" \/ PrintT(FText(FMul(Dec("3",0),Dec("1082",-1))))
ASSUME Str(FText(FAdd(Dec("1",-1),Dec("2",-1)))) = "0.30000000000000004"
ASSUME Dec("1",400).c = "inf" /\ FIsZero(Dec("1",-400))
ASSUME Str(FText(FRem(Dec("75",-1),Dec("2",0)))) = "1.5"
====
