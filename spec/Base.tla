------------------------------- MODULE Base -------------------------------
(* Text, numbers and small helpers shared by the whole specification.      *)
(*   text     = sequence of Unicode code points                            *)
(*   natural  = little-endian sequence of base-10000 limbs, no zero limb   *)
(*              at the end (<<>> is zero)                                   *)
(*   integer  = [g |-> sign in {-1,0,1}, m |-> natural]                     *)
(* so that the limits of the machine types (2^64, 2^63) can be stated and   *)
(* crossed although TLC's own integers have 32 bits.                        *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

-----------------------------------------------------------------------------
(* Sequences *)
Last1(s) == s[Len(s)]
ButLast(s) == SubSeq(s, 1, Len(s) - 1)
From(s, i) == SubSeq(s, i, Len(s))
MinN(a, b) == IF a < b THEN a ELSE b
MaxN(a, b) == IF a > b THEN a ELSE b
Concat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
Rep(x, n) == [i \in 1..n |-> x]
\* the least j in a..b with P(j), or b + 1
RECURSIVE LeastFrom(_, _, _)
LeastFrom(P(_), a, b) ==       \* a <= b; in windows, for the checker's sake
  LET h == MinN(b, a + 31)
      j == SelectInSeq([k \in 1..(h - a + 1) |-> a + k - 1], P)
  IN IF j # 0 THEN a + j - 1 ELSE IF h = b THEN b + 1 ELSE LeastFrom(P, h + 1, b)
Least(a, b, P(_)) == IF a > b THEN MaxN(a, b + 1) ELSE LeastFrom(P, a, b)
\* the least position j >= i of the text t with P(t[j]), or Len(t) + 1 (or i)
NextAt(t, i, P(_)) ==
  IF i > Len(t) THEN i
  ELSE IF P(t[i]) THEN i
  ELSE LET j == SelectInSeq(SubSeq(t, i + 1, Len(t)), P) IN IF j = 0 THEN Len(t) + 1 ELSE i + j
\* repeat a step while the state says go
RECURSIVE IterR(_, _)
IterR(Step(_), s) ==
  IF ~s.go THEN s
  ELSE LET r == FoldLeft(LAMBDA x, k : IF x.go THEN Step(x) ELSE x, s, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>)
       IN IterR(Step, r)
Iter(s, Step(_)) == IterR(Step, s)
\* the greatest j in a..b with P(j), or a - 1
Greatest(a, b, P(_)) ==
  LET r == Least(0, b - a, LAMBDA d : P(b - d)) IN
  IF a > b \/ r > b - a THEN a - 1 ELSE b - r

IsPrefixAt(p, t, i) ==   \* p occurs in t at i
  /\ i + Len(p) - 1 <= Len(t)
  /\ \A k \in 1..Len(p) : t[i + k - 1] = p[k]

\* interleave a separator
JoinSeq(ss, sep) ==
  IF ss = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA acc, x : acc \o sep \o x, ss[1], From(ss, 2))

-----------------------------------------------------------------------------
(* Text <-> TLA+ strings (printable ASCII, tab, newline, return) *)
AsciiTbl == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(AsciiTbl, i, i) : i \in 1..95} |->
             31 + (CHOOSE i \in 1..95 : SubSeq(AsciiTbl, i, i) = c)]
\* the text of a TLA+ string
S(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]
\* the TLA+ string of a text (other characters become "?")
Str(t) == FoldLeft(LAMBDA acc, c : acc \o (IF c >= 32 /\ c <= 126 THEN SubSeq(AsciiTbl, c - 31, c - 31) ELSE "?"),
                   "", t)

IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
IsWN(c) == c = 32 \/ c = 9 \/ c = 10 \/ c = 13         \* " \t\n\r"
IsWS(c) == c = 32 \/ c = 9                             \* " \t"
\* Unicode White_Space
IsUWS(c) == \/ c >= 9 /\ c <= 13
            \/ c \in {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
            \/ c >= 8192 /\ c <= 8202
\* Unicode scalar values
IsScalar(c) == c >= 0 /\ c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343)
Utf8W(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Utf8Len(t) == FoldLeft(LAMBDA acc, c : acc + Utf8W(c), 0, t)
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8Bytes(t) == FoldLeft(LAMBDA acc, c : acc \o Utf8(c), <<>>, t)
\* position in t of the character that starts at byte offset b (0-based), or 0
\* (Len + 1 is the position of the end)
CharAt(t, b) ==
  LET r == FoldLeft(LAMBDA acc, c : [p |-> acc.p + Utf8W(c), i |-> acc.i + 1,
                                     f |-> IF acc.p = b THEN acc.i ELSE acc.f],
                    [p |-> 0, i |-> 1, f |-> 0], t)
  IN IF r.f # 0 THEN r.f ELSE IF r.p = b THEN r.i ELSE 0

\* order of texts: by code point (the same as by UTF-8 byte)
LexCmp(a, b) ==
  LET n == MinN(Len(a), Len(b))
      d == Least(1, n, LAMBDA j : a[j] # b[j])
  IN IF d <= n THEN (IF a[d] < b[d] THEN -1 ELSE 1)
     ELSE IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1

\* text search: first occurrence of the non-empty p in t at or after i, or 0
FindFrom(t, p, i) ==
  LET hi == Len(t) - Len(p) + 1
      j == Least(i, hi, LAMBDA x : IsPrefixAt(p, t, x))
  IN IF j > hi THEN 0 ELSE j

-----------------------------------------------------------------------------
(* Naturals *)
B == 10000
NZero == <<>>
RECURSIVE NOfI(_)
NOfI(i) == IF i = 0 THEN <<>> ELSE <<i % B>> \o NOfI(i \div B)
NTrim(a) == LET k == Greatest(1, Len(a), LAMBDA j : a[j] # 0) IN SubSeq(a, 1, k)
NFits(a) == Len(a) <= 2          \* below 10^8: convertible to a TLC integer
NToI(a) == IF a = <<>> THEN 0 ELSE IF Len(a) = 1 THEN a[1] ELSE a[1] + B * a[2]
NCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET d == Greatest(1, Len(a), LAMBDA j : a[j] # b[j])
       IN IF d = 0 THEN 0 ELSE IF a[d] < b[d] THEN -1 ELSE 1
At0(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Idx(n) == [i \in 1..n |-> i]
NAdd(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE
  LET f == FoldLeft(LAMBDA acc, i : LET s == acc.c + At0(a, i) + At0(b, i)
                                    IN [c |-> s \div B, r |-> Append(acc.r, s % B)],
                    [c |-> 0, r |-> <<>>], Idx(MaxN(Len(a), Len(b))))
  IN IF f.c = 0 THEN f.r ELSE Append(f.r, f.c)
NSub(a, b) ==       \* a >= b
  LET f == FoldLeft(LAMBDA acc, i : LET s == a[i] - At0(b, i) - acc.c
                                    IN IF s < 0 THEN [c |-> 1, r |-> Append(acc.r, s + B)]
                                       ELSE [c |-> 0, r |-> Append(acc.r, s)],
                    [c |-> 0, r |-> <<>>], Idx(Len(a)))
  IN NTrim(f.r)
NMulS(a, k) ==      \* k < 100000
  IF k = 0 \/ a = <<>> THEN <<>> ELSE
  LET f == FoldLeft(LAMBDA acc, x : LET s == x * k + acc.c
                                    IN [c |-> s \div B, r |-> Append(acc.r, s % B)],
                    [c |-> 0, r |-> <<>>], a)
  IN f.r \o NOfI(f.c)
NMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>> ELSE
  FoldLeft(LAMBDA acc, j : NAdd(acc, IF b[j] = 0 THEN <<>> ELSE Rep(0, j - 1) \o NMulS(a, b[j])), <<>>, Idx(Len(b)))
\* quotient and remainder by 0 < k <= 100000
NDivS(a, k) ==
  LET f == FoldLeft(LAMBDA acc, i : LET s == acc.c * B + a[Len(a) + 1 - i]
                                    IN [c |-> s % k, r |-> <<s \div k>> \o acc.r],
                    [c |-> 0, r |-> <<>>], Idx(Len(a)))
  IN [q |-> NTrim(f.r), r |-> f.c]
\* greatest digit d with d * b <= a, where a < B * b
RECURSIVE NDig(_, _, _, _)
NDig(a, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF NCmp(NMulS(b, mid), a) <= 0 THEN NDig(a, b, mid, hi) ELSE NDig(a, b, lo, mid - 1)
NDivMod(a, b) ==    \* b # 0
  IF NCmp(a, b) < 0 THEN [q |-> <<>>, r |-> a]
  ELSE IF Len(b) = 1 THEN LET f == NDivS(a, b[1]) IN [q |-> f.q, r |-> NOfI(f.r)]
  ELSE LET f == FoldLeft(LAMBDA acc, i :
                   LET cur == NTrim(<<a[Len(a) + 1 - i]>> \o acc.r)
                       d == NDig(cur, b, 0, B - 1)
                   IN [q |-> <<d>> \o acc.q, r |-> NSub(cur, NMulS(b, d))],
                 [q |-> <<>>, r |-> <<>>], Idx(Len(a)))
       IN [q |-> NTrim(f.q), r |-> f.r]
RECURSIVE NPow(_, _)
NPow(k, n) == IF n = 0 THEN <<1>>     \* k^n for small k
              ELSE LET h == NPow(k, n \div 2)
                       h2 == NMul(h, h)
                   IN IF n % 2 = 0 THEN h2 ELSE NMulS(h2, k)
\* decimal digits of a natural, and back
Pad4(d) == <<48 + (d \div 1000), 48 + ((d \div 100) % 10), 48 + ((d \div 10) % 10), 48 + (d % 10)>>
NText(a) ==
  IF a = <<>> THEN <<48>>
  ELSE LET t == FoldLeft(LAMBDA acc, x : Pad4(x) \o acc, <<>>, a)
       IN From(t, Least(1, Len(t), LAMBDA j : t[j] # 48))
NOfText(t) ==       \* digits only
  LET n == Len(t)
      limb(i) == FoldLeft(LAMBDA acc, k : LET p == n - 4 * i + k       \* 4 digits, most significant first
                                          IN acc * 10 + (IF p >= 1 THEN t[p] - 48 ELSE 0), 0, <<1, 2, 3, 4>>)
  IN NTrim([i \in 1..((n + 3) \div 4) |-> limb(i)])

-----------------------------------------------------------------------------
(* Integers *)
ZOf(g, m) == [g |-> IF m = <<>> THEN 0 ELSE g, m |-> m]
ZI(i) == IF i >= 0 THEN ZOf(1, NOfI(i)) ELSE ZOf(-1, NOfI(-i))
ZZero == [g |-> 0, m |-> <<>>]
ZFits(z) == NFits(z.m)
ZToI(z) == z.g * NToI(z.m)
ZNeg(z) == [g |-> -z.g, m |-> z.m]
ZCmp(a, b) == IF a.g # b.g THEN (IF a.g < b.g THEN -1 ELSE 1)
              ELSE IF a.g >= 0 THEN NCmp(a.m, b.m) ELSE NCmp(b.m, a.m)
ZAdd(a, b) ==
  IF a.g = 0 THEN b ELSE IF b.g = 0 THEN a
  ELSE IF a.g = b.g THEN ZOf(a.g, NAdd(a.m, b.m))
  ELSE IF NCmp(a.m, b.m) >= 0 THEN ZOf(a.g, NSub(a.m, b.m)) ELSE ZOf(b.g, NSub(b.m, a.m))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == ZOf(a.g * b.g, NMul(a.m, b.m))
\* truncating division; the remainder has the sign of the dividend
ZQuo(a, b) == ZOf(a.g * b.g, NDivMod(a.m, b.m).q)
ZRem(a, b) == ZOf(a.g, NDivMod(a.m, b.m).r)
ZText(z) == IF z.g < 0 THEN <<45>> \o NText(z.m) ELSE NText(z.m)

UMAX == <<1615, 955, 737, 6744, 1844>>            \* 2^64 - 1
IMAX == <<5807, 5477, 368, 3372, 922>>            \* 2^63 - 1
IMIN == <<5808, 5477, 368, 3372, 922>>            \* 2^63
IsU64(z) == z.g >= 0 /\ NCmp(z.m, UMAX) <= 0
IsI64(z) == IF z.g >= 0 THEN NCmp(z.m, IMAX) <= 0 ELSE NCmp(z.m, IMIN) <= 0
=============================================================================
