------------------------------- MODULE BigInt -------------------------------
(* Exact integers of any size (TLC's own have 32 bits): [neg, mag], mag little endian, base 10000,
   no leading zero limb, zero has an empty mag and neg = FALSE. *)
EXTENDS Integers, Sequences
B == 10000
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE AddM(_, _, _, _)
AddM(a, b, i, carry) == IF i > Len(a) /\ i > Len(b) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
                        ELSE LET t == Limb(a, i) + Limb(b, i) + carry IN <<t % B>> \o AddM(a, b, i + 1, t \div B)
RECURSIVE SubM(_, _, _, _)      \* a >= b
SubM(a, b, i, borrow) == IF i > Len(a) THEN <<>>
                         ELSE LET t == Limb(a, i) - Limb(b, i) - borrow IN <<IF t < 0 THEN t + B ELSE t>> \o SubM(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
RECURSIVE CmpM(_, _, _)         \* -1, 0, 1 from limb i downwards
CmpM(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] > b[i] THEN 1 ELSE IF a[i] < b[i] THEN -1 ELSE CmpM(a, b, i - 1)
Cmpm(a, b) == IF Len(a) > Len(b) THEN 1 ELSE IF Len(a) < Len(b) THEN -1 ELSE CmpM(a, b, Len(a))
RECURSIVE Scale(_, _, _, _)
Scale(a, m, i, carry) == IF i > Len(a) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
                         ELSE LET t == a[i] * m + carry IN <<t % B>> \o Scale(a, m, i + 1, t \div B)
RECURSIVE MulM(_, _, _)
MulM(a, b, i) == IF i > Len(b) THEN <<>> ELSE AddM(Scale(a, b[i], 1, 0), <<0>> \o MulM(a, b, i + 1), 1, 0)
Num(neg, mag) == LET m == Trim(mag) IN [neg |-> neg /\ m # <<>>, mag |-> m]
Zero == Num(FALSE, <<>>)
One == Num(FALSE, <<1>>)
Neg(x) == Num(~x.neg, x.mag)
Add(x, y) == IF x.neg = y.neg THEN Num(x.neg, AddM(x.mag, y.mag, 1, 0))
             ELSE IF Cmpm(x.mag, y.mag) >= 0 THEN Num(x.neg, SubM(x.mag, y.mag, 1, 0)) ELSE Num(y.neg, SubM(y.mag, x.mag, 1, 0))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Num(x.neg # y.neg, MulM(x.mag, y.mag, 1))
Cmp(x, y) == IF x.neg # y.neg THEN (IF x.neg THEN -1 ELSE 1) ELSE IF x.neg THEN Cmpm(y.mag, x.mag) ELSE Cmpm(x.mag, y.mag)
Lt(x, y) == Cmp(x, y) < 0
Le(x, y) == Cmp(x, y) <= 0
Well(x) == x = Num(x.neg, x.mag)
=============================================================================
