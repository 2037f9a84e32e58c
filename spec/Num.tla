-------------------------------- MODULE Num ---------------------------------
(* Exact arithmetic beyond TLC's 32-bit integers: naturals as little-endian  *)
(* sequences of base-1000 limbs, quantities as signed fractions of such.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

B == 1000

RECURSIVE BCarry(_, _, _)
BCarry(raw, i, c) ==
  IF i > Len(raw) THEN IF c = 0 THEN <<>> ELSE <<c % B>> \o BCarry(raw, i, c \div B)
  ELSE LET t == raw[i] + c IN <<t % B>> \o BCarry(raw, i + 1, t \div B)

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

BInt(n) == IF n < B THEN <<n>> ELSE IF n < B * B THEN <<n % B, n \div B>>
           ELSE <<n % B, (n \div B) % B, (n \div (B * B)) % B, n \div (B * B * B)>>

BAdd(a, b) == BCarry([i \in 1..MaxLen(a, b) |-> Limb(a, i) + Limb(b, i)], 1, 0)

RECURSIVE RowSum(_, _, _, _)
RowSum(a, b, k, i) == IF i > Len(a) THEN 0
                      ELSE (IF k + 1 - i >= 1 /\ k + 1 - i <= Len(b) THEN a[i] * b[k + 1 - i] ELSE 0) + RowSum(a, b, k, i + 1)
BMul(a, b) == IF Len(a) = 0 \/ Len(b) = 0 THEN <<0>>
              ELSE BCarry([k \in 1..(Len(a) + Len(b) - 1) |-> RowSum(a, b, k, 1)], 1, 0)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF Limb(a, i) < Limb(b, i) THEN -1
                    ELSE IF Limb(a, i) > Limb(b, i) THEN 1
                    ELSE CmpFrom(a, b, i - 1)
BCmp(a, b) == CmpFrom(a, b, MaxLen(a, b))

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, brw) == IF i > Len(a) THEN <<>>
                         ELSE LET t == a[i] - Limb(b, i) - brw IN
                              IF t < 0 THEN <<t + B>> \o SubFrom(a, b, i + 1, 1)
                              ELSE <<t>> \o SubFrom(a, b, i + 1, 0)
\* |a - b|
BDiff(a, b) == IF BCmp(a, b) >= 0 THEN SubFrom(a, b, 1, 0) ELSE SubFrom(b, a, 1, 0)
BZero(a) == \A i \in 1..Len(a) : a[i] = 0

---------------------------------------------------------------------------
(* Quantities: [k |-> "none"] or [k |-> "q", neg, n, d] with value n/d.      *)
None == [k |-> "none"]
Q(n, d) == [k |-> "q", neg |-> n < 0, n |-> BInt(IF n < 0 THEN -n ELSE n), d |-> BInt(d)]
QI(n) == Q(n, 1)
QMul(q, r) == IF q.k = "none" \/ r.k = "none" THEN None
              ELSE [k |-> "q", neg |-> (q.neg # r.neg), n |-> BMul(q.n, r.n), d |-> BMul(q.d, r.d)]
QAdd(q, r) ==
  IF q.k = "none" \/ r.k = "none" THEN None
  ELSE LET a == BMul(q.n, r.d)  b == BMul(r.n, q.d)  d == BMul(q.d, r.d) IN
       IF q.neg = r.neg THEN [k |-> "q", neg |-> q.neg, n |-> BAdd(a, b), d |-> d]
       ELSE IF BCmp(a, b) >= 0 THEN [k |-> "q", neg |-> q.neg, n |-> BDiff(a, b), d |-> d]
       ELSE [k |-> "q", neg |-> r.neg, n |-> BDiff(a, b), d |-> d]

\* q < r for quantities
QLess(q, r) ==
  LET a == BMul(q.n, r.d)  b == BMul(r.n, q.d)  c == BCmp(a, b)
      qz == BZero(q.n)  rz == BZero(r.n)
      qn == q.neg /\ ~qz  rn == r.neg /\ ~rz
  IN IF qn # rn THEN qn ELSE IF qn THEN c > 0 ELSE c < 0

(* An observed float is [k |-> "num", s |-> 1 or -1, l |-> limbs of |x|*10^9]*)
(* an observed None is [k |-> "none"]; anything else has another k.          *)
Giga == <<0, 0, 0, 1>>

\* |observed - q| <= 2e-9 + slack*1e-9 + |q| * 1e-6
NumOKs(q, o, slack) ==
  IF q.k = "none" THEN o.k = "none"
  ELSE /\ o.k = "num"
       /\ LET a == BMul(o.l, q.d)              \* observed * 10^9 * d
              e == BMul(q.n, Giga)             \* expected * 10^9 * d
              neg == q.neg /\ ~BZero(q.n)
              oneg == o.s < 0 /\ ~BZero(o.l)
              diff == IF neg = oneg THEN BDiff(a, e) ELSE BAdd(a, e)
              tol == BAdd(BMul(BInt(2 + slack), q.d), BMul(BInt(1000), q.n))
          IN BCmp(diff, tol) <= 0
NumOK(q, o) == NumOKs(q, o, 0)

\* the quantity that was observed
QObs(o) == IF o.k = "num" THEN [k |-> "q", neg |-> o.s < 0, n |-> o.l, d |-> Giga] ELSE None
=============================================================================
