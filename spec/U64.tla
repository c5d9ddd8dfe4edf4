-------------------------------- MODULE U64 ---------------------------------
(***************************************************************************)
(* Unsigned 64-bit numbers for TLC, whose integers are 32-bit: four base   *)
(* 2^16 digits, most significant first.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences
B == 65536
U(n) == <<0, 0, n \div B, n % B>>            \* n < 2^31
UZero == <<0, 0, 0, 0>>
UMax == <<B-1, B-1, B-1, B-1>>
ULt(a, b) ==
  \/ a[1] < b[1]
  \/ a[1] = b[1] /\ \/ a[2] < b[2]
                    \/ a[2] = b[2] /\ \/ a[3] < b[3]
                                      \/ a[3] = b[3] /\ a[4] < b[4]
ULe(a, b) == a = b \/ ULt(a, b)
(* Sum with the carry out of the top in front (a fifth digit).             *)
UAdd5(a, b) ==
  LET s4 == a[4] + b[4]
      s3 == a[3] + b[3] + s4 \div B
      s2 == a[2] + b[2] + s3 \div B
      s1 == a[1] + b[1] + s2 \div B
  IN <<s1 \div B, s1 % B, s2 % B, s3 % B, s4 % B>>
UAddOk(a, b) == UAdd5(a, b)[1] = 0
UAdd(a, b) == LET s == UAdd5(a, b) IN <<s[2], s[3], s[4], s[5]>>   \* modulo 2^64
USatAdd(a, b) == IF UAddOk(a, b) THEN UAdd(a, b) ELSE UMax
(* Difference, for b <= a.                                                 *)
USub(a, b) ==
  LET d4 == a[4] - b[4]            c4 == IF d4 < 0 THEN 1 ELSE 0
      d3 == a[3] - b[3] - c4       c3 == IF d3 < 0 THEN 1 ELSE 0
      d2 == a[2] - b[2] - c3       c2 == IF d2 < 0 THEN 1 ELSE 0
      d1 == a[1] - b[1] - c2
      F(d) == IF d < 0 THEN d + B ELSE d
  IN <<d1, F(d2), F(d3), F(d4)>>
USatSub(a, b) == IF ULt(a, b) THEN UZero ELSE USub(a, b)
(* Quotient and remainder by a small number (1 .. 2^15).                    *)
UDivSmall(a, k) ==
  LET q1 == a[1] \div k    r1 == (a[1] % k) * B + a[2]
      q2 == r1 \div k      r2 == (r1 % k) * B + a[3]
      q3 == r2 \div k      r3 == (r2 % k) * B + a[4]
  IN <<q1, q2, q3, r3 \div k>>
UModSmall(a, k) ==
  LET r1 == (a[1] % k) * B + a[2]
      r2 == (r1 % k) * B + a[3]
      r3 == (r2 % k) * B + a[4]
  IN r3 % k
UMulSmall5(a, k) ==          \* product with a small number, carry in front
  LET p4 == a[4] * k
      p3 == a[3] * k + p4 \div B
      p2 == a[2] * k + p3 \div B
      p1 == a[1] * k + p2 \div B
  IN <<p1 \div B, p1 % B, p2 % B, p3 % B, p4 % B>>

(* Wide numbers: six digits (96 bits), for sums of balances and products.  *)
W(u) == <<0, 0, u[1], u[2], u[3], u[4]>>
WNorm(x) ==                  \* digits up to 2^31 / 2
  LET c6 == x[6]
      c5 == x[5] + c6 \div B
      c4 == x[4] + c5 \div B
      c3 == x[3] + c4 \div B
      c2 == x[2] + c3 \div B
      c1 == x[1] + c2 \div B
  IN <<c1, c2 % B, c3 % B, c4 % B, c5 % B, c6 % B>>
WAdd(a, b) == WNorm([i \in 1..6 |-> a[i] + b[i]])
WMul(a, k) == WNorm([i \in 1..6 |-> a[i] * k])         \* k < 2^14
WLt(a, b) ==
  \/ a[1] < b[1]
  \/ a[1] = b[1] /\ \/ a[2] < b[2]
                    \/ a[2] = b[2] /\ ULt(<<a[3], a[4], a[5], a[6]>>, <<b[3], b[4], b[5], b[6]>>)
WLe(a, b) == a = b \/ WLt(a, b)
WMax(a, b) == IF WLt(a, b) THEN b ELSE a
WFits(a) == a[1] = 0 /\ a[2] = 0                       \* below 2^64
WU(a) == <<a[3], a[4], a[5], a[6]>>
RECURSIVE SumOver(_, _)
SumOver(f, S) ==             \* sum of integers f[x] over S
  IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
=============================================================================
