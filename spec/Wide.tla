------------------------------- MODULE Wide -------------------------------
(* Integers of up to 66 bits, which TLC's 32-bit integers cannot hold.      *)
(* <<h, m, l>> stands for h * 2^44 + m * 2^22 + l with 0 <= m, l < 2^22.    *)
(* Doubles are carried as the order-preserving 64-bit integer of their bit  *)
(* pattern (both zeros are 0), NaN as WNan.                                 *)
EXTENDS Integers, Sequences

WB == 4194304
WN(n) == <<(n \div WB) \div WB, (n \div WB) % WB, n % WB>>
W0 == <<0, 0, 0>>
W1 == <<0, 0, 1>>
WAdd(a, b) == LET l == a[3] + b[3]
                  m == a[2] + b[2] + (l \div WB)
              IN <<a[1] + b[1] + (m \div WB), m % WB, l % WB>>
WSub(a, b) == LET l == a[3] - b[3]
                  m == a[2] - b[2] + (l \div WB)
              IN <<a[1] - b[1] + (m \div WB), m % WB, l % WB>>
WNeg(a) == WSub(W0, a)
WLt(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))
WLe(a, b) == a = b \/ WLt(a, b)
WMax(a, b) == IF WLt(a, b) THEN b ELSE a
WMin(a, b) == IF WLt(a, b) THEN a ELSE b
WAbs(a) == IF WLt(a, W0) THEN WNeg(a) ELSE a
WPow2(k) == IF k < 22 THEN <<0, 0, 2^k>> ELSE IF k < 44 THEN <<0, 2^(k-22), 0>> ELSE <<2^(k-44), 0, 0>>
WU64 == WPow2(64)
WMaxU == WSub(WU64, W1)               \* 2^64 - 1
WMaxI == WSub(WPow2(63), W1)          \* 2^63 - 1
WMinI == WNeg(WPow2(63))
WNan == <<-2000000, 0, 0>>
\* reduce into [0, 2^64): what a 64-bit unsigned variable keeps
WWrapU(a) == LET h == a[1] % 1048576 IN <<h, a[2], a[3]>>
\* reduce into [-2^63, 2^63)
WWrapI(a) == LET u == WWrapU(a) IN IF WLe(u, WMaxI) THEN u ELSE WSub(u, WU64)
WSmall(a) == a[1] = 0 /\ a[2] < 256         \* fits a non-negative TLC integer (< 2^30)
WToInt(a) == a[2] * WB + a[3]               \* only when WSmall

(* lengths: non-negative, saturating at 2^64-1, "no limit" *)
LMax == WMaxU
LAdd(a, b) == LET s == WAdd(a, b) IN IF WLe(LMax, s) THEN LMax ELSE s
D11(a) == <<a[3] % 2048, a[3] \div 2048, a[2] % 2048, a[2] \div 2048, a[1] % 2048, a[1] \div 2048>>
LMul(a, b) ==
    IF a[1] = 0 /\ a[2] = 0 /\ a[3] < 32768 /\ b[1] = 0 /\ b[2] = 0 /\ b[3] < 32768 THEN WN(a[3] * b[3])
    ELSE IF a = W0 \/ b = W0 THEN W0
    ELSE IF a = W1 THEN WMin(b, LMax)
    ELSE IF b = W1 THEN WMin(a, LMax)
    ELSE IF WLe(LMax, a) \/ WLe(LMax, b) THEN LMax
    ELSE
    LET x == D11(a)
        y == D11(b)
        At(s, i) == IF i \in 1..6 THEN s[i] ELSE 0
        \* column sums of the schoolbook product, 12 digits of 11 bits
        Col(k) == LET T[i \in 0..6] == IF i = 0 THEN 0 ELSE T[i-1] + At(x, i) * At(y, k + 1 - i) IN T[6]
        Dig[k \in 0..12] == IF k = 0 THEN [d |-> <<>>, c |-> 0]
                            ELSE LET p == Dig[k-1]
                                     v == Col(k) + p.c
                                 IN [d |-> Append(p.d, v % 2048), c |-> v \div 2048]
        d == Dig[12].d
        hi == d[6] * 2048 + d[5]
        small == hi < 1048576 /\ \A i \in 7..12 : d[i] = 0
        r == <<hi, d[4] * 2048 + d[3], d[2] * 2048 + d[1]>>
    IN IF small /\ WLt(r, LMax) THEN r ELSE LMax
===========================================================================
