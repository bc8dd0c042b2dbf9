------------------------------ MODULE Secp256k1 -----------------------------
(* The curve y^2 = x^3 + 7 over the field of p = 2^256 - 2^32 - 977, and the *)
(* Schnorr signatures of kernels on it, as bytes.                            *)
(*                                                                           *)
(* A field element is 22 limbs of 12 bits, least significant first, reduced  *)
(* below 2^264 only; Canon reduces it fully. A point is Jacobian <<X, Y, Z>>.*)
EXTENDS Sha256
LOCAL INSTANCE TLC

LOCAL B == 4096
LOCAL N == 22
LOCAL P == <<3119, 4095, 3839, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 15>>
LOCAL P512 == <<3584, 3973, 4095, 4063, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 8191>>          \* 512 p, above 2^264; its top limb is wide
LOCAL Zero == [i \in 1..N |-> 0]
LOCAL One == [i \in 1..N |-> IF i = 1 THEN 1 ELSE 0]
LOCAL Gx == <<1944, 3969, 2838, 2069, 2546, 3477, 3624, 732, 3291, 2495, 1794, 176, 3719, 2396, 98, 1370, 2988, 3531, 3833, 1639, 2494, 7>>
LOCAL Gy == <<1208, 269, 4091, 3336, 3143, 409, 1364, 2664, 1096, 379, 2301, 138, 3601, 4032, 1275, 1498, 1125, 2620, 1830, 3495, 2106, 4>>
Order == <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 254, 186, 174, 220, 230, 175, 72, 160, 59, 191, 210, 94, 140, 208, 54, 65, 65>>

\* carry columns (possibly negative ones, if the whole is not) into limbs
LOCAL Limbs(c) ==
  LET r == FoldLeft(LAMBDA acc, x : <<Append(acc[1], (x + acc[2]) % B), (x + acc[2]) \div B>>, <<<<>>, 0>>, c)
  IN  Append(Append(r[1], r[2] % B), r[2] \div B)
\* 2^264 = 2^40 + 977 * 2^8 modulo p, in limbs <<256, 61, 0, 16>>
LOCAL Fold(l) ==
  LET h(i) == IF i >= 1 /\ i + N <= Len(l) THEN l[i + N] ELSE 0
      k == Len(l) - N + 3
  IN  Limbs([i \in 1..(IF k > N THEN k ELSE N) |-> (IF i <= N THEN l[i] ELSE 0) + 256 * h(i) + 61 * h(i - 1) + 16 * h(i - 3)])
RECURSIVE Norm(_)
Norm(l) == IF \A i \in (N + 1)..Len(l) : l[i] = 0 THEN SubSeq(l, 1, N) ELSE Norm(TLCEval(Fold(l)))

RECURSIVE Col(_, _, _, _, _)
Col(a, b, i, j, to) == IF i > to THEN 0 ELSE a[i] * b[j] + Col(a, b, i + 1, j - 1, to)
FMul(a, b) == Norm(TLCEval(Limbs([k \in 1..(2 * N - 1) |-> Col(a, b, IF k <= N THEN 1 ELSE k + 1 - N, IF k <= N THEN k ELSE N, IF k <= N THEN k ELSE N)])))
FSqr(a) == FMul(a, a)
FAdd(a, b) == Norm(TLCEval(Limbs([i \in 1..N |-> a[i] + b[i]])))
FSub(a, b) == Norm(TLCEval(Limbs([i \in 1..N |-> a[i] + P512[i] - b[i]])))
FTimes(a, k) == Norm(TLCEval(Limbs([i \in 1..N |-> a[i] * k])))

LOCAL Geq(a, b) == LET d == SelectLastInSeq([i \in 1..N |-> a[i] # b[i]], LAMBDA t : t) IN d = 0 \/ a[d] > b[d]
\* the representative below p: first the bits above 2^256 (limb 22 has 4 bits below them)
Canon(a) ==
  LET q == a[N] \div 16
      r == SubSeq(TLCEval(Limbs([i \in 1..N |-> IF i = N THEN a[i] % 16
                                              ELSE a[i] + (IF i = 1 THEN 977 * q ELSE IF i = 3 THEN 256 * q ELSE 0)])), 1, N)
  IN  IF Geq(r, P) THEN SubSeq(Limbs([i \in 1..N |-> r[i] - P[i]]), 1, N) ELSE r
IsZero(a) == Canon(a) = Zero
FEq(a, b) == Canon(a) = Canon(b)

LOCAL Infinity == <<One, One, Zero>>
LOCAL Double(p) ==                                                  \* a = 0
  LET y2 == TLCEval(FSqr(p[2]))
      s == TLCEval(FTimes(FMul(p[1], y2), 4))
      m == TLCEval(FTimes(FSqr(p[1]), 3))
      x == TLCEval(FSub(FSqr(m), FTimes(s, 2)))
  IN  <<x, FSub(FMul(m, FSub(s, x)), FTimes(FSqr(y2), 8)), FTimes(FMul(p[2], p[3]), 2)>>
\* q is affine: <<x, y>>
LOCAL AddAffine(p, q) ==
  IF IsZero(p[3]) THEN <<q[1], q[2], One>>
  ELSE LET zz == TLCEval(FSqr(p[3]))
           h == TLCEval(FSub(FMul(q[1], zz), p[1]))
           r == TLCEval(FSub(FMul(q[2], FMul(zz, p[3])), p[2]))
       IN  IF IsZero(h) THEN IF IsZero(r) THEN Double(p) ELSE Infinity
           ELSE LET h2 == TLCEval(FSqr(h))
                    h3 == TLCEval(FMul(h2, h))
                    v == TLCEval(FMul(p[1], h2))
                    x == TLCEval(FSub(FSub(FSqr(r), h3), FTimes(v, 2)))
                IN  <<x, FSub(FMul(r, FSub(v, x)), FMul(p[2], h3)), FMul(p[3], h)>>

\* bits, most significant first, and field elements of 32 bytes
LOCAL Bits(bytes) == [i \in 1..(8 * Len(bytes)) |-> (bytes[(i - 1) \div 8 + 1] \div 2 ^ (7 - ((i - 1) % 8))) % 2]
FieldOf(bytes) ==
  LET b == Bits(bytes)
      bit(i) == IF i < 256 THEN b[256 - i] ELSE 0                   \* number i, from the least significant
  IN  [k \in 1..N |-> FoldLeft(LAMBDA acc, j : 2 * acc + bit(12 * (k - 1) + 11 - j), 0, [j \in 1..12 |-> j - 1])]

LOCAL PowBits(a, bits) == FoldLeft(LAMBDA acc, b : LET s == TLCEval(FSqr(acc)) IN TLCEval(IF b = 1 THEN FMul(s, a) ELSE s), One, bits)
LOCAL HalfP == Bits(<<127, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127, 255, 254, 23>>)                                             \* (p - 1) / 2
IsSquare(a) == IsZero(a) \/ Canon(PowBits(a, HalfP)) = One

\* s G - e Q for affine Q, with the sum of both at hand for bits they share
LOCAL Combine(s, e, q) ==
  LET m == <<q[1], Canon(FSub(Zero, q[2]))>>
      sb == Bits(s)
      eb == Bits(e)
      g == <<Gx, Gy>>
  IN  FoldLeft(LAMBDA acc, i :
                 LET d == TLCEval(Double(acc))
                     a == TLCEval(IF sb[i] = 1 THEN AddAffine(d, g) ELSE d)
                 IN  TLCEval(IF eb[i] = 1 THEN AddAffine(a, m) ELSE a),
               Infinity, [i \in 1..256 |-> i])

LOCAL LessBytes(a, b) == LET d == SelectInSeq([i \in 1..32 |-> a[i] # b[i]], LAMBDA t : t) IN d # 0 /\ a[d] < b[d]

Message(fee, lock) == [i \in 1..16 |-> 0] \o fee \o lock             \* both as 8 bytes
Compressed(x, y) == <<2 + (y[32] % 2)>> \o x
\* the challenge a signature with the point of x coordinate rx answers
Challenge(rx, x, y, msg) == Sha256(rx \o Compressed(x, y) \o msg)
\* A signature is the x coordinate of R, of which y is a square, and the scalar s
\* with s G = R + e Q: 64 bytes, each part below its modulus.
Verifies(x, y, msg, sig) ==
  LET rx == SubSeq(sig, 1, 32)
      s == SubSeq(sig, 33, 64)
      r == TLCEval(Combine(s, Challenge(rx, x, y, msg), <<FieldOf(x), FieldOf(y)>>))
  IN  /\ LessBytes(s, Order)
      /\ ~IsZero(r[3])
      /\ Canon(FMul(FieldOf(rx), FSqr(r[3]))) = Canon(r[1])
      /\ IsSquare(FMul(r[2], r[3]))
=============================================================================
