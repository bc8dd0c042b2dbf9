------------------------------- MODULE Word64 -------------------------------
(* 64-bit words as 4-tuples of 16-bit limbs, least significant limb first.   *)
(* TLC's integers are 32 bits wide, so this is how the specification talks   *)
(* about hashes, difficulties and other uint64 values without losing bits.   *)
EXTENDS Integers, Sequences, Bitwise

B16 == 65536
W0 == <<0, 0, 0, 0>>
WOf(n) == <<n % B16, n \div B16, 0, 0>>            \* 0 <= n < 2^31

WAdd(a, b) ==                                       \* modulo 2^64
  LET s0 == a[1] + b[1]
      s1 == a[2] + b[2] + s0 \div B16
      s2 == a[3] + b[3] + s1 \div B16
      s3 == a[4] + b[4] + s2 \div B16
  IN  <<s0 % B16, s1 % B16, s2 % B16, s3 % B16>>

WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>

Pow2(n) == 2 ^ n
\* rotate left by n, 0 < n < 64
WRotl(a, n) ==
  LET q == n \div 16
      r == n % 16
      L(i) == a[((i - q - 1 + 8) % 4) + 1]           \* limb that lands in i after a whole-limb rotation
      P(i) == a[((i - q - 2 + 8) % 4) + 1]           \* the limb below it
      x(i) == IF r = 0 THEN L(i)
              ELSE ((L(i) * Pow2(r)) % B16) + (P(i) \div Pow2(16 - r))
  IN  <<x(1), x(2), x(3), x(4)>>

WLess(a, b) ==
  \/ a[4] < b[4]
  \/ a[4] = b[4] /\ \/ a[3] < b[3]
                    \/ a[3] = b[3] /\ \/ a[2] < b[2]
                                      \/ a[2] = b[2] /\ a[1] < b[1]
WLeq(a, b) == a = b \/ WLess(a, b)

\* big-endian bytes of a word, and of smaller unsigned integers
BE2(n) == <<n \div 256, n % 256>>
BE8(w) == BE2(w[4]) \o BE2(w[3]) \o BE2(w[2]) \o BE2(w[1])
=============================================================================
