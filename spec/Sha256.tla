------------------------------- MODULE Sha256 -------------------------------
(* SHA-256 (FIPS 180-4) over sequences of bytes shorter than 2^13. A word is *)
(* <<lower 16 bits, upper 16 bits>>.                                         *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
LOCAL INSTANCE TLC

LOCAL K == <<
  <<12184, 17034>>, <<17553, 28983>>, <<64463, 46528>>, <<56229, 59829>>,
  <<49755, 14678>>, <<4593, 23025>>, <<33444, 37439>>, <<24277, 43804>>,
  <<43672, 55303>>, <<23297, 4739>>, <<34238, 9265>>, <<32195, 21772>>,
  <<23924, 29374>>, <<45566, 32990>>, <<1703, 39900>>, <<61812, 49563>>,
  <<27073, 58523>>, <<18310, 61374>>, <<40390, 4033>>, <<41420, 9228>>,
  <<11375, 11753>>, <<33962, 19060>>, <<43484, 23728>>, <<35034, 30457>>,
  <<20818, 38974>>, <<50797, 43057>>, <<10184, 45059>>, <<32711, 48985>>,
  <<3059, 50912>>, <<37191, 54695>>, <<25425, 1738>>, <<10599, 5161>>,
  <<2693, 10167>>, <<8504, 11803>>, <<28156, 19756>>, <<3347, 21304>>,
  <<29524, 25866>>, <<2747, 30314>>, <<51502, 33218>>, <<11397, 37490>>,
  <<59553, 41663>>, <<26187, 43034>>, <<35696, 49739>>, <<20899, 51052>>,
  <<59417, 53650>>, <<1572, 54937>>, <<13701, 62478>>, <<41072, 4202>>,
  <<49430, 6564>>, <<27656, 7735>>, <<30540, 10056>>, <<48309, 13488>>,
  <<3251, 14620>>, <<43594, 20184>>, <<51791, 23452>>, <<28659, 26670>>,
  <<33518, 29839>>, <<25455, 30885>>, <<30740, 33992>>, <<520, 36039>>,
  <<65530, 37054>>, <<27883, 42064>>, <<41975, 48889>>, <<30962, 50801>>>>
LOCAL IV == <<
  <<58983, 27145>>, <<44677, 47975>>, <<62322, 15470>>, <<62778, 42319>>,
  <<21119, 20750>>, <<26764, 39685>>, <<55723, 8067>>, <<52505, 23520>>>>
LOCAL B == 65536
LOCAL Add(a, b) == LET l == a[1] + b[1] IN <<l % B, (a[2] + b[2] + l \div B) % B>>
LOCAL Xor3(a, b, c) == <<(a[1] ^^ b[1]) ^^ c[1], (a[2] ^^ b[2]) ^^ c[2]>>
LOCAL Shr(a, n) ==                                        \* 0 < n < 32, zeros move in
  IF n >= 16 THEN <<a[2] \div 2 ^ (n - 16), 0>>
  ELSE <<a[1] \div 2 ^ n + (a[2] % 2 ^ n) * 2 ^ (16 - n), a[2] \div 2 ^ n>>
LOCAL Shl(a, n) ==
  IF n >= 16 THEN <<0, (a[1] * 2 ^ (n - 16)) % B>>
  ELSE <<(a[1] % 2 ^ (16 - n)) * 2 ^ n, (a[2] % 2 ^ (16 - n)) * 2 ^ n + a[1] \div 2 ^ (16 - n)>>
LOCAL Rotr(a, n) == LET x == Shr(a, n)  y == Shl(a, 32 - n) IN <<x[1] + y[1], x[2] + y[2]>>
LOCAL Ch(e, f, g) == <<(e[1] & f[1]) ^^ ((B - 1 - e[1]) & g[1]), (e[2] & f[2]) ^^ ((B - 1 - e[2]) & g[2])>>
LOCAL Maj(a, b, c) == <<((a[1] & b[1]) ^^ (a[1] & c[1])) ^^ (b[1] & c[1]), ((a[2] & b[2]) ^^ (a[2] & c[2])) ^^ (b[2] & c[2])>>

LOCAL Expand(w, i) ==
  LET x == w[i - 15]  y == w[i - 2]
      s0 == Xor3(Rotr(x, 7), Rotr(x, 18), Shr(x, 3))
      s1 == Xor3(Rotr(y, 17), Rotr(y, 19), Shr(y, 10))
  IN  Append(w, Add(Add(w[i - 16], s0), Add(w[i - 7], s1)))
LOCAL Round(v, k, w) ==
  LET s1 == Xor3(Rotr(v[5], 6), Rotr(v[5], 11), Rotr(v[5], 25))
      t1 == Add(Add(Add(v[8], s1), Add(Ch(v[5], v[6], v[7]), k)), w)
      s0 == Xor3(Rotr(v[1], 2), Rotr(v[1], 13), Rotr(v[1], 22))
      t2 == Add(s0, Maj(v[1], v[2], v[3]))
  IN  <<Add(t1, t2), v[1], v[2], v[3], Add(v[4], t1), v[5], v[6], v[7]>>
LOCAL Block(h, m) ==
  LET w == TLCEval(FoldLeft(Expand, m, [i \in 1..48 |-> i + 16]))
      v == TLCEval(FoldLeft(LAMBDA u, i : TLCEval(Round(u, K[i], w[i])), h, [i \in 1..64 |-> i]))
  IN  [i \in 1..8 |-> Add(h[i], v[i])]

Sha256(message) ==
  LET n == Len(message)
      blocks == (n + 72) \div 64
      b == TLCEval(message \o <<128>> \o [i \in 1..(64 * blocks - n - 3) |-> 0] \o <<(8 * n) \div 256, (8 * n) % 256>>)
      m(k) == TLCEval([i \in 1..16 |-> LET o == 64 * (k - 1) + 4 * (i - 1)
                                       IN  <<256 * b[o + 3] + b[o + 4], 256 * b[o + 1] + b[o + 2]>>])
      h == FoldLeft(LAMBDA s, k : TLCEval(Block(s, m(k))), IV, [k \in 1..blocks |-> k])
      by(x) == <<x[2] \div 256, x[2] % 256, x[1] \div 256, x[1] % 256>>
  IN  by(h[1]) \o by(h[2]) \o by(h[3]) \o by(h[4]) \o by(h[5]) \o by(h[6]) \o by(h[7]) \o by(h[8])
=============================================================================
