------------------------------ MODULE Blake2b -------------------------------
(* BLAKE2b with a digest of 32 bytes and no key (RFC 7693), over sequences   *)
(* of bytes.                                                                 *)
EXTENDS Word64, SequencesExt
LOCAL INSTANCE TLC

LOCAL IV == <<
  <<51464, 62396, 58983, 27145>>,
  <<42811, 33994, 44677, 47975>>,
  <<63531, 65172, 62322, 15470>>,
  <<14065, 24349, 62778, 42319>>,
  <<33489, 44518, 21119, 20750>>,
  <<27679, 11070, 26764, 39685>>,
  <<48491, 64321, 55723, 8067>>,
  <<8569, 4990, 52505, 23520>>>>
LOCAL Sigma == <<
  <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>,
  <<15, 11, 5, 9, 10, 16, 14, 7, 2, 13, 1, 3, 12, 8, 6, 4>>,
  <<12, 9, 13, 1, 6, 3, 16, 14, 11, 15, 4, 7, 8, 2, 10, 5>>,
  <<8, 10, 4, 2, 14, 13, 12, 15, 3, 7, 6, 11, 5, 1, 16, 9>>,
  <<10, 1, 6, 8, 3, 5, 11, 16, 15, 2, 12, 13, 7, 9, 4, 14>>,
  <<3, 13, 7, 11, 1, 12, 9, 4, 5, 14, 8, 6, 16, 15, 2, 10>>,
  <<13, 6, 2, 16, 15, 14, 5, 11, 1, 8, 7, 4, 10, 3, 9, 12>>,
  <<14, 12, 8, 15, 13, 2, 4, 10, 6, 1, 16, 5, 9, 7, 3, 11>>,
  <<7, 16, 15, 10, 12, 4, 1, 9, 13, 3, 14, 8, 2, 5, 11, 6>>,
  <<11, 3, 9, 5, 8, 7, 2, 6, 16, 12, 10, 15, 4, 13, 14, 1>>,
  <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>,
  <<15, 11, 5, 9, 10, 16, 14, 7, 2, 13, 1, 3, 12, 8, 6, 4>>>>
LOCAL Lanes == <<<<1, 5, 9, 13>>, <<2, 6, 10, 14>>, <<3, 7, 11, 15>>, <<4, 8, 12, 16>>,
           <<1, 6, 11, 16>>, <<2, 7, 12, 13>>, <<3, 8, 9, 14>>, <<4, 5, 10, 15>>>>

\* rotating right by n is rotating left by 64 - n
LOCAL Mix(v, l, x, y) ==
  LET a1 == WAdd(WAdd(v[l[1]], v[l[2]]), x)
      d1 == WRotl(WXor(v[l[4]], a1), 32)
      c1 == WAdd(v[l[3]], d1)
      b1 == WRotl(WXor(v[l[2]], c1), 40)
      a2 == WAdd(WAdd(a1, b1), y)
      d2 == WRotl(WXor(d1, a2), 48)
      c2 == WAdd(c1, d2)
      b2 == WRotl(WXor(b1, c2), 1)
  IN  [v EXCEPT ![l[1]] = a2, ![l[2]] = b2, ![l[3]] = c2, ![l[4]] = d2]

LOCAL Steps == [i \in 1..96 |-> <<((i - 1) \div 8) + 1, ((i - 1) % 8) + 1>>]

\* m: 16 words; t: number of bytes so far (below 2^31)
LOCAL Compress(h, m, t, last) ==
  LET v0 == h \o <<IV[1], IV[2], IV[3], IV[4], WXor(IV[5], WOf(t)), IV[6],
                   IF last THEN WXor(IV[7], <<65535, 65535, 65535, 65535>>) ELSE IV[7], IV[8]>>
      v == FoldLeft(LAMBDA u, st : Mix(u, Lanes[st[2]], m[Sigma[st[1]][2 * st[2] - 1]], m[Sigma[st[1]][2 * st[2]]]), v0, Steps)
  IN  [i \in 1..8 |-> WXor(WXor(h[i], v[i]), v[i + 8])]

\* word number i of a byte string, padded with zeros, least significant byte first
LOCAL At(b, i) == IF i > Len(b) THEN 0 ELSE b[i]
LOCAL WordAt(b, o) == <<At(b, o) + 256 * At(b, o + 1), At(b, o + 2) + 256 * At(b, o + 3),
                        At(b, o + 4) + 256 * At(b, o + 5), At(b, o + 6) + 256 * At(b, o + 7)>>
LE2(n) == <<n % 256, n \div 256>>
LE8(w) == LE2(w[1]) \o LE2(w[2]) \o LE2(w[3]) \o LE2(w[4])

Blake2b256(message) ==
  LET b == TLCEval(message)
      n == IF Len(b) = 0 THEN 1 ELSE (Len(b) + 127) \div 128
      h0 == [IV EXCEPT ![1] = WXor(@, <<32, 257, 0, 0>>)]        \* 0x01010020
      h == FoldLeft(LAMBDA s, k : Compress(s, TLCEval([i \in 1..16 |-> WordAt(b, 128 * (k - 1) + 8 * (i - 1) + 1)]),
                                           IF k = n THEN Len(b) ELSE 128 * k, k = n),
                    h0, [k \in 1..n |-> k])
  IN  LE8(h[1]) \o LE8(h[2]) \o LE8(h[3]) \o LE8(h[4])
=============================================================================
