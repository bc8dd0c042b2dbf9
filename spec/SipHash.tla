------------------------------ MODULE SipHash -------------------------------
(* The keyed generators that define the edges of both proof-of-work graphs.  *)
EXTENDS Word64, SequencesExt

Round(v) ==
  LET a0 == WAdd(v[1], v[2])
      b0 == WXor(WRotl(v[2], 13), a0)
      a1 == WRotl(a0, 32)
      c0 == WAdd(v[3], v[4])
      d0 == WXor(WRotl(v[4], 16), c0)
      a2 == WAdd(a1, d0)
      d1 == WXor(WRotl(d0, 21), a2)
      c1 == WAdd(c0, b0)
      b1 == WXor(WRotl(b0, 17), c1)
      c2 == WRotl(c1, 32)
  IN  <<a2, b1, c2, d1>>

Absorb(v, nonce) ==
  LET s == Round(Round(<<v[1], v[2], v[3], WXor(v[4], nonce)>>))
  IN  Round(Round(Round(Round(<<WXor(s[1], nonce), s[2], WXor(s[3], WOf(255)), s[4]>>))))

Digest(v) == WXor(WXor(v[1], v[2]), WXor(v[3], v[4]))

\* SipHash-2-4 of one 64-bit word, without the usual initialisation of the key
SipHash24(key, nonce) == Digest(Absorb(key, nonce))

\* One hash of a block of 64 chained ones: the state is carried from the start of
\* the block, and the digest at the end of the block is mixed into every other one.
From(v, start, j, k) ==    \* state after also absorbing start+j .. start+k-1
  FoldLeft(LAMBDA w, x : Absorb(w, WAdd(start, WOf(x - 1))), v, [i \in 1..(k - j) |-> i + j])

BlockStart(n) == <<n[1] - (n[1] % 64), n[2], n[3], n[4]>>

SipHashBlock(key, nonce) ==
  LET start == BlockStart(nonce)
      k     == (nonce[1] % 64) + 1
      here  == From(key, start, 0, k)
      end   == Digest(From(here, start, k, 64))
  IN  IF k = 64 THEN end ELSE WXor(Digest(here), end)

-----------------------------------------------------------------------------
(* SipHash-2-4 proper, of a string of bytes                                  *)
LOCAL ByteAt(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
LOCAL LE(b, o) == [k \in 1..4 |-> ByteAt(b, o + 2 * k - 2) + 256 * ByteAt(b, o + 2 * k - 1)]
LOCAL Limbs(a, b, c, d) == <<d, c, b, a>>
SipHashBytes(k0, k1, b) ==
  LET v0 == <<WXor(k0, Limbs(29551, 28005, 28787, 25973)), WXor(k1, Limbs(25711, 29281, 28260, 28525)),
              WXor(k0, Limbs(27769, 26469, 28261, 29281)), WXor(k1, Limbs(29797, 25698, 31092, 25971))>>
      n == Len(b) \div 8
      in(v, w) == LET s == Round(Round(<<v[1], v[2], v[3], WXor(v[4], w)>>)) IN <<WXor(s[1], w), s[2], s[3], s[4]>>
      whole == FoldLeft(LAMBDA v, k : in(v, LE(b, 8 * k - 7)), v0, [k \in 1..n |-> k])
      rest == LE(b, 8 * n + 1)
      s == in(whole, <<rest[1], rest[2], rest[3], rest[4] + 256 * (Len(b) % 256)>>)
  IN  Digest(Round(Round(Round(Round(<<s[1], s[2], WXor(s[3], WOf(255)), s[4]>>)))))
=============================================================================
