From b5ccca30e1148dbf448f7653263773495ba91534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 01/36] fix: reject proofs of work whose edges branch instead
 of forming one cycle

---
 cuckoo/cuckoo.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cuckoo/cuckoo.go b/cuckoo/cuckoo.go
index 347b5fb..e3ebaef 100644
--- a/cuckoo/cuckoo.go
+++ b/cuckoo/cuckoo.go
@@ -25,6 +25,23 @@ func findCycleLength(edges []*Edge) int {
 	i := 0     // first node
 	cycle := 0 // the current length of the cycle
 
+	// A cycle never branches: more than two edges meeting in one vertex make a
+	// closed trail (e.g. two cycles sharing a vertex), not a single cycle.
+	for i := range edges {
+		sharedU, sharedV := 0, 0
+		for j := range edges {
+			if edges[i].U == edges[j].U {
+				sharedU++
+			}
+			if edges[i].V == edges[j].V {
+				sharedV++
+			}
+		}
+		if sharedU > 2 || sharedV > 2 {
+			return 0
+		}
+	}
+
 loop:
 	for {
 		// If the current cycle length is even we need to look for an edge from
-- 
2.43.0


From 624e14e7ef305862102428f4bbba664d8f573965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:34 +0000
Subject: [PATCH 02/36] fix: verify the signature of every block kernel, not
 only coinbase ones

---
 consensus/block.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/consensus/block.go b/consensus/block.go
index 853eab7..5eb31eb 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -279,11 +279,11 @@ func (b *Block) verifyKernels() error {
 			if coinbase > MaxBlockCoinbaseKernels {
 				return errors.New("invalid block with few coinbase kernels")
 			}
+		}
 
-			// Validate kernel
-			if err := kernel.Validate(); err != nil {
-				return err
-			}
+		// Validate kernel
+		if err := kernel.Validate(); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From d587070c326902566d07c6091909ddd1b6e71bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 03/36] fix: sign with a nonce point that survives encoding of
 the signature

---
 secp256k1zkp/schnorr.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index 046b115..6af80f2 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -79,6 +79,13 @@ func SignMessage(publicKey Point, privateKey big.Int, message [32]byte) Signatur
 	// R is the public key for k.
 	R := ScalarMulPoint(&G, k)
 
+	// Only the x coordinate of R is encoded. A decoder takes R to be the point
+	// whose y coordinate is a quadratic residue, so make sure it is.
+	if !IsQuadraticResidue(R.Y) {
+		k = Neg(k)
+		R = ScalarMulPoint(&G, k)
+	}
+
 	// Compute a non-interactive challenge.
 	Rx := GetB32(R.X)
 	compressedPubkey := CompressPubkey(publicKey)
-- 
2.43.0


From 6acdaac72cb83add1d63aa170620bcee30a25c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:38 +0000
Subject: [PATCH 04/36] fix: refuse malleated signatures (negated or out of
 range s)

---
 secp256k1zkp/schnorr.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index 6af80f2..9306320 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -103,6 +103,11 @@ func SignMessage(publicKey Point, privateKey big.Int, message [32]byte) Signatur
 // VerifySignature returns true if the given signature was computed by signing
 // message with the private key for publicKey.
 func VerifySignature(publicKey Point, message [32]byte, signature Signature) bool {
+	// A scalar has one representation, otherwise s and s+n would both verify.
+	if signature.S.Sign() < 0 || signature.S.Cmp(btcec.S256().N) >= 0 {
+		return false
+	}
+
 	Rx := GetB32(signature.R.X)
 	compressedPubkey := CompressPubkey(publicKey)
 
@@ -117,7 +122,8 @@ func VerifySignature(publicKey Point, message [32]byte, signature Signature) boo
 	lhs := ScalarMulPoint(&G, &signature.S)
 	rhs := SumPoints(&signature.R, ScalarMulPoint(&publicKey, e))
 
-	return lhs.X.Cmp(rhs.X) == 0
+	// Compare whole points: x alone would also accept the negation -s of s.
+	return lhs.X.Cmp(rhs.X) == 0 && lhs.Y.Cmp(rhs.Y) == 0
 }
 
 // CommitValue returns the Pedersen commitment to the value v with blinding
-- 
2.43.0


From cc51e11ecd05dcc0a6b72e57768cf127c1e4d02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:40 +0000
Subject: [PATCH 05/36] fix: let the retarget react to the observed block times

The damped time span mixed seconds with nanoseconds and both of its bounds
were the upper one, so the difficulty was halved whatever the timestamps.
---
 consensus/consensus.go  | 2 +-
 consensus/difficulty.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/consensus/consensus.go b/consensus/consensus.go
index 9cf9d3e..9be3713 100644
--- a/consensus/consensus.go
+++ b/consensus/consensus.go
@@ -109,5 +109,5 @@ const (
 	UpperTimeBound time.Duration = BlockTimeWindow * 2
 
 	// Minimum size time window used for difficulty adjustments
-	LowerTimeBound time.Duration = BlockTimeWindow * 2
+	LowerTimeBound time.Duration = BlockTimeWindow / 2
 )
diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index bd545ad..2c1f2d9 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -100,7 +100,8 @@ func NextDifficulty(blist BlockList) Difficulty {
 
 	// Average difficulty and dampened average time
 	diffAvg := sumDiff / MinimumDifficulty.FromNum(uint64(DifficultyAdjustWindow))
-	ts := (3*BlockTimeWindow + beginTime.Sub(endTime)) / 4
+	// (the consensus durations count seconds).
+	ts := (3*BlockTimeWindow + beginTime.Sub(endTime)/time.Second) / 4
 
 	// Apply time bounds
 	if ts < LowerTimeBound {
-- 
2.43.0


From ad25191b444c91e21c120608b095403f7d6fba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:41 +0000
Subject: [PATCH 06/36] fix: hand the retarget the blocks below the new one,
 latest first

---
 chain/chain.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/chain/chain.go b/chain/chain.go
index 3758eb4..886cf4e 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -339,6 +339,9 @@ func (c *Chain) ProcessBlock(block *consensus.Block) error {
 	fromHeight := uint64(0)
 	if block.Header.Height > uint64(limit) {
 		fromHeight = block.Header.Height - uint64(limit)
+	} else {
+		// only the blocks below this one count
+		limit = int(block.Header.Height)
 	}
 
 	blockID := consensus.BlockID{
@@ -346,7 +349,14 @@ func (c *Chain) ProcessBlock(block *consensus.Block) error {
 		Height: &fromHeight,
 	}
 
-	diffAvg := consensus.NextDifficulty(c.storage.From(blockID, limit))
+	// storage lists blocks upwards, the retarget wants the latest block first
+	stored := c.storage.From(blockID, limit)
+	window := make(consensus.BlockList, 0, len(stored))
+	for i := len(stored) - 1; i >= 0; i-- {
+		window = append(window, stored[i])
+	}
+
+	diffAvg := consensus.NextDifficulty(window)
 	if block.Header.Difficulty < diffAvg {
 		return errors.New("difficulty is too low")
 	}
-- 
2.43.0


From f014efed35c59af49e8a2a4c27bd2b60b2643600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:43 +0000
Subject: [PATCH 07/36] fix: make chain validation fail on invalid blocks
 instead of stopping at the first valid one

---
 chain/chain.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/chain/chain.go b/chain/chain.go
index 886cf4e..dff0fde 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -380,12 +380,17 @@ func (c *Chain) Validate() error {
 
 	// go from head to genesis
 	// TODO: MUST check all consensus rules
-	for bytes.Compare(block.Header.Previous, c.genesis.Hash()) != 0 {
+	for bytes.Compare(block.Hash(), c.genesis.Hash()) != 0 {
 		err := block.Validate()
-		if err == nil {
+		if err != nil {
 			return err
 		}
 
+		// the parent may be genesis, which storage needn't know
+		if bytes.Compare(block.Header.Previous, c.genesis.Hash()) == 0 {
+			return nil
+		}
+
 		if block = c.GetBlock(block.Header.Previous); block == nil {
 			return errors.New("invalid previous hash. blockchain integrity is broken")
 		}
-- 
2.43.0


From 247efb7ea6fb8ed1ea93c598a75525fbb53fbba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:17 +0000
Subject: [PATCH 08/36] fix: serialise the features of transaction inputs, as
 Read expects

---
 consensus/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/transaction.go b/consensus/transaction.go
index ee0efbd..f2a14ee 100644
--- a/consensus/transaction.go
+++ b/consensus/transaction.go
@@ -55,7 +55,7 @@ func (t *Transaction) Bytes() []byte {
 
 	// Write inputs
 	for _, input := range t.Inputs {
-		if _, err := buff.Write(input.Commit); err != nil {
+		if _, err := buff.Write(input.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
-- 
2.43.0


From ab1a409b1e593f42724554f63c22c8d54062d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:19 +0000
Subject: [PATCH 09/36] fix: bound the number of kernel ids in a compact block

An absurd count made the allocation panic and took the node down.
---
 consensus/block.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/consensus/block.go b/consensus/block.go
index 5eb31eb..c7f4046 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -420,6 +420,11 @@ func (b *CompactBlock) Read(r io.Reader) error {
 		return err
 	}
 
+	// Sanity check the length.
+	if kernelIDs > 1000000 {
+		return errors.New("compact block contains too many kernel ids")
+	}
+
 	// Read outputs
 	b.Outputs = make(OutputList, outputs)
 	for i := uint8(0); i < outputs; i++ {
-- 
2.43.0


From 2532af274e066d13ce628aeefacf1a701efa3480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:20 +0000
Subject: [PATCH 10/36] fix: bound the string lengths read from handshake and
 error messages

An absurd length made the allocation panic and took the node down.
---
 p2p/handshake.go | 8 ++++++++
 p2p/messages.go  | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index b6f9acc..824141b 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -123,6 +123,10 @@ func (h *hand) Read(r io.Reader) error {
 		return err
 	}
 
+	if userAgentLen > consensus.MaxMsgLen {
+		return errors.New("too big user agent")
+	}
+
 	buff := make([]byte, userAgentLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
@@ -210,6 +214,10 @@ func (h *shake) Read(r io.Reader) error {
 		return err
 	}
 
+	if userAgentLen > consensus.MaxMsgLen {
+		return errors.New("too big user agent")
+	}
+
 	buff := make([]byte, userAgentLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
diff --git a/p2p/messages.go b/p2p/messages.go
index 62a2d90..5f4a073 100644
--- a/p2p/messages.go
+++ b/p2p/messages.go
@@ -207,6 +207,10 @@ func (p *PeerError) Read(r io.Reader) error {
 		return err
 	}
 
+	if messageLen > consensus.MaxMsgLen {
+		return errors.New("too big error message")
+	}
+
 	buff := make([]byte, messageLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
-- 
2.43.0


From 6383558e8877b75af939c0653537d3ed519a19f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:22 +0000
Subject: [PATCH 11/36] fix: encode and decode all eight segments of IPv6 peer
 addresses

---
 p2p/helpers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/helpers.go b/p2p/helpers.go
index 51e850f..de1e7a6 100644
--- a/p2p/helpers.go
+++ b/p2p/helpers.go
@@ -36,7 +36,7 @@ func serializeTCPAddr(buff io.Writer, addr *net.TCPAddr) {
 				logrus.Fatal(err)
 			}
 
-			for i := 0; i < 8; i += 2 {
+			for i := 0; i < net.IPv6len; i += 2 {
 				segment := (uint16(IP[i]) << 8) + uint16(IP[i+1])
 
 				if err := binary.Write(buff, binary.BigEndian, segment); err != nil {
@@ -73,10 +73,10 @@ func deserializeTCPAddr(r io.Reader) (*net.TCPAddr, error) {
 	case 1: // for ipv6 addr
 		ipAddr = make([]byte, net.IPv6len)
 
-		for i := 0; i < 8; i += 2 {
+		for i := 0; i < net.IPv6len; i += 2 {
 			var segment uint16
 
-			if err := binary.Read(r, binary.BigEndian, segment); err != nil {
+			if err := binary.Read(r, binary.BigEndian, &segment); err != nil {
 				return nil, err
 			}
 
-- 
2.43.0


From ccc8865762c682633d2cb6f7bb8600caf8481f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:23 +0000
Subject: [PATCH 12/36] fix: announce our genesis in shake and refuse peers on
 another chain

---
 p2p/handshake.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index 824141b..b86801e 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -268,6 +268,11 @@ func shakeByHand(conn net.Conn) (*shake, error) {
 		return nil, err
 	}
 
+	// Only connect to peers on the same chain
+	if !bytes.Equal(sh.Genesis, msg.Genesis) {
+		return nil, errors.New("peer is on another chain")
+	}
+
 	return sh, nil
 }
 
@@ -286,12 +291,20 @@ func handByShake(conn net.Conn) (*hand, error) {
 		return &h, errors.New("detect connection to ourselves by nonce")
 	}
 
+	genesis := chain.Testnet4.Hash()
+
+	// Only accept peers on the same chain
+	if !bytes.Equal(h.Genesis, genesis) {
+		return &h, errors.New("peer is on another chain")
+	}
+
 	// Send shake
 	msg := shake{
 		Version:         consensus.ProtocolVersion,
 		Capabilities:    consensus.CapFullNode,
 		TotalDifficulty: consensus.Difficulty(1),
 		UserAgent:       userAgent,
+		Genesis:         genesis,
 	}
 	if _, err := WriteMessage(conn, &msg); err != nil {
 		return nil, err
-- 
2.43.0


From b0b433e474fd08a9ebbb6b4351a51fc8d9dc2f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:24 +0000
Subject: [PATCH 13/36] fix: close the connection when the outgoing handshake
 fails

---
 p2p/peer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index cf56a0b..3c9ca5d 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -73,6 +73,7 @@ func NewPeer(sync *Syncer, addr string) (*Peer, error) {
 	logrus.Infof("connected to peer (%s)", addr)
 	shake, err := shakeByHand(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 73b6cbfff0079393df05afa7a7aceafbf495beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:25 +0000
Subject: [PATCH 14/36] fix: don't make a peer's own handler wait for itself on
 disconnect

Disconnect waited for both handlers, so a ban issued while handling a message
never returned. WaitForDisconnect is there for who wants to wait.
---
 p2p/peer.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 3c9ca5d..081f807 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -351,7 +351,6 @@ func (p *Peer) Disconnect(reason error) {
 
 	close(p.quit)
 	p.conn.Close()
-	p.wg.Wait()
 }
 
 // Close the connection to the remote peer
-- 
2.43.0


From 9c8d4ca66579e9ad6c7705b035e2e7fb061d1c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:12 +0000
Subject: [PATCH 15/36] fix: create the table of banned peers, so that banning
 doesn't panic

---
 p2p/pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/pool.go b/p2p/pool.go
index 27ceaa1..25c66e5 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -30,6 +30,7 @@ func newPeersPool(sync *Syncer) *peersPool {
 		quit:           make(chan int),
 		PeersTable:     make(map[string]*peerInfo),
 		ConnectedPeers: make(map[string]*peerInfo),
+		BannedPeers:    make(map[string]struct{}),
 	}
 
 	return pp
-- 
2.43.0


From 5d9fd26a032ff31918489c7568fab2b2db43db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 16/36] fix: ban peers that are not connected, and keep them
 marked as banned

---
 p2p/pool.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 25c66e5..5edca0e 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -62,25 +62,29 @@ type peersPool struct {
 func (pp *peersPool) Ban(addr string) {
 	pp.ptmu.Lock()
 	peerInfo, ok := pp.PeersTable[addr]
-	pp.ptmu.Unlock()
-
 	if !ok {
+		pp.ptmu.Unlock()
 		return
 	}
 
-	// Mark banned & Close connection
-	peerInfo.Status = psBanned
-	peerInfo.Peer.Close()
-
 	// Add to ban list
 	pp.bnmu.Lock()
 	pp.BannedPeers[addr] = struct{}{}
 	pp.bnmu.Unlock()
 
 	// Clear the peers table
-	pp.ptmu.Lock()
 	delete(pp.PeersTable, addr)
 	pp.ptmu.Unlock()
+
+	// Mark banned & Close connection
+	peerInfo.Lock()
+	peerInfo.Status = psBanned
+	peer := peerInfo.Peer
+	peerInfo.Unlock()
+
+	if peer != nil {
+		peer.Close()
+	}
 }
 
 // IsBan returns true if addr is banned
@@ -264,7 +268,9 @@ func (pp *peersPool) connectPeer(addr string) error {
 
 		// update peers & connected peers tables
 		peerInfo.Lock()
-		peerInfo.Status = psDisconnected
+		if peerInfo.Status != psBanned {
+			peerInfo.Status = psDisconnected
+		}
 		peerInfo.Unlock()
 
 		// clean connected peers
-- 
2.43.0


From 82dae84e2c257db77d6f6673b4016e5012427294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:15 +0000
Subject: [PATCH 17/36] fix: don't put banned peers back into the table, nor
 exceed its size

---
 p2p/pool.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 5edca0e..a06af89 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -116,8 +116,13 @@ func (pp *peersPool) Add(addr string) {
 	pp.ptmu.Lock()
 	defer pp.ptmu.Unlock()
 
+	// Don't add banned peers again
+	if pp.IsBan(addr) {
+		return
+	}
+
 	// Don't add if big peer table
-	if len(pp.PeersTable) > maxPeersTableSize {
+	if len(pp.PeersTable) >= maxPeersTableSize {
 		return
 	}
 
-- 
2.43.0


From e82dfd16edcc27b5a0121c710b546046789b2c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:16 +0000
Subject: [PATCH 18/36] fix: ban peers by the address they are known by

---
 p2p/sync.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index 284d6fd..b42c80a 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -167,7 +167,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		headers := []consensus.BlockHeader{msg.Header}
 		if err := s.Chain.ProcessHeaders(headers); err != nil {
 			// ban peer ?
-			//s.Pool.Ban(peer.conn.RemoteAddr().String())
+			//s.Pool.Ban(peer.Addr)
 			logrus.Infof("Failed to process header: %v", err)
 		}
 
@@ -176,7 +176,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 	case *BlockHeaders:
 		if err := s.Chain.ProcessHeaders(msg.Headers); err != nil {
 			// ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 	case *GetBlock:
@@ -192,7 +192,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		if err := s.Chain.ProcessBlock(msg); err != nil {
 			logrus.Info(err)
 			// TODO: maybe smarter ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 		// update peer info
@@ -213,7 +213,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 	case *consensus.Transaction:
 		if err := s.Mempool.ProcessTx(msg); err != nil {
 			// ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 		// TODO: propagate tx?
-- 
2.43.0


From 605ff5111e35663893e00531b5d133eb346e64f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:18 +0000
Subject: [PATCH 19/36] fix: ignore messages of peers that were just banned
 instead of exiting

---
 p2p/sync.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index b42c80a..66fce15 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -104,8 +104,9 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 
 	peerInfo := s.Pool.PeerInfo(peer.Addr)
 	if peerInfo == nil {
-		// should never rich
-		logrus.Fatal("unexpected error")
+		// the peer has been banned in the meantime
+		logrus.Infof("ignore message from unknown peer (%s)", peer.Addr)
+		return
 	}
 
 	switch msg := message.(type) {
-- 
2.43.0


From adcde41f580957aee814998c4318751bf075ed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:19 +0000
Subject: [PATCH 20/36] fix: don't propagate blocks that were refused

---
 p2p/sync.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/sync.go b/p2p/sync.go
index 66fce15..c1a6f22 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -194,6 +194,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 			logrus.Info(err)
 			// TODO: maybe smarter ban peer ?
 			s.Pool.Ban(peer.Addr)
+			return
 		}
 
 		// update peer info
-- 
2.43.0


From f966a8c369e9dc7d8cd3eb91caa5d7b7f8f4320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:21 +0000
Subject: [PATCH 21/36] fix: ignore transactions when the node has no mempool

---
 p2p/sync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/sync.go b/p2p/sync.go
index c1a6f22..6cf73a4 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -213,6 +213,11 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		}
 
 	case *consensus.Transaction:
+		if s.Mempool == nil {
+			// node without a mempool
+			return
+		}
+
 		if err := s.Mempool.ProcessTx(msg); err != nil {
 			// ban peer ?
 			s.Pool.Ban(peer.Addr)
-- 
2.43.0


From 9537c71ee3a1e6d4f7d6f9594b3379734faf96d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:23 +0000
Subject: [PATCH 22/36] fix: release the connection slot when there is nobody
 to connect to

---
 p2p/pool.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index a06af89..3000948 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -208,9 +208,9 @@ func (pp *peersPool) PropagateBlock(block *consensus.Block) {
 
 // connectPeer connects peer from peerTable
 func (pp *peersPool) connectPeer(addr string) error {
-	// for empty string nonerror exit
+	// there is nobody to connect to
 	if len(addr) == 0 {
-		return nil
+		return errors.New("no peers to connect")
 	}
 
 	if pp.connected > int32(maxOnlineConnections) {
@@ -229,8 +229,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 	defer peerInfo.Unlock()
 
 	if peerInfo.Status == psBanned || peerInfo.Status == psConnected {
-		logrus.Debug("dont connect to banned host (or already connected)")
-		return nil
+		return errors.New("dont connect to banned host (or already connected)")
 	}
 
 	peerConn, err := NewPeer(pp.sync, addr)
-- 
2.43.0


From 0d718c5aa6a61e198eda892ee49c3eafdf225dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:24 +0000
Subject: [PATCH 23/36] fix: don't crash on stop when some peers were never
 connected

---
 p2p/pool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 3000948..f18c6f5 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -315,7 +315,9 @@ out:
 	for _, pi := range pp.PeersTable {
 		go func(peerInfo *peerInfo) {
 			peerInfo.Lock()
-			peerInfo.Peer.Close()
+			if peerInfo.Peer != nil {
+				peerInfo.Peer.Close()
+			}
 			peerInfo.Status = psDisconnected
 			peerInfo.Unlock()
 		}(pi)
-- 
2.43.0


From 8f7c19b669be983d4a2dad42fd5595539e647f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:26 +0000
Subject: [PATCH 24/36] fix: count the connected peers atomically

---
 p2p/pool.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index f18c6f5..8b553b7 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -11,6 +11,7 @@ import (
 	"github.com/sirupsen/logrus"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -213,7 +214,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		return errors.New("no peers to connect")
 	}
 
-	if pp.connected > int32(maxOnlineConnections) {
+	if atomic.LoadInt32(&pp.connected) > int32(maxOnlineConnections) {
 		return errors.New("too big online peers connections")
 	}
 
@@ -243,7 +244,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		return fmt.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)
 	}
 
-	pp.connected++
+	atomic.AddInt32(&pp.connected, 1)
 
 	// update peers table
 	peerInfo.Peer = peerConn
@@ -278,7 +279,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		peerInfo.Unlock()
 
 		// clean connected peers
-		pp.connected--
+		atomic.AddInt32(&pp.connected, -1)
 		pp.cpmu.Lock()
 		delete(pp.ConnectedPeers, addr)
 		pp.cpmu.Unlock()
-- 
2.43.0


From 4ecb8de3e0d52e6a77031087101ea40ad936c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 25/36] fix: give up the outgoing handshake when the peer stays
 silent

---
 p2p/peer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 081f807..a848016 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -16,8 +16,12 @@ import (
 	"net"
 	"sync"
 	"sync/atomic"
+	"time"
 )
 
+// handshakeTimeout is how long to wait for the shake of the peer
+const handshakeTimeout = 10 * time.Second
+
 // Peer is a participant of p2p network
 type Peer struct {
 	conn net.Conn
@@ -71,12 +75,18 @@ func NewPeer(sync *Syncer, addr string) (*Peer, error) {
 	}
 
 	logrus.Infof("connected to peer (%s)", addr)
+
+	// A silent peer must not hold up the others
+	conn.SetDeadline(time.Now().Add(handshakeTimeout))
+
 	shake, err := shakeByHand(conn)
 	if err != nil {
 		conn.Close()
 		return nil, err
 	}
 
+	conn.SetDeadline(time.Time{})
+
 	p := new(Peer)
 	p.conn = conn
 	p.sync = sync
-- 
2.43.0


From ac715558947ce4433de7ed861bbaa6688511ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:42 +0000
Subject: [PATCH 26/36] fix: give the genesis blocks a previous root, so that
 serving them is not fatal

---
 chain/chain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chain/chain.go b/chain/chain.go
index dff0fde..6062f71 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -22,6 +22,7 @@ var Testnet1 = consensus.Block{
 		Timestamp:       time.Date(2017, 11, 16, 20, 0, 0, 0, time.UTC),
 		TotalDifficulty: 10,
 
+		PreviousRoot:   bytes.Repeat([]byte{0x00}, 32),
 		UTXORoot:       bytes.Repeat([]byte{0x00}, 32),
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
@@ -51,6 +52,7 @@ var Testnet2 = consensus.Block{
 		//Difficulty:      10,
 		//TotalDifficulty: 10,
 
+		PreviousRoot:   bytes.Repeat([]byte{0x00}, 32),
 		UTXORoot:       bytes.Repeat([]byte{0x00}, 32),
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
@@ -82,6 +84,7 @@ var Testnet3 = consensus.Block{
 		Timestamp:       time.Date(2018, 7, 8, 18, 0, 0, 0, time.UTC),
 		TotalDifficulty: TESTNET3_INITIAL_DIFFICULTY,
 
+		PreviousRoot:   bytes.Repeat([]byte{0x00}, 32),
 		UTXORoot:       bytes.Repeat([]byte{0x00}, 32),
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
@@ -118,6 +121,7 @@ var Testnet4 = consensus.Block{
 		Timestamp:       time.Date(2018, 10, 17, 20, 0, 0, 0, time.UTC),
 		TotalDifficulty: testnet4InitialDifficulty,
 
+		PreviousRoot:   bytes.Repeat([]byte{0x00}, 32),
 		UTXORoot:       bytes.Repeat([]byte{0x00}, 32),
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
@@ -149,6 +153,7 @@ var Mainnet = consensus.Block{
 		Timestamp:       time.Date(2018, 8, 14, 0, 0, 0, 0, time.UTC),
 		TotalDifficulty: 1000,
 
+		PreviousRoot:   bytes.Repeat([]byte{0x00}, 32),
 		UTXORoot:       bytes.Repeat([]byte{0x00}, 32),
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
-- 
2.43.0


From 92e7f3adac2adefbdd34a96ce2bf7c319880a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:43 +0000
Subject: [PATCH 27/36] fix: validate blocks that reuse the proof of work of
 the tip

---
 chain/chain.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/chain/chain.go b/chain/chain.go
index 6062f71..14ddcf7 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -299,17 +299,18 @@ func (c *Chain) ProcessBlock(block *consensus.Block) error {
 	defer c.Unlock()
 	logrus.Infof("processing block (height: %d, totalDiff: %d)", block.Header.Height, block.Header.TotalDifficulty)
 
+	// verify block by consensus rules. The hash only covers the proof of work,
+	// so this goes before looking for the block by its hash
+	if err := block.Validate(); err != nil {
+		return err
+	}
+
 	// quick check is it current tip
 	if bytes.Compare(c.head.Hash(), block.Hash()) == 0 {
 		// the block is exists
 		return nil
 	}
 
-	// verify block by consensus rules
-	if err := block.Validate(); err != nil {
-		return err
-	}
-
 	logrus.Info("getting the previous blocks")
 	// Get the previous block
 	prevHeight := block.Header.Height - 1
-- 
2.43.0


From e97828ad73e9c8505346b739473a010e7132f182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:45 +0000
Subject: [PATCH 28/36] fix: only accept proofs of work of the full cycle
 length

---
 consensus/proof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/consensus/proof.go b/consensus/proof.go
index 2f76a9d..ad82cb5 100644
--- a/consensus/proof.go
+++ b/consensus/proof.go
@@ -32,6 +32,10 @@ var (
 func (p *Proof) Validate(header *BlockHeader, cuckooSize uint8) error {
 	logrus.Infof("block POW validate for size %d", cuckooSize)
 
+	if len(header.POW.Nonces) != ProofSize {
+		return errInvalidPow
+	}
+
 	cuckoo := cuckoo.NewCuckaroo(header.bytesWithoutPOW())
 	if cuckoo.Verify(header.POW.Nonces, header.POW.EdgeBits) {
 		return nil
-- 
2.43.0


From 44e5eb98f6d7bbd544d821e341c07d250787d4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:41 +0000
Subject: [PATCH 29/36] fix: refuse timestamps that lie too far ahead for a
 duration

---
 consensus/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/block.go b/consensus/block.go
index c7f4046..7698fc7 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -1007,7 +1007,7 @@ func (b *BlockHeader) Validate() error {
 	}
 
 	// refuse blocks more than 12 blocks intervals in future (as in bitcoin)
-	if b.Timestamp.Sub(time.Now().UTC()) > time.Second*12*BlockTimeSec {
+	if b.Timestamp.Unix() > time.Now().Unix()+int64(12*BlockTimeSec) {
 		return fmt.Errorf("invalid block time (%s)", b.Timestamp)
 	}
 
-- 
2.43.0


From 4e57862ec1060a602b6b4daff27430da249f3b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:15 +0000
Subject: [PATCH 30/36] fix: ignore blocks beyond the retarget window instead
 of giving up on it

---
 consensus/difficulty.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index 2c1f2d9..cb9b41a 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -77,7 +77,8 @@ func NextDifficulty(blist BlockList) Difficulty {
 			if i < DifficultyAdjustWindow+MedianTimeWindow {
 				windowEnd = append(windowEnd, blist[i].Header.Timestamp)
 			} else {
-				break
+				// too old to count
+				continue
 			}
 		}
 	}
-- 
2.43.0


From 8ced52b1c6b48ddeecdfc9f409d40cb74ee14615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:47 +0000
Subject: [PATCH 31/36] fix: range proof field is read in its full declared
 length

A declared length beyond the size of a proof left the rest of the field in
the reader, so cut short data passed and what followed was misread.
---
 consensus/block.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/consensus/block.go b/consensus/block.go
index 7698fc7..0e9fae3 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -604,9 +604,14 @@ func (o *Output) Read(r io.Reader) error {
 		return fmt.Errorf("invalid range proof length: %d", proofLen)
 	}
 
+	// Take the whole field off the reader, what follows it is the next element
+	buff := make([]byte, proofLen)
+	if _, err := io.ReadFull(r, buff); err != nil {
+		return err
+	}
+
 	proof := new(bulletproofs.BulletProof)
-	err := proof.Read(io.LimitReader(r, int64(proofLen)))
-	if err != nil {
+	if err := proof.Read(bytes.NewReader(buff)); err != nil {
 		return errors.New("failed to deserialize range proof")
 	}
 	o.RangeProof = *proof
-- 
2.43.0


From 3ee6037fe2bedde8a67cb48c713bf12aa94af4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 32/36] fix: connect to nobody after the pool was stopped

---
 p2p/pool.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/p2p/pool.go b/p2p/pool.go
index 8b553b7..f4c69d7 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -300,6 +300,14 @@ out:
 			break out
 
 		case pp.pool <- struct{}{}:
+			// both may be possible: connect to nobody after the stop
+			select {
+			case <-pp.quit:
+				<-pp.pool
+				break out
+			default:
+			}
+
 			if err := pp.connectPeer(pp.notConnected()); err != nil {
 				logrus.Error(err)
 				<-pp.pool
-- 
2.43.0


From 16b20276917ffe53c09c6c7b02a6ba12a7b00eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:09 +0000
Subject: [PATCH 33/36] fix: give up the incoming handshake when the peer stays
 silent

---
 p2p/peer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index a848016..3541a4b 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -19,7 +19,7 @@ import (
 	"time"
 )
 
-// handshakeTimeout is how long to wait for the shake of the peer
+// handshakeTimeout is how long to wait for the hand or shake of the peer
 const handshakeTimeout = 10 * time.Second
 
 // Peer is a participant of p2p network
@@ -108,11 +108,17 @@ func NewPeer(sync *Syncer, addr string) (*Peer, error) {
 func AcceptNewPeer(conn net.Conn) (*Peer, error) {
 
 	logrus.Info("accept new peer")
+
+	// A silent peer must not be waited for forever
+	conn.SetDeadline(time.Now().Add(handshakeTimeout))
+
 	hand, err := handByShake(conn)
 	if err != nil {
 		return nil, err
 	}
 
+	conn.SetDeadline(time.Time{})
+
 	p := new(Peer)
 	p.conn = conn
 	p.quit = make(chan struct{})
-- 
2.43.0


From f71d1f8421b1c58564af8dd29ed7e9a932c7c7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:11 +0000
Subject: [PATCH 34/36] fix: don't take addresses without a host into the peers
 table

---
 p2p/pool.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/pool.go b/p2p/pool.go
index f4c69d7..1328c6c 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -105,6 +105,11 @@ func (pp *peersPool) Add(addr string) {
 		return
 	}
 
+	// an address without a host can be neither dialled nor shared
+	if netAddr.IP == nil {
+		return
+	}
+
 	// FIXME: discard another IPs
 	if netAddr.IP.IsMulticast() {
 		return
-- 
2.43.0


From 7ba490727b9c1d51b2fe53a561488f15f54b1e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 35/36] fix: decide who gets a block before the peers can
 announce something else

---
 p2p/pool.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 1328c6c..cdb1e38 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -200,15 +200,15 @@ func (pp *peersPool) PropagateBlock(block *consensus.Block) {
 	pp.cpmu.Lock()
 	defer pp.cpmu.Unlock()
 
-	for _, pi := range pp.ConnectedPeers {
-		go func(peerInfo *peerInfo) {
-			// propagate if peer height or totalDiff less than newest block
-			if peerInfo.Height < block.Header.Height || peerInfo.TotalDifficulty < block.Header.TotalDifficulty {
-				if peer := peerInfo.Peer; peer != nil {
-					peer.SendBlock(block)
-				}
+	for _, peerInfo := range pp.ConnectedPeers {
+		// propagate if peer height or totalDiff less than newest block.
+		// It has to be decided here: later the peer, maybe the one the block
+		// came from, could have announced something else
+		if peerInfo.Height < block.Header.Height || peerInfo.TotalDifficulty < block.Header.TotalDifficulty {
+			if peer := peerInfo.Peer; peer != nil {
+				go peer.SendBlock(block)
 			}
-		}(pi)
+		}
 	}
 }
 
-- 
2.43.0


From 0740405e624a3639042dbe28f4f0ec6c14bb6c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 36/36] fix: don't lose a peer that is connected again right
 after its disconnect

---
 p2p/pool.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index cdb1e38..25815fc 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -276,19 +276,19 @@ func (pp *peersPool) connectPeer(addr string) error {
 		peerConn.WaitForDisconnect()
 		logrus.Infof("closed peer connection (%s)", addr)
 
-		// update peers & connected peers tables
+		// clean connected peers, before the peer can be connected again
+		atomic.AddInt32(&pp.connected, -1)
+		pp.cpmu.Lock()
+		delete(pp.ConnectedPeers, addr)
+		pp.cpmu.Unlock()
+
+		// update peers table
 		peerInfo.Lock()
 		if peerInfo.Status != psBanned {
 			peerInfo.Status = psDisconnected
 		}
 		peerInfo.Unlock()
 
-		// clean connected peers
-		atomic.AddInt32(&pp.connected, -1)
-		pp.cpmu.Lock()
-		delete(pp.ConnectedPeers, addr)
-		pp.cpmu.Unlock()
-
 		<-pp.pool
 	}()
 
-- 
2.43.0

