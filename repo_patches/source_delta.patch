From 89ac1d63b40f910ee0dc0dd4bfd40292156d3068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:49 +0000
Subject: [PATCH 01/38] fix: write the features of transaction inputs

Transaction.Bytes left them out, while Read expects them: no transaction with
inputs survived the wire.
---
 consensus/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/transaction.go b/consensus/transaction.go
index ee0efbd..f2a14ee 100644
--- a/consensus/transaction.go
+++ b/consensus/transaction.go
@@ -55,7 +55,7 @@ func (t *Transaction) Bytes() []byte {
 
 	// Write inputs
 	for _, input := range t.Inputs {
-		if _, err := buff.Write(input.Commit); err != nil {
+		if _, err := buff.Write(input.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
-- 
2.43.0


From a8c93095f91bbfd0998cf7d7fc5fc02073bf93bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:50 +0000
Subject: [PATCH 02/38] fix: bound the number of kernel ids in a compact block

A count beyond what a slice can hold made Read panic, and with it the node that
received the message. Other counts from the wire made it allocate hundreds of
megabytes for a message of a few hundred bytes: grow the lists while reading.
---
 consensus/block.go       | 30 ++++++++++++++++++++++--------
 consensus/transaction.go | 20 ++++++++++++++------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/consensus/block.go b/consensus/block.go
index 853eab7..b0f498b 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -164,28 +164,37 @@ func (b *Block) Read(r io.Reader) error {
 		return errors.New("transaction contains too many kernels")
 	}
 
+	// The counts come from the peer, so grow the lists while reading instead of
+	// trusting them for allocation.
+
 	// Read inputs
-	b.Inputs = make([]Input, inputs)
+	b.Inputs = make([]Input, 0)
 	for i := uint64(0); i < inputs; i++ {
-		if err := b.Inputs[i].Read(r); err != nil {
+		var input Input
+		if err := input.Read(r); err != nil {
 			return err
 		}
+		b.Inputs = append(b.Inputs, input)
 	}
 
 	// Read outputs
-	b.Outputs = make([]Output, outputs)
+	b.Outputs = make([]Output, 0)
 	for i := uint64(0); i < outputs; i++ {
-		if err := b.Outputs[i].Read(r); err != nil {
+		var output Output
+		if err := output.Read(r); err != nil {
 			return err
 		}
+		b.Outputs = append(b.Outputs, output)
 	}
 
 	// Read kernels
-	b.Kernels = make([]TxKernel, kernels)
+	b.Kernels = make([]TxKernel, 0)
 	for i := uint64(0); i < kernels; i++ {
-		if err := b.Kernels[i].Read(r); err != nil {
+		var kernel TxKernel
+		if err := kernel.Read(r); err != nil {
 			return err
 		}
+		b.Kernels = append(b.Kernels, kernel)
 	}
 
 	return nil
@@ -437,8 +446,13 @@ func (b *CompactBlock) Read(r io.Reader) error {
 		}
 	}
 
+	// Sanity check the length.
+	if kernelIDs > 1000000 {
+		return errors.New("compact block contains too many kernel ids")
+	}
+
 	// Read kernels ids
-	b.KernelIDs = make(ShortIDList, kernelIDs)
+	b.KernelIDs = make(ShortIDList, 0)
 	for i := uint64(0); i < kernelIDs; i++ {
 
 		shortID := make(ShortID, ShortIDSize)
@@ -446,7 +460,7 @@ func (b *CompactBlock) Read(r io.Reader) error {
 			return err
 		}
 
-		b.KernelIDs[i] = shortID
+		b.KernelIDs = append(b.KernelIDs, shortID)
 	}
 
 	return nil
diff --git a/consensus/transaction.go b/consensus/transaction.go
index f2a14ee..b9f04cc 100644
--- a/consensus/transaction.go
+++ b/consensus/transaction.go
@@ -113,25 +113,33 @@ func (t *Transaction) Read(r io.Reader) error {
 		return errors.New("transaction contains too many kernels")
 	}
 
-	t.Inputs = make([]Input, inputs)
+	// The counts come from the peer, so grow the lists while reading instead of
+	// trusting them for allocation.
+	t.Inputs = make([]Input, 0)
 	for i := uint64(0); i < inputs; i++ {
-		if err := t.Inputs[i].Read(r); err != nil {
+		var input Input
+		if err := input.Read(r); err != nil {
 			return err
 		}
+		t.Inputs = append(t.Inputs, input)
 	}
 
-	t.Outputs = make([]Output, outputs)
+	t.Outputs = make([]Output, 0)
 	for i := uint64(0); i < outputs; i++ {
-		if err := t.Outputs[i].Read(r); err != nil {
+		var output Output
+		if err := output.Read(r); err != nil {
 			return err
 		}
+		t.Outputs = append(t.Outputs, output)
 	}
 
-	t.Kernels = make([]TxKernel, kernels)
+	t.Kernels = make([]TxKernel, 0)
 	for i := uint64(0); i < kernels; i++ {
-		if err := t.Kernels[i].Read(r); err != nil {
+		var kernel TxKernel
+		if err := kernel.Read(r); err != nil {
 			return err
 		}
+		t.Kernels = append(t.Kernels, kernel)
 	}
 
 	// TODO: Check block weight.
-- 
2.43.0


From c5b421e1877b98d76ce849d44f0d9709eafd0fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:51 +0000
Subject: [PATCH 03/38] fix: reject range proofs that do not fill their stated
 length

The bytes left over were parsed as the next item, so the same bytes meant
something else to other implementations.
---
 consensus/block.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/consensus/block.go b/consensus/block.go
index b0f498b..88d5d11 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -614,8 +614,9 @@ func (o *Output) Read(r io.Reader) error {
 	}
 
 	proof := new(bulletproofs.BulletProof)
-	err := proof.Read(io.LimitReader(r, int64(proofLen)))
-	if err != nil {
+	proofReader := &io.LimitedReader{R: r, N: int64(proofLen)}
+	err := proof.Read(proofReader)
+	if err != nil || proofReader.N != 0 {
 		return errors.New("failed to deserialize range proof")
 	}
 	o.RangeProof = *proof
-- 
2.43.0


From 5f99609889c9760aa23e9dc6fdf06f99a3070573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:51 +0000
Subject: [PATCH 04/38] fix: verify the signature of every kernel in a block

Only coinbase kernels were verified, so that a block could carry transactions
nobody signed.
---
 consensus/block.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/consensus/block.go b/consensus/block.go
index 88d5d11..acd0123 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -288,11 +288,11 @@ func (b *Block) verifyKernels() error {
 			if coinbase > MaxBlockCoinbaseKernels {
 				return errors.New("invalid block with few coinbase kernels")
 			}
+		}
 
-			// Validate kernel
-			if err := kernel.Validate(); err != nil {
-				return err
-			}
+		// Validate kernel
+		if err := kernel.Validate(); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From 2450f700674920159aa583e369f9ba704bb67200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:52 +0000
Subject: [PATCH 05/38] fix: reject proofs of work that cannot be represented

Nonces are 32 bits wide: with larger graphs their high bits were dropped, as
were the padding bits at the end, and different messages decoded to one proof.
---
 consensus/proof.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/consensus/proof.go b/consensus/proof.go
index 2f76a9d..5c2e549 100644
--- a/consensus/proof.go
+++ b/consensus/proof.go
@@ -104,7 +104,8 @@ func (p *Proof) Read(r io.Reader) error {
 		return err
 	}
 
-	if p.EdgeBits == 0 || p.EdgeBits > 64 {
+	// The nonces are kept in 32 bits.
+	if p.EdgeBits == 0 || p.EdgeBits > 32 {
 		return fmt.Errorf("invalid cuckoo graph size: %d", p.EdgeBits)
 	}
 
@@ -135,6 +136,11 @@ func (p *Proof) Read(r io.Reader) error {
 		p.Nonces[i] = nonce
 	}
 
+	// The unused bits of the last byte must be zero.
+	if unused := uint(len(bitvec))*8 - bitvecLengthBits; unused != 0 && bitvec[len(bitvec)-1]>>(8-unused) != 0 {
+		return errors.New("invalid padding of proof nonces")
+	}
+
 	return nil
 }
 
-- 
2.43.0


From b7ecc506a748788ad530bff3c93395edcb52fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:53 +0000
Subject: [PATCH 06/38] fix: require a proof of work to be a cycle of ProofSize
 edges

The verifier accepts any cycle as long as the number of nonces it is given, and
short cycles are easy to find.
---
 consensus/proof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/consensus/proof.go b/consensus/proof.go
index 5c2e549..856b01f 100644
--- a/consensus/proof.go
+++ b/consensus/proof.go
@@ -32,6 +32,10 @@ var (
 func (p *Proof) Validate(header *BlockHeader, cuckooSize uint8) error {
 	logrus.Infof("block POW validate for size %d", cuckooSize)
 
+	if len(header.POW.Nonces) != ProofSize {
+		return errInvalidPow
+	}
+
 	cuckoo := cuckoo.NewCuckaroo(header.bytesWithoutPOW())
 	if cuckoo.Verify(header.POW.Nonces, header.POW.EdgeBits) {
 		return nil
-- 
2.43.0


From eb561b58f04b06b7ff110f2c7c4cdfa3048f20db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:53 +0000
Subject: [PATCH 07/38] fix: reject block timestamps out of range

A timestamp close to the largest one wrapped around to the far past, and so
passed for a time that is not in the future. Use the same range as Grin.
---
 consensus/block.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/consensus/block.go b/consensus/block.go
index acd0123..df44c3d 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -786,6 +786,12 @@ func (m TxKernelList) Swap(i, j int) {
 	m[i], m[j] = m[j], m[i]
 }
 
+// Range of valid block timestamps in seconds: years -262144 to 262143.
+const (
+	minTimestamp int64 = -8334632851200
+	maxTimestamp int64 = 8210298412799
+)
+
 // BlockHeader header of the grin-blocks
 type BlockHeader struct {
 	// Version of the block
@@ -945,7 +951,9 @@ func (b *BlockHeader) Read(r io.Reader) error {
 		return err
 	}
 
-	// FIXME: Check timestamp is in correct range.
+	if ts < minTimestamp || ts > maxTimestamp {
+		return fmt.Errorf("invalid block timestamp: %d", ts)
+	}
 	b.Timestamp = time.Unix(ts, 0).UTC()
 
 	// Read prev blockhash
-- 
2.43.0


From cd40cc366d9bb0a1571574a774bd85e30a84cae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:54 +0000
Subject: [PATCH 08/38] fix: difficulty of a hash that starts with 64 zero bits

It divided by zero.
---
 consensus/difficulty.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index bd545ad..8f88cb1 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -31,6 +31,9 @@ func (d Difficulty) FromHash(hash Hash) Difficulty {
 
 	// Use the first 64 bits of the given hash
 	num := binary.BigEndian.Uint64(hash[:8])
+	if num == 0 {
+		num = 1
+	}
 
 	return Difficulty(maxTarget / num)
 }
-- 
2.43.0


From 159698decb36849d72a57349eb2d232e5bc8aaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:55 +0000
Subject: [PATCH 09/38] fix: make the difficulty follow the block times

The time span was in nanoseconds and its bounds in seconds, and the lower bound
was as high as the upper: the result was half the average whatever the block
times. With more blocks than the window needs it was the minimum.
---
 consensus/consensus.go  | 2 +-
 consensus/difficulty.go | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/consensus/consensus.go b/consensus/consensus.go
index 9cf9d3e..9be3713 100644
--- a/consensus/consensus.go
+++ b/consensus/consensus.go
@@ -109,5 +109,5 @@ const (
 	UpperTimeBound time.Duration = BlockTimeWindow * 2
 
 	// Minimum size time window used for difficulty adjustments
-	LowerTimeBound time.Duration = BlockTimeWindow * 2
+	LowerTimeBound time.Duration = BlockTimeWindow / 2
 )
diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index 8f88cb1..c17c6c4 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -79,8 +79,6 @@ func NextDifficulty(blist BlockList) Difficulty {
 		} else {
 			if i < DifficultyAdjustWindow+MedianTimeWindow {
 				windowEnd = append(windowEnd, blist[i].Header.Timestamp)
-			} else {
-				break
 			}
 		}
 	}
@@ -103,7 +101,7 @@ func NextDifficulty(blist BlockList) Difficulty {
 
 	// Average difficulty and dampened average time
 	diffAvg := sumDiff / MinimumDifficulty.FromNum(uint64(DifficultyAdjustWindow))
-	ts := (3*BlockTimeWindow + beginTime.Sub(endTime)) / 4
+	ts := (3*BlockTimeWindow + beginTime.Sub(endTime)/time.Second) / 4
 
 	// Apply time bounds
 	if ts < LowerTimeBound {
-- 
2.43.0


From a686d31ff463ebc6b18d2b6df4e2fa44b0c25133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:54 +0000
Subject: [PATCH 10/38] fix: bound the lengths of strings read from peers

A peer picked the length of the buffer to allocate: a length close to 2^64
panicked, and a smaller one could exhaust the memory.
---
 consensus/network.go |  3 +++
 p2p/handshake.go     | 12 ++++++------
 p2p/helpers.go       | 13 +++++++++++++
 p2p/messages.go      |  6 +++---
 4 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/consensus/network.go b/consensus/network.go
index 233ae4c..cce1234 100644
--- a/consensus/network.go
+++ b/consensus/network.go
@@ -74,6 +74,9 @@ const (
 
 	// Maximum number of peer addresses a peer should ever send
 	MaxPeerAddrs = 256
+
+	// Maximum length of a string a peer should ever send
+	MaxStringLen = 100000
 )
 
 // Protocol defines grin-node network communicates
diff --git a/p2p/handshake.go b/p2p/handshake.go
index b6f9acc..2ec992e 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -123,12 +123,12 @@ func (h *hand) Read(r io.Reader) error {
 		return err
 	}
 
-	buff := make([]byte, userAgentLen)
-	if _, err := io.ReadFull(r, buff); err != nil {
+	userAgent, err := readString(r, userAgentLen)
+	if err != nil {
 		return err
 	}
 
-	h.UserAgent = string(buff)
+	h.UserAgent = userAgent
 
 	genesisBuf := make([]byte, 32)
 	if _, err := io.ReadFull(r, genesisBuf); err != nil {
@@ -210,12 +210,12 @@ func (h *shake) Read(r io.Reader) error {
 		return err
 	}
 
-	buff := make([]byte, userAgentLen)
-	if _, err := io.ReadFull(r, buff); err != nil {
+	userAgent, err := readString(r, userAgentLen)
+	if err != nil {
 		return err
 	}
 
-	h.UserAgent = string(buff)
+	h.UserAgent = userAgent
 
 	genesisBuf := make([]byte, 32)
 	if _, err := io.ReadFull(r, genesisBuf); err != nil {
diff --git a/p2p/helpers.go b/p2p/helpers.go
index 51e850f..b3f6164 100644
--- a/p2p/helpers.go
+++ b/p2p/helpers.go
@@ -7,11 +7,24 @@ package p2p
 import (
 	"encoding/binary"
 	"fmt"
+	"github.com/dblokhin/gringo/consensus"
 	"github.com/sirupsen/logrus"
 	"io"
 	"net"
 )
 
+// readString reads a string of the length stated by the peer
+func readString(r io.Reader, length uint64) (string, error) {
+	if length > consensus.MaxStringLen {
+		return "", fmt.Errorf("too long string: %d", length)
+	}
+
+	buff := make([]byte, length)
+	_, err := io.ReadFull(r, buff)
+
+	return string(buff), err
+}
+
 // serializeTCPAddr helps to serialize net.TCPAddr
 func serializeTCPAddr(buff io.Writer, addr *net.TCPAddr) {
 	IP := addr.IP.To4()
diff --git a/p2p/messages.go b/p2p/messages.go
index 62a2d90..6b6aab3 100644
--- a/p2p/messages.go
+++ b/p2p/messages.go
@@ -207,12 +207,12 @@ func (p *PeerError) Read(r io.Reader) error {
 		return err
 	}
 
-	buff := make([]byte, messageLen)
-	if _, err := io.ReadFull(r, buff); err != nil {
+	message, err := readString(r, messageLen)
+	if err != nil {
 		return err
 	}
 
-	p.Message = string(buff)
+	p.Message = message
 	return nil
 }
 
-- 
2.43.0


From 00e5b26dd84f3f135f245d31170c13810bfee9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:55 +0000
Subject: [PATCH 11/38] fix: (de)serialisation of IPv6 addresses

Only the first 8 bytes were written, and reading always failed, which dropped
any peer that sent such an address.
---
 p2p/helpers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/helpers.go b/p2p/helpers.go
index b3f6164..15ea88d 100644
--- a/p2p/helpers.go
+++ b/p2p/helpers.go
@@ -49,7 +49,7 @@ func serializeTCPAddr(buff io.Writer, addr *net.TCPAddr) {
 				logrus.Fatal(err)
 			}
 
-			for i := 0; i < 8; i += 2 {
+			for i := 0; i < net.IPv6len; i += 2 {
 				segment := (uint16(IP[i]) << 8) + uint16(IP[i+1])
 
 				if err := binary.Write(buff, binary.BigEndian, segment); err != nil {
@@ -86,10 +86,10 @@ func deserializeTCPAddr(r io.Reader) (*net.TCPAddr, error) {
 	case 1: // for ipv6 addr
 		ipAddr = make([]byte, net.IPv6len)
 
-		for i := 0; i < 8; i += 2 {
+		for i := 0; i < net.IPv6len; i += 2 {
 			var segment uint16
 
-			if err := binary.Read(r, binary.BigEndian, segment); err != nil {
+			if err := binary.Read(r, binary.BigEndian, &segment); err != nil {
 				return nil, err
 			}
 
-- 
2.43.0


From febb6cc6dc61e2b4a9c9744e1a86e83a0f67262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:56 +0000
Subject: [PATCH 12/38] fix: only shake hands with peers on the same chain

The shake left out our genesis hash, so that no peer could read it, and the one
received was never compared with ours.
---
 p2p/handshake.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index 2ec992e..0a85470 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -260,6 +260,11 @@ func shakeByHand(conn net.Conn) (*shake, error) {
 		return nil, err
 	}
 
+	// Only connect to peers on the same chain
+	if !bytes.Equal(sh.Genesis, chain.Testnet4.Hash()) {
+		return nil, errors.New("peer is on another chain")
+	}
+
 	return sh, nil
 }
 
@@ -278,12 +283,18 @@ func handByShake(conn net.Conn) (*hand, error) {
 		return &h, errors.New("detect connection to ourselves by nonce")
 	}
 
+	// Only connect to peers on the same chain
+	if !bytes.Equal(h.Genesis, chain.Testnet4.Hash()) {
+		return nil, errors.New("peer is on another chain")
+	}
+
 	// Send shake
 	msg := shake{
 		Version:         consensus.ProtocolVersion,
 		Capabilities:    consensus.CapFullNode,
 		TotalDifficulty: consensus.Difficulty(1),
 		UserAgent:       userAgent,
+		Genesis:         chain.Testnet4.Hash(),
 	}
 	if _, err := WriteMessage(conn, &msg); err != nil {
 		return nil, err
-- 
2.43.0


From 5e85553ca33200ec82803e17c367c5a491b850f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:56 +0000
Subject: [PATCH 13/38] fix: consume the whole message in ReadMessage

When a message said it was longer than what its type takes, the rest was left
in the stream and taken for the next message.
---
 p2p/protocol.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/p2p/protocol.go b/p2p/protocol.go
index ba25bf0..e967a20 100644
--- a/p2p/protocol.go
+++ b/p2p/protocol.go
@@ -9,6 +9,7 @@ import (
 	"errors"
 	"github.com/dblokhin/gringo/consensus"
 	"io"
+	"io/ioutil"
 )
 
 const (
@@ -71,5 +72,11 @@ func ReadMessage(r io.Reader, msg Message) (uint64, error) {
 	}
 
 	rb := io.LimitReader(r, int64(header.Len))
-	return uint64(consensus.HeaderLen) + uint64(header.Len), msg.Read(rb)
+	if err := msg.Read(rb); err != nil {
+		return uint64(consensus.HeaderLen) + uint64(header.Len), err
+	}
+
+	// skip what the message didn't take
+	_, err := io.Copy(ioutil.Discard, rb)
+	return uint64(consensus.HeaderLen) + uint64(header.Len), err
 }
-- 
2.43.0


From f8aef6dcb64a18677c54f9bff30af13c2e1a940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:57 +0000
Subject: [PATCH 14/38] fix: close the connection when the handshake fails or
 takes too long

The connections leaked, and a peer that never answered blocked the pool from
connecting to any other one.
---
 p2p/peer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index cf56a0b..41637f2 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -16,8 +16,12 @@ import (
 	"net"
 	"sync"
 	"sync/atomic"
+	"time"
 )
 
+// handshakeTimeout is how long a peer may take to shake hands
+const handshakeTimeout = 10 * time.Second
+
 // Peer is a participant of p2p network
 type Peer struct {
 	conn net.Conn
@@ -71,10 +75,13 @@ func NewPeer(sync *Syncer, addr string) (*Peer, error) {
 	}
 
 	logrus.Infof("connected to peer (%s)", addr)
+	conn.SetDeadline(time.Now().Add(handshakeTimeout))
 	shake, err := shakeByHand(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
+	conn.SetDeadline(time.Time{})
 
 	p := new(Peer)
 	p.conn = conn
@@ -97,10 +104,13 @@ func NewPeer(sync *Syncer, addr string) (*Peer, error) {
 func AcceptNewPeer(conn net.Conn) (*Peer, error) {
 
 	logrus.Info("accept new peer")
+	conn.SetDeadline(time.Now().Add(handshakeTimeout))
 	hand, err := handByShake(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
+	conn.SetDeadline(time.Time{})
 
 	p := new(Peer)
 	p.conn = conn
-- 
2.43.0


From 15f355bdec6f66cf12e67f5464166c16d3318f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:06 +0000
Subject: [PATCH 15/38] fix: make signatures that can be decoded

A serialised signature has only the X coordinate of R, and decoding takes the Y
that is a quadratic residue. Signing left Y as it came, so that every second
signature didn't verify after a round trip.
---
 secp256k1zkp/schnorr.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index 046b115..563417b 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -79,6 +79,13 @@ func SignMessage(publicKey Point, privateKey big.Int, message [32]byte) Signatur
 	// R is the public key for k.
 	R := ScalarMulPoint(&G, k)
 
+	// Only the X coordinate of R is serialised, Y is implied to be a quadratic
+	// residue.
+	if !IsQuadraticResidue(R.Y) {
+		k = Neg(k)
+		R = ScalarMulPoint(&G, k)
+	}
+
 	// Compute a non-interactive challenge.
 	Rx := GetB32(R.X)
 	compressedPubkey := CompressPubkey(publicKey)
-- 
2.43.0


From 7660ba2f25c90db878b71b983fe588e7c8f37494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:07 +0000
Subject: [PATCH 16/38] fix: compare both coordinates when verifying a
 signature

With only X compared, anybody could negate S of the signature made with the
negated nonce (N - S), giving a second valid signature.
---
 secp256k1zkp/schnorr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index 563417b..ad5b2c6 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -117,7 +117,7 @@ func VerifySignature(publicKey Point, message [32]byte, signature Signature) boo
 	lhs := ScalarMulPoint(&G, &signature.S)
 	rhs := SumPoints(&signature.R, ScalarMulPoint(&publicKey, e))
 
-	return lhs.X.Cmp(rhs.X) == 0
+	return lhs.Equals(rhs)
 }
 
 // CommitValue returns the Pedersen commitment to the value v with blinding
-- 
2.43.0


From 2800a0f9d5242cba78aaa1627d68289472617655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:08 +0000
Subject: [PATCH 17/38] fix: reject signatures of keys that are not on the
 curve

Decoding a point doesn't check that it is on the curve. The one with X = 0 has
order 3, so anybody could sign for it.
---
 secp256k1zkp/schnorr.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index ad5b2c6..8aa6e32 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -103,6 +103,10 @@ func SignMessage(publicKey Point, privateKey big.Int, message [32]byte) Signatur
 // VerifySignature returns true if the given signature was computed by signing
 // message with the private key for publicKey.
 func VerifySignature(publicKey Point, message [32]byte, signature Signature) bool {
+	if !IsOnCurve(publicKey) || !IsOnCurve(signature.R) {
+		return false
+	}
+
 	Rx := GetB32(signature.R.X)
 	compressedPubkey := CompressPubkey(publicKey)
 
@@ -141,6 +145,12 @@ func CompressPubkey(p Point) [33]byte {
 	return buf
 }
 
+// IsOnCurve returns true if the point is on the curve, which points read from
+// the wire may be not.
+func IsOnCurve(p Point) bool {
+	return p.X.Cmp(btcec.S256().P) < 0 && btcec.S256().IsOnCurve(p.X, p.Y)
+}
+
 // decompressPoint returns the y-coordinate for the given x coordinate.
 func decompressPoint(xBytes []byte) *big.Int {
 	x := new(big.Int).SetBytes(xBytes)
-- 
2.43.0


From 2f0651f762443cff7cf3f5c32ef40f566bfd2695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:09 +0000
Subject: [PATCH 18/38] fix: reject outputs with a commitment that is not on
 the curve

The range proof can be satisfied for a commitment of a small order that is not
on the curve.
---
 consensus/block.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/consensus/block.go b/consensus/block.go
index df44c3d..94ebbd1 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -326,6 +326,9 @@ func (b *Block) verifyRangeProofs() error {
 	// TODO(yoss22): Batch verify these.
 	prover := bulletproofs.NewProver(64)
 	for _, output := range b.Outputs {
+		if !secp256k1zkp.IsOnCurve(*output.Commit) {
+			return fmt.Errorf("invalid commitment %v", output.Commit)
+		}
 		if !prover.Verify(output.Commit, output.RangeProof) {
 			return fmt.Errorf("proof verification failed for %v %v",
 				output.Commit, output.RangeProof)
-- 
2.43.0


From e3fdd62ba762c9fbf6e2aff4fb205e53e9dd0a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:10 +0000
Subject: [PATCH 19/38] fix: reject proofs of work whose edges branch

A closed walk that passes a vertex more than once is not a cycle.
---
 cuckoo/cuckoo.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cuckoo/cuckoo.go b/cuckoo/cuckoo.go
index 347b5fb..971e699 100644
--- a/cuckoo/cuckoo.go
+++ b/cuckoo/cuckoo.go
@@ -25,6 +25,17 @@ func findCycleLength(edges []*Edge) int {
 	i := 0     // first node
 	cycle := 0 // the current length of the cycle
 
+	// A vertex of a cycle has exactly two edges, don't walk branches.
+	usesU, usesV := make(map[uint64]int), make(map[uint64]int)
+	for _, edge := range edges {
+		usesU[edge.U]++
+		usesV[edge.V]++
+
+		if usesU[edge.U] > 2 || usesV[edge.V] > 2 {
+			return 0
+		}
+	}
+
 loop:
 	for {
 		// If the current cycle length is even we need to look for an edge from
-- 
2.43.0


From 2c96d8548b02ee3d77f00611f2eea342a69d8795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 20/38] fix: complete the genesis headers

Without the previous root (and, in some, the kernel offset) serialising a
genesis block ended the process, and a peer may ask for it.
---
 chain/chain.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/chain/chain.go b/chain/chain.go
index 3758eb4..56f4eba 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -19,6 +19,7 @@ var Testnet1 = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp:       time.Date(2017, 11, 16, 20, 0, 0, 0, time.UTC),
 		TotalDifficulty: 10,
 
@@ -26,6 +27,8 @@ var Testnet1 = consensus.Block{
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+
 		Nonce: 28205,
 		POW: consensus.Proof{
 			Nonces: []uint32{
@@ -44,10 +47,11 @@ var Testnet1 = consensus.Block{
 // Testnet2 genesis block
 var Testnet2 = consensus.Block{
 	Header: consensus.BlockHeader{
-		Version:   1,
-		Height:    0,
-		Previous:  bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
-		Timestamp: time.Date(2017, 11, 16, 20, 0, 0, 0, time.UTC),
+		Version:      1,
+		Height:       0,
+		Previous:     bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot: bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
+		Timestamp:    time.Date(2017, 11, 16, 20, 0, 0, 0, time.UTC),
 		//Difficulty:      10,
 		//TotalDifficulty: 10,
 
@@ -55,6 +59,8 @@ var Testnet2 = consensus.Block{
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+
 		Nonce: 70081,
 		POW: consensus.Proof{
 			Nonces: []uint32{
@@ -79,6 +85,7 @@ var Testnet3 = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp:       time.Date(2018, 7, 8, 18, 0, 0, 0, time.UTC),
 		TotalDifficulty: TESTNET3_INITIAL_DIFFICULTY,
 
@@ -115,6 +122,7 @@ var Testnet4 = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp:       time.Date(2018, 10, 17, 20, 0, 0, 0, time.UTC),
 		TotalDifficulty: testnet4InitialDifficulty,
 
@@ -146,6 +154,7 @@ var Mainnet = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp:       time.Date(2018, 8, 14, 0, 0, 0, 0, time.UTC),
 		TotalDifficulty: 1000,
 
@@ -153,6 +162,8 @@ var Mainnet = consensus.Block{
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+
 		Nonce: 28205,
 		POW: consensus.Proof{
 			Nonces: []uint32{
-- 
2.43.0


From 95a938faa1ec819ab9abf9dc60dca161e33630e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:44 +0000
Subject: [PATCH 21/38] fix: don't take any block with the proof of work of the
 tip for the tip

The hash only covers the proof of work, so a forged block that carries the
nonces of the tip wasn't verified, and was passed on to other peers.
---
 chain/chain.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/chain/chain.go b/chain/chain.go
index 56f4eba..1bc637c 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -306,7 +306,7 @@ func (c *Chain) ProcessBlock(block *consensus.Block) error {
 	logrus.Infof("processing block (height: %d, totalDiff: %d)", block.Header.Height, block.Header.TotalDifficulty)
 
 	// quick check is it current tip
-	if bytes.Compare(c.head.Hash(), block.Hash()) == 0 {
+	if bytes.Compare(c.head.Hash(), block.Hash()) == 0 && sameBlock(c.head, block) {
 		// the block is exists
 		return nil
 	}
@@ -367,6 +367,27 @@ func (c *Chain) ProcessBlock(block *consensus.Block) error {
 	return nil
 }
 
+// sameBlock returns true if the blocks have the same contents, while the same
+// hash only says that they have the same proof of work.
+func sameBlock(a, b *consensus.Block) bool {
+	if len(a.Inputs) != len(b.Inputs) || len(a.Outputs) != len(b.Outputs) || len(a.Kernels) != len(b.Kernels) {
+		return false
+	}
+
+	same := bytes.Equal(a.Header.Bytes(), b.Header.Bytes())
+	for i := range a.Inputs {
+		same = same && bytes.Equal(a.Inputs[i].Bytes(), b.Inputs[i].Bytes())
+	}
+	for i := range a.Outputs {
+		same = same && bytes.Equal(a.Outputs[i].Bytes(), b.Outputs[i].Bytes())
+	}
+	for i := range a.Kernels {
+		same = same && bytes.Equal(a.Kernels[i].Bytes(), b.Kernels[i].Bytes())
+	}
+
+	return same
+}
+
 // Head returns lastest block in blockchain
 func (c *Chain) Head() consensus.Block {
 	return *c.head
-- 
2.43.0


From 2d7ec792ab99cef128611545469125dafde6c165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:45 +0000
Subject: [PATCH 22/38] fix: compute the difficulty from the ancestors, latest
 first

The storage returns blocks in ascending order while NextDifficulty takes them
from the latest one. Near the genesis the window went past the block itself.
---
 chain/chain.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/chain/chain.go b/chain/chain.go
index 1bc637c..0920142 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -350,6 +350,8 @@ func (c *Chain) ProcessBlock(block *consensus.Block) error {
 	fromHeight := uint64(0)
 	if block.Header.Height > uint64(limit) {
 		fromHeight = block.Header.Height - uint64(limit)
+	} else {
+		limit = int(block.Header.Height)
 	}
 
 	blockID := consensus.BlockID{
@@ -357,7 +359,14 @@ func (c *Chain) ProcessBlock(block *consensus.Block) error {
 		Height: &fromHeight,
 	}
 
-	diffAvg := consensus.NextDifficulty(c.storage.From(blockID, limit))
+	// from latest to oldest
+	ancestors := c.storage.From(blockID, limit)
+	window := make(consensus.BlockList, 0, len(ancestors))
+	for i := len(ancestors) - 1; i >= 0; i-- {
+		window = append(window, ancestors[i])
+	}
+
+	diffAvg := consensus.NextDifficulty(window)
 	if block.Header.Difficulty < diffAvg {
 		return errors.New("difficulty is too low")
 	}
-- 
2.43.0


From e4fe6023a9fde80a8dc42b227034f7da5e2ff018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 23/38] fix: report invalid blocks in Chain.Validate

It stopped with success at the first valid block, went on over the invalid
ones, left out the block after the genesis, and failed for the genesis alone.
---
 chain/chain.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/chain/chain.go b/chain/chain.go
index 0920142..3eb75ee 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -411,12 +411,16 @@ func (c *Chain) Validate() error {
 
 	// go from head to genesis
 	// TODO: MUST check all consensus rules
-	for bytes.Compare(block.Header.Previous, c.genesis.Hash()) != 0 {
-		err := block.Validate()
-		if err == nil {
+	for bytes.Compare(block.Hash(), c.genesis.Hash()) != 0 {
+		if err := block.Validate(); err != nil {
 			return err
 		}
 
+		// the genesis may be not in the storage
+		if bytes.Compare(block.Header.Previous, c.genesis.Hash()) == 0 {
+			break
+		}
+
 		if block = c.GetBlock(block.Header.Previous); block == nil {
 			return errors.New("invalid previous hash. blockchain integrity is broken")
 		}
-- 
2.43.0


From cd44b06a0ebb8a473dfd239bd663aa3e2786b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:31 +0000
Subject: [PATCH 24/38] fix: deadlock when a peer is closed from its own
 message handler

Disconnect waited for the handlers to finish, and the read handler gets there
itself when it bans the peer. WaitForDisconnect is there to wait.
---
 p2p/peer.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 41637f2..5f6f250 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -360,7 +360,6 @@ func (p *Peer) Disconnect(reason error) {
 
 	close(p.quit)
 	p.conn.Close()
-	p.wg.Wait()
 }
 
 // Close the connection to the remote peer
-- 
2.43.0


From 46b7fa5569217f856c809176673fb584aedc5a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:32 +0000
Subject: [PATCH 25/38] fix: banning of peers

The ban list was nil, so that banning a known peer panicked, as did banning one
that had never been connected. Nothing kept a banned peer from being added to
the table again.
---
 p2p/pool.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 27ceaa1..4b66826 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -30,6 +30,7 @@ func newPeersPool(sync *Syncer) *peersPool {
 		quit:           make(chan int),
 		PeersTable:     make(map[string]*peerInfo),
 		ConnectedPeers: make(map[string]*peerInfo),
+		BannedPeers:    make(map[string]struct{}),
 	}
 
 	return pp
@@ -59,8 +60,15 @@ type peersPool struct {
 
 // Ban closes connection & ban peer
 func (pp *peersPool) Ban(addr string) {
+	// Add to ban list
+	pp.bnmu.Lock()
+	pp.BannedPeers[addr] = struct{}{}
+	pp.bnmu.Unlock()
+
+	// Clear the peers table
 	pp.ptmu.Lock()
 	peerInfo, ok := pp.PeersTable[addr]
+	delete(pp.PeersTable, addr)
 	pp.ptmu.Unlock()
 
 	if !ok {
@@ -68,18 +76,14 @@ func (pp *peersPool) Ban(addr string) {
 	}
 
 	// Mark banned & Close connection
+	peerInfo.Lock()
 	peerInfo.Status = psBanned
-	peerInfo.Peer.Close()
+	peer := peerInfo.Peer
+	peerInfo.Unlock()
 
-	// Add to ban list
-	pp.bnmu.Lock()
-	pp.BannedPeers[addr] = struct{}{}
-	pp.bnmu.Unlock()
-
-	// Clear the peers table
-	pp.ptmu.Lock()
-	delete(pp.PeersTable, addr)
-	pp.ptmu.Unlock()
+	if peer != nil {
+		peer.Close()
+	}
 }
 
 // IsBan returns true if addr is banned
@@ -116,6 +120,11 @@ func (pp *peersPool) Add(addr string) {
 		return
 	}
 
+	// Don't add banned
+	if pp.IsBan(addr) {
+		return
+	}
+
 	// Checks for existing
 	if _, ok := pp.PeersTable[addr]; ok {
 		return
@@ -263,7 +272,9 @@ func (pp *peersPool) connectPeer(addr string) error {
 
 		// update peers & connected peers tables
 		peerInfo.Lock()
-		peerInfo.Status = psDisconnected
+		if peerInfo.Status != psBanned {
+			peerInfo.Status = psDisconnected
+		}
 		peerInfo.Unlock()
 
 		// clean connected peers
-- 
2.43.0


From b79f22aed99aad7995f6d55cd8e22c81a2615f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:32 +0000
Subject: [PATCH 26/38] fix: ban the address of the peer

The table of peers and the ban list are by the address that was dialed, which
may be a host name, not by the one it resolved to.
---
 p2p/sync.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index 284d6fd..3e74ef1 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -176,7 +176,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 	case *BlockHeaders:
 		if err := s.Chain.ProcessHeaders(msg.Headers); err != nil {
 			// ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 	case *GetBlock:
@@ -192,7 +192,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		if err := s.Chain.ProcessBlock(msg); err != nil {
 			logrus.Info(err)
 			// TODO: maybe smarter ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 		// update peer info
@@ -213,7 +213,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 	case *consensus.Transaction:
 		if err := s.Mempool.ProcessTx(msg); err != nil {
 			// ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 		// TODO: propagate tx?
-- 
2.43.0


From c7e568feb33b22bb8dcdcede589228ff27a9135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:33 +0000
Subject: [PATCH 27/38] fix: don't propagate invalid blocks

A block that got its sender banned was still passed on to the other peers.
---
 p2p/sync.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/sync.go b/p2p/sync.go
index 3e74ef1..590254e 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -193,6 +193,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 			logrus.Info(err)
 			// TODO: maybe smarter ban peer ?
 			s.Pool.Ban(peer.Addr)
+			return
 		}
 
 		// update peer info
-- 
2.43.0


From 950426114ae0d2f772ddda50fe96fd8c97c0fb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:34 +0000
Subject: [PATCH 28/38] fix: ignore messages of a peer that has just been
 banned

A message in flight found that the peer is not in the table any more, which
ended the process.
---
 p2p/sync.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index 590254e..5d51dad 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -104,8 +104,8 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 
 	peerInfo := s.Pool.PeerInfo(peer.Addr)
 	if peerInfo == nil {
-		// should never rich
-		logrus.Fatal("unexpected error")
+		// the peer has been banned meanwhile
+		return
 	}
 
 	switch msg := message.(type) {
-- 
2.43.0


From fbc1d2d8a4719234a048eeb735d9d5e026895a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:34 +0000
Subject: [PATCH 29/38] fix: ignore transactions when there is no mempool

cmd/node runs without one, where any transaction received crashed the node.
---
 p2p/sync.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/sync.go b/p2p/sync.go
index 5d51dad..3d97fa3 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -212,6 +212,10 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		}
 
 	case *consensus.Transaction:
+		if s.Mempool == nil {
+			return
+		}
+
 		if err := s.Mempool.ProcessTx(msg); err != nil {
 			// ban peer ?
 			s.Pool.Ban(peer.Addr)
-- 
2.43.0


From ab1762007a8382038234447b534dee1dc792d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:35 +0000
Subject: [PATCH 30/38] fix: release the connection slot when there is nobody
 to connect to

Every second with no peer to connect to took one slot for good, so that after
a while the pool didn't connect to anybody.
---
 p2p/pool.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 4b66826..79cb412 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -207,9 +207,8 @@ func (pp *peersPool) PropagateBlock(block *consensus.Block) {
 
 // connectPeer connects peer from peerTable
 func (pp *peersPool) connectPeer(addr string) error {
-	// for empty string nonerror exit
 	if len(addr) == 0 {
-		return nil
+		return errors.New("no peers to connect to")
 	}
 
 	if pp.connected > int32(maxOnlineConnections) {
@@ -228,8 +227,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 	defer peerInfo.Unlock()
 
 	if peerInfo.Status == psBanned || peerInfo.Status == psConnected {
-		logrus.Debug("dont connect to banned host (or already connected)")
-		return nil
+		return errors.New("dont connect to banned host (or already connected)")
 	}
 
 	peerConn, err := NewPeer(pp.sync, addr)
-- 
2.43.0


From f43640d3f1315d5319d6bf4ebfa612f4b75496d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:36 +0000
Subject: [PATCH 31/38] fix: stopping the pool with peers that were never
 connected

---
 p2p/pool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 79cb412..497824e 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -313,7 +313,9 @@ out:
 	for _, pi := range pp.PeersTable {
 		go func(peerInfo *peerInfo) {
 			peerInfo.Lock()
-			peerInfo.Peer.Close()
+			if peerInfo.Peer != nil {
+				peerInfo.Peer.Close()
+			}
 			peerInfo.Status = psDisconnected
 			peerInfo.Unlock()
 		}(pi)
-- 
2.43.0


From 82b71bd0c091da2c67866d3300f8de5d2ffcc26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:37 +0000
Subject: [PATCH 32/38] fix: limit of the peers table

---
 p2p/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 497824e..5baed6f 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -116,7 +116,7 @@ func (pp *peersPool) Add(addr string) {
 	defer pp.ptmu.Unlock()
 
 	// Don't add if big peer table
-	if len(pp.PeersTable) > maxPeersTableSize {
+	if len(pp.PeersTable) >= maxPeersTableSize {
 		return
 	}
 
-- 
2.43.0


From c934cb8b2e2c37e579c40dee6899b5004325a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:37 +0000
Subject: [PATCH 33/38] fix: don't send out peers without an IP

An address without a host (":13414") can't be serialised, which ended the
process when somebody asked for peers.
---
 p2p/pool.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/pool.go b/p2p/pool.go
index 5baed6f..5e1fd3f 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -161,6 +161,11 @@ func (pp *peersPool) Peers(capabilities consensus.Capabilities) *PeerAddrs {
 		}
 
 		if netAddr, err := net.ResolveTCPAddr("tcp", addr); err == nil {
+			// no host, it can't be sent out
+			if len(netAddr.IP) == 0 {
+				continue
+			}
+
 			addrs = append(addrs, netAddr)
 		} else {
 			logrus.Error(err)
-- 
2.43.0


From a9ba69738c39af3e43778dee47c378fca0488699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:38 +0000
Subject: [PATCH 34/38] fix: send the state of the chain in pings

The total difficulty and height were constants.
---
 p2p/peer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 5f6f250..8d0ebd3 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -378,8 +378,10 @@ func (p *Peer) SendPing() {
 	logrus.Infof("Sending Ping to %s", p.conn.RemoteAddr())
 
 	var request Ping
-	request.TotalDifficulty = consensus.Difficulty(1)
-	request.Height = 1
+	p.sync.Chain.RLock()
+	request.TotalDifficulty = p.sync.Chain.TotalDifficulty()
+	request.Height = p.sync.Chain.Height()
+	p.sync.Chain.RUnlock()
 
 	p.WriteMessage(&request)
 }
-- 
2.43.0


From 1fdfeae5a4cf1678a0f3b5d346d5580a8a3b33c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:38 +0000
Subject: [PATCH 35/38] fix: count the connections atomically

An update lost between goroutines could leave the pool thinking for good that
it has too many connections.
---
 p2p/pool.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 5e1fd3f..ef79e41 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -11,6 +11,7 @@ import (
 	"github.com/sirupsen/logrus"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -216,7 +217,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		return errors.New("no peers to connect to")
 	}
 
-	if pp.connected > int32(maxOnlineConnections) {
+	if atomic.LoadInt32(&pp.connected) > int32(maxOnlineConnections) {
 		return errors.New("too big online peers connections")
 	}
 
@@ -246,7 +247,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		return fmt.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)
 	}
 
-	pp.connected++
+	atomic.AddInt32(&pp.connected, 1)
 
 	// update peers table
 	peerInfo.Peer = peerConn
@@ -281,7 +282,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		peerInfo.Unlock()
 
 		// clean connected peers
-		pp.connected--
+		atomic.AddInt32(&pp.connected, -1)
 		pp.cpmu.Lock()
 		delete(pp.ConnectedPeers, addr)
 		pp.cpmu.Unlock()
-- 
2.43.0


From 763989a4700d37665f1e46c23cbfa83fe8778ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:09 +0000
Subject: [PATCH 36/38] fix: report messages cut short in ReadMessage

---
 p2p/protocol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p2p/protocol.go b/p2p/protocol.go
index e967a20..5b7507b 100644
--- a/p2p/protocol.go
+++ b/p2p/protocol.go
@@ -71,12 +71,12 @@ func ReadMessage(r io.Reader, msg Message) (uint64, error) {
 		return uint64(consensus.HeaderLen), errors.New("too big message size")
 	}
 
-	rb := io.LimitReader(r, int64(header.Len))
+	rb := &io.LimitedReader{R: r, N: int64(header.Len)}
 	if err := msg.Read(rb); err != nil {
 		return uint64(consensus.HeaderLen) + uint64(header.Len), err
 	}
 
 	// skip what the message didn't take
-	_, err := io.Copy(ioutil.Discard, rb)
+	_, err := io.CopyN(ioutil.Discard, rb, rb.N)
 	return uint64(consensus.HeaderLen) + uint64(header.Len), err
 }
-- 
2.43.0


From 1e4e50a63a3513e98af03968bf9d4e52beb24f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:27 +0000
Subject: [PATCH 37/38] fix: forget a connection before its peer may be
 connected again

The peer was marked disconnected first, so that it could be connected again
and lose its new entry among the connected peers, and get no blocks.
---
 p2p/pool.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index ef79e41..768bb4b 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -274,6 +274,12 @@ func (pp *peersPool) connectPeer(addr string) error {
 		peerConn.WaitForDisconnect()
 		logrus.Infof("closed peer connection (%s)", addr)
 
+		// clean connected peers, before the peer may be connected again
+		atomic.AddInt32(&pp.connected, -1)
+		pp.cpmu.Lock()
+		delete(pp.ConnectedPeers, addr)
+		pp.cpmu.Unlock()
+
 		// update peers & connected peers tables
 		peerInfo.Lock()
 		if peerInfo.Status != psBanned {
@@ -281,12 +287,6 @@ func (pp *peersPool) connectPeer(addr string) error {
 		}
 		peerInfo.Unlock()
 
-		// clean connected peers
-		atomic.AddInt32(&pp.connected, -1)
-		pp.cpmu.Lock()
-		delete(pp.ConnectedPeers, addr)
-		pp.cpmu.Unlock()
-
 		<-pp.pool
 	}()
 
-- 
2.43.0


From 1364a7a06871285f498abc5a3f0e46df6b5545ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:30 +0000
Subject: [PATCH 38/38] fix: forget the earlier addresses when reading a list
 of addresses

---
 p2p/messages.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/messages.go b/p2p/messages.go
index 6b6aab3..dbfd13d 100644
--- a/p2p/messages.go
+++ b/p2p/messages.go
@@ -263,6 +263,7 @@ func (p *PeerAddrs) Read(r io.Reader) error {
 		return errors.New("too big peer addrs count")
 	}
 
+	p.peers = nil
 	for i := uint32(0); i < peersCount; i++ {
 		addr, err := deserializeTCPAddr(r)
 		if err != nil {
-- 
2.43.0

