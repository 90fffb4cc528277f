From 36f87ff36640b71590247ae03d655e5a3e11f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:47 +0000
Subject: [PATCH 01/58] fix: MerkleBinaryTree.Add must grow the right subtree
 until it is full

The levels of the two subtrees are already equal when the right one holds
5..7 of 8 leaves, so the 8th leaf was put in a new root: the tree built with
Add had a root different from the tree built with NewMerkleBinaryTree.
---
 common/mbt/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/mbt/tree.go b/common/mbt/tree.go
index 6cda2e1..d67512e 100644
--- a/common/mbt/tree.go
+++ b/common/mbt/tree.go
@@ -82,7 +82,7 @@ func (n *node) add(h []byte) *node {
 		n.h = h
 		n.numOfLeaf = 1
 	} else {
-		if n.l != nil && n.l.level != n.r.level {
+		if n.l != nil && n.l.numOfLeaf != n.r.numOfLeaf {
 			n.r = n.r.add(h)
 			n.numOfLeaf++
 			n.h = n.hashFunc(n.l.h, n.r.h)
-- 
2.43.0


From 839ff4667eb1d43300a89226d9aa72b55bb17015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:30 +0000
Subject: [PATCH 02/58] fix: VerifyWithAccLength of an older accumulator must
 skip its empty roots

The depth of the node was counted as if every root existed, so a valid newer
witness was rejected (length 5, height 4). Witnesses that are too long or too
short for the node they name are rejected instead of panicking.
---
 common/mta/accumulator.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index 6e9222d..ac07ed3 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -411,7 +411,7 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 	}
 
 	height := GetHeightFromWitness(ws, accLength)
-	if height >= a.length {
+	if height < 0 || height >= a.length {
 		return errors.IllegalArgumentError.New("InvalidWitness newer node")
 	}
 	if a.length > accLength {
@@ -420,20 +420,18 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 		if err != nil {
 			return err
 		}
+		if len(ws) > len(nws) {
+			return errors.IllegalArgumentError.New("InvalidWitness too long")
+		}
 		for i, w := range ws {
 			nws[i] = w
 		}
 		return a.Verify(nws, h)
 	} else {
 		// acc: old, wit: new
-		depth := 0
-		for i := len(a.roots) - 1; i > 0; i-- {
-			bitFlag := int64(1) << uint(i)
-			if height < bitFlag {
-				depth = i
-				break
-			}
-			height -= bitFlag
+		depth := GetDepthByHeightAndAccLength(height, a.length)
+		if depth > len(ws) {
+			return errors.IllegalArgumentError.New("InvalidWitness too short")
 		}
 		return a.Verify(ws[:depth], h)
 	}
-- 
2.43.0


From f22ca4153858335fae49d749e42200474124a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:30 +0000
Subject: [PATCH 03/58] fix: the accumulator has no witness for an index
 outside of it

A negative index (a height not above the offset) got the witness of the first
node, and an index beyond accLength got a witness of the wrong depth.
---
 common/mta/accumulator.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/mta/accumulator.go b/common/mta/accumulator.go
index ac07ed3..fc470f7 100644
--- a/common/mta/accumulator.go
+++ b/common/mta/accumulator.go
@@ -347,7 +347,7 @@ func (a *Accumulator) AddData(d []byte) []Witness {
 }
 
 func (a *Accumulator) WitnessFor(idx int64) (w []Witness, err error) {
-	if idx >= a.length {
+	if idx < 0 || idx >= a.length {
 		return nil, errors.ErrNotFound
 	}
 	offset := len(a.roots)
@@ -371,6 +371,9 @@ func (a *Accumulator) WitnessFor(idx int64) (w []Witness, err error) {
 }
 
 func (a *Accumulator) WitnessForWithAccLength(idx, accLength int64) (w []Witness, err error) {
+	if idx >= accLength || accLength > a.length {
+		return nil, errors.ErrNotFound
+	}
 	if w, err = a.WitnessFor(idx); err != nil {
 		return nil, err
 	}
@@ -438,7 +441,7 @@ func (a *Accumulator) VerifyWithAccLength(ws []Witness, h []byte, accLength int6
 }
 
 func (a *Accumulator) GetNode(idx int64) (Node, error) {
-	if idx >= a.length {
+	if idx < 0 || idx >= a.length {
 		return nil, errors.ErrNotFound
 	}
 	offset := len(a.roots)
-- 
2.43.0


From a0fd65c1f564b142295ebc6f525580255543a891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:44 +0000
Subject: [PATCH 04/58] fix: badger bucket must keep empty values and report
 read errors

A stored empty value was read back as nil, so Has() denied the key, unlike the
other backends; and an error other than ErrKeyNotFound dereferenced a nil item.
---
 common/db/badger_db.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/db/badger_db.go b/common/db/badger_db.go
index 77185c1..392a171 100644
--- a/common/db/badger_db.go
+++ b/common/db/badger_db.go
@@ -74,9 +74,14 @@ func (bucket *badgerBucket) Get(key []byte) ([]byte, error) {
 			if err == badger.ErrKeyNotFound {
 				return nil
 			}
+			return err
 		}
-		value, err = item.ValueCopy(nil)
-		return err
+		v, err := item.ValueCopy(nil)
+		if err != nil {
+			return err
+		}
+		value = nonNilBytes(v)
+		return nil
 	})
 	return value, err
 }
-- 
2.43.0


From 20a0c962f7d8e095736025ab62195fba67945af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:56 +0000
Subject: [PATCH 05/58] fix: Link.result must release its lock

The deferred call locked the mutex again, so the second relay result
(in fact the end of the first one) blocked the sender loop for ever.
---
 common/link/link.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/link/link.go b/common/link/link.go
index 122fe69..09a3a37 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -454,7 +454,7 @@ func (l *Link) createRelayMessageItem() {
 
 func (l *Link) result(rr *types.RelayResult) error {
 	l.rmsMtx.Lock()
-	defer l.rmsMtx.Lock()
+	defer l.rmsMtx.Unlock()
 
 	switch rr.Err {
 	case BMVUnknown:
-- 
2.43.0


From c519929d151b8865c47751c3dc23c474cb613936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:56 +0000
Subject: [PATCH 06/58] fix: Link must know the size limit before it builds
 relay messages

The limit was set by the sender goroutine, so the receiver goroutine could
build with a limit of zero.
---
 common/link/link.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/link/link.go b/common/link/link.go
index 09a3a37..b2ce51b 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -98,6 +98,7 @@ func NewLink(cfg *chain.Config, r Receiver, l log.Logger) types.Link {
 
 func (l *Link) Start(sender types.Sender) error {
 	l.s = sender
+	l.limitSize = int64(l.s.TxSizeLimit()) - l.s.GetMarginForLimit()
 	errCh := make(chan error)
 	l.senderChannel(errCh)
 
@@ -148,7 +149,6 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 
 func (l *Link) senderChannel(errCh chan error) {
 	go func() {
-		l.limitSize = int64(l.s.TxSizeLimit()) - l.s.GetMarginForLimit()
 		scc, err := l.s.Start()
 
 		for {
-- 
2.43.0


From 5018ab5c5c53bbca50c35b69f90c74cf735775ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:06 +0000
Subject: [PATCH 07/58] fix: Link.Start must report the failures of its
 receiver and sender

A failure to start either of them, to build or to send a relay message was
dropped, and a closed channel made the loops spin on nil values.
---
 common/link/link.go | 83 ++++++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 39 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index b2ce51b..3a4798b 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -129,48 +129,48 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 	once := new(sync.Once)
 	go func() {
 		rsc, err := l.r.Start(bls)
-		for {
-			select {
-			case rs := <-rsc:
-				once.Do(func() {
-					err = l.checkStatus(bls)
-				})
+		if err != nil {
+			errCh <- err
+			return
+		}
+		for rs := range rsc {
+			once.Do(func() {
+				err = l.checkStatus(bls)
+			})
+			if err == nil {
 				l.rss = append(l.rss, rs)
-				l.BuildRelayMessage(bls)
+				err = l.BuildRelayMessage(bls)
+			}
+			if err != nil {
+				errCh <- err
+				return
 			}
 		}
-
-		select {
-		case errCh <- err:
-		default:
-		}
+		errCh <- errors.New("receiver stopped")
 	}()
 }
 
 func (l *Link) senderChannel(errCh chan error) {
 	go func() {
 		scc, err := l.s.Start()
-
-		for {
-			select {
-			case sc := <-scc:
-				switch t := sc.(type) {
-				case *types.RelayResult:
-					err := l.result(t)
-					errCh <- err
-				case *types.BMCLinkStatus:
-					l.clearRelayMessage(t)
-					l.clearReceiveStatus(t)
-				default:
-					//TODO exception
-				}
-			}
+		if err != nil {
+			errCh <- err
+			return
 		}
 
-		select {
-		case errCh <- err:
-		default:
+		for sc := range scc {
+			switch t := sc.(type) {
+			case *types.RelayResult:
+				err := l.result(t)
+				errCh <- err
+			case *types.BMCLinkStatus:
+				l.clearRelayMessage(t)
+				l.clearReceiveStatus(t)
+			default:
+				//TODO exception
+			}
 		}
+		errCh <- errors.New("sender stopped")
 	}()
 
 }
@@ -224,7 +224,7 @@ func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
 	}
 
 	if l.isOverLimit(l.rmi.size) {
-		l.sendRelayMessage(bls)
+		return l.sendRelayMessage(bls)
 	}
 
 	return nil
@@ -238,7 +238,9 @@ func (l *Link) sendRelayMessage(bls *types.BMCLinkStatus) error {
 
 	for _, rm := range rms {
 		l.rms = append(l.rms, rm)
-		l.s.Relay(rm)
+		if _, err = l.s.Relay(rm); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -287,7 +289,7 @@ func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
 		}
 	}
 	if l.rmi.size > 0 {
-		l.sendRelayMessage(bls)
+		return l.sendRelayMessage(bls)
 	}
 	return nil
 }
@@ -304,7 +306,9 @@ func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 			break
 		}
 		if l.isOverLimit(l.rmi.size) {
-			l.sendRelayMessage(bls)
+			if err := l.sendRelayMessage(bls); err != nil {
+				return err
+			}
 			if bu != nil || bu.ProofHeight() != 0 {
 				h := l.r.GetHeightForSeq(bls.RxSeq)
 				mh = h
@@ -416,9 +420,10 @@ func (l *Link) removeRelayMessage(id int) {
 
 func (l *Link) updateBlockProof(id int) error {
 	rm := l.searchRelayMessage(id)
-	l.buildProof(rm.bls, nil)
-	l.sendRelayMessage(rm.bls)
-	return nil
+	if err := l.buildProof(rm.bls, nil); err != nil {
+		return err
+	}
+	return l.sendRelayMessage(rm.bls)
 }
 
 func (l *Link) searchReceiveStatusForHeight(height int64) ReceiveStatus {
@@ -464,11 +469,11 @@ func (l *Link) result(rr *types.RelayResult) error {
 		if err != nil {
 			return err
 		}
-		l.BuildRelayMessage(bls)
+		return l.BuildRelayMessage(bls)
 	case BMVAlreadyVerified:
 		l.removeRelayMessage(rr.Id)
 	case BMVRevertInvalidBlockWitnessOld:
-		l.updateBlockProof(rr.Id)
+		return l.updateBlockProof(rr.Id)
 	default:
 		l.l.Panicf("fail to GetResult RelayMessage ID:%v ErrorCoder:%+v",
 			rr.Id, rr.Err)
-- 
2.43.0


From bfa3463bc04acfb2b7fbad7f69f12d650575606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:41 +0000
Subject: [PATCH 08/58] fix: guard the state of a Link by one lock and keep one
 status

The receiver loop and the sender loop worked on the queues at the same time,
and after a resynchronisation they went on from different statuses. Each relay
message keeps its own copy of the status instead of sharing it with the loop.
---
 common/link/link.go | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 3a4798b..d42840b 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -73,6 +73,8 @@ type Link struct {
 	rms       []*relayMessage
 	rss       []ReceiveStatus
 	rmi       *relayMessageItem
+	bls       *types.BMCLinkStatus //status expected once the relay messages sent so far are applied
+	checked   bool
 	limitSize int64
 	cfg       *chain.Config //TODO config refactoring
 
@@ -107,6 +109,9 @@ func (l *Link) Start(sender types.Sender) error {
 		return err
 	}
 
+	l.rmsMtx.Lock()
+	l.bls = copyStatus(bls)
+	l.rmsMtx.Unlock()
 	l.receiverChannel(bls, errCh)
 
 	for {
@@ -126,7 +131,6 @@ func (l *Link) Stop() {
 }
 
 func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
-	once := new(sync.Once)
 	go func() {
 		rsc, err := l.r.Start(bls)
 		if err != nil {
@@ -134,14 +138,7 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 			return
 		}
 		for rs := range rsc {
-			once.Do(func() {
-				err = l.checkStatus(bls)
-			})
-			if err == nil {
-				l.rss = append(l.rss, rs)
-				err = l.BuildRelayMessage(bls)
-			}
-			if err != nil {
+			if err = l.receive(rs); err != nil {
 				errCh <- err
 				return
 			}
@@ -150,6 +147,20 @@ func (l *Link) receiverChannel(bls *types.BMCLinkStatus, errCh chan error) {
 	}()
 }
 
+func (l *Link) receive(rs ReceiveStatus) error {
+	l.rmsMtx.Lock()
+	defer l.rmsMtx.Unlock()
+
+	if !l.checked {
+		l.checked = true
+		if err := l.checkStatus(l.bls); err != nil {
+			return err
+		}
+	}
+	l.rss = append(l.rss, rs)
+	return l.BuildRelayMessage(l.bls)
+}
+
 func (l *Link) senderChannel(errCh chan error) {
 	go func() {
 		scc, err := l.s.Start()
@@ -164,8 +175,10 @@ func (l *Link) senderChannel(errCh chan error) {
 				err := l.result(t)
 				errCh <- err
 			case *types.BMCLinkStatus:
+				l.rmsMtx.Lock()
 				l.clearRelayMessage(t)
 				l.clearReceiveStatus(t)
+				l.rmsMtx.Unlock()
 			default:
 				//TODO exception
 			}
@@ -388,7 +401,7 @@ func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, er
 
 		rm := &relayMessage{
 			id:       rand.Int(),
-			bls:      bls,
+			bls:      copyStatus(bls),
 			bpHeight: l.r.GetHeightForSeq(bls.RxSeq),
 			message:  m,
 			rmis:     rmi,
@@ -469,7 +482,8 @@ func (l *Link) result(rr *types.RelayResult) error {
 		if err != nil {
 			return err
 		}
-		return l.BuildRelayMessage(bls)
+		l.bls = copyStatus(bls)
+		return l.BuildRelayMessage(l.bls)
 	case BMVAlreadyVerified:
 		l.removeRelayMessage(rr.Id)
 	case BMVRevertInvalidBlockWitnessOld:
@@ -480,3 +494,8 @@ func (l *Link) result(rr *types.RelayResult) error {
 	}
 	return nil
 }
+
+func copyStatus(bls *types.BMCLinkStatus) *types.BMCLinkStatus {
+	c := *bls
+	return &c
+}
-- 
2.43.0


From f821a40b39619c0795253667ced0f02aba07c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:41 +0000
Subject: [PATCH 09/58] fix: Link must drop exactly the acknowledged relay
 messages and blocks

Only the first acknowledged entry was dropped by a status, an already verified
relay message was kept, and an unknown one crashed the link.
---
 common/link/link.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index d42840b..66ed09e 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -189,21 +189,23 @@ func (l *Link) senderChannel(errCh chan error) {
 }
 
 func (l *Link) clearRelayMessage(bls *types.BMCLinkStatus) {
-	for i, rm := range l.rms {
-		if rm.bls.Verifier.Height <= bls.Verifier.Height && rm.bls.RxSeq <= bls.RxSeq {
-			l.rms = l.rms[i+1:]
-			break
+	rms := make([]*relayMessage, 0)
+	for _, rm := range l.rms {
+		if rm.bls.Verifier.Height > bls.Verifier.Height || rm.bls.RxSeq > bls.RxSeq {
+			rms = append(rms, rm)
 		}
 	}
+	l.rms = rms
 }
 
 func (l *Link) clearReceiveStatus(bls *types.BMCLinkStatus) {
-	for i, rs := range l.rss {
-		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
-			l.rss = l.rss[i+1:]
-			break
+	rss := make([]ReceiveStatus, 0)
+	for _, rs := range l.rss {
+		if rs.Height() > bls.Verifier.Height || rs.Seq() > bls.RxSeq {
+			rss = append(rss, rs)
 		}
 	}
+	l.rss = rss
 }
 
 func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
@@ -418,17 +420,14 @@ func (l *Link) removeRelayMessage(id int) {
 	l.mtx.Lock()
 	defer l.mtx.Unlock()
 
-	index := 0
 	for i, rm := range l.rms {
 		if rm.id == id {
-			index = i
+			l.l.Debugf("remove relay message h:%d seq:%d", rm.BMCLinkStatus().Verifier.Height,
+				rm.BMCLinkStatus().RxSeq)
+			l.rms = append(l.rms[:i], l.rms[i+1:]...)
+			return
 		}
 	}
-
-	l.l.Debugf("remove relay message h:%d seq:%d", l.rms[index].BMCLinkStatus().Verifier.Height,
-		l.rms[index].BMCLinkStatus().RxSeq)
-	l.rms = l.rms[index:]
-
 }
 
 func (l *Link) updateBlockProof(id int) error {
-- 
2.43.0


From d01b367ef8e6a082e51aea06dad09601d348ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:27 +0000
Subject: [PATCH 10/58] fix: Link must prove all messages of a block within the
 size limit

A block update without one dereferenced nil, a missing proof looped for ever,
several partial proofs went into one relay message (receivers use the first
only), and a proof that does not fit next to the block update was added to it
all the same.
---
 common/link/link.go | 76 +++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 44 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 66ed09e..d709328 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -209,10 +209,6 @@ func (l *Link) clearReceiveStatus(bls *types.BMCLinkStatus) {
 }
 
 func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
-	if len(l.rmi.rmis) == 0 {
-		l.createRelayMessageItem()
-	}
-
 	//Get Block
 	bus, err := l.getHeader(bls)
 	if err != nil {
@@ -221,8 +217,7 @@ func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
 
 	if len(bus) != 0 {
 		for _, bu := range bus {
-			l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], bu)
-			l.rmi.size += bu.Len()
+			l.addRelayMessageItem(bu)
 			err := bu.UpdateBMCLinkStatus(bls)
 			if err != nil {
 				return err
@@ -290,8 +285,7 @@ func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
 			}
 
 			if mp.Len() != 0 || bls.RxSeq < mp.LastSeqNum() {
-				l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], mp)
-				l.rmi.size += mp.Len()
+				l.addRelayMessageItem(mp)
 			}
 			break
 		} else if h < bls.Verifier.Height {
@@ -314,39 +308,21 @@ func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 	if rs == nil {
 		return nil
 	}
-	var mh int64
-	for {
-		//TODO refactoring
-		if rs.Seq() <= bls.RxSeq {
-			break
-		}
-		if l.isOverLimit(l.rmi.size) {
-			if err := l.sendRelayMessage(bls); err != nil {
-				return err
-			}
-			if bu != nil || bu.ProofHeight() != 0 {
-				h := l.r.GetHeightForSeq(bls.RxSeq)
-				mh = h
-				if err := l.buildBlockProof(bls, mh); err != nil {
-					return err
-				}
-			}
-			if err := l.buildMessageProof(bls); err != nil {
+	for bls.RxSeq < rs.Seq() {
+		if bu == nil || bu.ProofHeight() == -1 {
+			if err := l.buildBlockProof(bls, l.r.GetHeightForSeq(bls.RxSeq+1)); err != nil {
 				return err
 			}
-		} else {
-			if bu == nil || bu.ProofHeight() == -1 {
-				h := l.r.GetHeightForSeq(bls.RxSeq)
-				mh = h
-				if mh != h {
-					if err := l.buildBlockProof(bls, mh); err != nil {
-						return err
-					}
-				}
-			}
-			if err := l.buildMessageProof(bls); err != nil {
+		}
+		if err := l.buildMessageProof(bls); err != nil {
+			return err
+		}
+		if bls.RxSeq < rs.Seq() {
+			//the rest of messages goes with the next relay message
+			if err := l.sendRelayMessage(bls); err != nil {
 				return err
 			}
+			bu = nil
 		}
 	}
 	return nil
@@ -366,14 +342,19 @@ func (l *Link) buildMessageProof(bls *types.BMCLinkStatus) error {
 	if err != nil {
 		return err
 	}
-	if mp != nil {
-		l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], mp)
-		l.rmi.size += mp.Len()
-		if err := mp.UpdateBMCLinkStatus(bls); err != nil {
+	if mp != nil && l.rmi.size > 0 && l.rmi.size+mp.Len() > l.limitSize {
+		if err = l.sendRelayMessage(bls); err != nil {
+			return err
+		}
+		if mp, err = l.r.BuildMessageProof(bls, l.limitSize); err != nil {
 			return err
 		}
 	}
-	return nil
+	if mp == nil || mp.LastSeqNum() <= bls.RxSeq {
+		return errors.Errorf("no message proof for height:%d seq:%d", bls.Verifier.Height, bls.RxSeq+1)
+	}
+	l.addRelayMessageItem(mp)
+	return mp.UpdateBMCLinkStatus(bls)
 }
 
 func (l *Link) buildBlockProof(bls *types.BMCLinkStatus, height int64) error {
@@ -383,8 +364,7 @@ func (l *Link) buildBlockProof(bls *types.BMCLinkStatus, height int64) error {
 	}
 
 	if bf != nil {
-		l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], bf)
-		l.rmi.size += bf.Len()
+		l.addRelayMessageItem(bf)
 		if err := bf.UpdateBMCLinkStatus(bls); err != nil {
 			return err
 		}
@@ -464,6 +444,14 @@ func (l *Link) isOverLimit(size int64) bool {
 	return false
 }
 
+func (l *Link) addRelayMessageItem(rmi RelayMessageItem) {
+	if len(l.rmi.rmis) == 0 {
+		l.createRelayMessageItem()
+	}
+	l.rmi.rmis[len(l.rmi.rmis)-1] = append(l.rmi.rmis[len(l.rmi.rmis)-1], rmi)
+	l.rmi.size += rmi.Len()
+}
+
 func (l *Link) createRelayMessageItem() {
 	l.rmi.rmis = append(l.rmi.rmis, make([]RelayMessageItem, 0))
 	l.rmi.size = 0
-- 
2.43.0


From f6e4280ed349874f0fc20c794ef1a7a3f2017081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:54 +0000
Subject: [PATCH 11/58] fix: Link must relay every block and message from the
 given status

It busy-looped while there was no block update, sent what was left of the
verified block only once at the start (and built it wrongly), which a
resynchronisation needs too, sent blocks before their messages were known,
and sent empty relay messages.
---
 common/link/link.go | 95 +++++++++++----------------------------------
 1 file changed, 22 insertions(+), 73 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index d709328..85f201d 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -74,7 +74,6 @@ type Link struct {
 	rss       []ReceiveStatus
 	rmi       *relayMessageItem
 	bls       *types.BMCLinkStatus //status expected once the relay messages sent so far are applied
-	checked   bool
 	limitSize int64
 	cfg       *chain.Config //TODO config refactoring
 
@@ -151,12 +150,6 @@ func (l *Link) receive(rs ReceiveStatus) error {
 	l.rmsMtx.Lock()
 	defer l.rmsMtx.Unlock()
 
-	if !l.checked {
-		l.checked = true
-		if err := l.checkStatus(l.bls); err != nil {
-			return err
-		}
-	}
 	l.rss = append(l.rss, rs)
 	return l.BuildRelayMessage(l.bls)
 }
@@ -209,14 +202,29 @@ func (l *Link) clearReceiveStatus(bls *types.BMCLinkStatus) {
 }
 
 func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
-	//Get Block
-	bus, err := l.getHeader(bls)
-	if err != nil {
+	//messages of the last verified block which are not delivered yet
+	if err := l.buildProof(bls, nil); err != nil {
+		return err
+	}
+	if err := l.sendRelayMessage(bls); err != nil {
 		return err
 	}
 
-	if len(bus) != 0 {
+	for {
+		//Get Block
+		bus, err := l.r.BuildBlockUpdate(bls, l.limitSize-l.rmi.size)
+		if err != nil {
+			return err
+		}
+		if len(bus) == 0 {
+			return nil
+		}
+
 		for _, bu := range bus {
+			if l.searchReceiveStatusForHeight(bu.TargetHeight()) == nil {
+				//its messages are not known yet, ReceiveStatus will follow
+				return nil
+			}
 			l.addRelayMessageItem(bu)
 			err := bu.UpdateBMCLinkStatus(bls)
 			if err != nil {
@@ -232,12 +240,6 @@ func (l *Link) BuildRelayMessage(bls *types.BMCLinkStatus) error {
 			}
 		}
 	}
-
-	if l.isOverLimit(l.rmi.size) {
-		return l.sendRelayMessage(bls)
-	}
-
-	return nil
 }
 
 func (l *Link) sendRelayMessage(bls *types.BMCLinkStatus) error {
@@ -255,54 +257,6 @@ func (l *Link) sendRelayMessage(bls *types.BMCLinkStatus) error {
 	return nil
 }
 
-func (l *Link) getHeader(bs *types.BMCLinkStatus) ([]BlockUpdate, error) {
-	for {
-		bus, err := l.r.BuildBlockUpdate(bs, l.limitSize-l.rmi.size)
-		if err != nil {
-			return nil, err
-		}
-		if len(bus) != 0 {
-			return bus, nil
-		}
-	}
-}
-
-func (l *Link) checkStatus(bls *types.BMCLinkStatus) error {
-	lastSeq := bls.RxSeq
-	for {
-		h := l.r.GetHeightForSeq(lastSeq)
-		if h == 0 {
-			break
-		}
-		if h == bls.Verifier.Height {
-			mp, err := l.r.BuildMessageProof(bls, l.limitSize-l.rmi.size)
-			if err != nil {
-				return err
-			}
-
-			if mp == nil {
-				break
-			}
-
-			if mp.Len() != 0 || bls.RxSeq < mp.LastSeqNum() {
-				l.addRelayMessageItem(mp)
-			}
-			break
-		} else if h < bls.Verifier.Height {
-			err := l.buildProof(bls, nil)
-			if err != nil {
-				return err
-			}
-		} else {
-			break
-		}
-	}
-	if l.rmi.size > 0 {
-		return l.sendRelayMessage(bls)
-	}
-	return nil
-}
-
 func (l *Link) buildProof(bls *types.BMCLinkStatus, bu BlockUpdate) error {
 	rs := l.getReceiveStatusForHeight(bls)
 	if rs == nil {
@@ -380,6 +334,9 @@ func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, er
 		if err != nil {
 			return nil, err
 		}
+		if len(m) == 0 {
+			continue
+		}
 
 		rm := &relayMessage{
 			id:       rand.Int(),
@@ -436,14 +393,6 @@ func (l *Link) searchRelayMessage(id int) *relayMessage {
 	return nil
 }
 
-func (l *Link) isOverLimit(size int64) bool {
-	if int64(l.s.TxSizeLimit()) < size {
-		l.createRelayMessageItem()
-		return true
-	}
-	return false
-}
-
 func (l *Link) addRelayMessageItem(rmi RelayMessageItem) {
 	if len(l.rmi.rmis) == 0 {
 		l.createRelayMessageItem()
-- 
2.43.0


From 753f48f0b901e7265988102a6f7e28ada237f8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:28 +0000
Subject: [PATCH 12/58] fix: Link must not send a relay message without items

---
 common/link/link.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/link/link.go b/common/link/link.go
index 85f201d..bdf16e3 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -330,6 +330,9 @@ func (l *Link) buildBlockProof(bls *types.BMCLinkStatus, height int64) error {
 func (l *Link) appendRelayMessage(bls *types.BMCLinkStatus) ([]*relayMessage, error) {
 	rms := make([]*relayMessage, 0)
 	for _, rmi := range l.rmi.rmis {
+		if len(rmi) == 0 {
+			continue
+		}
 		m, err := l.r.BuildRelayMessage(rmi)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 2e3b15c0dac2278df77f13d45f9dca8351f490c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:39 +0000
Subject: [PATCH 13/58] fix: receivers must keep blocks until they are
 delivered

---
 chain/ethbr/receiver.go     | 15 +++++++++------
 chain/icon/bridge/bridge.go | 15 +++++++++------
 chain/icon/btp2/btp2.go     | 16 +++++++++-------
 common/link/link.go         | 18 ++++++++++++++----
 common/link/type.go         |  1 +
 5 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 1862fab..cb28bf0 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -94,9 +94,11 @@ func (e *ethbr) GetStatus() (link.ReceiveStatus, error) {
 }
 
 func (e *ethbr) BuildBlockUpdate(bls *btpTypes.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
-	e.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
 	for _, rs := range e.rss {
+		if rs.Height() <= bls.Verifier.Height {
+			continue
+		}
 		bu := NewBlockUpdate(bls, rs.Height())
 		bus = append(bus, bu)
 	}
@@ -178,13 +180,14 @@ func (e *ethbr) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error)
 	return nil, nil
 }
 
-func (e *ethbr) updateReceiveStatus(bls *btpTypes.BMCLinkStatus) {
-	for i, rs := range e.rss {
-		if rs.Height() <= bls.Verifier.Height && rs.Seq() <= bls.RxSeq {
-			e.rss = e.rss[i+1:]
-			return
+func (e *ethbr) FinalizedStatus(bls *btpTypes.BMCLinkStatus) {
+	rss := make([]*receiveStatus, 0)
+	for _, rs := range e.rss {
+		if rs.Height() > bls.Verifier.Height || rs.Seq() > bls.RxSeq {
+			rss = append(rss, rs)
 		}
 	}
+	e.rss = rss
 }
 
 func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 10735e3..b5c96b0 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -129,9 +129,11 @@ func (b *bridge) GetHeightForSeq(seq int64) int64 {
 }
 
 func (b *bridge) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
-	b.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
 	for _, rs := range b.rss {
+		if rs.Height() <= bls.Verifier.Height {
+			continue
+		}
 		bu := NewBlockUpdate(bls, rs.Height())
 		bus = append(bus, bu)
 	}
@@ -261,13 +263,14 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 	}, scb, errCb)
 }
 
-func (b *bridge) updateReceiveStatus(bs *types.BMCLinkStatus) {
-	for i, rs := range b.rss {
-		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
-			b.rss = b.rss[i+1:]
-			return
+func (b *bridge) FinalizedStatus(bls *types.BMCLinkStatus) {
+	rss := make([]*receiveStatus, 0)
+	for _, rs := range b.rss {
+		if rs.Height() > bls.Verifier.Height || rs.Seq() > bls.RxSeq {
+			rss = append(rss, rs)
 		}
 	}
+	b.rss = rss
 }
 
 func (b *bridge) GetReceiveHeightForSequence(seq int64) *receiveStatus {
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index abc253c..f26918c 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -159,10 +159,11 @@ func (b *btp2) GetHeightForSeq(seq int64) int64 {
 }
 
 func (b *btp2) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
-	b.updateReceiveStatus(bls)
 	bus := make([]link.BlockUpdate, 0)
 	for _, rs := range b.rss {
-
+		if rs.Height() <= bls.Verifier.Height {
+			continue
+		}
 		h, p, err := b.getBtpHeader(rs.Height())
 		if err != nil {
 			return nil, err
@@ -242,13 +243,14 @@ func (b *btp2) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
 	return rb, nil
 }
 
-func (b *btp2) updateReceiveStatus(bs *types.BMCLinkStatus) {
-	for i, rs := range b.rss {
-		if rs.Height() <= bs.Verifier.Height && rs.Seq() <= bs.RxSeq {
-			b.rss = b.rss[i+1:]
-			return
+func (b *btp2) FinalizedStatus(bls *types.BMCLinkStatus) {
+	rss := make([]*receiveStatus, 0)
+	for _, rs := range b.rss {
+		if rs.Height() > bls.Verifier.Height || rs.Seq() > bls.RxSeq {
+			rss = append(rss, rs)
 		}
 	}
+	b.rss = rss
 }
 
 func (b *btp2) Monitoring(bs *types.BMCLinkStatus) error {
diff --git a/common/link/link.go b/common/link/link.go
index bdf16e3..5c6e048 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -168,10 +168,7 @@ func (l *Link) senderChannel(errCh chan error) {
 				err := l.result(t)
 				errCh <- err
 			case *types.BMCLinkStatus:
-				l.rmsMtx.Lock()
-				l.clearRelayMessage(t)
-				l.clearReceiveStatus(t)
-				l.rmsMtx.Unlock()
+				l.finalized(t)
 			default:
 				//TODO exception
 			}
@@ -181,6 +178,19 @@ func (l *Link) senderChannel(errCh chan error) {
 
 }
 
+func (l *Link) finalized(bls *types.BMCLinkStatus) {
+	l.rmsMtx.Lock()
+	defer l.rmsMtx.Unlock()
+
+	if l.bls != nil && (l.bls.Verifier.Height < bls.Verifier.Height || l.bls.RxSeq < bls.RxSeq) {
+		//someone else relayed
+		l.bls = copyStatus(bls)
+	}
+	l.clearRelayMessage(bls)
+	l.clearReceiveStatus(bls)
+	l.r.FinalizedStatus(bls)
+}
+
 func (l *Link) clearRelayMessage(bls *types.BMCLinkStatus) {
 	rms := make([]*relayMessage, 0)
 	for _, rm := range l.rms {
diff --git a/common/link/type.go b/common/link/type.go
index a939b20..3fc2140 100644
--- a/common/link/type.go
+++ b/common/link/type.go
@@ -64,5 +64,6 @@ type Receiver interface {
 	BuildBlockProof(bls *types.BMCLinkStatus, height int64) (BlockProof, error)
 	BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (MessageProof, error)
 	GetHeightForSeq(seq int64) int64
+	FinalizedStatus(bls *types.BMCLinkStatus)
 	BuildRelayMessage(rmis []RelayMessageItem) ([]byte, error)
 }
-- 
2.43.0


From f4c210e59bde4d152f146e943b5fd960d414f12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:12 +0000
Subject: [PATCH 14/58] fix: a block update must not turn the sequence of the
 status back

---
 chain/ethbr/message.go       | 6 ++++++
 chain/icon/bridge/message.go | 6 ++++++
 chain/icon/btp2/message.go   | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/chain/ethbr/message.go b/chain/ethbr/message.go
index db27c9f..90a4668 100644
--- a/chain/ethbr/message.go
+++ b/chain/ethbr/message.go
@@ -48,6 +48,12 @@ func (c *blockUpdate) TargetHeight() int64 {
 	return c.targetHeight
 }
 
+// UpdateBMCLinkStatus moves only the height, a block update delivers no message
+func (c *blockUpdate) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.nextBls.Verifier.Height
+	return nil
+}
+
 type blockProof struct {
 	relayMessageItem
 	ph int64
diff --git a/chain/icon/bridge/message.go b/chain/icon/bridge/message.go
index b277918..2966d6d 100644
--- a/chain/icon/bridge/message.go
+++ b/chain/icon/bridge/message.go
@@ -67,6 +67,12 @@ func (c *blockUpdate) TargetHeight() int64 {
 	return c.targetHeight
 }
 
+// UpdateBMCLinkStatus moves only the height, a block update delivers no message
+func (c *blockUpdate) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.nextBls.Verifier.Height
+	return nil
+}
+
 type blockProof struct {
 	relayMessageItem
 	ph int64
diff --git a/chain/icon/btp2/message.go b/chain/icon/btp2/message.go
index fbda82f..503ac73 100644
--- a/chain/icon/btp2/message.go
+++ b/chain/icon/btp2/message.go
@@ -60,6 +60,12 @@ func (c *blockUpdate) TargetHeight() int64 {
 	return c.targetHeight
 }
 
+// UpdateBMCLinkStatus moves only the height, a block update delivers no message
+func (c *blockUpdate) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
+	bls.Verifier.Height = c.nextBls.Verifier.Height
+	return nil
+}
+
 func NewBlockUpdate(bs *types.BMCLinkStatus, targetHeight int64, v interface{}) *blockUpdate {
 	nextBls := &types.BMCLinkStatus{}
 	nextBls.Verifier.Height = targetHeight
-- 
2.43.0


From 48cdf96965e37b380e502d187a83632c39cce8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:14 +0000
Subject: [PATCH 15/58] fix: receivers must find the block of each sequence,
 not only of the last one

---
 chain/ethbr/receiver.go     | 10 +++++++++-
 chain/icon/bridge/bridge.go |  9 ++++++---
 chain/icon/btp2/btp2.go     |  6 +++++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index cb28bf0..10faa96 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -37,6 +37,14 @@ func (r *receiveStatus) Seq() int64 {
 	return r.seq
 }
 
+func (r *receiveStatus) messageCount() int64 {
+	cnt := 0
+	for _, rp := range r.rps {
+		cnt += len(rp.Events)
+	}
+	return int64(cnt)
+}
+
 func newReceiveStatus(height, seq int64, rps []*client.ReceiptProof) (*receiveStatus, error) {
 	return &receiveStatus{
 		height: height,
@@ -304,7 +312,7 @@ func (e *ethbr) newBlockUpdate(v *client.BlockNotification) (*client.BlockUpdate
 
 func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range e.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+		if seq <= rs.Seq() && seq > rs.Seq()-rs.messageCount() {
 			return rs
 		}
 	}
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index b5c96b0..9554fb0 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -29,6 +29,10 @@ func (r *receiveStatus) Seq() int64 {
 	return r.seq
 }
 
+func (r *receiveStatus) messageCount() int64 {
+	return int64(len(r.rp.Events))
+}
+
 func (r *receiveStatus) ReceiptProof() *ReceiptProof {
 	return r.rp
 }
@@ -46,7 +50,6 @@ type bridge struct {
 
 func newReceiveStatus(height, rxSeq int64, sn int64, msgs []string, next types.BtpAddress) (*receiveStatus, error) {
 	evts := make([]*Event, 0)
-	seq := sn
 	for _, msg := range msgs {
 		if sn > rxSeq {
 			evt, err := messageToEvent(next, msg, sn)
@@ -66,7 +69,7 @@ func newReceiveStatus(height, rxSeq int64, sn int64, msgs []string, next types.B
 
 	return &receiveStatus{
 		height: height,
-		seq:    seq,
+		seq:    sn - 1, //sequence of the last message
 		rp:     rp,
 	}, nil
 }
@@ -275,7 +278,7 @@ func (b *bridge) FinalizedStatus(bls *types.BMCLinkStatus) {
 
 func (b *bridge) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range b.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+		if seq <= rs.Seq() && seq > rs.Seq()-rs.messageCount() {
 			return rs
 		}
 	}
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index f26918c..e35df9a 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -29,6 +29,10 @@ func (r *receiveStatus) Seq() int64 {
 	return r.seq
 }
 
+func (r *receiveStatus) messageCount() int64 {
+	return int64(r.mt.Len())
+}
+
 func (r *receiveStatus) MerkleBinaryTree() *mbt.MerkleBinaryTree {
 	return r.mt
 }
@@ -317,7 +321,7 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 
 func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 	for _, rs := range b.rss {
-		if seq <= rs.Seq() && seq >= rs.Seq() {
+		if seq <= rs.Seq() && seq > rs.Seq()-rs.messageCount() {
 			return rs
 		}
 	}
-- 
2.43.0


From 5f0fe91717f98ac1b56ccfc96219f863cd290587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:29 +0000
Subject: [PATCH 16/58] fix: btp2 message proof must cover the undelivered
 messages within the limit

---
 chain/icon/btp2/btp2.go | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index e35df9a..9773e8e 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -200,29 +200,22 @@ func (b *btp2) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.Me
 		return nil, nil
 	}
 	messageCnt := int64(rs.MerkleBinaryTree().Len())
-	offset := bls.RxSeq - (rs.Seq() - messageCnt)
-	if (bls.RxSeq - rs.seq) == 0 {
+	firstSeq := rs.Seq() - messageCnt
+	offset := bls.RxSeq - firstSeq
+	if offset < 0 || offset >= messageCnt {
 		return nil, nil
 	}
-	if messageCnt > 0 {
-		for i := offset + 1; i < messageCnt; i++ {
-			p, err := rs.MerkleBinaryTree().Proof(int(offset+1), int(i))
-			if err != nil {
-				return nil, err
-			}
-
-			if limit < int64(len(codec.RLP.MustMarshalToBytes(p))) {
-				mp := NewMessageProof(bls, bls.RxSeq+i, *p)
-				return mp, nil
-			}
+	var mp *MessageProof
+	for i := offset + 1; i <= messageCnt; i++ {
+		p, err := rs.MerkleBinaryTree().Proof(int(offset+1), int(i))
+		if err != nil {
+			return nil, err
 		}
+		if mp != nil && limit < int64(len(codec.RLP.MustMarshalToBytes(p))) {
+			break
+		}
+		mp = NewMessageProof(bls, firstSeq+i, *p)
 	}
-
-	p, err := rs.MerkleBinaryTree().Proof(int(offset+1), int(messageCnt))
-	if err != nil {
-		return nil, err
-	}
-	mp := NewMessageProof(bls, bls.RxSeq+messageCnt, *p)
 	return mp, nil
 }
 
-- 
2.43.0


From a84e7c283c086cd52c72a13c3f608c0708091660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:31 +0000
Subject: [PATCH 17/58] fix: btp2 must relay the remaining messages of the last
 verified block

It monitored from the block after the last verified one and counted the
sequence from RxSeq, so the messages of a partially delivered block were
lost and the following ones got wrong sequences.
---
 chain/icon/btp2/btp2.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index 9773e8e..8fe6dbc 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -256,7 +256,7 @@ func (b *btp2) Monitoring(bs *types.BMCLinkStatus) error {
 	}
 
 	req := &client.BTPRequest{
-		Height:    client.NewHexInt(bs.Verifier.Height + 1),
+		Height:    client.NewHexInt(bs.Verifier.Height),
 		NetworkID: client.NewHexInt(b.nid),
 		ProofFlag: client.NewHexInt(0),
 	}
@@ -278,8 +278,9 @@ func (b *btp2) Monitoring(bs *types.BMCLinkStatus) error {
 }
 
 func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus, scb func(conn *websocket.Conn), errCb func(*websocket.Conn, error)) error {
-	if bs.RxSeq != 0 {
-		b.seq = bs.RxSeq
+	offset, err := b.c.GetBTPLinkOffset(b.src, b.dst)
+	if err != nil {
+		return err
 	}
 
 	return b.c.MonitorBTP(req, func(conn *websocket.Conn, v *client.BTPNotification) error {
@@ -298,7 +299,7 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 				return err
 			}
 
-			b.seq += int64(len(msgs))
+			b.seq = offset + bh.UpdateNumber>>1 + int64(len(msgs))
 			rs, err := newReceiveStatus(bh.MainHeight, b.seq, msgs)
 			if err != nil {
 				return err
-- 
2.43.0


From dab7b2d2c0de4474708bb4e1a1b43772b2725d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:53 +0000
Subject: [PATCH 18/58] fix: bridge message proof must cover the undelivered
 messages within the limit

---
 chain/icon/bridge/bridge.go | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 9554fb0..85f4cf6 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -3,7 +3,6 @@ package bridge
 import (
 	"encoding/base64"
 	"fmt"
-	"unsafe"
 
 	"github.com/gorilla/websocket"
 
@@ -148,32 +147,32 @@ func (b *bridge) BuildBlockProof(bls *types.BMCLinkStatus, height int64) (link.B
 }
 
 func (b *bridge) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.MessageProof, error) {
-	var rmSize int
 	rs := b.GetReceiveHeightForSequence(bls.RxSeq + 1)
 	if rs == nil {
 		return nil, nil
 	}
-	//offset := int64(rs.seq - bls.RxSeq)
-	messageCnt := len(rs.ReceiptProof().Events)
-	offset := bls.RxSeq - (rs.Seq() - int64(messageCnt))
 	trp := &ReceiptProof{
 		Index:  rs.ReceiptProof().Index,
 		Events: make([]*Event, 0),
 		Height: rs.Height(),
 	}
 
-	for i := offset; i < int64(messageCnt); i++ {
-		size := sizeOfEvent(rs.ReceiptProof().Events[i])
-		if limit < int64(rmSize+size) {
-			return NewMessageProof(bls, bls.RxSeq+i, trp)
+	var mp *MessageProof
+	for _, evt := range rs.ReceiptProof().Events {
+		if evt.Sequence <= bls.RxSeq {
+			continue
+		}
+		trp.Events = append(trp.Events, evt)
+		next, err := NewMessageProof(bls, evt.Sequence, trp)
+		if err != nil {
+			return nil, err
+		}
+		if mp != nil && limit < next.Len() {
+			break
 		}
-		trp.Events = append(trp.Events, rs.ReceiptProof().Events[i])
-		rmSize += size
+		mp = next
 	}
-
-	//last event
-	return NewMessageProof(bls, bls.RxSeq+int64(messageCnt), trp)
-
+	return mp, nil
 }
 
 func (b *bridge) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
@@ -296,10 +295,6 @@ func (b *bridge) setStartHeight() error {
 	return nil
 }
 
-func sizeOfEvent(rp *Event) int {
-	return int(unsafe.Sizeof(rp))
-}
-
 func messageToEvent(next types.BtpAddress, msg string, seq int64) (*Event, error) {
 	b, err := base64.StdEncoding.DecodeString(msg)
 	if err != nil {
-- 
2.43.0


From a2973ccac16105ba6fc5d4e1cdb4cea5add2e5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:53 +0000
Subject: [PATCH 19/58] fix: ethbr message proof must cover the undelivered
 messages within the limit

---
 chain/ethbr/message.go  |  3 +-
 chain/ethbr/receiver.go | 65 +++++++++++++++--------------------------
 2 files changed, 25 insertions(+), 43 deletions(-)

diff --git a/chain/ethbr/message.go b/chain/ethbr/message.go
index 90a4668..888c4e0 100644
--- a/chain/ethbr/message.go
+++ b/chain/ethbr/message.go
@@ -139,7 +139,8 @@ func NewMessageProof(bs *types.BMCLinkStatus, ls int64, rps []*client.ReceiptPro
 	}
 
 	return &MessageProof{
-		lastSeq: ls,
+		startSeq: bs.RxSeq,
+		lastSeq:  ls,
 		relayMessageItem: relayMessageItem{
 			it:      link.TypeMessageProof,
 			payload: b,
diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 10faa96..9da573c 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -7,7 +7,6 @@ import (
 	"io"
 	"math/big"
 	"sort"
-	"unsafe"
 
 	"github.com/ethereum/go-ethereum"
 	"github.com/ethereum/go-ethereum/common"
@@ -118,51 +117,37 @@ func (e *ethbr) BuildBlockProof(bls *btpTypes.BMCLinkStatus, height int64) (link
 }
 
 func (e *ethbr) BuildMessageProof(bls *btpTypes.BMCLinkStatus, limit int64) (link.MessageProof, error) {
-	var rmSize int
-	var seq int
-	rps := make([]*client.ReceiptProof, 0)
 	rs := e.GetReceiveHeightForSequence(bls.RxSeq + 1)
-	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 	if rs == nil {
 		return nil, nil
 	}
+	e.l.Debugf("OnBlockOfSrc rpsCnt:%d rxSeq:%d", len(rs.rps), rs.Seq())
 
-	rpsCnt := int64(len(rs.rps))
-	offset := bls.RxSeq - (rs.Seq() - rpsCnt)
-	if rpsCnt > 0 {
-		for i := offset; i < rpsCnt; i++ {
-			trp := &client.ReceiptProof{
-				Index:  rs.rps[i].Index,
-				Events: make([]*client.Event, 0),
-				Height: rs.rps[i].Height,
+	var mp *MessageProof
+	rps := make([]*client.ReceiptProof, 0)
+	for _, rp := range rs.rps {
+		trp := &client.ReceiptProof{
+			Index:  rp.Index,
+			Events: make([]*client.Event, 0),
+			Height: rp.Height,
+		}
+		rps = append(rps, trp)
+		for _, evt := range rp.Events {
+			if evt.Sequence.Int64() <= bls.RxSeq {
+				continue
 			}
-			rps = append(rps, trp)
-
-			for _, e := range rs.rps[i].Events {
-				size := sizeOfEvent(e)
-
-				if (int(limit) < rmSize+size) && rmSize > 0 {
-					return NewMessageProof(bls, bls.RxSeq+i, rps)
-				}
-				trp.Events = append(trp.Events, e)
-				seq += 1
-				rmSize += size
+			trp.Events = append(trp.Events, evt)
+			next, err := NewMessageProof(bls, evt.Sequence.Int64(), rps)
+			if err != nil {
+				return nil, err
 			}
-
-			//last event
-			if int(limit) < rmSize {
-				return NewMessageProof(bls, bls.RxSeq+i, rps)
-			}
-
-			//remove last receipt if empty
-			if len(trp.Events) == 0 {
-				rps = rps[:len(rps)-1]
+			if mp != nil && limit < next.Len() {
+				return mp, nil
 			}
+			mp = next
 		}
-
-		return NewMessageProof(bls, bls.RxSeq+int64(seq), rps)
 	}
-	return nil, nil
+	return mp, nil
 }
 
 func (e *ethbr) GetHeightForSeq(seq int64) int64 {
@@ -225,11 +210,11 @@ func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 			EpLoop:
 				for _, el := range v.Logs {
 					evt, err := logToEvent(&el)
-					e.l.Debugf("event[seq:%d next:%s] seq:%d dst:%s",
-						evt.Sequence, evt.Next, e.seq, e.dst.String())
 					if err != nil {
 						return err
 					}
+					e.l.Debugf("event[seq:%d next:%s] seq:%d dst:%s",
+						evt.Sequence, evt.Next, e.seq, e.dst.String())
 					if evt.Sequence.Int64() <= e.seq {
 						continue EpLoop
 					}
@@ -364,7 +349,3 @@ func logToEvent(el *types.Log) (*client.Event, error) {
 		Message:  bm.Msg,
 	}, nil
 }
-
-func sizeOfEvent(rp *client.Event) int {
-	return int(unsafe.Sizeof(rp))
-}
-- 
2.43.0


From 777df4afe2c8728ce8449de7184eee3cb4fa2b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:32 +0000
Subject: [PATCH 20/58] fix: a failure of monitoring must stop the receiver
 instead of skipping blocks

---
 chain/ethbr/receiver.go     | 14 ++++++++++++--
 chain/icon/bridge/bridge.go | 17 +++++++++++++++--
 chain/icon/btp2/btp2.go     | 17 +++++++++++++++--
 chain/icon/client/client.go | 12 +++++++++---
 4 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 9da573c..8b0cfbd 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"math/big"
 	"sort"
+	"sync"
 
 	"github.com/ethereum/go-ethereum"
 	"github.com/ethereum/go-ethereum/common"
@@ -70,6 +71,7 @@ type ethbr struct {
 	rss         []*receiveStatus
 	seq         int64
 	startHeight int64
+	stopOnce    sync.Once
 }
 
 func NewEthBridge(src, dst btpTypes.BtpAddress, endpoint string, l log.Logger) *ethbr {
@@ -86,17 +88,25 @@ func NewEthBridge(src, dst btpTypes.BtpAddress, endpoint string, l log.Logger) *
 
 func (e *ethbr) Start(bs *btpTypes.BMCLinkStatus) (<-chan link.ReceiveStatus, error) {
 	go func() {
-		e.Monitoring(bs)
+		if err := e.Monitoring(bs); err != nil {
+			e.l.Errorf("monitoring stopped err:%+v", err)
+		}
+		e.Stop()
 	}()
 
 	return e.rsc, nil
 }
 
 func (e *ethbr) Stop() {
-	close(e.rsc)
+	e.stopOnce.Do(func() {
+		close(e.rsc)
+	})
 }
 
 func (e *ethbr) GetStatus() (link.ReceiveStatus, error) {
+	if len(e.rss) == 0 {
+		return nil, fmt.Errorf("no block is received yet")
+	}
 	return e.rss[len(e.rss)-1], nil
 }
 
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index 85f4cf6..f3d2622 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -3,6 +3,7 @@ package bridge
 import (
 	"encoding/base64"
 	"fmt"
+	"sync"
 
 	"github.com/gorilla/websocket"
 
@@ -45,6 +46,7 @@ type bridge struct {
 	rsc         chan link.ReceiveStatus
 	rss         []*receiveStatus
 	startHeight int64
+	stopOnce    sync.Once
 }
 
 func newReceiveStatus(height, rxSeq int64, sn int64, msgs []string, next types.BtpAddress) (*receiveStatus, error) {
@@ -107,17 +109,25 @@ func (b *bridge) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, erro
 	}
 
 	go func() {
-		b.Monitoring(bs)
+		if err := b.Monitoring(bs); err != nil {
+			b.l.Errorf("monitoring stopped err:%+v", err)
+		}
+		b.Stop()
 	}()
 
 	return b.rsc, nil
 }
 
 func (b *bridge) Stop() {
-	close(b.rsc)
+	b.stopOnce.Do(func() {
+		close(b.rsc)
+	})
 }
 
 func (b *bridge) GetStatus() (link.ReceiveStatus, error) {
+	if len(b.rss) == 0 {
+		return nil, fmt.Errorf("no block is received yet")
+	}
 	return b.rss[len(b.rss)-1], nil
 }
 
@@ -291,6 +301,9 @@ func (b *bridge) setStartHeight() error {
 		return err
 	}
 	sh, err := ni.StartHeight.Value()
+	if err != nil {
+		return err
+	}
 	b.startHeight = sh + 1
 	return nil
 }
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index 8fe6dbc..86dc3ae 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -3,6 +3,7 @@ package btp2
 import (
 	"encoding/base64"
 	"fmt"
+	"sync"
 
 	"github.com/gorilla/websocket"
 
@@ -70,6 +71,7 @@ type btp2 struct {
 	rss         []*receiveStatus
 	seq         int64
 	startHeight int64
+	stopOnce    sync.Once
 }
 
 func NewBTP2(src, dst types.BtpAddress, endpoint string, l log.Logger) *btp2 {
@@ -139,17 +141,25 @@ func (b *btp2) Start(bs *types.BMCLinkStatus) (<-chan link.ReceiveStatus, error)
 	}
 
 	go func() {
-		b.Monitoring(bs)
+		if err := b.Monitoring(bs); err != nil {
+			b.l.Errorf("monitoring stopped err:%+v", err)
+		}
+		b.Stop()
 	}()
 
 	return b.rsc, nil
 }
 
 func (b *btp2) Stop() {
-	close(b.rsc)
+	b.stopOnce.Do(func() {
+		close(b.rsc)
+	})
 }
 
 func (b *btp2) GetStatus() (link.ReceiveStatus, error) {
+	if len(b.rss) == 0 {
+		return nil, fmt.Errorf("no block is received yet")
+	}
 	return b.rss[len(b.rss)-1], nil
 }
 
@@ -338,6 +348,9 @@ func (b *btp2) setStartHeight() error {
 		return err
 	}
 	sh, err := ni.StartHeight.Value()
+	if err != nil {
+		return err
+	}
 	b.startHeight = sh + 1
 	return nil
 }
diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index d68049d..8530107 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -315,11 +315,13 @@ func (c *Client) GetStatus(fromAddress string, src types.BtpAddress, dst types.B
 
 func (c *Client) MonitorBTP(p *BTPRequest, cb func(conn *websocket.Conn, v *BTPNotification) error, scb func(conn *websocket.Conn), errCb func(*websocket.Conn, error)) error {
 	resp := &BTPNotification{}
-	return c.Monitor("/btp", p, resp, func(conn *websocket.Conn, v interface{}) {
+	var cbErr error
+	err := c.Monitor("/btp", p, resp, func(conn *websocket.Conn, v interface{}) {
 		switch t := v.(type) {
 		case *BTPNotification:
-			if err := cb(conn, t); err != nil {
-				c.l.Debugf("MonitorBTP callback return err:%+v", err)
+			if cbErr = cb(conn, t); cbErr != nil {
+				c.l.Debugf("MonitorBTP callback return err:%+v", cbErr)
+				c.CloseMonitor(conn)
 			}
 		case WSEvent:
 			c.l.Debugf("MonitorBTP WSEvent %s %+v", conn.LocalAddr().String(), t)
@@ -335,6 +337,10 @@ func (c *Client) MonitorBTP(p *BTPRequest, cb func(conn *websocket.Conn, v *BTPN
 			errCb(conn, fmt.Errorf("not supported type %T", t))
 		}
 	})
+	if cbErr != nil {
+		return cbErr
+	}
+	return err
 }
 
 func (c *Client) MonitorBlock(p *BlockRequest, cb func(conn *websocket.Conn, v *BlockNotification) error, scb func(conn *websocket.Conn), errCb func(*websocket.Conn, error)) error {
-- 
2.43.0


From d9212a59381e8cab34f8b0f18bae287cf206cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:35 +0000
Subject: [PATCH 21/58] fix: guard the blocks of a receiver, they are used by
 several goroutines

---
 chain/ethbr/receiver.go     | 31 +++++++++++++++++++++++++------
 chain/icon/bridge/bridge.go | 29 ++++++++++++++++++++++++-----
 chain/icon/btp2/btp2.go     | 31 +++++++++++++++++++++++++------
 3 files changed, 74 insertions(+), 17 deletions(-)

diff --git a/chain/ethbr/receiver.go b/chain/ethbr/receiver.go
index 8b0cfbd..febf1c2 100644
--- a/chain/ethbr/receiver.go
+++ b/chain/ethbr/receiver.go
@@ -68,6 +68,7 @@ type ethbr struct {
 	c           *client.Client
 	nid         int64
 	rsc         chan link.ReceiveStatus
+	rssMtx      sync.RWMutex
 	rss         []*receiveStatus
 	seq         int64
 	startHeight int64
@@ -104,15 +105,16 @@ func (e *ethbr) Stop() {
 }
 
 func (e *ethbr) GetStatus() (link.ReceiveStatus, error) {
-	if len(e.rss) == 0 {
+	rss := e.receiveStatuses()
+	if len(rss) == 0 {
 		return nil, fmt.Errorf("no block is received yet")
 	}
-	return e.rss[len(e.rss)-1], nil
+	return rss[len(rss)-1], nil
 }
 
 func (e *ethbr) BuildBlockUpdate(bls *btpTypes.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range e.rss {
+	for _, rs := range e.receiveStatuses() {
 		if rs.Height() <= bls.Verifier.Height {
 			continue
 		}
@@ -183,7 +185,24 @@ func (e *ethbr) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error)
 	return nil, nil
 }
 
+func (e *ethbr) addReceiveStatus(rs *receiveStatus) {
+	e.rssMtx.Lock()
+	defer e.rssMtx.Unlock()
+
+	e.rss = append(e.rss, rs)
+}
+
+func (e *ethbr) receiveStatuses() []*receiveStatus {
+	e.rssMtx.RLock()
+	defer e.rssMtx.RUnlock()
+
+	return e.rss
+}
+
 func (e *ethbr) FinalizedStatus(bls *btpTypes.BMCLinkStatus) {
+	e.rssMtx.Lock()
+	defer e.rssMtx.Unlock()
+
 	rss := make([]*receiveStatus, 0)
 	for _, rs := range e.rss {
 		if rs.Height() > bls.Verifier.Height || rs.Seq() > bls.RxSeq {
@@ -257,7 +276,7 @@ func (e *ethbr) Monitoring(bs *btpTypes.BMCLinkStatus) error {
 						return err
 					}
 
-					e.rss = append(e.rss, rs)
+					e.addReceiveStatus(rs)
 					e.l.Debugf("monitor info : Height:%d  EventCnt:%d LastSeq:%d ",
 						v.Height.Int64(), len(rps[len(rps)-1].Events), e.seq)
 
@@ -306,7 +325,7 @@ func (e *ethbr) newBlockUpdate(v *client.BlockNotification) (*client.BlockUpdate
 }
 
 func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range e.rss {
+	for _, rs := range e.receiveStatuses() {
 		if seq <= rs.Seq() && seq > rs.Seq()-rs.messageCount() {
 			return rs
 		}
@@ -315,7 +334,7 @@ func (e *ethbr) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 }
 
 func (e *ethbr) GetReceiveHeightForHeight(height int64) *receiveStatus {
-	for _, rs := range e.rss {
+	for _, rs := range e.receiveStatuses() {
 		if rs.Height() == height {
 			return rs
 		}
diff --git a/chain/icon/bridge/bridge.go b/chain/icon/bridge/bridge.go
index f3d2622..5e3af47 100644
--- a/chain/icon/bridge/bridge.go
+++ b/chain/icon/bridge/bridge.go
@@ -44,6 +44,7 @@ type bridge struct {
 	c           *client.Client
 	nid         int64
 	rsc         chan link.ReceiveStatus
+	rssMtx      sync.RWMutex
 	rss         []*receiveStatus
 	startHeight int64
 	stopOnce    sync.Once
@@ -125,10 +126,11 @@ func (b *bridge) Stop() {
 }
 
 func (b *bridge) GetStatus() (link.ReceiveStatus, error) {
-	if len(b.rss) == 0 {
+	rss := b.receiveStatuses()
+	if len(rss) == 0 {
 		return nil, fmt.Errorf("no block is received yet")
 	}
-	return b.rss[len(b.rss)-1], nil
+	return rss[len(rss)-1], nil
 }
 
 func (b *bridge) GetHeightForSeq(seq int64) int64 {
@@ -142,7 +144,7 @@ func (b *bridge) GetHeightForSeq(seq int64) int64 {
 
 func (b *bridge) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		if rs.Height() <= bls.Verifier.Height {
 			continue
 		}
@@ -266,7 +268,7 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 			if err != nil {
 				return err
 			}
-			b.rss = append(b.rss, rs)
+			b.addReceiveStatus(rs)
 			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
 
 			b.rsc <- rs
@@ -275,7 +277,24 @@ func (b *bridge) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatu
 	}, scb, errCb)
 }
 
+func (b *bridge) addReceiveStatus(rs *receiveStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+
+	b.rss = append(b.rss, rs)
+}
+
+func (b *bridge) receiveStatuses() []*receiveStatus {
+	b.rssMtx.RLock()
+	defer b.rssMtx.RUnlock()
+
+	return b.rss
+}
+
 func (b *bridge) FinalizedStatus(bls *types.BMCLinkStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+
 	rss := make([]*receiveStatus, 0)
 	for _, rs := range b.rss {
 		if rs.Height() > bls.Verifier.Height || rs.Seq() > bls.RxSeq {
@@ -286,7 +305,7 @@ func (b *bridge) FinalizedStatus(bls *types.BMCLinkStatus) {
 }
 
 func (b *bridge) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		if seq <= rs.Seq() && seq > rs.Seq()-rs.messageCount() {
 			return rs
 		}
diff --git a/chain/icon/btp2/btp2.go b/chain/icon/btp2/btp2.go
index 86dc3ae..8532e9a 100644
--- a/chain/icon/btp2/btp2.go
+++ b/chain/icon/btp2/btp2.go
@@ -68,6 +68,7 @@ type btp2 struct {
 	c           *client.Client
 	nid         int64
 	rsc         chan link.ReceiveStatus
+	rssMtx      sync.RWMutex
 	rss         []*receiveStatus
 	seq         int64
 	startHeight int64
@@ -157,10 +158,11 @@ func (b *btp2) Stop() {
 }
 
 func (b *btp2) GetStatus() (link.ReceiveStatus, error) {
-	if len(b.rss) == 0 {
+	rss := b.receiveStatuses()
+	if len(rss) == 0 {
 		return nil, fmt.Errorf("no block is received yet")
 	}
-	return b.rss[len(b.rss)-1], nil
+	return rss[len(rss)-1], nil
 }
 
 func (b *btp2) GetHeightForSeq(seq int64) int64 {
@@ -174,7 +176,7 @@ func (b *btp2) GetHeightForSeq(seq int64) int64 {
 
 func (b *btp2) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
 	bus := make([]link.BlockUpdate, 0)
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		if rs.Height() <= bls.Verifier.Height {
 			continue
 		}
@@ -250,7 +252,24 @@ func (b *btp2) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
 	return rb, nil
 }
 
+func (b *btp2) addReceiveStatus(rs *receiveStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+
+	b.rss = append(b.rss, rs)
+}
+
+func (b *btp2) receiveStatuses() []*receiveStatus {
+	b.rssMtx.RLock()
+	defer b.rssMtx.RUnlock()
+
+	return b.rss
+}
+
 func (b *btp2) FinalizedStatus(bls *types.BMCLinkStatus) {
+	b.rssMtx.Lock()
+	defer b.rssMtx.Unlock()
+
 	rss := make([]*receiveStatus, 0)
 	for _, rs := range b.rss {
 		if rs.Height() > bls.Verifier.Height || rs.Seq() > bls.RxSeq {
@@ -315,7 +334,7 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 				return err
 			}
 
-			b.rss = append(b.rss, rs)
+			b.addReceiveStatus(rs)
 			b.l.Debugf("monitor info : Height:%d  UpdateNumber:%d  MessageCnt:%d ", bh.MainHeight, bh.UpdateNumber, len(msgs))
 			b.rsc <- rs
 		}
@@ -324,7 +343,7 @@ func (b *btp2) monitorBTP2Block(req *client.BTPRequest, bs *types.BMCLinkStatus,
 }
 
 func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		if seq <= rs.Seq() && seq > rs.Seq()-rs.messageCount() {
 			return rs
 		}
@@ -333,7 +352,7 @@ func (b *btp2) GetReceiveHeightForSequence(seq int64) *receiveStatus {
 }
 
 func (b *btp2) GetReceiveHeightForHeight(height int64) *receiveStatus {
-	for _, rs := range b.rss {
+	for _, rs := range b.receiveStatuses() {
 		if rs.Height() == height {
 			return rs
 		}
-- 
2.43.0


From b4a02711e9f1225c6f6daaf880238d15de5a3739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:55 +0000
Subject: [PATCH 22/58] fix: senders must not hand over a nil status

---
 chain/ethbr/sender.go | 6 +++++-
 chain/icon/sender.go  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/chain/ethbr/sender.go b/chain/ethbr/sender.go
index 1fb9dbf..8b9d229 100644
--- a/chain/ethbr/sender.go
+++ b/chain/ethbr/sender.go
@@ -106,7 +106,11 @@ func (s *sender) GetStatus() (*btpTypes.BMCLinkStatus, error) {
 }
 
 func (s *sender) SendStatus() {
-	bs, _ := s.GetStatus()
+	bs, err := s.GetStatus()
+	if err != nil {
+		s.l.Errorf("fail to get status err:%+v", err)
+		return
+	}
 	s.sc <- bs
 }
 
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index b68cebb..85760ce 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -145,7 +145,11 @@ func (s *sender) result(id int, txh *client.TransactionHashParam) {
 }
 
 func (s *sender) SendStatus() {
-	bs, _ := s.GetStatus()
+	bs, err := s.GetStatus()
+	if err != nil {
+		s.l.Errorf("fail to get status err:%+v", err)
+		return
+	}
 	s.sc <- bs
 }
 
-- 
2.43.0


From 7dbd1a646ea76e64c4f678b0af8dc22c2668ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:58 +0000
Subject: [PATCH 23/58] fix: Link must send again what is rejected for an old
 block witness

It built the proof on the status after the rejected message, so nothing
was sent, and it crashed when the message was already dropped.
---
 common/link/link.go | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/common/link/link.go b/common/link/link.go
index 5c6e048..2d9d8a1 100644
--- a/common/link/link.go
+++ b/common/link/link.go
@@ -380,14 +380,6 @@ func (l *Link) removeRelayMessage(id int) {
 	}
 }
 
-func (l *Link) updateBlockProof(id int) error {
-	rm := l.searchRelayMessage(id)
-	if err := l.buildProof(rm.bls, nil); err != nil {
-		return err
-	}
-	return l.sendRelayMessage(rm.bls)
-}
-
 func (l *Link) searchReceiveStatusForHeight(height int64) ReceiveStatus {
 	for _, rs := range l.rss {
 		if rs.Height() == height {
@@ -397,15 +389,6 @@ func (l *Link) searchReceiveStatusForHeight(height int64) ReceiveStatus {
 	return nil
 }
 
-func (l *Link) searchRelayMessage(id int) *relayMessage {
-	for _, rm := range l.rms {
-		if rm.Id() == id {
-			return rm
-		}
-	}
-	return nil
-}
-
 func (l *Link) addRelayMessageItem(rmi RelayMessageItem) {
 	if len(l.rmi.rmis) == 0 {
 		l.createRelayMessageItem()
@@ -426,7 +409,8 @@ func (l *Link) result(rr *types.RelayResult) error {
 	switch rr.Err {
 	case BMVUnknown:
 		l.l.Panicf("BMVUnknown Revert : ErrorCoder:%+v", rr.Err)
-	case BMVNotVerifiable:
+	case BMVNotVerifiable, BMVRevertInvalidBlockWitnessOld:
+		//build again from the status of the destination
 		bls, err := l.s.GetStatus()
 		if err != nil {
 			return err
@@ -435,8 +419,6 @@ func (l *Link) result(rr *types.RelayResult) error {
 		return l.BuildRelayMessage(l.bls)
 	case BMVAlreadyVerified:
 		l.removeRelayMessage(rr.Id)
-	case BMVRevertInvalidBlockWitnessOld:
-		return l.updateBlockProof(rr.Id)
 	default:
 		l.l.Panicf("fail to GetResult RelayMessage ID:%v ErrorCoder:%+v",
 			rr.Id, rr.Err)
-- 
2.43.0


From 0923b84534a8a18b084a9337780c43810c9b5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:34 +0000
Subject: [PATCH 24/58] fix: ICON sender must follow the transaction which is
 already in the pool

DuplicateTransactionError comes without hash, so its result could never
be found. A system error with a short message must not crash the relay.
---
 chain/icon/client/client.go | 17 +++++++++++++----
 chain/icon/sender.go        |  6 +++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index 8530107..618f728 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -146,12 +146,12 @@ txLoop:
 				case *jsonrpc.Error:
 					switch re.Code {
 					case JsonrpcErrorCodeSystem:
-						if subEc, err := strconv.ParseInt(re.Message[1:5], 0, 32); err == nil {
+						if subEc, ok := SystemErrorCode(re); ok {
 							switch subEc {
 							case 2000: //DuplicateTransactionError
 								//Ignore
-								c.l.Debugf("DuplicateTransactionError txh:%v", txh)
-								thp.Hash = *txh
+								c.l.Debugf("DuplicateTransactionError txh:%v", p.TxHash)
+								thp.Hash = p.TxHash
 								break txLoop
 							}
 						}
@@ -520,6 +520,15 @@ func (c *Client) wsReadJSONLoop(conn *websocket.Conn, respPtr interface{}, cb ws
 	}
 }
 
+// SystemErrorCode parses the code in the message of JsonrpcErrorCodeSystem, "E2000: ..."
+func SystemErrorCode(e *jsonrpc.Error) (int64, bool) {
+	if len(e.Message) < 5 {
+		return 0, false
+	}
+	v, err := strconv.ParseInt(e.Message[1:5], 0, 32)
+	return v, err == nil
+}
+
 func MapError(err error) error {
 	if err != nil {
 		switch re := err.(type) {
@@ -529,7 +538,7 @@ func MapError(err error) error {
 			case JsonrpcErrorCodeTxPoolOverflow:
 				return ErrSendFailByOverflow
 			case JsonrpcErrorCodeSystem:
-				if subEc, err := strconv.ParseInt(re.Message[1:5], 0, 32); err == nil {
+				if subEc, ok := SystemErrorCode(re); ok {
 					//TODO return JsonRPC Error
 					switch subEc {
 					case ExpiredTransactionError:
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index 85760ce..e3ed7a1 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -21,7 +21,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
-	"strconv"
 	"time"
 
 	"github.com/icon-project/btp/chain/icon/client"
@@ -236,10 +235,11 @@ SignLoop:
 						<-time.After(DefaultRelayReSendInterval)
 						continue SendLoop
 					case client.JsonrpcErrorCodeSystem:
-						if subEc, err := strconv.ParseInt(je.Message[1:5], 0, 32); err == nil {
+						if subEc, ok := client.SystemErrorCode(je); ok {
 							switch subEc {
 							case client.DuplicateTransactionError:
-								s.l.Debugf("DuplicateTransactionError txh:%v", txh)
+								s.l.Debugf("DuplicateTransactionError txh:%v", p.TxHash)
+								thp.Hash = p.TxHash
 								return thp, nil
 							case client.ExpiredTransactionError:
 								continue SignLoop
-- 
2.43.0


From 44c1dbdbd8bb1844d1cc459f4dd554248743d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:37 +0000
Subject: [PATCH 25/58] fix: ICON client must report malformed values instead
 of crashing

---
 chain/icon/client/type.go | 7 +++++++
 chain/icon/sender.go      | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/chain/icon/client/type.go b/chain/icon/client/type.go
index d260e31..4f4ddb6 100644
--- a/chain/icon/client/type.go
+++ b/chain/icon/client/type.go
@@ -21,6 +21,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"math/big"
+	"strings"
 
 	"github.com/icon-project/btp/common/intconv"
 	"github.com/icon-project/btp/common/jsonrpc"
@@ -294,6 +295,9 @@ func (hs HexBytes) Value() ([]byte, error) {
 	if hs == "" {
 		return nil, nil
 	}
+	if !strings.HasPrefix(string(hs), "0x") {
+		return nil, fmt.Errorf("invalid prefix %s", hs)
+	}
 	return hex.DecodeString(string(hs[2:]))
 }
 func NewHexBytes(b []byte) HexBytes {
@@ -327,6 +331,9 @@ type Address string
 
 func (a Address) Value() ([]byte, error) {
 	var b [21]byte
+	if len(a) != 42 {
+		return nil, fmt.Errorf("invalid length %d", len(a))
+	}
 	switch a[:2] {
 	case "cx":
 		b[0] = 1
diff --git a/chain/icon/sender.go b/chain/icon/sender.go
index e3ed7a1..025e5d6 100644
--- a/chain/icon/sender.go
+++ b/chain/icon/sender.go
@@ -273,6 +273,9 @@ func (s *sender) GetResult(txh *client.TransactionHashParam) (*client.Transactio
 func mapErrorWithTransactionResult(txr *client.TransactionResult, err error) error {
 	err = client.MapError(err)
 	if err == nil && txr != nil && txr.Status != client.ResultStatusSuccess {
+		if txr.Failure == nil {
+			return fmt.Errorf("failure without code, status:%s", txr.Status)
+		}
 		fc, _ := txr.Failure.CodeValue.Value()
 		if fc < client.ResultStatusFailureCodeRevert || fc > client.ResultStatusFailureCodeEnd {
 			err = fmt.Errorf("failure with code:%s, message:%s",
-- 
2.43.0


From ae76c3fb34af3814a5c40f72b5b00e425cd77500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:40 +0000
Subject: [PATCH 26/58] fix: relay must not lose the error of a link

---
 cmd/relay/linkfatory.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cmd/relay/linkfatory.go b/cmd/relay/linkfatory.go
index f5d80fd..6a3e0b9 100644
--- a/cmd/relay/linkfatory.go
+++ b/cmd/relay/linkfatory.go
@@ -89,10 +89,7 @@ func newLink(s string, cfg chain.Config, l log.Logger, w wallet.Wallet, linkErrC
 
 	go func() {
 		err := lk.Start(newSender(cfg.Dst.Address.BlockChain(), cfg.Src, cfg.Dst, w, l))
-		select {
-		case linkErrCh <- err:
-		default:
-		}
+		linkErrCh <- err
 	}()
 
 	return lk, nil
-- 
2.43.0


From 2a1c44bc5d08ec965da1bcf60ff55705af69c0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:43 +0000
Subject: [PATCH 27/58] fix: jsonrpc client must report a response without
 result and error

---
 common/jsonrpc/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/jsonrpc/client.go b/common/jsonrpc/client.go
index d6f4d3b..498e1a9 100644
--- a/common/jsonrpc/client.go
+++ b/common/jsonrpc/client.go
@@ -78,7 +78,7 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 				if dErr := json.Unmarshal(hErr.Response(), &jrResp); dErr != nil {
 					err = fmt.Errorf("fail to decode response body err:%+v, httpErr:%+v, httpResp:%+v, responseBody:%s",
 						dErr, err, resp, string(hErr.Response()))
-				} else {
+				} else if jrResp != nil && jrResp.Error != nil {
 					err = jrResp.Error
 					//fmt.Printf("jrResp.Error:%+v in HttpError", err)
 				}
@@ -93,6 +93,10 @@ func (c *Client) Do(method string, reqPtr, respPtr interface{}) (jrResp *Respons
 			err, resp)
 		return
 	}
+	if jrResp == nil {
+		err = fmt.Errorf("empty response")
+		return
+	}
 	if jrResp.Error != nil {
 		err = jrResp.Error
 		return
-- 
2.43.0


From da37d7e5173e0b2f28c78985c1f149aaf5c5c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:43 +0000
Subject: [PATCH 28/58] fix: ethbr client must report failures of a transaction

---
 chain/ethbr/client/client.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index a39b547..29ec42a 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -119,7 +119,7 @@ func (c *Client) SendTransaction(tx *types.Transaction) error {
 
 	if err != nil {
 		c.log.Errorf("could not send tx: %v", err)
-		return nil
+		return err
 	}
 
 	return nil
@@ -349,9 +349,10 @@ func (c *Client) GetRevertMessage(hash common.Hash) (string, error) {
 		Data:     tx.Data(),
 	}
 
-	_, err = c.ethClient.CallContract(context.Background(), msg, nil)
+	if _, err = c.ethClient.CallContract(context.Background(), msg, nil); err == nil {
+		return "", nil
+	}
 	return err.Error(), nil
-
 }
 
 func NewClient(uri string, l log.Logger) *Client {
-- 
2.43.0


From 5d707950bf477d66d2783cfd16d93cfb4f720c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:59 +0000
Subject: [PATCH 29/58] fix: ethbr client must not skip blocks between two new
 heads

---
 chain/ethbr/client/client.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/chain/ethbr/client/client.go b/chain/ethbr/client/client.go
index 29ec42a..63775bd 100644
--- a/chain/ethbr/client/client.go
+++ b/chain/ethbr/client/client.go
@@ -270,15 +270,18 @@ func (c *Client) MonitorBlock(br *BlockRequest, cb func(b *BlockNotification) er
 	return c.Monitor(func(bh *types.Header) error {
 		if h == nil {
 			h = new(big.Int).Set(br.Height)
-			for ; h.Cmp(bh.Number) < 0; h = h.Add(h, one) {
-				if tbh, err := c.GetHeaderByHeight(h); err != nil {
-					c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)
-					return err
-				} else if err = onBlockHeader(tbh); err != nil {
-					return err
-				}
+		}
+		for ; h.Cmp(bh.Number) < 0; h = h.Add(h, one) {
+			if tbh, err := c.GetHeaderByHeight(h); err != nil {
+				c.log.Errorf("failure GetHeaderByHeight(%v) err:%+v", h, err)
+				return err
+			} else if err = onBlockHeader(tbh); err != nil {
+				return err
 			}
 		}
+		if h.Cmp(bh.Number) == 0 {
+			h = h.Add(h, one)
+		}
 		return onBlockHeader(bh)
 	})
 }
-- 
2.43.0


From 489e47e1ccbb7473801cd5480ecbaa93b9e0938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:44 +0000
Subject: [PATCH 30/58] fix: RLP decoder must not accept a truncated list

---
 common/codec/rlp.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/codec/rlp.go b/common/codec/rlp.go
index 8392c46..0a48d24 100644
--- a/common/codec/rlp.go
+++ b/common/codec/rlp.go
@@ -210,8 +210,13 @@ func (r *rlpReader) ReadValue(v reflect.Value) error {
 }
 
 func (r *rlpReader) Close() error {
-	_, err := io.Copy(ioutil.Discard, r.reader)
-	return err
+	if _, err := io.Copy(ioutil.Discard, r.reader); err != nil {
+		return err
+	}
+	if lr, ok := r.reader.(*io.LimitedReader); ok && lr.N > 0 {
+		return cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(truncated=%d)", lr.N)
+	}
+	return nil
 }
 
 func (r *rlpReader) ReadBytes() ([]byte, error) {
-- 
2.43.0


From 0e29d2e21718ca705592bc99c62ce51cd879f08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:47 +0000
Subject: [PATCH 31/58] fix: RLP decoder must not crash on an impossible size

---
 common/codec/rlp.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/common/codec/rlp.go b/common/codec/rlp.go
index 0a48d24..e001736 100644
--- a/common/codec/rlp.go
+++ b/common/codec/rlp.go
@@ -42,7 +42,11 @@ func (r *rlpReader) readSize(buffer []byte) (int, error) {
 	if err := r.readAll(buffer); err != nil {
 		return 0, err
 	}
-	return bytesToSize(buffer), nil
+	sz := bytesToSize(buffer)
+	if sz < 0 {
+		return 0, cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(size=%x)", buffer)
+	}
+	return sz, nil
 }
 
 func (r *rlpReader) readAll(buffer []byte) error {
@@ -155,12 +159,7 @@ func (r *rlpReader) readBytes() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		buffer := make([]byte, sz2)
-		if err := r.readAll(buffer); err != nil {
-			return nil, err
-		} else {
-			return buffer, nil
-		}
+		return r.readMore(nil, sz2)
 	case tag == 0xF8:
 		if sz2, err := r.readSize(header[1:2]); err != nil {
 			return nil, err
@@ -223,7 +222,20 @@ func (r *rlpReader) ReadBytes() ([]byte, error) {
 	return r.readBytes()
 }
 
+// maxPrealloc limits memory allocated only by the size in the input
+const maxPrealloc = 1 << 20
+
 func (r *rlpReader) readMore(org []byte, size int) ([]byte, error) {
+	if size > maxPrealloc {
+		buf := bytes.NewBuffer(append([]byte(nil), org...))
+		if _, err := io.CopyN(buf, r.reader, int64(size)); err != nil {
+			if err == io.EOF {
+				return nil, cerrors.Wrapf(ErrInvalidFormat, "InvalidFormat(sz=%d,err=%s)", size, err)
+			}
+			return nil, cerrors.WithStack(err)
+		}
+		return buf.Bytes(), nil
+	}
 	buffer := make([]byte, len(org)+size)
 	copy(buffer, org)
 	if err := r.readAll(buffer[len(org):]); err != nil {
-- 
2.43.0


From 8d8b053ff898796877a1317127aaebf620fd5c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:55 +0000
Subject: [PATCH 32/58] fix: Address must not crash on empty bytes

---
 common/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/address.go b/common/address.go
index 7ced1c8..d2471a2 100644
--- a/common/address.go
+++ b/common/address.go
@@ -79,7 +79,7 @@ func (a *Address) ID() []byte {
 }
 
 func (a *Address) SetBytes(b []byte) error {
-	if b == nil {
+	if len(b) == 0 {
 		return errors.ErrIllegalArgument
 	}
 	switch b[0] {
-- 
2.43.0


From ae3b36f0c4643d959524ab74bb515c1a04839338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:55 +0000
Subject: [PATCH 33/58] fix: Address must not keep bytes of its former value

---
 common/address.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/address.go b/common/address.go
index d2471a2..042678b 100644
--- a/common/address.go
+++ b/common/address.go
@@ -98,6 +98,7 @@ func (a *Address) SetTypeAndID(ic bool, id []byte) error {
 	}
 	switch {
 	case len(id) < AddressIDBytes:
+		*a = Address{}
 		copy(a[AddressIDBytes-len(id)+1:], id)
 	default:
 		copy(a[1:], id)
-- 
2.43.0


From 25a51854e1f90b5acc73f74e037d9f605c47f454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:32 +0000
Subject: [PATCH 34/58] fix: configuration must recognise raw messages by type

---
 common/cli/helper.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/cli/helper.go b/common/cli/helper.go
index dfc0b21..4681fb0 100644
--- a/common/cli/helper.go
+++ b/common/cli/helper.go
@@ -266,11 +266,13 @@ func StringToStringConv(val string) (map[string]interface{}, error) {
 	return out, nil
 }
 
+var rawMessageType = reflect.TypeOf(json.RawMessage(nil))
+
 func ViperDecodeOptJson(c *mapstructure.DecoderConfig) {
 	c.TagName = "json"
 	c.DecodeHook = mapstructure.ComposeDecodeHookFunc(
 		func(inputValType reflect.Type, outValType reflect.Type, input interface{}) (interface{}, error) {
-			if outValType.Name() == "RawMessage" {
+			if outValType == rawMessageType {
 				if inputValType.Kind() == reflect.Map && inputValType.Key().Kind() == reflect.String {
 					return json.Marshal(input)
 				} else if inputValType.Kind() == reflect.String {
@@ -282,7 +284,7 @@ func ViperDecodeOptJson(c *mapstructure.DecoderConfig) {
 				}
 			} else if inputValType.Kind() == reflect.String && outValType.Kind() == reflect.Map {
 				m, err := StringToStringConv(input.(string))
-				if outValType.Key().Kind() == reflect.String && outValType.Elem().Name() == "RawMessage" {
+				if outValType.Key().Kind() == reflect.String && outValType.Elem() == rawMessageType {
 					m2 := make(map[string]json.RawMessage)
 					for k, v := range m {
 						if s, ok := v.(string); ok {
-- 
2.43.0


From 480227c16bd62cd451b2d092cf33aaa129bc75c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:35 +0000
Subject: [PATCH 35/58] fix: ParseSignatureVRS must not crash and must keep V

---
 common/crypto/signature.go | 3 ++-
 go.mod                     | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/crypto/signature.go b/common/crypto/signature.go
index 09e91ed..67ac376 100644
--- a/common/crypto/signature.go
+++ b/common/crypto/signature.go
@@ -71,7 +71,8 @@ func ParseSignatureVRS(sig []byte) (*Signature, error) {
 	var s Signature
 	s.bytes = append(s.bytes, sig[1:33]...)
 	s.bytes = append(s.bytes, sig[33:]...)
-	s.bytes[64] = sig[0]
+	s.bytes = append(s.bytes, sig[0])
+	s.hasV = true
 	return &s, nil
 }
 
diff --git a/go.mod b/go.mod
index bb544c1..583cb84 100644
--- a/go.mod
+++ b/go.mod
@@ -12,6 +12,7 @@ require (
 	github.com/evalphobia/logrus_fluent v0.5.4
 	github.com/fluent/fluent-logger-golang v1.4.0 // indirect
 	github.com/gofrs/uuid v3.3.0+incompatible
+	github.com/google/uuid v1.1.5
 	github.com/gorilla/websocket v1.4.2
 	github.com/haltingstate/secp256k1-go v0.0.0-20151224084235-572209b26df6
 	github.com/jroimartin/gocui v0.4.0
-- 
2.43.0


From 363218e73499f388be7f4347a35483eda497d2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:35 +0000
Subject: [PATCH 36/58] fix: ParsePrivateKey must refuse what is not a key

---
 common/crypto/key.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/crypto/key.go b/common/crypto/key.go
index 3a447f3..5fb9a1a 100644
--- a/common/crypto/key.go
+++ b/common/crypto/key.go
@@ -133,6 +133,9 @@ func ParsePrivateKey(b []byte) (*PrivateKey, error) {
 	if len(b) != PrivateKeyLen {
 		return nil, errors.New("InvalidKeyLength")
 	}
+	if secp256k1.VerifySeckey(b) != 1 {
+		return nil, errors.New("InvalidKey")
+	}
 	b2 := make([]byte, len(b))
 	copy(b2, b)
 	return &PrivateKey{b2}, nil
-- 
2.43.0


From 0df7e136537c5d8318e95e78b1d5846559547fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:35 +0000
Subject: [PATCH 37/58] fix: key store with bad parameters must be an error,
 not a crash

---
 common/wallet/keystore.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/wallet/keystore.go b/common/wallet/keystore.go
index 118bb15..3da360f 100644
--- a/common/wallet/keystore.go
+++ b/common/wallet/keystore.go
@@ -194,6 +194,14 @@ func DecryptICONKeyStore(ksData *KeyStoreData, pw []byte) (*crypto.PrivateKey, e
 		return nil, err
 	}
 
+	if len(cipherParams.IV) != aes.BlockSize {
+		return nil, errors.Errorf("InvalidIV(len=%d)", len(cipherParams.IV))
+	}
+	if kdfParams.DKLen < 32 || kdfParams.R < 1 || kdfParams.P < 1 {
+		return nil, errors.Errorf("InvalidKDFParams(dklen=%d,r=%d,p=%d)",
+			kdfParams.DKLen, kdfParams.R, kdfParams.P)
+	}
+
 	key, err := kdfParams.Key(pw)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2d34b4ee557b6ff94608848e0c10d121ae49555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:35 +0000
Subject: [PATCH 38/58] fix: no shared secret must be an error, not an empty
 secret

---
 common/wallet/wallet.go     | 7 ++++++-
 common/wallet/wallet_evm.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/wallet/wallet.go b/common/wallet/wallet.go
index 911e146..4efb4b8 100644
--- a/common/wallet/wallet.go
+++ b/common/wallet/wallet.go
@@ -3,6 +3,7 @@ package wallet
 import (
 	"github.com/icon-project/btp/common"
 	"github.com/icon-project/btp/common/crypto"
+	"github.com/icon-project/btp/common/errors"
 )
 
 type Wallet interface {
@@ -38,7 +39,11 @@ func (w *softwareWallet) ECDH(pubKey []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return w.skey.ECDH(pkey), nil
+	secret := w.skey.ECDH(pkey)
+	if secret == nil {
+		return nil, errors.New("InvalidPublicKey")
+	}
+	return secret, nil
 }
 
 func New() *softwareWallet {
diff --git a/common/wallet/wallet_evm.go b/common/wallet/wallet_evm.go
index 6f7a8ed..b5022c8 100644
--- a/common/wallet/wallet_evm.go
+++ b/common/wallet/wallet_evm.go
@@ -29,7 +29,7 @@ func (w *EvmWallet) PublicKey() []byte {
 
 func (w *EvmWallet) ECDH(pubKey []byte) ([]byte, error) {
 	//TODO: Not implemented yet
-	return nil, nil
+	return nil, errors.New("Not implemented yet")
 }
 
 func NewEvmWalletFromPrivateKey(sk *ecdsa.PrivateKey) (*EvmWallet, error) {
-- 
2.43.0


From b6c8e1e3b388acd6d56724379e4e9ac3d711be54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:35 +0000
Subject: [PATCH 39/58] fix: text encrypted for an uncompressed public key must
 decrypt

---
 common/wallet/encrypted.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/wallet/encrypted.go b/common/wallet/encrypted.go
index 1a87ed4..ec12df4 100644
--- a/common/wallet/encrypted.go
+++ b/common/wallet/encrypted.go
@@ -76,7 +76,7 @@ func NewEncrypted(w Wallet, pubKey, b []byte) (*Encrypted, error) {
 		return nil, err
 	}
 	s.XORKeyStream(e.CipherText, b)
-	copy(e.Param[EncryptSaltSize:], w.PublicKey())
+	e.Param = append(e.Param[:EncryptSaltSize], w.PublicKey()...)
 	return e, nil
 }
 
-- 
2.43.0


From c15d49b83160e8bc6cc9f90f9a53ff5b4575d731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:37 +0000
Subject: [PATCH 40/58] fix: generating keys at the same time must not crash

---
 common/crypto/key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/crypto/key.go b/common/crypto/key.go
index 5fb9a1a..3878f9e 100644
--- a/common/crypto/key.go
+++ b/common/crypto/key.go
@@ -122,6 +122,10 @@ func (key *PublicKey) String() string {
 
 // GenerateKeyPair generates a private and public key pair.
 func GenerateKeyPair() (privKey *PrivateKey, pubKey *PublicKey) {
+	// the random source of secp256k1 is shared with signing
+	globalLock.Lock()
+	defer globalLock.Unlock()
+
 	pub, priv := secp256k1.GenerateKeyPair()
 	privKey = &PrivateKey{priv}
 	pubKey, _ = ParsePublicKey(pub)
-- 
2.43.0


From 76f365fe691cce021edb82a3a5172ed02f204f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:05 +0000
Subject: [PATCH 41/58] fix: MonitorEvent must not report its start as an error

---
 chain/icon/client/client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index 618f728..cd776c9 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -375,6 +375,8 @@ func (c *Client) MonitorEvent(p *EventRequest, cb func(conn *websocket.Conn, v *
 			if err := cb(conn, t); err != nil {
 				c.l.Debugf("MonitorEvent callback return err:%+v", err)
 			}
+		case WSEvent:
+			c.l.Debugf("MonitorEvent WSEvent %s %+v", conn.LocalAddr().String(), t)
 		case error:
 			errCb(conn, t)
 		default:
-- 
2.43.0


From 9cab6a700ed3d4dcaf1085deded26076996a1b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:16 +0000
Subject: [PATCH 42/58] fix: closing monitors while they end must not crash

---
 chain/icon/client/client.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/chain/icon/client/client.go b/chain/icon/client/client.go
index cd776c9..4338778 100644
--- a/chain/icon/client/client.go
+++ b/chain/icon/client/client.go
@@ -410,7 +410,13 @@ func (c *Client) CloseMonitor(conn *websocket.Conn) {
 }
 
 func (c *Client) CloseAllMonitor() {
+	c.mtx.Lock()
+	conns := make([]*websocket.Conn, 0, len(c.conns))
 	for _, conn := range c.conns {
+		conns = append(conns, conn)
+	}
+	c.mtx.Unlock()
+	for _, conn := range conns {
 		c.l.Debugf("CloseAllMonitor %s", conn.LocalAddr().String())
 		c.wsClose(conn)
 	}
@@ -437,6 +443,14 @@ func (c *Client) _removeWsConn(conn *websocket.Conn) {
 	}
 }
 
+func (c *Client) _hasWsConn(conn *websocket.Conn) bool {
+	c.mtx.Lock()
+	defer c.mtx.Unlock()
+
+	_, ok := c.conns[conn.LocalAddr().String()]
+	return ok
+}
+
 type wsConnectError struct {
 	error
 	httpResp *http.Response
@@ -483,8 +497,8 @@ func (c *Client) wsRequest(conn *websocket.Conn, reqPtr interface{}) error {
 
 func (c *Client) wsClose(conn *websocket.Conn) {
 	c._removeWsConn(conn)
-	if err := conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, "")); err != nil {
-		c.l.Debugf("fail to WriteMessage CloseNormalClosure err:%+v", err)
+	if err := conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(time.Second)); err != nil {
+		c.l.Debugf("fail to WriteControl CloseNormalClosure err:%+v", err)
 	}
 	if err := conn.Close(); err != nil {
 		c.l.Debugf("fail to Close err:%+v", err)
@@ -507,7 +521,7 @@ func (c *Client) wsReadJSONLoop(conn *websocket.Conn, respPtr interface{}, cb ws
 	for {
 		v := reflect.New(elem.Type())
 		ptr := v.Interface()
-		if _, ok := c.conns[conn.LocalAddr().String()]; !ok {
+		if !c._hasWsConn(conn) {
 			c.l.Debugf("wsReadJSONLoop c.conns[%s] is nil", conn.LocalAddr().String())
 			return nil
 		}
-- 
2.43.0


From b53442a3f9c41120548914387f2199cefdeb0aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:58 +0000
Subject: [PATCH 43/58] fix: save keeps the places of base_dir and of the log
 file

Relative paths of the loaded configuration were taken relative to the working
directory, and an empty value became the name of a directory.
---
 cmd/relay/main.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index 6ec705e..9db90fa 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -227,11 +227,20 @@ func main() {
 		},
 		RunE: func(cmd *cobra.Command, args []string) error {
 			saveFilePath := args[0]
+			// paths are relative to the loaded file until they are made relative to the saved one
+			baseDir, logfile := "", ""
+			if cfg.BaseDir != "" {
+				baseDir = cfg.AbsBaseDir()
+			}
+			if cfg.LogWriter != nil && cfg.LogWriter.Filename != "" {
+				logfile = cfg.ResolveAbsolute(cfg.LogWriter.Filename)
+			}
 			cfg.FilePath, _ = filepath.Abs(saveFilePath)
-			cfg.BaseDir = cfg.ResolveRelative(cfg.BaseDir)
-
-			if cfg.LogWriter != nil {
-				cfg.LogWriter.Filename = cfg.ResolveRelative(cfg.LogWriter.Filename)
+			if baseDir != "" {
+				cfg.BaseDir = cfg.ResolveRelative(baseDir)
+			}
+			if logfile != "" {
+				cfg.LogWriter.Filename = cfg.ResolveRelative(logfile)
 			}
 
 			if err := cli.JsonPrettySaveFile(saveFilePath, 0644, cfg); err != nil {
-- 
2.43.0


From 50dc6159aa70a79a688d6ef3084201ebb61dccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:37 +0000
Subject: [PATCH 44/58] fix: an unreadable src.key_secret is an error

Its error was overwritten by the one of dst.key_secret, and the key of the
source was encrypted with an empty password.
---
 cmd/relay/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/relay/main.go b/cmd/relay/main.go
index 9db90fa..3555adc 100644
--- a/cmd/relay/main.go
+++ b/cmd/relay/main.go
@@ -82,6 +82,9 @@ func (c *Config) resolvePassword(keySecret, keyStorePass string) ([]byte, error)
 
 func (c *Config) EnsureWallet() error {
 	srcPw, err := c.resolvePassword(c.Src.KeySecret, c.Src.KeyStorePass)
+	if err != nil {
+		return err
+	}
 	dstPw, err := c.resolvePassword(c.Dst.KeySecret, c.Dst.KeyStorePass)
 	if err != nil {
 		return err
-- 
2.43.0


From cc90327c9806d9301203023c778523fed9d35980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:40 +0000
Subject: [PATCH 45/58] fix: removeLink must remove all relays of the link

The loop ended at half of them; a relay of a removed link could relay again as
soon as the link was added again.
---
 .../src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index f97ceac..6a32a0c 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -251,7 +251,7 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
             throw BMCException.unknown("could not remove, referred by route");
         }
         ArrayDB<Address> arrayDB = relays.at(_link);
-        for(int i = 0; i < arrayDB.size(); i++ ) {
+        while (arrayDB.size() > 0) {
             arrayDB.removeLast();
         }
         BigInteger networkId = btpLinkNetworkIds.get(_link);
-- 
2.43.0


From 1de72f818d07de7e66e3ff1b178a573c17227f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:40 +0000
Subject: [PATCH 46/58] fix: an error of a BSH must be reported as BSH_REVERT
 whatever its code

The codes 11 and 6 of a BSH were reported as NO_ROUTE and NO_BSH.
---
 .../main/java/foundation/icon/btp/bmc/BTPMessageCenter.java | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index 6a32a0c..69704e1 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -796,12 +796,12 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
             return new ResponseMessage(ResponseMessage.CODE_SUCCESS, "");
         }
         long code = ResponseMessage.CODE_UNKNOWN;
-        if (BMCException.Code.Unreachable.code == exception.getCodeOfType()) {
+        if (BTPException.Type.BSH.equals(exception.getType())) {
+            code = ResponseMessage.CODE_BSH_REVERT;
+        } else if (BMCException.Code.Unreachable.code == exception.getCodeOfType()) {
             code = ResponseMessage.CODE_NO_ROUTE;
         } else if (BMCException.Code.NotExistsBSH.code == exception.getCodeOfType()) {
             code = ResponseMessage.CODE_NO_BSH;
-        } else if (BTPException.Type.BSH.equals(exception.getType())) {
-            code = ResponseMessage.CODE_BSH_REVERT;
         }
         return new ResponseMessage(code, exception.getMessage());
     }
-- 
2.43.0


From 46b4701ea198f6652334ca89687581b1d8c5479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:40 +0000
Subject: [PATCH 47/58] fix: the remaining fee of a message must be collected
 once

When the BSH failed on a one-way message or on an error, the fee was collected
before the call and again when the message was dropped.
---
 .../java/foundation/icon/btp/bmc/BTPMessageCenter.java     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index 69704e1..d0cb051 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -599,8 +599,6 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
                         collectRemainFee(oldInfo.getFeeInfo());
                     }
                     responseInfoDictDb.set(sn, new ResponseInfo(msg.getNsn(), msg.getFeeInfo()));
-                } else {
-                    collectRemainFee(feeInfo);
                 }
             }
 
@@ -617,9 +615,11 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
                 }
                 throw BTPException.of(e, BTPException.Type.BSH);
             }
+            if (snCompare == 0) {
+                collectRemainFee(feeInfo);
+            }
         } else {
             sn = sn.negate();
-            collectRemainFee(feeInfo);
             try {
                 ResponseMessage responseMessage = ResponseMessage.fromBytes(payload);
                 long eCode = responseMessage.getCode();
@@ -633,6 +633,7 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
             } catch (Exception e) {
                 throw BTPException.of(e, BTPException.Type.BSH);
             }
+            collectRemainFee(feeInfo);
         }
     }
 
-- 
2.43.0


From fb9f866a7976567707bdbaa123063833c71ed981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:40 +0000
Subject: [PATCH 48/58] fix: a claim that cannot be answered must not pay the
 receiver

Taking the reward back was without effect, as addReward ignores what is not
positive, and the claimer got the reward back with the error.
---
 .../java/foundation/icon/btp/bmc/BTPMessageCenter.java     | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index d0cb051..f1b409e 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -646,13 +646,8 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
                 ClaimMessage claimMsg = ClaimMessage.fromBytes(payload);
                 BigInteger reward = claimMsg.getAmount();
                 Address receiver = toAddress(claimMsg.getReceiver());
+                sendInternalResponse(src, nsn);
                 addReward(receiver, btpAddr.net(), reward);
-                try {
-                    sendInternalResponse(src, nsn);
-                } catch (Exception e) {
-                    addReward(receiver, btpAddr.net(), reward.negate());
-                    throw e;
-                }
                 break;
             case Response:
                 ResponseMessage responseMsg = ResponseMessage.fromBytes(payload);
-- 
2.43.0


From 7ee715856b37bc1c23460193794caa5ee768a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:40 +0000
Subject: [PATCH 49/58] fix: dropMessage must collect the remaining fee of a
 one-way message

The fee was lost; a message dropped by handleRelayMessage collects it.
---
 .../src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
index f1b409e..a628544 100644
--- a/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
+++ b/javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java
@@ -999,6 +999,7 @@ public class BTPMessageCenter implements BMC, ICONSpecific, OwnerManager {
         if (snCompare > 0) {
             sendError(prev, assumeMsg, e);
         } else {
+            collectRemainFee(assumeMsg.getFeeInfo());
             emitMessageDropped(prev, _seq, assumeMsg, e);
         }
     }
-- 
2.43.0


From 14fe1f170aa1ec026eaab69266f8d5cca2299b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:28 +0000
Subject: [PATCH 50/58] fix: BTP block verifier takes block updates with a
 sequence offset

The offset shifts the sequence of the BMC, not the serial numbers in the
headers, so subtracting it had every block update refused.
---
 .../foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java
index a54d5f4..e54b2ba 100644
--- a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java
+++ b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java
@@ -137,8 +137,7 @@ public class BTPMessageVerifier implements BMV {
         var prev = blockHeader.getPrev();
         var firstMessageSn = bmvProperties.getLastFirstMessageSN();
         var messageCount = bmvProperties.getLastMessageCount();
-        var seqOffset = bmvProperties.getSequenceOffset();
-        var messageSn = firstMessageSn.add(messageCount).subtract(seqOffset);
+        var messageSn = firstMessageSn.add(messageCount);
         if (messageSn.compareTo(blockHeader.getFirstMessageSn()) > 0) {
             throw BMVException.alreadyVerified("already verified");
         } else if (messageSn.compareTo(blockHeader.getFirstMessageSn()) < 0) {
-- 
2.43.0


From 85d6cbd8be4839d85d50da15125271d59a2fcaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:28 +0000
Subject: [PATCH 51/58] fix: network sections root over a path of several nodes

Each step hashed the leaf instead of what the steps before it had given.
---
 .../java/foundation/icon/btp/bmv/btpblock/BlockHeader.java    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java
index 9870a9d..eda81c1 100644
--- a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java
+++ b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java
@@ -159,9 +159,9 @@ public class BlockHeader {
         byte[] h = leaf;
         for (NetworkSectionToRoot nsRoot : networkSectionToRoot) {
             if (nsRoot.dir == NetworkSectionToRoot.LEFT) {
-                h = concatAndHash(nsRoot.value, leaf);
+                h = concatAndHash(nsRoot.value, h);
             } else if (nsRoot.dir == NetworkSectionToRoot.RIGHT) {
-                h = concatAndHash(leaf, nsRoot.value);
+                h = concatAndHash(h, nsRoot.value);
             }
         }
         return h;
-- 
2.43.0


From cfdc29cc30b92bb64887316855b6e63063c0a556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:28 +0000
Subject: [PATCH 52/58] fix: refuse message proof nodes without leaves

Nodes with a negative number of leaves cancelled out in the totals and
let a message that is not in the block pass the verification.
---
 .../foundation/icon/btp/bmv/btpblock/MessageProof.java | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/MessageProof.java b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/MessageProof.java
index 9a340f7..487463d 100644
--- a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/MessageProof.java
+++ b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/MessageProof.java
@@ -96,7 +96,7 @@ public class MessageProof {
         Node node = new Node();
         int left = 0, total = 0;
         for (ProofNode pn : leftProofNodes) {
-            var num = pn.getNumOfLeaf();
+            var num = numOfLeaf(pn);
             node = node.add(num, pn.getValue());
             left += num;
         }
@@ -107,7 +107,7 @@ public class MessageProof {
         }
 
         for (ProofNode pn : rightProofNodes) {
-            var num = pn.getNumOfLeaf();
+            var num = numOfLeaf(pn);
             node = node.add(num, pn.getValue());
             total += num;
         }
@@ -121,6 +121,12 @@ public class MessageProof {
         return new ProveResult(node.getValue(), left, total);
     }
 
+    private static int numOfLeaf(ProofNode pn) {
+        var num = pn.getNumOfLeaf();
+        if (num < 1) throw BMVException.unknown("invalid numOfLeaf : " + num);
+        return num;
+    }
+
     public static class ProveResult {
         byte[] hash;
         int offset, total;
-- 
2.43.0


From 6c6084cc8bd1a6a2745ebf2575ca9fccfd93b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:28 +0000
Subject: [PATCH 53/58] fix: BTP block proof with places for validators that
 did not sign

The source chain leaves the place of a missing signature null.
---
 .../foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java    | 1 +
 .../src/main/java/foundation/icon/btp/bmv/btpblock/Proofs.java  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java
index e54b2ba..0227bde 100644
--- a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java
+++ b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java
@@ -194,6 +194,7 @@ public class BTPMessageVerifier implements BMV {
         var proofContextBytes = bmvProperties.getProofContext();
         var proofContext = ProofContext.fromBytes(proofContextBytes);
         for (byte[] sig : sigs) {
+            if (sig == null) continue;
             EthAddress address = recoverAddress(decisionHash, sig);
             if (!proofContext.isValidator(address)) throw BMVException.unknown("invalid validator : " + address);
             if (verifiedValidator.contains(address)) throw BMVException.unknown("duplicated validator : " + address);
diff --git a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/Proofs.java b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/Proofs.java
index cf544bb..2545403 100644
--- a/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/Proofs.java
+++ b/javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/Proofs.java
@@ -40,7 +40,7 @@ public class Proofs {
         byte[][] proofs;
         List<byte[]> proofList = new ArrayList<>();
         while(r.hasNext()) {
-            proofList.add(r.readByteArray());
+            proofList.add(r.readNullable(byte[].class));
         }
         int proofsLength = proofList.size();
         proofs = new byte[proofsLength][];
-- 
2.43.0


From 8d607b6e34bdee770762e9ab5b49a3159c8c9f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:36 +0000
Subject: [PATCH 54/58] fix: the bridge verifier returned only the last message
 of a relay message

---
 .../java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java b/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java
index 5f1f99d..de7da21 100644
--- a/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java
+++ b/javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java
@@ -78,7 +78,7 @@ public class BTPMessageVerifier implements BMV {
         byte[][] ret = new byte[msgs.size()][];
         int i = 0;
         for (byte[] msg : msgs) {
-            ret[i] = msg;
+            ret[i++] = msg;
         }
         return ret;
     }
-- 
2.43.0


From 04eafc89dbcc8351628e9d060f510743237a9665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:50 +0000
Subject: [PATCH 55/58] fix: a request with the native coin more than once paid
 only the last of them

---
 .../java/foundation/icon/btp/nativecoin/NativeCoinService.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java b/javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java
index c39b659..bef465f 100644
--- a/javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java
+++ b/javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java
@@ -471,7 +471,8 @@ public class NativeCoinService implements NCS, IRC31Receiver, BSH, OwnerManager
                 coinNames.add(coinName);
                 amounts.add(amount);
             } else if (name.equals(coinName)) {
-                nativeCoinTransferAmount = amount;
+                nativeCoinTransferAmount = nativeCoinTransferAmount == null ?
+                        amount : nativeCoinTransferAmount.add(amount);
             } else {
                 throw NCSException.unknown("Invalid Token");
             }
-- 
2.43.0


From f983dbf51d983fc8b1c6f3c1ee598be1a451430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:53 +0000
Subject: [PATCH 56/58] fix: the ICON verifier returned only the last of the
 messages, in the first place

---
 .../java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java b/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java
index 42fd666..8d0eba0 100644
--- a/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java
+++ b/javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java
@@ -133,7 +133,7 @@ public class BTPMessageVerifier implements BMV {
                 ret = new byte[msgs.size()][];
                 int i = 0;
                 for (byte[] msg : msgs) {
-                    ret[i] = msg;
+                    ret[i++] = msg;
                 }
             }
         }
-- 
2.43.0


From 6baa6dc94a279e0f01ee79ba89282fc9677974d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:12 +0000
Subject: [PATCH 57/58] fix: the fee aggregation sent the refundable ICX of
 depositors to the CPS

---
 .../foundation/icon/btp/FeeAggregationSCORE.java | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
index 7e10a14..3a970f5 100644
--- a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
+++ b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java
@@ -444,18 +444,19 @@ public class FeeAggregationSCORE extends IRC31Receiver {
             Context.revert(ErrorCode.INVALID_TOKEN_BALANCE, "not enough token");
         }
 
-        // Send ICX to CPS
-        if (!_syndication.totalDeposited().equals(BigInteger.ZERO)) {
-            Context.call(_syndication.totalDeposited(), this.addressCPS.get(), "add_fund");
-        }
+        BigInteger totalRefundable = this.distributeTokenShare(_token, _syndication);
 
-        this.distributeTokenShare(_token, _syndication);
+        // Send ICX to CPS, except what depositors can withdraw
+        BigInteger fund = _syndication.totalDeposited().subtract(totalRefundable);
+        if (!fund.equals(BigInteger.ZERO)) {
+            Context.call(fund, this.addressCPS.get(), "add_fund");
+        }
 
         // Event log
         SyndicationEnded(_syndication.id(), _token.name(), _syndication.tokenAmount(), Context.getBlockTimestamp());
     }
 
-    public void distributeTokenShare(Token _token, Syndication _syndication) {
+    public BigInteger distributeTokenShare(Token _token, Syndication _syndication) {
         BigInteger syndicationId = _syndication.id();
         BigInteger tokenAmount = _syndication.tokenAmount();
         BigInteger tokenUnit = _token.getUnit();
@@ -465,6 +466,7 @@ public class FeeAggregationSCORE extends IRC31Receiver {
         int numberDepositor = FeeAggregationSCORE.syndicationDepositorList.at(syndicationId).size();
         BigInteger totalDeposited = _syndication.totalDeposited();
         BigInteger totalDistributedToken = BigInteger.ZERO;
+        BigInteger totalRefundable = BigInteger.ZERO;
         for (int i = 0; i < numberDepositor; i++) {
             Address currentDepositorAddress = FeeAggregationSCORE.syndicationDepositorList.at(syndicationId).get(i);
             BigInteger currentDepositorAmount = FeeAggregationSCORE.syndicationDepositorAmount.at(syndicationId).get(currentDepositorAddress);
@@ -481,9 +483,11 @@ public class FeeAggregationSCORE extends IRC31Receiver {
 
             if (icxRemain.compareTo(BigInteger.ZERO) > 0) {
                 this.refundableBalances.set(currentDepositorAddress, getSafeRefundableBalance(currentDepositorAddress).add(icxRemain));
+                totalRefundable = totalRefundable.add(icxRemain);
             }
         }
         this.lockedBalances.set(_token.name(), getSafeLockBalance(_token.name()).add(totalDistributedToken));
+        return totalRefundable;
     }
 
     boolean isSyndicationExpired(String _tokenName) {
-- 
2.43.0


From 34a1e034606fd20c1e24803dbf4f2d9021f9e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:21 +0000
Subject: [PATCH 58/58] fix: a depositor of nothing was listed and given a
 share of the tokens again

---
 .../src/main/java/foundation/icon/btp/Syndication.java          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/Syndication.java b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/Syndication.java
index c5616d8..85b7463 100644
--- a/javascore/fee-aggregation/src/main/java/foundation/icon/btp/Syndication.java
+++ b/javascore/fee-aggregation/src/main/java/foundation/icon/btp/Syndication.java
@@ -80,7 +80,7 @@ public class Syndication {
 
     public void deposit(Address depositor, BigInteger amount) {
         BigInteger totalUserDeposit = FeeAggregationSCORE.syndicationDepositorAmount.at(this.id).getOrDefault(depositor, BigInteger.ZERO);
-        if (totalUserDeposit.compareTo(BigInteger.ZERO) == 0) {
+        if (totalUserDeposit.compareTo(BigInteger.ZERO) == 0 && amount.compareTo(BigInteger.ZERO) > 0) {
             FeeAggregationSCORE.syndicationDepositorList.at(this.id).add(depositor);
         }
         totalUserDeposit = totalUserDeposit.add(amount);
-- 
2.43.0

