From 5097dd5058f544cb4fb1dce46039f2d83c42b464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 01/35] fix: bencode decoder rejects truncated, unterminated
 and overlong items instead of panicking or accepting them

---
 misc/beancode.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 0e59064..ed94362 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -45,12 +45,17 @@ func innerDecodeInteger(src string, start int) (int, int, error) {
 		}
 
 		// pass 00 02
-		if src[i-1] == 'i' && src[i] == '0' && src[i+1] != 'e' {
+		if src[i-1] == 'i' && src[i] == '0' && i+1 < len(src) && src[i+1] != 'e' {
+			return 0, -1, WrongDecodeParamErr
+		}
+
+		// pass +1
+		if src[i] == '+' {
 			return 0, -1, WrongDecodeParamErr
 		}
 	}
 
-	if i > start && src[i] == 'e' {
+	if i < len(src) && src[i] == 'e' {
 		result, err := strconv.Atoi(src[start+1 : i])
 		if err != nil {
 			return 0, -1, WrongDecodeParamErr
@@ -98,11 +103,12 @@ func innerDecodeString(src string, start int) (string, int, error) {
 		return "", -1, err
 	}
 
-	start = idx + slen + 1
-
-	if start >= len(src) {
+	// the string must end inside src, compare by subtraction because idx+slen may overflow
+	if slen < 0 || slen >= len(src)-idx-1 {
 		return "", -1, WrongDecodeParamErr
 	}
+
+	start = idx + slen + 1
 	return src[idx+1 : start], start, nil
 }
 
@@ -187,6 +193,10 @@ func innerDecodeSlice(src string, start int) (List, int, error) {
 		result = append(result, tmp)
 		i = nextIdx
 	}
+	// list is not terminated
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
 	return result, i + 1, nil
 }
 
@@ -294,6 +304,10 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 		result[key] = val
 		i = next
 	}
+	// dict is not terminated
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
 
 	return result, i + 1, nil
 }
-- 
2.43.0


From 7b1e9e55e1d4b794e82fe146f4fd50e80260c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 02/35] fix: DecodeDict reports an error for bytes after the
 dict instead of returning nil, nil

---
 misc/beancode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index ed94362..ccf0129 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -249,10 +249,14 @@ func DecodeDict(src string) (Dict, error) {
 
 	result, next, err := innerDecodeDict(src, 0)
 
-	if next < len(src) || err != nil {
+	if err != nil {
 		return nil, err
 	}
 
+	if next != len(src) {
+		return nil, WrongDecodeParamErr
+	}
+
 	return result, nil
 }
 
-- 
2.43.0


From 1f87e8d77fb2cff1f10d60653b92d3de0a7bd6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 03/35] fix: DecodeString accepts content with colons and
 rejects a length without a colon

---
 misc/beancode.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index ccf0129..61f36a8 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -75,21 +75,22 @@ func DecodeString(src string) (string, error) {
 	if len(src) < 2 {
 		return "", WrongDecodeParamErr
 	}
-	subs := strings.Split(src, ":")
-	if len(subs) < 1 || len(subs) > 2 {
+	// only the first colon separates, the content may contain more of them
+	idx := strings.IndexByte(src, ':')
+	if idx < 1 || src[0] < '0' || src[0] > '9' {
 		return "", WrongDecodeParamErr
 	}
 
-	slen, err := strconv.Atoi(subs[0])
+	slen, err := strconv.Atoi(src[:idx])
 	if err != nil {
 		return "", WrongDecodeParamErr
 	}
 
-	if len(subs[1]) != slen {
+	if len(src)-idx-1 != slen {
 		return "", WrongDecodeParamErr
 	}
 
-	return subs[1], nil
+	return src[idx+1:], nil
 }
 
 func innerDecodeString(src string, start int) (string, int, error) {
-- 
2.43.0


From 747cdf4001ea684c2c53cf732056ae72fc670284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 04/35] fix: bencode encoder reports an error for nil and named
 int or string values instead of panicking

---
 misc/beancode.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 61f36a8..a7deaf7 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -132,14 +132,25 @@ func EncodeSlice(src List) (string, error) {
 }
 
 func encodeItem(item interface{}) (string, error) {
+	if item == nil {
+		return "", WrongDecodeParamErr
+	}
 	t := reflect.TypeOf(item)
 	var err error
 	var tmp string
 	switch t.Kind() {
 	case reflect.Int:
-		tmp, err = EncodeInteger(item.(int))
+		if val, ok := item.(int); ok {
+			tmp, err = EncodeInteger(val)
+		} else {
+			err = WrongDecodeParamErr
+		}
 	case reflect.String:
-		tmp, err = EncodeString(item.(string))
+		if val, ok := item.(string); ok {
+			tmp, err = EncodeString(val)
+		} else {
+			err = WrongDecodeParamErr
+		}
 	case reflect.Slice:
 		if ls, ok := item.(List); ok {
 			tmp, err = EncodeSlice(ls)
-- 
2.43.0


From 7a3144114f15a4cd843226ed2eb202b34e1c6011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 05/35] fix: business errors carry no stack trace, so error
 replies to peers do not leak one

---
 misc/errors.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misc/errors.go b/misc/errors.go
index f7fe989..e4cbdd6 100644
--- a/misc/errors.go
+++ b/misc/errors.go
@@ -23,14 +23,16 @@ type Error struct {
 }
 
 func (d *Error) Error() string {
-	errString := strconv.Itoa(int(d.code)) + ": " + d.msg
+	errString := strconv.Itoa(int(d.code)) + ":" + d.msg
 	if d.context != nil {
 		errString += ", params: "
 		for _, val := range d.context {
 			errString += ToString(val) + "|"
 		}
 	}
-	errString += "\r\nstacks:\r\n" + Bytes2Str(debug.Stack())
+	if d.printStack {
+		errString += "\r\nstacks:\r\n" + Bytes2Str(debug.Stack())
+	}
 	return errString
 }
 
-- 
2.43.0


From 539cfe96863444b7326da30a971069a07c4300ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 06/35] fix: peer wire messages are framed by their length
 prefix, not by how tcp segments them

---
 dht/peerwire/bep3.go | 7 ++++---
 dht/peerwire/bep9.go | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dht/peerwire/bep3.go b/dht/peerwire/bep3.go
index 528b095..fba2a88 100644
--- a/dht/peerwire/bep3.go
+++ b/dht/peerwire/bep3.go
@@ -136,7 +136,7 @@ func supportExterned(bytes []byte) []byte {
 // without prefix bytes
 func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 	preLenbytes := peerBytesPool.GetBySize(PrefixLen)
-	_, err := reader.Read(preLenbytes)
+	_, err := io.ReadFull(reader, preLenbytes)
 	if err != nil {
 		return false, nil, err
 	}
@@ -150,10 +150,11 @@ func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 	if preLen > maxReadLength {
 		return false, nil, errors.New("read input toolarge")
 	}
+	// a stream read may return a part of the message, or more than it
 	buf := peerBytesPool.GetBySize(maxReadLength)
-	n, err := reader.Read(buf)
+	_, err = io.ReadFull(reader, buf[:preLen])
 	if err != nil {
 		return false, nil, err
 	}
-	return false, buf[:n], nil
+	return false, buf[:preLen], nil
 }
diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 81e4fae..6dcf33e 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -6,6 +6,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"io"
 	"net"
 	"strings"
 	"time"
@@ -270,7 +271,7 @@ func handshakePeer(peerId []byte, peerConn *PeerConn) {
 	}
 	// get handshake response
 	readBytes := make([]byte, handShakeLen)
-	_, err = peerConn.conn.Read(readBytes)
+	_, err = io.ReadFull(peerConn.conn, readBytes)
 	if err != nil {
 		fetchMetaLogger.Panic("get handshake response err", misc.Dict{"laddr": laddr, "err": err})
 	}
-- 
2.43.0


From d6f229a47f4772ab1b47ada71bc7b5ae2fa78dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 07/35] fix: copy metadata pieces out of the pooled read buffer

---
 dht/peerwire/bep9.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 6dcf33e..48e17b2 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -241,7 +241,8 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 			return
 		}
 		pieceNum := fetchMetaResp.PieceNum()
-		peerConn.metaData[pieceNum] = fetchMetaResp.Data()
+		// the data is a part of the pooled read buffer, which next message will overwrite
+		peerConn.metaData[pieceNum] = append([]byte(nil), fetchMetaResp.Data()...)
 		peerConn.requestedMetaData[pieceNum] = true
 	//pexExtendedId
 	case 2:
-- 
2.43.0


From 6a46758505226b774db087ef5d2e9427ff438ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 08/35] fix: metadata requests use the ut_metadata id of the
 peer

---
 dht/peerwire/bep9.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 48e17b2..3eaea4b 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -213,6 +213,10 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 			fetchMetaLogger.Panic("get extended handshake wrong format", misc.Dict{"laddr": laddr, "exHandShakeResp": exHandShakeResp})
 		}
 
+		// request messages carry the id the peer gave to ut_metadata in its own handshake
+		meta := exHandShakeResp.Metadata()
+		peerMetaId := meta.GetInteger("ut_metadata")
+
 		// get piece
 		metaSize := dict.GetInteger("metadata_size")
 		peerConn.metaDataSize = metaSize
@@ -225,7 +229,7 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 		for i := 0; i < pieceCount; i++ {
 			peerConn.requestedMetaData[i] = false
 			// request piece
-			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(1, ExRequest, i, 0))
+			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(peerMetaId, ExRequest, i, 0))
 			if err != nil {
 				fetchMetaLogger.Panic("write request piece err", misc.Dict{"laddr": laddr, "err": err})
 			}
-- 
2.43.0


From 677427c9cda24e3769cc431b89c0f536836a0e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 09/35] fix: bound the metadata size a peer can announce and
 the time of writing to it

---
 dht/peerwire/bep9.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 3eaea4b..d360774 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -15,6 +15,9 @@ import (
 // refer http://www.bittorrent.org/beps/bep_0009.html
 const SizeOf16KB = 16 * 1024
 
+// the peer decides metadata_size, do not allocate and request without limit
+const maxMetaDataSize = 32 * 1024 * 1024
+
 type ExFecthMetaType int
 
 const (
@@ -135,7 +138,7 @@ func FetchMetaData(laddr string, peerId, infoHash []byte) (ret []byte, retErr er
 		conn.Close()
 	}()
 	conn.SetReadDeadline(time.Now().Add(time.Second * 1))
-	conn.SetWriteDeadline(time.Time{})
+	conn.SetWriteDeadline(time.Now().Add(time.Second * 10))
 	peerConn := NewPeerConn(laddr, conn, infoHash, time.Second*10)
 	handshakePeer(peerId, peerConn)
 	initialMessages(peerConn)
@@ -219,6 +222,9 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 
 		// get piece
 		metaSize := dict.GetInteger("metadata_size")
+		if metaSize <= 0 || metaSize > maxMetaDataSize {
+			fetchMetaLogger.Panic("get extended handshake wrong metadata size", misc.Dict{"laddr": laddr, "metaSize": metaSize})
+		}
 		peerConn.metaDataSize = metaSize
 		pieceCount := metaSize / SizeOf16KB
 		if metaSize%SizeOf16KB > 0 {
-- 
2.43.0


From 7069bfdbd70fe247440614e8225add0571d396eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 10/35] fix: node ids are binary, compare them byte by byte and
 not by case folding

---
 dht/node.go       | 2 +-
 dht/routetable.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/dht/node.go b/dht/node.go
index 2380dfe..dd26d83 100644
--- a/dht/node.go
+++ b/dht/node.go
@@ -50,7 +50,7 @@ func (n *NodeInfo) Equals(node *NodeInfo) bool {
 	if node == nil {
 		return false
 	}
-	if strings.EqualFold(n.Id, node.Id) && strings.EqualFold(n.Addr.String(), node.Addr.String()) {
+	if n.Id == node.Id && strings.EqualFold(n.Addr.String(), node.Addr.String()) {
 		return true
 	}
 	return false
diff --git a/dht/routetable.go b/dht/routetable.go
index 27613a1..34c7c71 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"math/bits"
-	"strings"
 	"sync"
 )
 
@@ -116,7 +115,7 @@ func (t *RouteTable) Find(id string) *NodeInfo {
 	bucket := t.nodeMap[preLen]
 	nodes := bucket.All()
 	for _, n := range nodes {
-		if strings.EqualFold(n.Id, id) {
+		if n.Id == id {
 			return n
 		}
 	}
-- 
2.43.0


From c09f6e60a6c1fd5642078f2960e30e47c61697bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 11/35] fix: adding a known node again does not count it twice
 in the table size

---
 dht/routetable.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index 34c7c71..daa368b 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -164,7 +164,12 @@ func (t *RouteTable) addNode(node *NodeInfo, preLen int) error {
 		return errors.New("the bucket is full")
 	}
 
-	if !bucket.Exist(node) && !bucket.Add(node) {
+	if bucket.Exist(node) {
+		// already in the table, do not count it twice
+		return nil
+	}
+
+	if !bucket.Add(node) {
 		// full bucket just ignore
 		rtableLogger.Info("the bucket has full", misc.Dict{"tableSize": t.size, "preLen": preLen})
 		return errors.New("the bucket is full")
-- 
2.43.0


From 47dc44ad527944b7c8641b22dce0dd662e2c7339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 12/35] fix: report the error when no split makes room for a
 node in a full route table

---
 dht/routetable.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index daa368b..1325fce 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -199,7 +199,10 @@ func (t *RouteTable) addNodeWithsplitBucket(node *NodeInfo) error {
 	for _, n := range snodes {
 		t.addNode(n, t.solveMaxPreLen(n.Id))
 	}
-	t.addNode(node, t.solveMaxPreLen(node.Id))
+	err := t.addNode(node, t.solveMaxPreLen(node.Id))
+	if err != nil {
+		return err
+	}
 	if preSize+1 != t.nodeCount() {
 		rtableLogger.Error("the route table add fail", misc.Dict{"lastIndex": t.lastBucketIndex, "size": t.size})
 	}
-- 
2.43.0


From c69c141fe20ab85e761933912341e4c30e5a87b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 13/35] fix: SyncMap.Del does not read the map without the lock

---
 misc/syncmap.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/misc/syncmap.go b/misc/syncmap.go
index 300cf07..2b90aa0 100644
--- a/misc/syncmap.go
+++ b/misc/syncmap.go
@@ -24,15 +24,8 @@ func (m *SyncMap) Get(key string) (interface{}, bool) {
 	return handlerFunc, ok
 }
 
-// double check delete
 func (m *SyncMap) Del(txId string) {
-	if _, ok := m.mapping[txId]; !ok {
-		return
-	}
 	defer m.Unlock()
 	m.Lock()
-	if _, ok := m.mapping[txId]; !ok {
-		return
-	}
 	delete(m.mapping, txId)
 }
-- 
2.43.0


From 818eb881e5dcc1fe56a9a9a3c86b7c14d0f931d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 14/35] fix: GetLogger does not read the logger map without the
 lock

---
 misc/logger.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index 6a54e24..f7497ff 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -58,9 +58,6 @@ var bufferedLoggers = &bufferLogger{
 var defaultLoggerFactory LoggerFactory = NewConsoleLoggerFactory()
 
 func (b *bufferLogger) mapLogger(name string) Logger {
-	if v, ok := b.bufferedLoggers[name]; ok {
-		return v
-	}
 	b.Lock()
 	defer b.Unlock()
 	if v, ok := b.bufferedLoggers[name]; ok {
-- 
2.43.0


From 0cba427379be24b3180b09c4c5c73fa95ac42806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 15/35] fix: the console logger panics on Panic at every level

---
 misc/logger.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index f7497ff..6bc0013 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -179,10 +179,10 @@ func (c *consoleLogger) Error(msg string, ctx Dict) {
 }
 
 func (c *consoleLogger) Panic(msg string, ctx Dict) {
-	if c.level > PANIC {
-		return
+	// the level only controls printing, callers rely on the panic
+	if c.level <= PANIC {
+		c.print("Panic", msg, ctx)
 	}
-	c.print("Panic", msg, ctx)
 	panic(msg)
 }
 
-- 
2.43.0


From 82465cc4e47e18b576871775fc4ed75aea9260ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 16/35] fix: workers of a shut down pool finish the queue and
 exit, so shutdown does not wait for its timeout

---
 misc/workpool.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/misc/workpool.go b/misc/workpool.go
index 12b5d4d..8c85c54 100644
--- a/misc/workpool.go
+++ b/misc/workpool.go
@@ -32,24 +32,40 @@ func (pool *WorkPool) init() {
 }
 
 func (pool *WorkPool) workerLoop() {
+	// not running exit
+	defer pool.wg.Done()
 	for {
 		select {
+		case worker := <-pool.queue:
+			worker()
 		case <-pool.shutdowned:
-			break
+			pool.finishQueue()
+			return
+		}
+	}
+}
+
+// run the works which were submitted before shutdown
+func (pool *WorkPool) finishQueue() {
+	for {
+		select {
+		case worker := <-pool.queue:
+			worker()
 		default:
+			return
 		}
-		worker := <-pool.queue
-		worker()
 	}
-	// not running exit
-	pool.wg.Done()
 }
 
 func (pool *WorkPool) AsyncSubmit(worker AsyncWorkFunc) {
 	if pool.Status() != Running {
 		panic(pool.name + " is shutdowned")
 	}
-	pool.queue <- worker
+	select {
+	case pool.queue <- worker:
+	case <-pool.shutdowned:
+		panic(pool.name + " is shutdowned")
+	}
 }
 
 func (pool *WorkPool) Shutdown(timeout time.Duration) {
-- 
2.43.0


From 08f52ac387b07dc88878db22c4556a58c40cee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 17/35] fix: concurrent shutdowns of a work pool do not close
 its channel twice

---
 misc/workpool.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/misc/workpool.go b/misc/workpool.go
index 8c85c54..bd76ae7 100644
--- a/misc/workpool.go
+++ b/misc/workpool.go
@@ -16,6 +16,7 @@ type WorkPool struct {
 	size       int
 	queue      chan AsyncWorkFunc
 	wg         sync.WaitGroup
+	lock       sync.Mutex
 	status     atomic.Value
 	shutdowned chan bool
 	ctx        context.Context
@@ -69,13 +70,10 @@ func (pool *WorkPool) AsyncSubmit(worker AsyncWorkFunc) {
 }
 
 func (pool *WorkPool) Shutdown(timeout time.Duration) {
-	if Running != pool.Status() {
+	if !pool.startShutdown() {
 		return
 	}
 	workPoolLogger.Trace("strating shutdown", Dict{"name": pool.name, "timeout": timeout.String()})
-	pool.status.Store(Shutdowning)
-	// broadcast shutdown
-	close(pool.shutdowned)
 	select {
 	case <-time.After(timeout):
 		workPoolLogger.Trace("shutdown timeout just exit", Dict{"name": pool.name})
@@ -85,6 +83,19 @@ func (pool *WorkPool) Shutdown(timeout time.Duration) {
 	pool.status.Store(Shutdowned)
 }
 
+// only the first caller starts shutdown
+func (pool *WorkPool) startShutdown() bool {
+	pool.lock.Lock()
+	defer pool.lock.Unlock()
+	if Running != pool.Status() {
+		return false
+	}
+	pool.status.Store(Shutdowning)
+	// broadcast shutdown
+	close(pool.shutdowned)
+	return true
+}
+
 func (pool *WorkPool) waitFinish() chan bool {
 	finish := make(chan bool)
 	go func() {
-- 
2.43.0


From 32e8b9f0fe3e7aec4bb40430474efb5c7051971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 18/35] fix: build a dialable address for peers announcing over
 ipv6

---
 dht/fetchtorrent.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index e60aad4..9a47e57 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -7,6 +7,7 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/krpc"
 	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"net"
 	"os"
 	"strconv"
 )
@@ -51,7 +52,8 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 	if body.Exist("implied_port") && body.GetInteger("implied_port") > 0 {
 		useUdpPort = true
 	}
-	laddr := ctx.RemoteAddr().IP.String() + ":" + strconv.Itoa(port)
+	// an ipv6 host needs brackets
+	laddr := net.JoinHostPort(ctx.RemoteAddr().IP.String(), strconv.Itoa(port))
 	if useUdpPort {
 		laddr = ctx.RemoteAddr().String()
 	}
-- 
2.43.0


From 360b163bd9f6a804853046d978c9874c3175c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 19/35] fix: create the torrent directory, without it every
 fetched metadata was dropped

---
 dht/fetchtorrent.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index 9a47e57..305d08d 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -61,12 +61,17 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 }
 
 func flushTorrentFile(fileName string, data []byte) {
+	err := os.MkdirAll("torrent", os.ModePerm)
+	if err != nil {
+		dhtLogger.Error("create torrent dir err", misc.Dict{"err": err})
+		return
+	}
 	file, err := os.Create("torrent/" + fileName + ".torrent")
-	defer file.Close()
 	if err != nil {
 		dhtLogger.Error("create file err", misc.Dict{"err": err})
 		return
 	}
+	defer file.Close()
 	_, err = file.Write(data)
 	if err != nil {
 		dhtLogger.Error("write file err", misc.Dict{"err": err})
-- 
2.43.0


From 8f8cc9d1f63adf8320bc60fba13ec96757fe8d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 20/35] fix: values read before ResetConfig do not hide those
 of the file given by --config

---
 config/config.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/config/config.go b/config/config.go
index c151eb2..ecffeae 100644
--- a/config/config.go
+++ b/config/config.go
@@ -17,7 +17,7 @@ const (
 	loggerConfigKey       = "logger"
 )
 
-var configMap = make(misc.Dict, 16)
+var configMap = misc.NewSyncMap(16)
 var configLogger = misc.GetLogger().SetPrefix("config")
 
 type dhtConfig struct {
@@ -40,7 +40,7 @@ type loggerConfig struct {
 }
 
 func subConfig(key string, val interface{}) {
-	configMap[key] = val
+	configMap.Put(key, val)
 }
 
 func init() {
@@ -68,6 +68,8 @@ func init() {
 }
 
 func ResetConfig() {
+	// drop the values read before, they may come from another file
+	configMap = misc.NewSyncMap(16)
 	viper.SetConfigPermissions(0666)
 	configLogger.Trace("read config", misc.Dict{"path": viper.ConfigFileUsed(), "defaultPath": FileAbsPath})
 	if err := viper.ReadInConfig(); err != nil {
@@ -104,13 +106,13 @@ func LoggerConfig() *loggerConfig {
 
 func getSubConfig(key string, valPtr interface{}) interface{} {
 
-	if val, ok := configMap[key]; ok {
+	if val, ok := configMap.Get(key); ok {
 		return val
 	}
 	err := viper.UnmarshalKey(key, valPtr)
 	if err != nil {
 		misc.PanicSysErr("cannot find "+key+" config", err)
 	}
-	configMap[key] = valPtr
+	configMap.Put(key, valPtr)
 	return valPtr
 }
-- 
2.43.0


From da67cd4e6f8638fc5e2e4a23e29f804866f3a77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 21/35] fix: a list has no element at a negative index

---
 misc/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/types.go b/misc/types.go
index 2ac73b6..cfb4eeb 100644
--- a/misc/types.go
+++ b/misc/types.go
@@ -112,7 +112,7 @@ func (l *List) GetDict(index int) Dict {
 }
 
 func (l *List) Exist(index int) bool {
-	return len(*l) > index
+	return index >= 0 && len(*l) > index
 }
 
 func (l *List) ContainsString(target string) bool {
-- 
2.43.0


From bd57c1979c611ad41d9f799a5aaecb311576d737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 22/35] fix: iterating a bucket visits only its nodes, not its
 free slots

---
 dht/routetable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index 1325fce..a0f0bfc 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -38,7 +38,7 @@ func (b *Bucket) Exist(node *NodeInfo) bool {
 func (b *Bucket) Iterator(handler func(*NodeInfo)) {
 	defer b.RUnlock()
 	b.RLock()
-	for _, v := range b.nodes {
+	for _, v := range b.nodes[:b.size] {
 		handler(v)
 	}
 }
-- 
2.43.0


From 7eda2ac602c2f553820a696718a6c30e63ec3123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 23/35] fix: GetValOrDefault returns the default for an absent
 key instead of nil

---
 misc/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/types.go b/misc/types.go
index cfb4eeb..b34cf22 100644
--- a/misc/types.go
+++ b/misc/types.go
@@ -61,11 +61,11 @@ func (d *Dict) GetVal(key string) interface{} {
 }
 
 func (d *Dict) GetValOrDefault(key string, val interface{}) interface{} {
-	val, exist := (*d)[key]
+	stored, exist := (*d)[key]
 	if !exist {
 		return val
 	}
-	return val
+	return stored
 }
 
 func (d *Dict) Exist(key string) bool {
-- 
2.43.0


From 5cba3f73e8d4eff39a7343fcfb2526109ffcd263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 24/35] fix: open the DHT node with the configuration in force
 when it starts, not at package load

---
 dht/dht.go          | 20 +++++++++++++++++---
 dht/fetchtorrent.go |  2 +-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/dht/dht.go b/dht/dht.go
index 2ca39d4..ffdb44d 100644
--- a/dht/dht.go
+++ b/dht/dht.go
@@ -6,20 +6,33 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/krpc"
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"net"
+	"sync"
 )
 
 var dhtLogger = misc.GetLogger().SetPrefix("dht")
-var localAddr = fmt.Sprintf(":%d", config.DhtConfig().Port)
 var localNodeId = generateNodeId("galaio.p2pclawer")
 
 const maxRouteTableSize int = 160
 const maxBucketLen int = 8
 
-var rtable = NewRouteTable(NewNodeInfoFromHost(localNodeId, localAddr), maxBucketLen, maxRouteTableSize)
-var rpcServer = krpc.NewRpcServer(localAddr)
+var rtable *RouteTable
+var rpcServer *krpc.RpcServer
 var txIdGenerator = NewTxIdGenerator(1000)
+var setupOnce sync.Once
+
+// setup opens the node with the configuration in force when it is first used,
+// not with the one that happens to be read while the package is loaded
+func setup() {
+	setupOnce.Do(func() {
+		localAddr := fmt.Sprintf(":%d", config.DhtConfig().Port)
+		rtable = NewRouteTable(NewNodeInfoFromHost(localNodeId, localAddr), maxBucketLen, maxRouteTableSize)
+		recvInfoHash = make(chan *krpc.RpcContext, config.FetchTorrentConfig().InfoHashQueueSize)
+		rpcServer = krpc.NewRpcServer(localAddr)
+	})
+}
 
 func Run() {
+	setup()
 	dhtLogger.Info("start run dht...", nil)
 
 	dhtLogger.Info("register middleware...", nil)
@@ -44,6 +57,7 @@ func Run() {
 
 // bootstrap find myself
 func BootStrap(host string) {
+	setup()
 	dhtLogger.Info("bootstrap dht...", misc.Dict{"host": host})
 	msg := WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler)
 	raddr, err := net.ResolveUDPAddr("udp", host)
diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index 305d08d..02cfeb8 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -12,7 +12,7 @@ import (
 	"strconv"
 )
 
-var recvInfoHash = make(chan *krpc.RpcContext, config.FetchTorrentConfig().InfoHashQueueSize)
+var recvInfoHash chan *krpc.RpcContext
 
 func fetchTorrent() {
 	// 开启线程池消费
-- 
2.43.0


From 22b4f7905c3fb6aa2f1e50d8fa4c42a3176230d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 25/35] fix: a repeated extended handshake does not disturb a
 metadata fetch

---
 dht/peerwire/bep9.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index d360774..71ea7e9 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -211,6 +211,10 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 		exHandShakeResp := parseExtendedHandShake(readBytes)
 		fetchMetaLogger.Info("get extended handshake", misc.Dict{"laddr": laddr, "exHandShakeResp": exHandShakeResp})
 
+		// a peer may repeat its extended handshake, the pieces are requested once
+		if peerConn.metaDataSize > 0 {
+			return
+		}
 		dict := exHandShakeResp.Dict()
 		if !dict.Exist("metadata_size") {
 			fetchMetaLogger.Panic("get extended handshake wrong format", misc.Dict{"laddr": laddr, "exHandShakeResp": exHandShakeResp})
-- 
2.43.0


From 3a42f11ba10f4ebf606f36e4eb334194388529c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 26/35] fix: the fetch address keeps the zone of a link-local
 IPv6 source

---
 dht/fetchtorrent.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index 02cfeb8..eb9035d 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -52,8 +52,9 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 	if body.Exist("implied_port") && body.GetInteger("implied_port") > 0 {
 		useUdpPort = true
 	}
-	// an ipv6 host needs brackets
-	laddr := net.JoinHostPort(ctx.RemoteAddr().IP.String(), strconv.Itoa(port))
+	// an ipv6 host needs brackets, and its zone when it is link-local
+	host := (&net.IPAddr{IP: ctx.RemoteAddr().IP, Zone: ctx.RemoteAddr().Zone}).String()
+	laddr := net.JoinHostPort(host, strconv.Itoa(port))
 	if useUdpPort {
 		laddr = ctx.RemoteAddr().String()
 	}
-- 
2.43.0


From 5fda41589c4b67cf08a2a085ec1f95fb7b3e97f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 27/35] fix: the torrent command closes the files it reads

A directory with more files than the process may have descriptors made it
panic with 'too many open files'.
---
 cmd/torrent.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/torrent.go b/cmd/torrent.go
index 3bbdd7a..60b5011 100644
--- a/cmd/torrent.go
+++ b/cmd/torrent.go
@@ -33,6 +33,7 @@ var torrent = &cobra.Command{
 func printTorrentInfo(filename, path string) {
 	file, err := os.Open(path)
 	misc.PanicSysErrNonNil(err, "open torrent file err", path)
+	defer file.Close()
 	bytes, err := ioutil.ReadAll(file)
 	misc.PanicSysErrNonNil(err, "read torrent file err", path)
 	dict, err := misc.DecodeDict(misc.Bytes2Str(bytes))
-- 
2.43.0


From 8c81c0b81a734b6c017ab9e536b7f4f4265e8e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 28/35] fix: file loggers know every level in any letter case

WARN, TRACE and names in other letter case were taken for INFO, although
console levels are recognised in any case.
---
 misc/zap.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/misc/zap.go b/misc/zap.go
index 2a90fec..cb017a2 100644
--- a/misc/zap.go
+++ b/misc/zap.go
@@ -5,6 +5,7 @@ import (
 	"go.uber.org/zap"
 	"go.uber.org/zap/zapcore"
 	"gopkg.in/natefinch/lumberjack.v2"
+	"strings"
 )
 
 // user define level
@@ -92,15 +93,19 @@ func NewZapLogger(name string, logLevel string) Logger {
 }
 
 func parseLogLevel(logLevel string) zapcore.Level {
-	switch logLevel {
+	switch strings.ToUpper(logLevel) {
 	case "DEBUG":
 		return zapcore.DebugLevel
 	case "INFO":
 		return zapcore.InfoLevel
+	case "WARN":
+		return zapcore.WarnLevel
 	case "ERROR":
 		return zapcore.ErrorLevel
 	case "PANIC":
 		return zapcore.PanicLevel
+	case "TRACE":
+		return traceLevel
 	default:
 		return zapcore.InfoLevel
 	}
-- 
2.43.0


From 472075c7b0f20fa4f547bf1a2120e69163085398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 29/35] fix: setting the level applies to loggers handed out
 before

All loggers of the program are obtained while its packages are loaded, so the
configured level was never applied to any of them.
---
 misc/logger.go | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index 6bc0013..7ac2237 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -49,6 +50,11 @@ type bufferLogger struct {
 	level           LogLevel
 }
 
+// loggers whose level can be changed after their creation
+type levelSetter interface {
+	setLevel(level LogLevel)
+}
+
 // global var
 var bufferedLoggers = &bufferLogger{
 	bufferedLoggers: make(map[string]Logger, 10),
@@ -79,6 +85,12 @@ func (b *bufferLogger) setLevel(level LogLevel) {
 	b.Lock()
 	defer b.Unlock()
 	b.level = level
+	// loggers handed out before follow as well
+	for _, v := range b.bufferedLoggers {
+		if l, ok := v.(levelSetter); ok {
+			l.setLevel(level)
+		}
+	}
 }
 
 func TransLogLevel(name string) LogLevel {
@@ -122,15 +134,24 @@ func (f *consoleLoggerFactory) GetDefaultName() string {
 }
 
 func (f *consoleLoggerFactory) NewLogger(name string, level LogLevel) Logger {
+	value := int32(level)
 	return &consoleLogger{
 		prefix: "",
-		level:  level,
+		level:  &value,
 	}
 }
 
 type consoleLogger struct {
 	prefix string
-	level  LogLevel
+	level  *int32 // shared with the loggers made by SetPrefix
+}
+
+func (c *consoleLogger) setLevel(level LogLevel) {
+	atomic.StoreInt32(c.level, int32(level))
+}
+
+func (c *consoleLogger) getLevel() LogLevel {
+	return LogLevel(atomic.LoadInt32(c.level))
 }
 
 func (c *consoleLogger) SetPrefix(prefix string) Logger {
@@ -141,7 +162,7 @@ func (c *consoleLogger) SetPrefix(prefix string) Logger {
 }
 
 func (c *consoleLogger) Debug(msg string, ctx Dict) {
-	if c.level > DEBUG {
+	if c.getLevel() > DEBUG {
 		return
 	}
 	c.print("Debug", msg, ctx)
@@ -158,21 +179,21 @@ func (c *consoleLogger) print(level string, msg string, ctx Dict) {
 }
 
 func (c *consoleLogger) Info(msg string, ctx Dict) {
-	if c.level > INFO {
+	if c.getLevel() > INFO {
 		return
 	}
 	c.print("Info", msg, ctx)
 }
 
 func (c *consoleLogger) Warn(msg string, ctx Dict) {
-	if c.level > WARN {
+	if c.getLevel() > WARN {
 		return
 	}
 	c.print("Warn", msg, ctx)
 }
 
 func (c *consoleLogger) Error(msg string, ctx Dict) {
-	if c.level > ERROR {
+	if c.getLevel() > ERROR {
 		return
 	}
 	c.print("Error", msg, ctx)
@@ -180,14 +201,14 @@ func (c *consoleLogger) Error(msg string, ctx Dict) {
 
 func (c *consoleLogger) Panic(msg string, ctx Dict) {
 	// the level only controls printing, callers rely on the panic
-	if c.level <= PANIC {
+	if c.getLevel() <= PANIC {
 		c.print("Panic", msg, ctx)
 	}
 	panic(msg)
 }
 
 func (c *consoleLogger) Trace(msg string, ctx Dict) {
-	if c.level > TRACE {
+	if c.getLevel() > TRACE {
 		return
 	}
 	c.print("Trace", msg, ctx)
-- 
2.43.0


From 461d654a76a123d9bb769f4427ff3ac33b57f728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 30/35] fix: the log level of the file named on the command
 line applies

The level was only taken from conf/config.json before the flags are parsed.
---
 cmd/root.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/root.go b/cmd/root.go
index 17e42eb..e83b5d6 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -38,6 +38,7 @@ func rootExectueFunc(cmd *cobra.Command, args []string) {
 	if len(cfgFile) > 0 {
 		viper.SetConfigFile(cfgFile)
 		config.ResetConfig()
+		misc.SetLevel(misc.TransLogLevel(config.LoggerConfig().Level))
 	}
 
 	if config.PProfConfig().NeedRun {
-- 
2.43.0


From 4b4d62da1f3719fe3afd94661b64cd929eba7101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:23 +0000
Subject: [PATCH 31/35] fix: skip peer messages that are too long to handle
 instead of giving up

The bitfield of a torrent with more than 262144 pieces is longer than 32 KB, so
its metadata could not be fetched from any peer.
---
 dht/peerwire/bep3.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dht/peerwire/bep3.go b/dht/peerwire/bep3.go
index fba2a88..3629d3a 100644
--- a/dht/peerwire/bep3.go
+++ b/dht/peerwire/bep3.go
@@ -3,9 +3,9 @@ package peerwire
 import (
 	"bytes"
 	"encoding/binary"
-	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"io"
+	"io/ioutil"
 )
 
 // refer http://www.bittorrent.org/beps/bep_0003.html
@@ -133,7 +133,7 @@ func supportExterned(bytes []byte) []byte {
 	return bytes
 }
 
-// without prefix bytes
+// without prefix bytes, the first result tells that there is nothing to handle
 func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 	preLenbytes := peerBytesPool.GetBySize(PrefixLen)
 	_, err := io.ReadFull(reader, preLenbytes)
@@ -148,7 +148,9 @@ func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 	// recollection
 	peerBytesPool.Put(preLenbytes)
 	if preLen > maxReadLength {
-		return false, nil, errors.New("read input toolarge")
+		// no message that is handled is so long, but the bitfield of a torrent with many pieces is
+		_, err = io.CopyN(ioutil.Discard, reader, int64(preLen))
+		return err == nil, nil, err
 	}
 	// a stream read may return a part of the message, or more than it
 	buf := peerBytesPool.GetBySize(maxReadLength)
-- 
2.43.0


From da5ffe65b6c84cb1d0730b4649cf64b345f60dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:53 +0000
Subject: [PATCH 32/35] fix: keep a stored torrent whole when a crash hits
 while it is stored again

The file was truncated and rewritten in place, so a kill in between cut off a
torrent that had been stored whole.
---
 dht/fetchtorrent.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index eb9035d..12804de 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -10,6 +10,7 @@ import (
 	"net"
 	"os"
 	"strconv"
+	"sync"
 )
 
 var recvInfoHash chan *krpc.RpcContext
@@ -61,13 +62,20 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 	return laddr
 }
 
+// a torrent gets its name when it is complete, so that a crash cannot cut off one stored before
+const partialTorrentFile = "torrent/.part"
+
+var flushLock sync.Mutex
+
 func flushTorrentFile(fileName string, data []byte) {
+	defer flushLock.Unlock()
+	flushLock.Lock()
 	err := os.MkdirAll("torrent", os.ModePerm)
 	if err != nil {
 		dhtLogger.Error("create torrent dir err", misc.Dict{"err": err})
 		return
 	}
-	file, err := os.Create("torrent/" + fileName + ".torrent")
+	file, err := os.Create(partialTorrentFile)
 	if err != nil {
 		dhtLogger.Error("create file err", misc.Dict{"err": err})
 		return
@@ -78,4 +86,9 @@ func flushTorrentFile(fileName string, data []byte) {
 		dhtLogger.Error("write file err", misc.Dict{"err": err})
 		return
 	}
+	err = os.Rename(partialTorrentFile, "torrent/"+fileName+".torrent")
+	if err != nil {
+		dhtLogger.Error("rename file err", misc.Dict{"err": err})
+		return
+	}
 }
-- 
2.43.0


From 1d6577c83b3d0c32458e20b456be7967a155b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:18 +0000
Subject: [PATCH 33/35] fix: no empty datagram is sent for a reply that cannot
 be encoded

---
 dht/krpc/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dht/krpc/server.go b/dht/krpc/server.go
index f5d0a9f..b910d81 100644
--- a/dht/krpc/server.go
+++ b/dht/krpc/server.go
@@ -133,6 +133,7 @@ func (s *RpcServer) recvPacketHandle(packet *RecvPacket) {
 		bytes, err := misc.EncodeDict(ret.RawData())
 		if err != nil {
 			serverLogger.Error("encode response err", misc.Dict{"from": packet.Addr.String(), "dict": ret.String()})
+			return
 		}
 		err = s.udpConn.SendPacket([]byte(bytes), packet.Addr)
 		serverLogger.Info(">>>  Bytes sended", misc.Dict{"to": packet.Addr.String(), "len": len(bytes)})
-- 
2.43.0


From 173a2618067fd5f35f2bd5abf59d2182d76e9029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:50 +0000
Subject: [PATCH 34/35] fix: hostile nesting cannot exhaust the decoder's stack

---
 misc/beancode.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index a7deaf7..f32e30c 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -9,6 +9,9 @@ import (
 
 var WrongDecodeParamErr = errors.New("wrong benDecode param")
 
+// values nested deeper are refused, the decoder would exhaust the stack
+const maxDecodeDepth = 10000
+
 func EncodeInteger(src int) (string, error) {
 	return "i" + strconv.Itoa(src) + "e", nil
 }
@@ -178,7 +181,7 @@ func DecodeSlice(src string) (List, error) {
 		return nil, WrongDecodeParamErr
 	}
 
-	result, next, err := innerDecodeSlice(src, 0)
+	result, next, err := innerDecodeSlice(src, 0, 1)
 
 	if err != nil {
 		return nil, err
@@ -190,15 +193,15 @@ func DecodeSlice(src string) (List, error) {
 	return result, nil
 }
 
-func innerDecodeSlice(src string, start int) (List, int, error) {
-	if src[start] != 'l' {
+func innerDecodeSlice(src string, start int, depth int) (List, int, error) {
+	if src[start] != 'l' || depth > maxDecodeDepth {
 		return nil, -1, WrongDecodeParamErr
 	}
 
 	result := make(List, 0, 16)
 	i := start + 1
 	for i < len(src) && src[i] != 'e' {
-		tmp, nextIdx, err := decodeItem(src, i)
+		tmp, nextIdx, err := decodeItem(src, i, depth)
 		if err != nil {
 			return nil, -1, err
 		}
@@ -212,13 +215,13 @@ func innerDecodeSlice(src string, start int) (List, int, error) {
 	return result, i + 1, nil
 }
 
-func decodeItem(src string, i int) (interface{}, int, error) {
+func decodeItem(src string, i int, depth int) (interface{}, int, error) {
 	if src[i] == 'i' {
 		return innerDecodeInteger(src, i)
 	} else if src[i] == 'l' {
-		return innerDecodeSlice(src, i)
+		return innerDecodeSlice(src, i, depth+1)
 	} else if src[i] == 'd' {
-		return innerDecodeDict(src, i)
+		return innerDecodeDict(src, i, depth+1)
 	} else if src[i] >= '0' && src[i] <= '9' {
 		return innerDecodeString(src, i)
 	} else {
@@ -259,7 +262,7 @@ func DecodeDict(src string) (Dict, error) {
 		return nil, WrongDecodeParamErr
 	}
 
-	result, next, err := innerDecodeDict(src, 0)
+	result, next, err := innerDecodeDict(src, 0, 1)
 
 	if err != nil {
 		return nil, err
@@ -283,7 +286,7 @@ func DecodeDictNoLimit(src string) (Dict, int, error) {
 		return nil, -1, WrongDecodeParamErr
 	}
 
-	result, next, err := innerDecodeDict(src, 0)
+	result, next, err := innerDecodeDict(src, 0, 1)
 
 	if err != nil {
 		return nil, -1, err
@@ -292,9 +295,9 @@ func DecodeDictNoLimit(src string) (Dict, int, error) {
 	return result, next, nil
 }
 
-func innerDecodeDict(src string, start int) (Dict, int, error) {
+func innerDecodeDict(src string, start int, depth int) (Dict, int, error) {
 
-	if src[start] != 'd' {
+	if src[start] != 'd' || depth > maxDecodeDepth {
 		return nil, -1, WrongDecodeParamErr
 	}
 
@@ -302,7 +305,7 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 
 	i := start + 1
 	for i < len(src) && src[i] != 'e' {
-		ktmp, next, err := decodeItem(src, i)
+		ktmp, next, err := decodeItem(src, i, depth)
 		if err != nil {
 			return nil, -1, err
 		}
@@ -312,7 +315,7 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 			return nil, -1, WrongDecodeParamErr
 		}
 
-		val, next, err := decodeItem(src, next)
+		val, next, err := decodeItem(src, next, depth)
 		if err != nil {
 			return nil, -1, err
 		}
-- 
2.43.0


From 19faacf8b0d69e73401190635084c475d310e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:50 +0000
Subject: [PATCH 35/35] fix: one undecodable file does not keep the torrent
 command from listing the others

---
 cmd/torrent.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/torrent.go b/cmd/torrent.go
index 60b5011..d395ec0 100644
--- a/cmd/torrent.go
+++ b/cmd/torrent.go
@@ -37,7 +37,10 @@ func printTorrentInfo(filename, path string) {
 	bytes, err := ioutil.ReadAll(file)
 	misc.PanicSysErrNonNil(err, "read torrent file err", path)
 	dict, err := misc.DecodeDict(misc.Bytes2Str(bytes))
-	misc.PanicSysErrNonNil(err, "DecodeDict torrent file err", path)
+	if err != nil {
+		// peers decide what is stored, one file must not keep the others from being listed
+		dict = misc.Dict{}
+	}
 	fmt.Printf("%s||%s||%d||%d\r\n", dict.GetStringOrDefault("name", "name err"), filename,
 		dict.GetIntegerOrDefault("length", 0), dict.GetIntegerOrDefault("piece length", 0))
 }
-- 
2.43.0

