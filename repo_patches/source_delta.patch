From 0f0d573a64a92d1ec039c3231a293f7008d487d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 01/19] fix: do not redial while closing

waitForError read the closed flag before waiting, so shutting down made the
reconnect goroutine dial once more (and, with an unreachable server, made Close
wait for that dial).
---
 memcache/sender.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index b6a4266..2f0a02e 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -287,12 +287,12 @@ func (s *sender) readSentCommands(cmdList []*commandListData) int {
 
 func (s *sender) waitForError() (closed bool) {
 	s.connMut.Lock()
-	result := s.closed
 	for !s.closed && s.conn.getLastErrorInternal() == nil {
 		s.ncErrorCond.Wait()
 	}
+	closed = s.closed
 	s.connMut.Unlock()
-	return result
+	return closed
 }
 
 func (s *sender) resetNetConn(nc netconn.NetConn) {
-- 
2.43.0


From a74d59ade19bced78dfd736904a47e3bad3d3a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 02/19] fix: reject impossible value lengths instead of
 panicking

---
 memcache/reader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/memcache/reader.go b/memcache/reader.go
index dbe3906..c397285 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -47,6 +47,11 @@ var errNoLFAfterCR = ErrBrokenPipe{reason: "no LF after CR"}
 
 var errNotNumberAfterVA = ErrBrokenPipe{reason: "not a number after VA"}
 
+// maxValueLen is the biggest value size of memcached (the upper bound of its option -I)
+const maxValueLen = 1 << 30
+
+var errValueTooLong = ErrBrokenPipe{reason: "value length after VA is too big"}
+
 func (r *responseReader) writeResponse(data []byte) {
 	r.currentCmd.responseData = append(r.currentCmd.responseData, data...)
 }
@@ -162,6 +167,9 @@ func (r *responseReader) handleGetNum(data []byte) []byte {
 		for i := 1; i < n; i++ {
 			r.dataLen *= 10
 			r.dataLen += uint64(r.tmpData[i] - '0')
+			if r.dataLen > maxValueLen {
+				return r.setErrorAndReturn(errValueTooLong)
+			}
 		}
 
 		r.currentBinary = getByteSlice(r.dataLen)
-- 
2.43.0


From 0f0de961c21001497dfcab86dba75f2ce852feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 03/19] fix: reject values that are not followed by CRLF

---
 memcache/reader.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/memcache/reader.go b/memcache/reader.go
index c397285..8687e08 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -47,6 +47,8 @@ var errNoLFAfterCR = ErrBrokenPipe{reason: "no LF after CR"}
 
 var errNotNumberAfterVA = ErrBrokenPipe{reason: "not a number after VA"}
 
+var errNoCRLFAfterValue = ErrBrokenPipe{reason: "no CRLF after value"}
+
 // maxValueLen is the biggest value size of memcached (the upper bound of its option -I)
 const maxValueLen = 1 << 30
 
@@ -216,13 +218,22 @@ func (r *responseReader) handleBinaryData(data []byte) []byte {
 		n = r.dataLen
 	}
 
-	r.dataLen -= n
+	copied := copy(r.currentBinary[r.currentIndex:], data[:n])
+	r.currentIndex += copied
 
-	if r.currentIndex < len(r.currentBinary) {
-		copy(r.currentBinary[r.currentIndex:], data)
-		r.currentIndex += int(n)
+	// the value must be followed by CR + LF
+	for i, c := range data[copied:n] {
+		expected := byte('\r')
+		if r.dataLen == uint64(copied+i+1) {
+			expected = '\n'
+		}
+		if c != expected {
+			return r.setErrorAndReturn(errNoCRLFAfterValue)
+		}
 	}
 
+	r.dataLen -= n
+
 	if r.dataLen == 0 {
 		r.state = readerStateCompleted
 
-- 
2.43.0


From 7de6c4438a0616be33b2fa0212f35f26a13b53d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 04/19] fix: reject broken CAS values instead of looping
 forever

---
 memcache/parser.go | 45 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index f24cbe7..b04a82b 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -2,6 +2,7 @@ package memcache
 
 import (
 	"bytes"
+	"math"
 	"strings"
 )
 
@@ -131,29 +132,17 @@ func isDigit(c byte) bool {
 	return c >= '0' && c <= '9'
 }
 
-func findNumber(data []byte, index int) (uint64, int) {
-	foundIndex := -1
-	var firstChar byte
-	for i := index; i < len(data); i++ {
-		if isDigit(data[i]) {
-			foundIndex = i
-			firstChar = data[i]
-			break
+// findNumber parses the decimal number starting at *index*
+func findNumber(data []byte, index int) (num uint64, nextIndex int, ok bool) {
+	i := index
+	for ; i < len(data) && isDigit(data[i]); i++ {
+		digit := uint64(data[i] - '0')
+		if num > (math.MaxUint64-digit)/10 {
+			return 0, i, false
 		}
+		num = num*10 + digit
 	}
-
-	num := uint64(firstChar - '0')
-
-	var i int
-	for i = foundIndex + 1; i < len(data); i++ {
-		if !isDigit(data[i]) {
-			break
-		}
-		num *= 10
-		num += uint64(data[i] - '0')
-	}
-
-	return num, i // next index right after number
+	return num, i, i > index // next index right after number
 }
 
 func (p *parser) returnIfCRLF(index int, resp MGetResponse) (MGetResponse, error) {
@@ -181,7 +170,10 @@ func (p *parser) parseMGetFlags(index int, resp *MGetResponse) (int, error) {
 			continue
 		}
 		if p.data[i] == 'c' {
-			cas, nextIndex := findNumber(p.data, i+1)
+			cas, nextIndex, ok := findNumber(p.data, i+1)
+			if !ok {
+				return 0, ErrInvalidMGet
+			}
 			resp.CAS = cas
 			i = nextIndex - 1
 			continue
@@ -213,7 +205,14 @@ func (p *parser) readMGetHD() (MGetResponse, error) {
 }
 
 func (p *parser) readMGetVA() (MGetResponse, error) {
-	_, index := findNumber(p.data, 3)
+	index := 2
+	for index < len(p.data) && p.data[index] == ' ' {
+		index++
+	}
+	_, index, ok := findNumber(p.data, index)
+	if !ok {
+		return MGetResponse{}, ErrInvalidMGet
+	}
 
 	resp := MGetResponse{
 		Type: MGetResponseTypeVA,
-- 
2.43.0


From fd90e3f4f1a131acf50064d42837f480e9ac2f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 05/19] fix: handle short and empty error replies

---
 memcache/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/memcache/parser.go b/memcache/parser.go
index b04a82b..521762b 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -245,6 +245,10 @@ const (
 
 func (p *parser) readError(errType errorType) error {
 	index := len(serverErrorPrefix)
+	if p.data[index] != ' ' {
+		return ErrInvalidResponse
+	}
+
 	crlfIndex := p.findCRLF(index + 1)
 	if crlfIndex < 0 {
 		return ErrInvalidResponse
@@ -424,6 +428,10 @@ func (p *parser) readFlushAllWithCRLF() error {
 }
 
 func (p *parser) readFlushAll() error {
+	if len(p.data) < 4 {
+		return ErrInvalidResponse
+	}
+
 	if p.prefixEqual('O', 'K') {
 		return p.readFlushAllWithCRLF()
 	}
-- 
2.43.0


From ee9ca6abeea7ea1f0dba9208d15ccbe38c6086b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 06/19] fix: return the client error sent to the command

---
 memcache/pipeline.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memcache/pipeline.go b/memcache/pipeline.go
index 3fc564e..9a7f34b 100644
--- a/memcache/pipeline.go
+++ b/memcache/pipeline.go
@@ -137,6 +137,11 @@ func parseCommandsForSingleCommandData(
 			if IsServerError(cmd.err) {
 				continue
 			}
+			if _, ok := cmd.err.(ErrClientError); ok {
+				// keep the message of this command, even if the connection already has another error
+				_ = currentCmd.conn.setLastErrorAndClose(cmd.err)
+				continue
+			}
 			cmd.err = currentCmd.conn.setLastErrorAndClose(cmd.err)
 		}
 	}
-- 
2.43.0


From 9170b9aa350501413eeed52f3d777c404437e699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 07/19] fix: fail the commands after an invalid response

---
 memcache/pipeline.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/memcache/pipeline.go b/memcache/pipeline.go
index 9a7f34b..ba3a368 100644
--- a/memcache/pipeline.go
+++ b/memcache/pipeline.go
@@ -107,7 +107,7 @@ func parseCommandsForSingleCommandData(
 		return
 	}
 
-	for _, cmd := range pipelineCommands {
+	for index, cmd := range pipelineCommands {
 		switch cmd.cmdType {
 		case commandTypeMGet:
 			resp, err := ps.readMGet()
@@ -142,7 +142,13 @@ func parseCommandsForSingleCommandData(
 				_ = currentCmd.conn.setLastErrorAndClose(cmd.err)
 				continue
 			}
-			cmd.err = currentCmd.conn.setLastErrorAndClose(cmd.err)
+
+			// the responses of the following commands can not be located any more
+			err := currentCmd.conn.setLastErrorAndClose(cmd.err)
+			for _, failedCmd := range pipelineCommands[index:] {
+				failedCmd.err = err
+			}
+			return
 		}
 	}
 }
-- 
2.43.0


From 2b48cdd7b7ba3c154db0a426054e806b2a6fa7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 08/19] fix: do not hold the connection lock while the receive
 queue is full

---
 memcache/sender.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index 2f0a02e..5d8433f 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -221,38 +221,47 @@ func clearCmdList(cmdList []*commandListData) []*commandListData {
 	return cmdList[:0]
 }
 
-func (s *sender) writeAndFlush() {
-	if s.conn.getLastErrorInternal() != nil {
+func (s *sender) writeAndFlush(conn *senderConnection) {
+	if conn.getLastErrorInternal() != nil {
 		return
 	}
 
 	for _, cmd := range s.tmpBuf {
-		if err := cmd.writeToWriter(s.conn.writer); err != nil {
-			_ = s.conn.setLastErrorAndCloseUnsafe(err)
+		if err := cmd.writeToWriter(conn.writer); err != nil {
+			_ = conn.setLastErrorAndCloseUnsafe(err)
 			return
 		}
 	}
 
-	err := s.conn.writer.Flush()
+	err := conn.writer.Flush()
 	if err != nil {
-		_ = s.conn.setLastErrorAndCloseUnsafe(err)
+		_ = conn.setLastErrorAndCloseUnsafe(err)
 		return
 	}
 }
 
+func (s *sender) getCurrentConn() *senderConnection {
+	s.connMut.Lock()
+	defer s.connMut.Unlock()
+	return s.conn
+}
+
 func (s *sender) sendToWriter() (closed bool) {
 	s.tmpBuf, closed = s.selector.readCommands(s.tmpBuf)
 
-	s.connMut.Lock()
-
+	conn := s.getCurrentConn()
 	for _, cmd := range s.tmpBuf {
-		cmd.conn = s.conn
+		cmd.conn = conn
 	}
 
+	// must not hold connMut here: the receiver needs it for dropping a broken connection,
+	// and push waits for the receiver when its queue is full
 	s.recv.push(s.tmpBuf)
 
+	s.connMut.Lock()
+
 	// flush to tcp socket
-	s.writeAndFlush()
+	s.writeAndFlush(conn)
 
 	s.tmpBuf = clearCmdList(s.tmpBuf)
 	s.connMut.Unlock()
-- 
2.43.0


From 9c02937c5ca2eb3eae8762b8620ecb8e10a58482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 09/19] fix: do not answer commands with data read on the
 previous connection

---
 memcache/core.go   | 11 +++++++++++
 memcache/reader.go |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/memcache/core.go b/memcache/core.go
index 07bc230..bbb0aa1 100644
--- a/memcache/core.go
+++ b/memcache/core.go
@@ -17,6 +17,8 @@ type coreConnection struct {
 	// job data
 	msgData []byte
 	cmdList *cmdListReader
+
+	readConn *senderConnection // connection that responseReader has data of
 }
 
 func newCoreConnection(nc netconn.NetConn, options *memcacheOptions) *coreConnection {
@@ -78,6 +80,7 @@ func (c *coreConnection) recvSingleCommandData(inc *increaseReadCount) error {
 	}
 
 	current := c.cmdList.current()
+	c.resetReaderIfNewConn(current.conn)
 	c.responseReader.setCurrentCommand(current)
 
 	for count := 0; count < current.cmdCount; count++ {
@@ -92,6 +95,14 @@ func (c *coreConnection) recvSingleCommandData(inc *increaseReadCount) error {
 	return nil
 }
 
+// resetReaderIfNewConn drops the data that was read on the previous connection
+func (c *coreConnection) resetReaderIfNewConn(conn *senderConnection) {
+	if c.readConn != conn {
+		c.readConn = conn
+		c.responseReader.reset()
+	}
+}
+
 type increaseReadCount struct {
 	increased bool
 }
diff --git a/memcache/reader.go b/memcache/reader.go
index 8687e08..86ccc56 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -321,4 +321,6 @@ func (r *responseReader) reset() {
 	r.tmpData = r.tmpData[:]
 	r.state = readerStateInit
 	r.lastErr = nil
+	r.currentBinary = nil
+	r.remainingData = nil
 }
-- 
2.43.0


From c581ac263d499b9f798702ef060b9636a0690c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 10/19] fix: complete all batches of a pipeline flushed after
 Close

---
 memcache/sender.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index 5d8433f..b4eb124 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -271,8 +271,15 @@ func (s *sender) sendToWriter() (closed bool) {
 
 func (s *sender) publish(cmd *commandListData) {
 	closed := s.sendBuf.push(cmd)
-	if closed {
+	if !closed {
+		return
+	}
+
+	// complete every batch of the pipeline
+	for cmd != nil {
+		next := cmd.sibling
 		cmd.setCompleted(ErrConnClosed)
+		cmd = next
 	}
 }
 
-- 
2.43.0


From 4d6c61306f3348f36c116880d154b00dc4c0600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 11/19] fix: do not dial again when Close interrupts the retry
 wait

---
 memcache/conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/memcache/conn.go b/memcache/conn.go
index 8ddb26d..c9ed215 100644
--- a/memcache/conn.go
+++ b/memcache/conn.go
@@ -67,7 +67,9 @@ func newConn(
 			if err != nil {
 				opts.dialErrorLogger(err)
 
-				sleepWithCloseChan(opts.retryDuration, c.closeChan)
+				if closed := sleepWithCloseChan(opts.retryDuration, c.closeChan); closed {
+					return
+				}
 				continue
 			}
 
-- 
2.43.0


From 1287eb36d4052c44b4be7437694c89052c124ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 12/19] fix: close a failed connection without waiting for the
 sender

---
 memcache/sender.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index b4eb124..4429e0a 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -56,12 +56,6 @@ type senderLastError struct {
 	err error
 }
 
-func (c *senderConnection) setLastErrorInternal(err error) {
-	c.lastErr.Store(&senderLastError{
-		err: err,
-	})
-}
-
 func (c *senderConnection) getLastErrorInternal() error {
 	v := c.lastErr.Load()
 	if v == nil {
@@ -70,21 +64,28 @@ func (c *senderConnection) getLastErrorInternal() error {
 	return v.err
 }
 
-func (c *senderConnection) setLastErrorAndCloseUnsafe(err error) error {
-	lastErr := c.getLastErrorInternal()
-	if lastErr != nil {
-		return lastErr
+func (c *senderConnection) closeWithError(err error) error {
+	if !c.lastErr.CompareAndSwap(nil, &senderLastError{err: err}) {
+		return c.getLastErrorInternal()
 	}
-	c.setLastErrorInternal(err)
 	_ = c.closer.Close()
-	c.sender.ncErrorCond.Signal()
 	return err
 }
 
+func (c *senderConnection) setLastErrorAndCloseUnsafe(err error) error {
+	resultErr := c.closeWithError(err)
+	c.sender.ncErrorCond.Signal()
+	return resultErr
+}
+
 func (c *senderConnection) setLastErrorAndClose(err error) error {
+	// close before locking connMut, the sender may hold it while writing to this connection
+	resultErr := c.closeWithError(err)
+
 	c.sender.connMut.Lock()
-	resultErr := c.setLastErrorAndCloseUnsafe(err)
+	c.sender.ncErrorCond.Signal()
 	c.sender.connMut.Unlock()
+
 	return resultErr
 }
 
-- 
2.43.0


From bce5fb915d57b17b6f9534e77b162e85423433cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 13/19] fix: report a truncated key dump as an error

---
 memcache/stats/parser.go | 9 +++++++++
 memcache/stats/stats.go  | 7 ++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/memcache/stats/parser.go b/memcache/stats/parser.go
index 6afa584..212dc67 100644
--- a/memcache/stats/parser.go
+++ b/memcache/stats/parser.go
@@ -19,6 +19,15 @@ func newStatsParser(scanner *bufio.Scanner) *statsParser {
 	}
 }
 
+// scanCompleteLines is the same as bufio.ScanLines, except that a last line without end-of-line is an error
+func scanCompleteLines(data []byte, atEOF bool) (advance int, token []byte, err error) {
+	advance, token, err = bufio.ScanLines(data, false)
+	if err == nil && advance == 0 && atEOF && len(data) > 0 {
+		return 0, nil, io.ErrUnexpectedEOF
+	}
+	return advance, token, err
+}
+
 // Error ...
 type Error struct {
 	Msg string
diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index d93c031..17e1c9f 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -2,6 +2,7 @@ package stats
 
 import (
 	"bufio"
+	"io"
 	"log"
 	"net/url"
 	"strconv"
@@ -61,6 +62,7 @@ func New(addr string, options ...Option) *Client {
 	}
 
 	scanner := bufio.NewScanner(nc.Reader)
+	scanner.Split(scanCompleteLines)
 
 	return &Client{
 		nc:      nc,
@@ -498,7 +500,10 @@ func (c *Client) MetaDumpAll(scanFunc func(key MetaDumpKey)) error {
 		}
 		scanFunc(key)
 	}
-	return c.scanner.Err()
+	if err := c.scanner.Err(); err != nil {
+		return err
+	}
+	return io.ErrUnexpectedEOF // connection was closed before END
 }
 
 type statItem struct {
-- 
2.43.0


From 14b70e16c0883250d9b186c24bb716d7dbc6e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:24 +0000
Subject: [PATCH 14/19] fix: do not take the rest of a broken statistics
 response for the next one

---
 memcache/stats/parser.go | 23 ++++++++++++++
 memcache/stats/stats.go  | 66 ++++++++++++++++++++++++++++++++++------
 2 files changed, 80 insertions(+), 9 deletions(-)

diff --git a/memcache/stats/parser.go b/memcache/stats/parser.go
index 212dc67..2888f27 100644
--- a/memcache/stats/parser.go
+++ b/memcache/stats/parser.go
@@ -11,6 +11,9 @@ type statsParser struct {
 	lastErr error
 	item    statItem
 	scanner *bufio.Scanner
+
+	started   bool
+	completed bool // found the end of the response
 }
 
 func newStatsParser(scanner *bufio.Scanner) *statsParser {
@@ -44,7 +47,25 @@ func NewError(msg string) *Error {
 	}
 }
 
+// reset prepares for reading the next response
+func (p *statsParser) reset() {
+	*p = statsParser{scanner: p.scanner}
+}
+
+// isErrorReply checks for replies that the server sends in place of the whole response
+func isErrorReply(field string) bool {
+	switch field {
+	case "ERROR", "CLIENT_ERROR", "SERVER_ERROR", "BUSY":
+		return true
+	default:
+		return false
+	}
+}
+
 func (p *statsParser) next() bool {
+	isFirst := !p.started
+	p.started = true
+
 	ok := p.scanner.Scan()
 
 	p.lastErr = p.scanner.Err()
@@ -66,11 +87,13 @@ func (p *statsParser) next() bool {
 	}
 
 	if fields[0] == "END" {
+		p.completed = true
 		p.item = statItem{}
 		return false
 	}
 
 	if fields[0] != "STAT" {
+		p.completed = isFirst && isErrorReply(fields[0])
 		p.lastErr = NewError("line not begin with STAT")
 		return false
 	}
diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index 17e1c9f..f3fbf62 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -18,6 +18,10 @@ type Client struct {
 	nc      netconn.NetConn
 	scanner *bufio.Scanner
 	parser  *statsParser
+
+	// brokenErr is set when the end of a response was not found,
+	// what comes later can not be told apart from the rest of that response
+	brokenErr error
 }
 
 type dialConfig struct {
@@ -78,6 +82,11 @@ type GeneralStats struct {
 }
 
 func (c *Client) writeCommand(cmd string) error {
+	if c.brokenErr != nil {
+		return c.brokenErr
+	}
+	c.parser.reset()
+
 	_, err := c.nc.Writer.Write([]byte(cmd))
 	if err != nil {
 		return err
@@ -86,6 +95,23 @@ func (c *Client) writeCommand(cmd string) error {
 	return c.nc.Writer.Flush()
 }
 
+// endResponse returns the result error after all lines of the response were read
+func (c *Client) endResponse() error {
+	err := c.parser.getError()
+	if err != nil && !c.parser.completed {
+		c.brokenErr = err
+	}
+	return err
+}
+
+// skipResponse reads the rest of the response, for the next call to not read from it
+func (c *Client) skipResponse() {
+	for c.parser.next() {
+		continue
+	}
+	_ = c.endResponse()
+}
+
 // GetGeneralStats ...
 func (c *Client) GetGeneralStats() (GeneralStats, error) {
 	if err := c.writeCommand("stats\r\n"); err != nil {
@@ -100,6 +126,7 @@ func (c *Client) GetGeneralStats() (GeneralStats, error) {
 		case "pid":
 			pid, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.skipResponse()
 				return GeneralStats{}, err
 			}
 			result.PID = pid
@@ -107,6 +134,7 @@ func (c *Client) GetGeneralStats() (GeneralStats, error) {
 		case "uptime":
 			uptime, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.skipResponse()
 				return GeneralStats{}, err
 			}
 			result.Uptime = uptime
@@ -115,7 +143,7 @@ func (c *Client) GetGeneralStats() (GeneralStats, error) {
 		}
 	}
 
-	return result, c.parser.getError()
+	return result, c.endResponse()
 }
 
 // SingleSlabStats ...
@@ -214,6 +242,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		case "active_slabs":
 			active, err := strconv.ParseUint(item.value, 10, 32)
 			if err != nil {
+				c.skipResponse()
 				return SlabsStats{}, err
 			}
 			result.ActiveSlabs = uint32(active)
@@ -221,6 +250,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		case "total_malloced":
 			totalMalloced, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.skipResponse()
 				return SlabsStats{}, err
 			}
 			result.TotalMalloced = totalMalloced
@@ -228,12 +258,13 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		default:
 			err := result.parseSlabStat(item)
 			if err != nil {
+				c.skipResponse()
 				return SlabsStats{}, err
 			}
 		}
 	}
 
-	return result, c.parser.getError()
+	return result, c.endResponse()
 }
 
 // SlabItemsStats ...
@@ -396,11 +427,12 @@ func (c *Client) GetSlabItemsStats() (SlabItemsStats, error) {
 		item := c.parser.getItem()
 		err := result.parseSlabItemStat(item)
 		if err != nil {
+			c.skipResponse()
 			return SlabItemsStats{}, err
 		}
 	}
 
-	return result, c.parser.getError()
+	return result, c.endResponse()
 }
 
 // MetaDumpKey ...
@@ -488,22 +520,38 @@ func (c *Client) MetaDumpAll(scanFunc func(key MetaDumpKey)) error {
 		return err
 	}
 
-	for c.scanner.Scan() {
+	var firstErr error
+
+	for isFirst := true; c.scanner.Scan(); isFirst = false {
 		line := c.scanner.Text()
 		if line == "END" {
-			return nil
+			return firstErr
+		}
+		if firstErr != nil {
+			continue // skip the rest of the response
 		}
 
 		key, err := parseMetaDumpKey(line)
 		if err != nil {
-			return err
+			firstWord, _, _ := strings.Cut(line, " ")
+			if isFirst && isErrorReply(firstWord) {
+				return err
+			}
+			firstErr = err
+			continue
 		}
 		scanFunc(key)
 	}
-	if err := c.scanner.Err(); err != nil {
-		return err
+
+	c.brokenErr = c.scanner.Err()
+	if c.brokenErr == nil {
+		c.brokenErr = io.ErrUnexpectedEOF // connection was closed before END
+	}
+
+	if firstErr != nil {
+		return firstErr
 	}
-	return io.ErrUnexpectedEOF // connection was closed before END
+	return c.brokenErr
 }
 
 type statItem struct {
-- 
2.43.0


From 1c86b126c7803c9cee3015606698a717cf3008d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 15/19] fix: reject dump lines without a key

---
 memcache/stats/stats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index f3fbf62..3c22b72 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -511,6 +511,10 @@ func parseMetaDumpKey(line string) (MetaDumpKey, error) {
 			result.Size = uint32(size)
 		}
 	}
+
+	if len(result.Key) == 0 {
+		return MetaDumpKey{}, NewError("missing key")
+	}
 	return result, nil
 }
 
-- 
2.43.0


From 40832c57e2bd707b94b6cec11ec93826760801c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 16/19] fix: the authentication answer must come within the
 dial timeout

---
 memcache/netconn/auth.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/memcache/netconn/auth.go b/memcache/netconn/auth.go
index 657e15e..d2edd2f 100644
--- a/memcache/netconn/auth.go
+++ b/memcache/netconn/auth.go
@@ -48,6 +48,14 @@ func (a *PasswordAuth) GetDialFunc(dialFunc DialFunc) DialFunc {
 			return nil, err
 		}
 
+		// the server must answer within the dial timeout
+		if timeout > 0 {
+			if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
+				_ = conn.Close()
+				return nil, err
+			}
+		}
+
 		n := len(a.username) + len(a.password) + 1
 		msg := fmt.Sprintf("set memcached_auth 0 0 %d\r\n%s %s\r\n", n, a.username, a.password)
 
@@ -68,6 +76,11 @@ func (a *PasswordAuth) GetDialFunc(dialFunc DialFunc) DialFunc {
 			return nil, ErrInvalidUsernamePassword
 		}
 
+		if err := conn.SetDeadline(time.Time{}); err != nil {
+			_ = conn.Close()
+			return nil, err
+		}
+
 		return conn, nil
 	}
 }
-- 
2.43.0


From 5c50405447aaeb6420785670803a8b2710791641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:12 +0000
Subject: [PATCH 17/19] fix: every concurrent Close waits for the health check
 goroutine

---
 memcache/health.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcache/health.go b/memcache/health.go
index 8aafa72..81aa6b2 100644
--- a/memcache/health.go
+++ b/memcache/health.go
@@ -83,6 +83,6 @@ func (s *healthCheckService) shutdown() {
 	prevClosed := s.closed.Swap(true)
 	if !prevClosed {
 		close(s.closeCh)
-		s.wg.Wait()
 	}
+	s.wg.Wait()
 }
-- 
2.43.0


From efaba1c55746d7fd8a919fa200e1e81606d216ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:14 +0000
Subject: [PATCH 18/19] fix: complete commands and reconnect when a connection
 fails with ErrConnClosed

---
 memcache/core.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/memcache/core.go b/memcache/core.go
index bbb0aa1..cef7c74 100644
--- a/memcache/core.go
+++ b/memcache/core.go
@@ -1,7 +1,6 @@
 package memcache
 
 import (
-	"errors"
 	"sync"
 
 	"github.com/QuangTung97/go-memcache/memcache/netconn"
@@ -58,14 +57,15 @@ func (c *coreConnection) recvCommands() {
 	defer c.wg.Done()
 
 	for {
+		cmdLen := c.cmdList.readIfExhausted()
+		if cmdLen == 0 { // closed
+			c.sender.shutdown()
+			return
+		}
+
 		var inc increaseReadCount
 		err := c.recvSingleCommandData(&inc)
 		if err != nil {
-			if errors.Is(err, ErrConnClosed) { // cmd len == 0
-				c.sender.shutdown()
-				return
-			}
-
 			c.responseReader.reset()
 		}
 		c.cmdList.current().setCompleted(err)
@@ -74,11 +74,6 @@ func (c *coreConnection) recvCommands() {
 }
 
 func (c *coreConnection) recvSingleCommandData(inc *increaseReadCount) error {
-	cmdLen := c.cmdList.readIfExhausted()
-	if cmdLen == 0 {
-		return ErrConnClosed
-	}
-
 	current := c.cmdList.current()
 	c.resetReaderIfNewConn(current.conn)
 	c.responseReader.setCurrentCommand(current)
-- 
2.43.0


From 0108e19eeffbfda68845c15aefc7fd5a671072a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:14 +0000
Subject: [PATCH 19/19] fix: close the connection when keep-alive can not be
 set

---
 memcache/netconn/netconn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memcache/netconn/netconn.go b/memcache/netconn/netconn.go
index 2a456a3..26a1a60 100644
--- a/memcache/netconn/netconn.go
+++ b/memcache/netconn/netconn.go
@@ -109,9 +109,11 @@ func DialNewConn(addr string, options ...Option) (NetConn, error) {
 	tcpNetConn, ok := nc.(*net.TCPConn)
 	if ok {
 		if err := tcpNetConn.SetKeepAlive(true); err != nil {
+			_ = nc.Close()
 			return NetConn{}, err
 		}
 		if err := tcpNetConn.SetKeepAlivePeriod(conf.tcpKeepAliveDuration); err != nil {
+			_ = nc.Close()
 			return NetConn{}, err
 		}
 	}
-- 
2.43.0

