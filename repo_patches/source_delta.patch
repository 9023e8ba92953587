From f72a85383e53eeeff9a88b2fd60a2110910519fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 01/57] fix: quicklist lookup from the tail used the wrong page
 offset

A shadowed variable left the page offset at 0, so addressing an element in the
second half of a list of more than one page panicked or hit the wrong element.
---
 datastruct/quicklist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 19ce289..68e58c9 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -253,7 +253,7 @@ func (q *Quicklist) get(index int) *QuicklistIterator {
 			pageIndex += pageLen
 		}
 	} else {
-		pageIndex := q.length
+		pageIndex = q.length
 		for node = q.data.Back(); node != nil; node = node.Prev() {
 			pageLen := node.Value.(quicklistPage).Len()
 			if pageIndex -= pageLen; pageIndex <= index {
-- 
2.43.0


From 122038697ceab0296fa982340831430e8095849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 02/57] fix: clamp the end of a quicklist range before
 allocating for it

LRANGE with a huge stop index made the allocation panic and ended the server.
---
 datastruct/quicklist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 68e58c9..1472ba0 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -201,6 +201,10 @@ func (q *Quicklist) Range(start, stop int) []any {
 		return nil
 	}
 
+	if stop >= q.length {
+		stop = q.length - 1
+	}
+
 	iter := q.get(start)
 	if iter == nil {
 		return nil
-- 
2.43.0


From 8729e578c5723b02470f879aef335c5524f124c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:20 +0000
Subject: [PATCH 03/57] fix: clamp rank ranges to the skiplist length

A huge end rank made the allocation panic and ended the server; a reverse range
starting just past the end returned the head sentinel.
---
 datastruct/skiplist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 4e5b86e..3f7cdf6 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -230,6 +230,10 @@ func (s *Skiplist) GetElementByRank(rank int64) *SkiplistNode {
 // RangeByRank returns a slice of elements with rank between start and end.
 // Note that rank is 1-based because of the HEAD element.
 func (s *Skiplist) RangeByRank(start, end int64, reverse bool) []*SkiplistNode {
+	if end > s.Length {
+		end = s.Length
+	}
+
 	if start < 1 || end < 1 || start > end {
 		return nil
 	}
-- 
2.43.0


From 09f3fa86f98147a679bf0c576f2d5e685a9ae509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 04/57] fix: keep the traversed rank across levels when
 deleting a rank range

The rank restarted at 0 on every level, so ranges not starting at the first
element removed the wrong elements and corrupted the spans.
---
 datastruct/skiplist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 3f7cdf6..94422c8 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -161,8 +161,8 @@ func (s *Skiplist) DeleteRangeByRank(start, end int64) []*SkiplistNode {
 	update := make([]*SkiplistNode, maxLevel)
 	x := s.Head
 
+	rank := int64(0)
 	for i := s.Level - 1; i >= 0; i-- {
-		rank := int64(0)
 		for x.Levels[i].Forward != nil && (rank+x.Levels[i].Span) < start {
 			rank += x.Levels[i].Span
 			x = x.Levels[i].Forward
-- 
2.43.0


From ceb9b03e35900f6848b2915d439fd8cbee54830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 05/57] fix: skiplist Delete returned an element it had not
 deleted

When no element matched it returned the successor instead of nil.
---
 datastruct/skiplist.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 94422c8..2800f49 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -120,9 +120,11 @@ func (s *Skiplist) Delete(score float64, member string) *SkiplistNode {
 	x = x.Levels[0].Forward
 	if x != nil && score == x.Score && member == x.Member {
 		s.deleteNode(x, update)
+
+		return x
 	}
 
-	return x
+	return nil
 }
 
 // DeleteRangeByScore deletes all the elements with score between min and max (inclusive).
-- 
2.43.0


From 29f1b4669269c0e4e833ac05fefdf39e215d1986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:23 +0000
Subject: [PATCH 06/57] fix: skiplist rank of the empty member matched the head
 sentinel

---
 datastruct/skiplist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 2800f49..a522867 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -202,7 +202,7 @@ func (s *Skiplist) GetRank(score float64, member string) int64 {
 			x = x.Levels[i].Forward
 		}
 
-		if member == x.Member {
+		if x != s.Head && member == x.Member {
 			return rank
 		}
 	}
-- 
2.43.0


From aefccbba78fabc53db44fb4c23d3dded8248096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 07/57] fix: remove the old skiplist node when a zset score is
 updated

The node was looked up under the new score, so the old one stayed behind and the
member appeared twice.
---
 datastruct/zset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/zset.go b/datastruct/zset.go
index 35b968f..98f3b8b 100644
--- a/datastruct/zset.go
+++ b/datastruct/zset.go
@@ -27,8 +27,8 @@ func (z *Zset) Add(score float64, member string) bool {
 	element := z.Get(member)
 	if element != nil {
 		if score != element.Score {
-			element.Score = score
 			z.skiplist.Delete(element.Score, element.Member)
+			element.Score = score
 			z.skiplist.Insert(score, member)
 		}
 
-- 
2.43.0


From e5bda3c7e2501e5f143d2d9198b95b6f329d45ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 08/57] fix: use the 4-byte form of the address in Bind and
 Connect

net.ParseIP returns the 16-byte form, whose first 4 bytes are zero: every server
listened on 0.0.0.0 whatever address was configured.
---
 socket/socket.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/socket.go b/socket/socket.go
index 333ae41..13bb243 100644
--- a/socket/socket.go
+++ b/socket/socket.go
@@ -27,7 +27,7 @@ func (fd FD) Close() error {
 }
 
 func (fd FD) Connect(ip string, port uint16) error {
-	ipAddr := net.ParseIP(ip)
+	ipAddr := net.ParseIP(ip).To4()
 	if ipAddr == nil {
 		return errors.New("invalid ip address")
 	}
@@ -42,7 +42,7 @@ func (fd FD) Connect(ip string, port uint16) error {
 }
 
 func (fd FD) Bind(ip string, port uint16) error {
-	ipAddr := net.ParseIP(ip)
+	ipAddr := net.ParseIP(ip).To4()
 	if ipAddr == nil {
 		return errors.New("invalid ip address")
 	}
-- 
2.43.0


From af12148562c9029b926bb6c20eafa2e6e8a7450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:43 +0000
Subject: [PATCH 09/57] fix: releasing an unused dict iterator unblocked
 rehashing for another one

An iterator that was never advanced had not been counted, but releasing it
decremented the count while another iteration was running.
---
 datastruct/dict.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/dict.go b/datastruct/dict.go
index 0d9f611..c58f46a 100644
--- a/datastruct/dict.go
+++ b/datastruct/dict.go
@@ -63,7 +63,7 @@ func NewDictIterator(dict *Dict) *DictIterator {
 }
 
 func (di *DictIterator) Release() {
-	if di.index != -1 || di.dict.iterators != 0 {
+	if di.index != -1 {
 		di.dict.iterators--
 	}
 }
-- 
2.43.0


From 0ba9e38abfdaf4e099c08ad3563b00d09b0ce365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 10/57] fix: keep the unprocessed input when a command is done

reset dropped the whole query buffer, so every request pipelined behind the first
one in the same read was lost.
---
 server/client.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/server/client.go b/server/client.go
index 664b77e..8573e72 100644
--- a/server/client.go
+++ b/server/client.go
@@ -196,8 +196,6 @@ func (c *Client) free() {
 }
 
 func (c *Client) reset() {
-	c.queryBuf = nil
-	c.queryLen = 0
 	c.cmdType = CommandTypeUnknown
 	c.args = nil
 	c.multiBulkLen = 0
-- 
2.43.0


From f9904eac62e83463561ceab5934fb80d6eb3971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 11/57] fix: empty inline requests panicked and ended the
 server

---
 server/resp.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/server/resp.go b/server/resp.go
index c781c6f..68858b3 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -67,9 +67,12 @@ func processInlineBuffer(client *Client) (bool, error) {
 		return false, nil
 	}
 
-	subs := strings.Split(byteutils.B2S(client.queryBuf[1:index]), " ")
-	client.args = make([]string, len(subs))
-	copy(client.args, subs)
+	// a line with nothing behind its type byte carries no command
+	if index > 1 {
+		subs := strings.Split(byteutils.B2S(client.queryBuf[1:index]), " ")
+		client.args = make([]string, len(subs))
+		copy(client.args, subs)
+	}
 
 	client.moveToNextLineInQueryBuffer(index)
 
-- 
2.43.0


From 868e401360d5e7e943a7e31aab00f4063241639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 12/57] fix: reject missing, negative and oversized protocol
 lengths

They indexed or allocated out of range and ended the server. The argument list
now grows with the arguments received instead of being sized by the client.
---
 server/client.go |  4 ++++
 server/resp.go   | 21 ++++++++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/server/client.go b/server/client.go
index 8573e72..9d92225 100644
--- a/server/client.go
+++ b/server/client.go
@@ -54,6 +54,10 @@ func (c *Client) getCRLFIndexFromQueryBuffer() int {
 }
 
 func (c *Client) getNumFromQueryBuffer(indexCRLF int) (int, error) {
+	if indexCRLF < 2 {
+		return 0, errors.New("missing length")
+	}
+
 	return strconv.Atoi(byteutils.B2S(c.queryBuf[1:indexCRLF]))
 }
 
diff --git a/server/resp.go b/server/resp.go
index 68858b3..701cccd 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -7,7 +7,11 @@ import (
 	"github.com/pkg/errors"
 )
 
-const MaxInlineSize = 1024 * 64
+const (
+	MaxInlineSize   = 1024 * 64
+	MaxMultiBulkLen = 1024 * 1024
+	MaxBulkLen      = 1024 * 1024 * 512
+)
 
 // https://redis.io/docs/reference/protocol-spec/
 func processInputBuffer(client *Client) error {
@@ -95,6 +99,10 @@ func processBulkBuffer(client *Client) (bool, error) {
 			return false, errors.Wrap(err, "failed to get bulk length")
 		}
 
+		if num < 0 || num > MaxBulkLen {
+			return false, errors.New("invalid bulk length")
+		}
+
 		client.moveToNextLineInQueryBuffer(index)
 
 		if num == 0 {
@@ -132,6 +140,10 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			return false, errors.Wrap(err, "failed to get multi bulk length")
 		}
 
+		if num < 0 || num > MaxMultiBulkLen {
+			return false, errors.New("invalid multi bulk length")
+		}
+
 		client.moveToNextLineInQueryBuffer(index)
 
 		if num == 0 {
@@ -139,7 +151,6 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 		}
 
 		client.multiBulkLen = num
-		client.args = make([]string, num)
 	}
 
 	for client.multiBulkLen > 0 {
@@ -162,6 +173,10 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 				return false, errors.Wrap(err, "failed to get multi bulk length")
 			}
 
+			if num < 0 || num > MaxBulkLen {
+				return false, errors.New("invalid bulk length")
+			}
+
 			client.bulkLen = num
 			client.moveToNextLineInQueryBuffer(index)
 		}
@@ -175,7 +190,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			return false, errors.New("expected CRLF for end of bulk string")
 		}
 
-		client.args[len(client.args)-client.multiBulkLen] = byteutils.B2S(client.queryBuf[:index])
+		client.args = append(client.args, byteutils.B2S(client.queryBuf[:index]))
 		client.bulkLen = 0
 		client.multiBulkLen--
 
-- 
2.43.0


From 29892295dac46bdd1d9c5a9f61ee0e1a386b45e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 13/57] fix: accept empty bulk strings as arguments

Converting the empty slice panicked and ended the server, and a length of 0 was
taken for a length that had not been read yet.
---
 server/client.go |  3 ++-
 server/resp.go   | 12 +++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/server/client.go b/server/client.go
index 9d92225..99379b2 100644
--- a/server/client.go
+++ b/server/client.go
@@ -45,6 +45,7 @@ func NewClient(srv *Server, fd socket.FD) *Client {
 		db:         srv.dbs[0],
 		fd:         fd,
 		queryBuf:   make([]byte, maxBulk),
+		bulkLen:    bulkLenUnknown,
 		replayHead: list.New(),
 	}
 }
@@ -203,5 +204,5 @@ func (c *Client) reset() {
 	c.cmdType = CommandTypeUnknown
 	c.args = nil
 	c.multiBulkLen = 0
-	c.bulkLen = 0
+	c.bulkLen = bulkLenUnknown
 }
diff --git a/server/resp.go b/server/resp.go
index 701cccd..40854d4 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -11,6 +11,8 @@ const (
 	MaxInlineSize   = 1024 * 64
 	MaxMultiBulkLen = 1024 * 1024
 	MaxBulkLen      = 1024 * 1024 * 512
+
+	bulkLenUnknown = -1 // the length of the next bulk string has not been read yet
 )
 
 // https://redis.io/docs/reference/protocol-spec/
@@ -84,7 +86,7 @@ func processInlineBuffer(client *Client) (bool, error) {
 }
 
 func processBulkBuffer(client *Client) (bool, error) {
-	if client.bulkLen == 0 {
+	if client.bulkLen == bulkLenUnknown {
 		index := client.getCRLFIndexFromQueryBuffer()
 		if index == -1 {
 			if client.queryLen > MaxInlineSize {
@@ -119,7 +121,7 @@ func processBulkBuffer(client *Client) (bool, error) {
 	client.args = append(client.args, byteutils.B2S(client.queryBuf[0:client.bulkLen]))
 	client.moveToNextLineInQueryBuffer(client.bulkLen)
 
-	client.bulkLen = 0
+	client.bulkLen = bulkLenUnknown
 
 	return true, nil
 }
@@ -154,7 +156,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 	}
 
 	for client.multiBulkLen > 0 {
-		if client.bulkLen == 0 {
+		if client.bulkLen == bulkLenUnknown {
 			index := client.getCRLFIndexFromQueryBuffer()
 			if index == -1 {
 				if client.queryLen > MaxInlineSize {
@@ -190,8 +192,8 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			return false, errors.New("expected CRLF for end of bulk string")
 		}
 
-		client.args = append(client.args, byteutils.B2S(client.queryBuf[:index]))
-		client.bulkLen = 0
+		client.args = append(client.args, string(client.queryBuf[:index]))
+		client.bulkLen = bulkLenUnknown
 		client.multiBulkLen--
 
 		client.moveToNextLineInQueryBuffer(index)
-- 
2.43.0


From 944d36e3e982a45232024a7f191e761fdbc50b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 14/57] fix: wait for the CRLF of a bulk string before checking
 it

A request split just before or inside that CRLF was refused, or panicked at the
end of the buffer.
---
 server/resp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/resp.go b/server/resp.go
index 40854d4..d7bcfe2 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -183,7 +183,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			client.moveToNextLineInQueryBuffer(index)
 		}
 
-		if client.queryLen < client.bulkLen {
+		if client.queryLen < client.bulkLen+2 {
 			return false, nil
 		}
 
-- 
2.43.0


From fd22b400807bbddaf3d4d125c55c629e249f94ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 15/57] fix: SELECT with a negative index panicked and ended
 the server

---
 server/commandconnection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/commandconnection.go b/server/commandconnection.go
index f3cbddc..ed66966 100644
--- a/server/commandconnection.go
+++ b/server/commandconnection.go
@@ -12,7 +12,7 @@ func selectCommand(client *Client) error {
 		return client.addReplyError(err.Error())
 	}
 
-	if dbIndex >= len(client.srv.dbs) {
+	if dbIndex < 0 || dbIndex >= len(client.srv.dbs) {
 		return client.addReplyError("invalid db index")
 	}
 
-- 
2.43.0


From 17414f42c117ee4eab4ead863c0321ddce2e467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 16/57] fix: keep error replies on one line

Error messages quote arguments; a CR or LF in them broke the reply framing.
---
 server/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/client.go b/server/client.go
index 99379b2..5970e4e 100644
--- a/server/client.go
+++ b/server/client.go
@@ -100,6 +100,9 @@ func (c *Client) addReplyInt(num int64) error {
 }
 
 func (c *Client) addReplyError(err string) error {
+	// the message may quote client input, which must not break the reply framing
+	err = strings.NewReplacer("\r", " ", "\n", " ").Replace(err)
+
 	return c.addReplyStringf("-ERR %s\r\n", err)
 }
 
@@ -139,7 +142,7 @@ func (c *Client) addReplyZsetElements(elements []*datastruct.ZsetElement, withSc
 		if strings.EqualFold(c.args[withScoreIndex], "WITHSCORES") {
 			withScore = true
 		} else {
-			return c.addReplyError("invalid option: %s" + c.args[withScoreIndex])
+			return c.addReplyError("invalid option: " + c.args[withScoreIndex])
 		}
 	}
 
-- 
2.43.0


From b47d2e9b49296d640f60297a1799e30a50b05b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 17/57] fix: ZADD with an invalid score left a partial update
 behind

Elements before the invalid score were added, and an absent key was created
empty, although the reply was an error.
---
 server/commandzset.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/server/commandzset.go b/server/commandzset.go
index 7c61771..8a9bc44 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -15,6 +15,17 @@ func zAddCommand(client *Client) error {
 
 	key := client.args[1]
 
+	// check all scores before changing anything
+	scores := make([]float64, 0, len(client.args)/2-1)
+	for i := 2; i < len(client.args); i += 2 {
+		score, err := strconv.ParseFloat(client.args[i], 64)
+		if err != nil {
+			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
+		}
+
+		scores = append(scores, score)
+	}
+
 	zset, err := getZset(client, key)
 	if err != nil {
 		return client.addReplyError(err.Error())
@@ -22,13 +33,8 @@ func zAddCommand(client *Client) error {
 
 	var created int64
 	for i := 2; i < len(client.args); i += 2 {
-		score, err := strconv.ParseFloat(client.args[i], 64)
-		if err != nil {
-			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
-		}
-
 		member := client.args[i+1]
-		if zset.Add(score, member) {
+		if zset.Add(scores[i/2-1], member) {
 			created++
 		}
 
-- 
2.43.0


From 5fc3cbc17989add8e261c9ea01803ca8c827c69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 18/57] fix: refuse NaN as a sorted set score or bound

A NaN score broke the order of the skiplist, so the member could not be found or
removed any more and later range queries panicked.
---
 server/commandzset.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/server/commandzset.go b/server/commandzset.go
index 8a9bc44..6919533 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/IfanTsai/metis/database"
@@ -18,7 +19,7 @@ func zAddCommand(client *Client) error {
 	// check all scores before changing anything
 	scores := make([]float64, 0, len(client.args)/2-1)
 	for i := 2; i < len(client.args); i += 2 {
-		score, err := strconv.ParseFloat(client.args[i], 64)
+		score, err := parseScore(client.args[i])
 		if err != nil {
 			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
 		}
@@ -85,12 +86,12 @@ func zScoreCommand(client *Client) error {
 func zCountCommand(client *Client) error {
 	key := client.args[1]
 
-	min, err := strconv.ParseFloat(client.args[2], 64)
+	min, err := parseScore(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid min: %s, error: %v", client.args[2], err)
 	}
 
-	max, err := strconv.ParseFloat(client.args[3], 64)
+	max, err := parseScore(client.args[3])
 	if err != nil {
 		return client.addReplyErrorf("invalid max: %s, error: %v", client.args[3], err)
 	}
@@ -139,12 +140,12 @@ func zRangeCommand(client *Client) error {
 func zRangeByScoreCommand(client *Client) error {
 	key := client.args[1]
 
-	min, err := strconv.ParseFloat(client.args[2], 64)
+	min, err := parseScore(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[2], err)
 	}
 
-	max, err := strconv.ParseFloat(client.args[3], 64)
+	max, err := parseScore(client.args[3])
 	if err != nil {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[3], err)
 	}
@@ -217,12 +218,12 @@ func zRemRangeByRankCommand(client *Client) error {
 func zRemRangeByScoreCommand(client *Client) error {
 	key := client.args[1]
 
-	min, err := strconv.ParseFloat(client.args[2], 64)
+	min, err := parseScore(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[2], err)
 	}
 
-	max, err := strconv.ParseFloat(client.args[3], 64)
+	max, err := parseScore(client.args[3])
 	if err != nil {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[3], err)
 	}
@@ -242,6 +243,20 @@ func zRemRangeByScoreCommand(client *Client) error {
 	return client.addReplyInt(int64(len(deletedElements)))
 }
 
+// parseScore parses a score or score bound. NaN has no place in the order of scores and is refused.
+func parseScore(str string) (float64, error) {
+	score, err := strconv.ParseFloat(str, 64)
+	if err != nil {
+		return 0, err
+	}
+
+	if math.IsNaN(score) {
+		return 0, errors.New("not a valid float")
+	}
+
+	return score, nil
+}
+
 func getZset(client *Client, key string) (*datastruct.Zset, error) {
 	dict := client.db.Dict
 	value := dict.Get(key)
-- 
2.43.0


From d6f5fc771934a8c09d2014a9e1173d365baa133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 19/57] fix: SUNION ignored the other sets when the first key
 did not exist

---
 server/commandset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/commandset.go b/server/commandset.go
index 6c0a129..2ed9d56 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -179,11 +179,11 @@ func sInterCommand(client *Client) error {
 func sUnionCommand(client *Client) error {
 	set, err := getSetIfExist(client, client.args[1])
 	if err != nil {
-		if errors.Is(err, errNotExist) {
-			return client.addReplyEmpty()
+		if !errors.Is(err, errNotExist) {
+			return client.addReplyError(err.Error())
 		}
 
-		return client.addReplyError(err.Error())
+		set = datastruct.NewSet(&database.DictType{})
 	}
 
 	for i := 2; i < len(client.args); i++ {
-- 
2.43.0


From b77691b55dc343d7394b468f373804b26b9daada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 20/57] fix: writes to an expired key went to its stale value

Pushing, adding or setting a field checked no deadline: the write was merged with
expired elements and vanished with them at the next read.
---
 server/commandhash.go | 5 +++++
 server/commandlist.go | 5 +++++
 server/commandset.go  | 5 +++++
 server/commandzset.go | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/server/commandhash.go b/server/commandhash.go
index bc5bb8d..8da466a 100644
--- a/server/commandhash.go
+++ b/server/commandhash.go
@@ -130,6 +130,11 @@ func hLenCommand(client *Client) error {
 }
 
 func getHash(client *Client, key string) (*datastruct.Dict, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandlist.go b/server/commandlist.go
index d1a5a8e..bf91968 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -157,6 +157,11 @@ func lRangeCommand(client *Client) error {
 }
 
 func getQuickList(client *Client, key string) (*datastruct.Quicklist, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandset.go b/server/commandset.go
index 2ed9d56..3b3ebd6 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -203,6 +203,11 @@ func sUnionCommand(client *Client) error {
 }
 
 func getSet(client *Client, key string) (*datastruct.Set, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandzset.go b/server/commandzset.go
index 6919533..d8b4758 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -258,6 +258,11 @@ func parseScore(str string) (float64, error) {
 }
 
 func getZset(client *Client, key string) (*datastruct.Zset, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
-- 
2.43.0


From 91665269dcdaee068978d2641495dead66a67335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 21/57] fix: TTL of an expired key was a negative number of
 seconds

A key one second past its deadline looked like one without a deadline.
---
 server/commandkey.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/commandkey.go b/server/commandkey.go
index b4f5b19..6d2db20 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -40,6 +40,11 @@ func expireAtCommand(client *Client) error {
 func ttlCommand(client *Client) error {
 	key := client.args[1]
 
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return client.addReplyError(err.Error())
+	}
+
 	if client.db.Dict.Find(key) == nil {
 		return client.addReplyInt(-2)
 	}
-- 
2.43.0


From 3568a37c9d41f5f26077cc4098cb42f9ca2e2ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 22/57] fix: EXPIRE and EXPIREAT on an absent key left a
 deadline behind

The deadline hit a key created later under that name.
---
 server/commandkey.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/server/commandkey.go b/server/commandkey.go
index 6d2db20..90128b1 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -16,6 +16,15 @@ func expireCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
 
+	exist, err := existKey(client, key)
+	if err != nil {
+		return client.addReplyError(err.Error())
+	}
+
+	if !exist {
+		return client.addReplyInt(0)
+	}
+
 	when := time.Now().UnixMilli() + expireInt*1000
 	client.db.Expire.Set(key, when)
 	client.srv.dirty++
@@ -31,12 +40,30 @@ func expireAtCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
 
+	exist, err := existKey(client, key)
+	if err != nil {
+		return client.addReplyError(err.Error())
+	}
+
+	if !exist {
+		return client.addReplyInt(0)
+	}
+
 	client.db.Expire.Set(key, expireInt*1000)
 	client.srv.dirty++
 
 	return client.addReplyOK()
 }
 
+// existKey reports whether the key exists and has not expired.
+func existKey(client *Client, key string) (bool, error) {
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return false, err
+	}
+
+	return client.db.Dict.Find(key) != nil, nil
+}
+
 func ttlCommand(client *Client) error {
 	key := client.args[1]
 
-- 
2.43.0


From f911965e96129ee50d432c1131f547301cac831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 23/57] fix: refuse expire times that overflow the deadline

A very long time to live wrapped around and expired the key at once.
---
 server/commandkey.go    | 21 +++++++++++++++++++--
 server/commandstring.go |  3 +--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/server/commandkey.go b/server/commandkey.go
index 90128b1..0f5acf0 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -1,17 +1,19 @@
 package server
 
 import (
+	"math"
 	"regexp"
 	"strconv"
 	"time"
 
 	"github.com/IfanTsai/metis/datastruct"
+	"github.com/pkg/errors"
 )
 
 func expireCommand(client *Client) error {
 	key := client.args[1]
 
-	expireInt, err := strconv.ParseInt(client.args[2], 10, 64)
+	expireInt, err := parseExpire(client.args[2], time.Now().Unix())
 	if err != nil {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
@@ -35,7 +37,7 @@ func expireCommand(client *Client) error {
 func expireAtCommand(client *Client) error {
 	key := client.args[1]
 
-	expireInt, err := strconv.ParseInt(client.args[2], 10, 64)
+	expireInt, err := parseExpire(client.args[2], 0)
 	if err != nil {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
@@ -55,6 +57,21 @@ func expireAtCommand(client *Client) error {
 	return client.addReplyOK()
 }
 
+// parseExpire parses a number of seconds counted from base (in seconds too),
+// refusing those which would overflow a deadline in milliseconds.
+func parseExpire(str string, base int64) (int64, error) {
+	seconds, err := strconv.ParseInt(str, 10, 64)
+	if err != nil {
+		return 0, err
+	}
+
+	if limit := math.MaxInt64/1000 - base - 1; seconds > limit || seconds < -limit {
+		return 0, errors.New("invalid expire time")
+	}
+
+	return seconds, nil
+}
+
 // existKey reports whether the key exists and has not expired.
 func existKey(client *Client, key string) (bool, error) {
 	if _, err := expireIfNeeded(client, key); err != nil {
diff --git a/server/commandstring.go b/server/commandstring.go
index 7ee7178..9a998ee 100644
--- a/server/commandstring.go
+++ b/server/commandstring.go
@@ -1,7 +1,6 @@
 package server
 
 import (
-	"strconv"
 	"time"
 
 	"github.com/IfanTsai/metis/datastruct"
@@ -18,7 +17,7 @@ func setCommand(client *Client) error {
 
 func setExCommand(client *Client) error {
 	key, value := client.args[1], client.args[3]
-	expireInt, err := strconv.ParseInt(client.args[2], 10, 64)
+	expireInt, err := parseExpire(client.args[2], time.Now().Unix())
 	if err != nil {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
-- 
2.43.0


From 2c6ee0b98314f582761f9dbac28bc470e7e20899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 24/57] fix: remove the key of a collection when its last
 element is removed

The empty collection stayed listed, kept its type and deadline for whatever was
stored next, and disappeared only with a log rewrite and restart.
---
 server/command.go     |  8 ++++++++
 server/commandhash.go |  2 ++
 server/commandlist.go | 10 ++++++++--
 server/commandset.go  |  3 +++
 server/commandzset.go |  6 ++++++
 5 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/server/command.go b/server/command.go
index 207fddb..fe5f6bd 100644
--- a/server/command.go
+++ b/server/command.go
@@ -92,6 +92,14 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 	return false, nil
 }
 
+// deleteIfEmpty deletes the key of a collection which has just lost its last element.
+func deleteIfEmpty(client *Client, key string, size int64) {
+	if size == 0 {
+		_ = client.db.Dict.Delete(key)
+		_ = client.db.Expire.Delete(key)
+	}
+}
+
 func lookupCommand(name string) *command {
 	for _, cmd := range commandTable {
 		if cmd.name == name {
diff --git a/server/commandhash.go b/server/commandhash.go
index 8da466a..ab94df3 100644
--- a/server/commandhash.go
+++ b/server/commandhash.go
@@ -69,6 +69,8 @@ func hDelCommand(client *Client) error {
 		}
 	}
 
+	deleteIfEmpty(client, key, hash.Size())
+
 	return client.addReplyInt(deleted)
 }
 
diff --git a/server/commandlist.go b/server/commandlist.go
index bf91968..08f1491 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -57,7 +57,10 @@ func lPopCommand(client *Client) error {
 
 	client.srv.dirty++
 
-	return client.addReplyBulkString(list.PopFront().(string))
+	value := list.PopFront().(string)
+	deleteIfEmpty(client, key, int64(list.Len()))
+
+	return client.addReplyBulkString(value)
 }
 
 func rPopCommand(client *Client) error {
@@ -78,7 +81,10 @@ func rPopCommand(client *Client) error {
 
 	client.srv.dirty++
 
-	return client.addReplyBulkString(list.PopBack().(string))
+	value := list.PopBack().(string)
+	deleteIfEmpty(client, key, int64(list.Len()))
+
+	return client.addReplyBulkString(value)
 }
 
 func lLenCommand(client *Client) error {
diff --git a/server/commandset.go b/server/commandset.go
index 3b3ebd6..08bf9af 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -46,6 +46,8 @@ func sRemCommand(client *Client) error {
 		}
 	}
 
+	deleteIfEmpty(client, key, set.Size())
+
 	return client.addReplyInt(deleted)
 }
 
@@ -71,6 +73,7 @@ func sPopCommand(client *Client) error {
 	}
 
 	client.srv.dirty++
+	deleteIfEmpty(client, key, set.Size())
 
 	return client.addReplyBulkString(randomMember.(string))
 }
diff --git a/server/commandzset.go b/server/commandzset.go
index d8b4758..800ebcb 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -184,6 +184,8 @@ func zRemCommand(client *Client) error {
 		}
 	}
 
+	deleteIfEmpty(client, key, zset.Size())
+
 	return client.addReplyInt(int64(deleted))
 }
 
@@ -212,6 +214,8 @@ func zRemRangeByRankCommand(client *Client) error {
 	deletedElements := zset.DeleteRangeByRank(start, stop)
 	client.srv.dirty += int64(len(deletedElements))
 
+	deleteIfEmpty(client, key, zset.Size())
+
 	return client.addReplyInt(int64(len(deletedElements)))
 }
 
@@ -240,6 +244,8 @@ func zRemRangeByScoreCommand(client *Client) error {
 	deletedElements := zset.DeleteRangeByScore(min, max)
 	client.srv.dirty += int64(len(deletedElements))
 
+	deleteIfEmpty(client, key, zset.Size())
+
 	return client.addReplyInt(int64(len(deletedElements)))
 }
 
-- 
2.43.0


From 307b7330dca96766a1aa6259e8f831e55716a0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 25/57] fix: read arguments from the append only file
 completely

bufio.Reader.Read returns what is buffered, so an argument crossing the buffer
boundary was cut short and the rest of the file was misread.
---
 server/aof.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 7955918..a38a87c 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -190,12 +190,12 @@ func loadAppendOnlyFile(srv *Server) {
 			}
 
 			arg := make([]byte, argLen)
-			if _, err := reader.Read(arg); err != nil {
+			if _, err := io.ReadFull(reader, arg); err != nil {
 				log.Panic("failed to read aof file", zap.Error(err))
 			}
 
 			// discard CRLF
-			if _, err := reader.Read(make([]byte, 2)); err != nil {
+			if _, err := io.ReadFull(reader, make([]byte, 2)); err != nil {
 				log.Panic("failed to read aof file", zap.Error(err))
 			}
 
-- 
2.43.0


From 0ec7310065af8691254680d10d2bc1630f94e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 26/57] fix: loading an empty argument from the append only
 file panicked

---
 server/aof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index a38a87c..70594f5 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -199,7 +199,7 @@ func loadAppendOnlyFile(srv *Server) {
 				log.Panic("failed to read aof file", zap.Error(err))
 			}
 
-			args[i] = byteutils.B2S(arg)
+			args[i] = string(arg)
 		}
 
 		cmd := lookupCommand(strings.ToLower(args[0]))
-- 
2.43.0


From 5e96144a827ff4c72342f8f56c3b59194a7f0dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 27/57] fix: select the database again after a restart or
 rewrite of the append only file

The first commands logged after loading or rewriting a file were replayed in the
database in which that file happened to end.
---
 server/aof.go    | 3 +++
 server/server.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index 70594f5..2920dba 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -220,6 +220,9 @@ func rewriteAppendOnlyFileBackground(srv *Server) {
 		return
 	}
 
+	// the rewritten file may end in any database, so select one before the first command behind it
+	srv.aofSelectDBID = -1
+
 	tmpDBs := make([]*database.Databse, len(srv.dbs))
 	for i, db := range srv.dbs {
 		tmpDBs[i] = db.DeepCopy()
diff --git a/server/server.go b/server/server.go
index 03d4f50..f3575f4 100644
--- a/server/server.go
+++ b/server/server.go
@@ -79,6 +79,7 @@ func NewServer(config *config.Config) *Server {
 		aofRewritePercent: config.AofRewritePercent,
 		aofRewriteMinSize: config.AofRewriteMinSize,
 		aofRewriteDoneCh:  make(chan string, 1),
+		aofSelectDBID:     -1, // the file may end in any database, so select one before the first command
 	}
 
 	server.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))
-- 
2.43.0


From 56b98c4c0b594c887a163fa43cca548b58be2081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 28/57] fix: log SPOP as the removal of the member it returned

Replaying SPOP removed another random member.
---
 server/commandset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/commandset.go b/server/commandset.go
index 08bf9af..918e48d 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -75,6 +75,9 @@ func sPopCommand(client *Client) error {
 	client.srv.dirty++
 	deleteIfEmpty(client, key, set.Size())
 
+	// the append only file must remove the same member when it is replayed
+	client.args = []string{"srem", key, randomMember.(string)}
+
 	return client.addReplyBulkString(randomMember.(string))
 }
 
-- 
2.43.0


From 7cf8729896e0fb25d988f256cb53e2eb57599d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 29/57] fix: rewriting the append only file reversed lists

---
 server/aof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 2920dba..71a05b7 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -304,7 +304,7 @@ func rewriteListObject(file *os.File, key string, value *datastruct.Quicklist) e
 
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand)
 	for _, chunk := range itemsChunks {
-		aofStr := catAppendOnlyGenericCommand(append([]string{"lpush", key}, chunk...))
+		aofStr := catAppendOnlyGenericCommand(append([]string{"rpush", key}, chunk...))
 		if _, err := file.WriteString(aofStr); err != nil {
 			return errors.Wrapf(err, "failed to write qucik list to AOF file, key: %s, value: %v", key, chunk)
 		}
-- 
2.43.0


From 5ceb53e719ee55a50c737b9c0db1c7b3f719fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 30/57] fix: rewriting the append only file swapped zset scores
 and members

---
 server/aof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 71a05b7..87b6787 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -354,7 +354,7 @@ func rewriteZsetObject(file *os.File, key string, value *datastruct.Zset) error
 	items := make([]string, 0, value.Size())
 
 	for _, item := range value.RangeByRank(0, value.Size()-1, false) {
-		items = append(items, item.Member, strconv.FormatFloat(item.Score, 'f', -1, 64))
+		items = append(items, strconv.FormatFloat(item.Score, 'f', -1, 64), item.Member)
 	}
 
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand*2)
-- 
2.43.0


From 3d422715d891e33be89be547ab854fcd46613453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 31/57] fix: copy the values, not only the key table, for a
 background rewrite

Lists, hashes, sets and sorted sets were shared with the rewriting goroutine: data
races, and writes made during the rewrite were dumped and then logged again.
---
 database/database.go    | 16 ++++++++++++++++
 datastruct/quicklist.go | 11 +++++++++++
 datastruct/set.go       |  4 ++++
 datastruct/zset.go      |  9 +++++++++
 4 files changed, 40 insertions(+)

diff --git a/database/database.go b/database/database.go
index 3ef0058..0b9059b 100644
--- a/database/database.go
+++ b/database/database.go
@@ -23,5 +23,21 @@ func (db *Databse) DeepCopy() *Databse {
 	newDB.Dict = db.Dict.DeepCopy()
 	newDB.Expire = db.Expire.DeepCopy()
 
+	iter := datastruct.NewDictIterator(newDB.Dict)
+	defer iter.Release()
+
+	for entry := iter.Next(); entry != nil; entry = iter.Next() {
+		switch value := entry.Value.(type) {
+		case *datastruct.Quicklist:
+			entry.Value = value.DeepCopy()
+		case *datastruct.Dict:
+			entry.Value = value.DeepCopy()
+		case *datastruct.Set:
+			entry.Value = value.DeepCopy()
+		case *datastruct.Zset:
+			entry.Value = value.DeepCopy()
+		}
+	}
+
 	return newDB
 }
diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 1472ba0..b2c5429 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -80,6 +80,17 @@ func NewQuicklist() *Quicklist {
 	}
 }
 
+func (q *Quicklist) DeepCopy() *Quicklist {
+	newList := NewQuicklist()
+	for node := q.data.Front(); node != nil; node = node.Next() {
+		for _, v := range node.Value.(quicklistPage) {
+			newList.PushBack(v)
+		}
+	}
+
+	return newList
+}
+
 func (q *Quicklist) PushBack(v any) {
 	q.length++
 
diff --git a/datastruct/set.go b/datastruct/set.go
index 64e4d6a..fc39467 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -8,6 +8,10 @@ func NewSet(dictType DictType) *Set {
 	return &Set{dict: NewDict(dictType)}
 }
 
+func (s *Set) DeepCopy() *Set {
+	return &Set{dict: s.dict.DeepCopy()}
+}
+
 func (s *Set) Add(member any) bool {
 	return s.dict.Set(member, nil)
 }
diff --git a/datastruct/zset.go b/datastruct/zset.go
index 98f3b8b..d78588f 100644
--- a/datastruct/zset.go
+++ b/datastruct/zset.go
@@ -21,6 +21,15 @@ func NewZset(dictType DictType) *Zset {
 	}
 }
 
+func (z *Zset) DeepCopy() *Zset {
+	zset := NewZset(z.dict.DictType)
+	for node := z.skiplist.Head.Levels[0].Forward; node != nil; node = node.Levels[0].Forward {
+		zset.Add(node.Score, node.Member)
+	}
+
+	return zset
+}
+
 // Add adds a new member or updates the score of an existing member.
 // Returns true if the element is new, false otherwise.
 func (z *Zset) Add(score float64, member string) bool {
-- 
2.43.0


From 2579908bda7f999441d4010f84ae18d7f6cb0589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 32/57] fix: background fsync raced with the switch to a
 rewritten append only file

It read the file from the server while the event loop replaced it, and panicked
when that file had been closed.
---
 server/aof.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 87b6787..47e35a9 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -121,8 +121,9 @@ func aofFileSync(srv *Server) {
 				log.Panic("failed to fsync the AOF file", zap.Error(err))
 			}
 		case config.TypeAppendFsyncEverySecond:
+			file := srv.aofFile // a rewrite may replace and close it meanwhile
 			go func() {
-				if err := srv.aofFile.Sync(); err != nil {
+				if err := file.Sync(); err != nil && !errors.Is(err, os.ErrClosed) {
 					log.Panic("failed to fsync the AOF file", zap.Error(err))
 				}
 			}()
-- 
2.43.0


From 3dc0a099dbb1314ca2c9ca9991fe9ed917e8f4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 33/57] fix: install a rewritten append only file only when it
 is complete

The dump was moved into place before the commands executed during the rewrite were
appended, so a crash in between lost acknowledged writes.
---
 server/aof.go | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 47e35a9..8825479 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -5,7 +5,7 @@ import (
 	"bytes"
 	"io"
 	"os"
-	"os/exec"
+	"path/filepath"
 	"strconv"
 	"strings"
 	"time"
@@ -233,7 +233,8 @@ func rewriteAppendOnlyFileBackground(srv *Server) {
 }
 
 func rewriteAppendOnlyFile(dbs []*database.Databse, srv *Server) {
-	tmpFile, err := os.CreateTemp("", AofRewriteTempFilePrefix)
+	// create it beside the append only file, so that it can replace that file atomically
+	tmpFile, err := os.CreateTemp(filepath.Dir(srv.aofFilename), AofRewriteTempFilePrefix)
 	if err != nil {
 		log.Panic("failed to create temp file", zap.Error(err))
 	}
@@ -283,6 +284,10 @@ func rewriteAppendOnlyFile(dbs []*database.Databse, srv *Server) {
 		}
 	}
 
+	if err := tmpFile.Sync(); err != nil {
+		log.Panic("failed to fsync the AOF file", zap.Error(err))
+	}
+
 	srv.aofRewriteDoneCh <- tmpFile.Name()
 }
 
@@ -373,25 +378,13 @@ func rewriteZsetObject(file *os.File, key string, value *datastruct.Zset) error
 func aofRewriteDoneCallback(srv *Server) {
 	defer srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))
 
-	if srv.aofFile != nil {
-		srv.aofFile.Close()
-	}
-
 	tmpAofFilename := <-srv.aofRewriteDoneCh
 	defer os.Remove(tmpAofFilename)
 
-	// occurs error "invalid cross-device link" if use os.Rename
-	if err := exec.Command("mv", tmpAofFilename, srv.aofFilename).Run(); err != nil {
-		log.Panic("failed to mv",
-			zap.Error(err),
-			zap.String("from", tmpAofFilename),
-			zap.String("to", srv.aofFilename))
-	}
-
-	aofFile, err := os.OpenFile(srv.aofFilename, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+	aofFile, err := os.OpenFile(tmpAofFilename, os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
 		log.Panic("failed to open file",
-			zap.Error(err), zap.String("filename", srv.aofFilename))
+			zap.Error(err), zap.String("filename", tmpAofFilename))
 	}
 
 	//  append AOF rewrite buffer to AOF file
@@ -403,6 +396,22 @@ func aofRewriteDoneCallback(srv *Server) {
 
 	srv.aofRewriteBuf.Reset()
 
+	if err := aofFile.Sync(); err != nil {
+		log.Panic("failed to fsync the AOF file", zap.Error(err))
+	}
+
+	// the new file is complete, so a crash leaves either the old or the new one
+	if err := os.Rename(tmpAofFilename, srv.aofFilename); err != nil {
+		log.Panic("failed to rename",
+			zap.Error(err),
+			zap.String("from", tmpAofFilename),
+			zap.String("to", srv.aofFilename))
+	}
+
+	if srv.aofFile != nil {
+		srv.aofFile.Close()
+	}
+
 	fileInfo, err := aofFile.Stat()
 	if err != nil {
 		log.Panic("failed to stat file", zap.Error(err))
-- 
2.43.0


From 4fe06b2ce246fea119ae48eed10a313a845008a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 34/57] fix: recover from an append only file that ends in an
 incomplete command

After a crash in the middle of a write the server panicked at every start, or went
on appending to the incomplete command. The incomplete command is now cut off.
---
 server/aof.go | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 8825479..42ec32f 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -135,13 +135,22 @@ func aofFileSync(srv *Server) {
 
 // loadAppendOnlyFile replays the AOF file.
 func loadAppendOnlyFile(srv *Server) {
+	// bytes read so far, and up to the end of the last complete command
+	var nRead, nComplete int64
+
 	// readline is a helper function that reads a line from the AOF file.
 	readLine := func(reader *bufio.Reader) (string, error) {
 		buf, err := reader.ReadBytes('\n')
 		if err != nil {
+			if len(buf) > 0 && errors.Is(err, io.EOF) {
+				err = io.ErrUnexpectedEOF
+			}
+
 			return "", err
 		}
 
+		nRead += int64(len(buf))
+
 		return byteutils.B2S(bytes.TrimRight(buf, "\r\n")), nil
 	}
 
@@ -154,6 +163,21 @@ func loadAppendOnlyFile(srv *Server) {
 	fakeClient := NewClient(srv, -1)
 	defer fakeClient.free()
 
+	// readFailed is a helper function that cuts off a command that a crash has left incomplete at the end.
+	readFailed := func(err error) {
+		if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
+			log.Panic("failed to read aof file", zap.Error(err))
+		}
+
+		log.Warn("incomplete command at the end of aof file", zap.Int64("offset", nComplete))
+
+		if err := os.Truncate(srv.aofFilename, nComplete); err != nil {
+			log.Fatal("failed to truncate aof file", zap.Error(err))
+		}
+
+		srv.aofCurrentSize = uint(nComplete)
+	}
+
 	reader := bufio.NewReaderSize(aofFile, MaxInlineSize)
 	for {
 		buf, err := readLine(reader)
@@ -162,7 +186,9 @@ func loadAppendOnlyFile(srv *Server) {
 				break
 			}
 
-			log.Panic("failed to read aof file", zap.Error(err))
+			readFailed(err)
+
+			return
 		}
 
 		if buf[0] != '*' {
@@ -178,7 +204,9 @@ func loadAppendOnlyFile(srv *Server) {
 		for i := 0; i < argc; i++ {
 			buf, err = readLine(reader)
 			if err != nil {
-				log.Panic("failed to read aof file", zap.Error(err))
+				readFailed(err)
+
+				return
 			}
 
 			if buf[0] != '$' {
@@ -192,17 +220,24 @@ func loadAppendOnlyFile(srv *Server) {
 
 			arg := make([]byte, argLen)
 			if _, err := io.ReadFull(reader, arg); err != nil {
-				log.Panic("failed to read aof file", zap.Error(err))
+				readFailed(err)
+
+				return
 			}
 
 			// discard CRLF
 			if _, err := io.ReadFull(reader, make([]byte, 2)); err != nil {
-				log.Panic("failed to read aof file", zap.Error(err))
+				readFailed(err)
+
+				return
 			}
 
+			nRead += int64(argLen) + 2
 			args[i] = string(arg)
 		}
 
+		nComplete = nRead
+
 		cmd := lookupCommand(strings.ToLower(args[0]))
 		if cmd == nil {
 			log.Error("unknown command", zap.String("command", args[0]))
-- 
2.43.0


From 803f6499d0c4d35d2ff76556bccafe96afd21450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 35/57] fix: log SETEX as one command

It was logged as SET and EXPIREAT, so a crash in the middle of the write could
bring the value back without its deadline.
---
 server/aof.go           | 23 +++++++++++++----------
 server/commandstring.go | 16 ++++++++++++++++
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 42ec32f..17cbb6d 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -39,9 +39,9 @@ func feedAppendOnlyFile(srv *Server, cmd *command, dbID int, args []string) {
 		// translate EXPIRE to EXPIREAT
 		aofStr += catAppendOnlyExpireCommand(args)
 	case "setex":
-		// translate SETEX to SET and EXPIREAT
-		aofStr += catAppendOnlyGenericCommand([]string{"set", args[1], args[3]})
-		aofStr += catAppendOnlyExpireCommand([]string{"expireat", args[1], args[2]})
+		// translate SETEX to SET with EXAT, in one command so that a crash cannot separate value and deadline
+		when := strconv.FormatInt(getExpireAt(args[2]), 10)
+		aofStr += catAppendOnlyGenericCommand([]string{"set", args[1], args[3], "exat", when})
 	default:
 		aofStr += catAppendOnlyGenericCommand(args)
 	}
@@ -59,17 +59,20 @@ func feedAppendOnlyFile(srv *Server, cmd *command, dbID int, args []string) {
 // catAppendOnlyExpireCommand is used to create the string representation of a EXPIRE command.
 // It is translated to EXPIREAT.
 func catAppendOnlyExpireCommand(args []string) string {
-	expireInt, err := strconv.ParseInt(args[2], 10, 64)
+	args[0] = "expireat"
+	args[2] = strconv.FormatInt(getExpireAt(args[2]), 10)
+
+	return catAppendOnlyGenericCommand(args)
+}
+
+// getExpireAt returns the absolute deadline in seconds for a time to live in seconds.
+func getExpireAt(ttl string) int64 {
+	expireInt, err := strconv.ParseInt(ttl, 10, 64)
 	if err != nil {
 		log.Fatal("failed to parse expire time", zap.Error(err))
 	}
 
-	when := time.Now().Unix() + expireInt
-
-	args[0] = "expireat"
-	args[2] = strconv.FormatInt(when, 10)
-
-	return catAppendOnlyGenericCommand(args)
+	return time.Now().Unix() + expireInt
 }
 
 // catAppendOnlyGenericCommand is used to create the string representation of a command
diff --git a/server/commandstring.go b/server/commandstring.go
index 9a998ee..000872d 100644
--- a/server/commandstring.go
+++ b/server/commandstring.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"strings"
 	"time"
 
 	"github.com/IfanTsai/metis/datastruct"
@@ -8,8 +9,23 @@ import (
 
 func setCommand(client *Client) error {
 	key, value := client.args[1], client.args[2]
+
+	var when int64
+	hasDeadline := len(client.args) == 5 && strings.EqualFold(client.args[3], "EXAT")
+	if hasDeadline {
+		expireInt, err := parseExpire(client.args[4], 0)
+		if err != nil {
+			return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[4], err)
+		}
+
+		when = expireInt * 1000
+	}
+
 	_ = client.db.Expire.Delete(key)
 	client.db.Dict.Set(key, value)
+	if hasDeadline {
+		client.db.Expire.Set(key, when)
+	}
 	client.srv.dirty++
 
 	return client.addReplyOK()
-- 
2.43.0


From 41393183391a9bb7411421d2985023de2871a638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 36/57] fix: fsync the last writes before an idle period

With appendfsync everysec, what was written less than a second after an fsync was
not synced until the next write, however late that came.
---
 server/aof.go    | 6 ++++++
 server/server.go | 1 +
 2 files changed, 7 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index 17cbb6d..424098d 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -97,6 +97,10 @@ func catAppendOnlyGenericCommand(args []string) string {
 // flushAppendOnlyFile flushes the AOF buffer on disk.
 func flushAppendOnlyFile(srv *Server) {
 	if srv.aofBuf.Len() == 0 {
+		if srv.aofFsyncPending {
+			aofFileSync(srv)
+		}
+
 		return
 	}
 
@@ -108,6 +112,7 @@ func flushAppendOnlyFile(srv *Server) {
 
 	srv.aofBuf.Reset()
 	srv.aofCurrentSize += uint(nWritten)
+	srv.aofFsyncPending = true
 
 	// fsync if needed
 	aofFileSync(srv)
@@ -133,6 +138,7 @@ func aofFileSync(srv *Server) {
 		}
 
 		srv.aofLastFsyncTime = now
+		srv.aofFsyncPending = false
 	}
 }
 
diff --git a/server/server.go b/server/server.go
index f3575f4..d62655f 100644
--- a/server/server.go
+++ b/server/server.go
@@ -50,6 +50,7 @@ type Server struct {
 	aofFilename      string
 	aofFsync         config.TypeAppnedFsync
 	aofLastFsyncTime time.Time
+	aofFsyncPending  bool // something has been written since the last fsync
 	aofSelectDBID    int
 	aofFile          *os.File
 	aofBuf           strings.Builder
-- 
2.43.0


From 9e52c9679154e158ace70fe026bc26d395071d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 37/57] fix: events removed by a callback of the same round
 were still run

---
 ae/ae.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ae/ae.go b/ae/ae.go
index 0328dec..8648ff8 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -48,6 +48,7 @@ type TimeEvent struct {
 	interval   int64
 	proc       TimeProc
 	clientData any
+	removed    bool
 }
 
 type EventLoop struct {
@@ -152,6 +153,7 @@ func (el *EventLoop) RemoveTimeEvent(id int64) error {
 		te := e.Value.(*TimeEvent)
 		if te.id == id {
 			el.timeEventHead.Remove(e)
+			te.removed = true
 
 			return nil
 		}
@@ -188,8 +190,17 @@ func (el *EventLoop) Stop() {
 // processEvents processes time events and file events
 func (el *EventLoop) processEvents(timeEvents []*TimeEvent, fileEvents []*FileEvent) error {
 	for _, te := range timeEvents {
+		// a callback of this round may have removed it
+		if te.removed {
+			continue
+		}
+
 		te.proc(el, te.id, te.clientData)
 
+		if te.removed {
+			continue
+		}
+
 		if te.mask == TypeTimeEventOnce {
 			if err := el.RemoveTimeEvent(te.id); err != nil {
 				return errors.Wrapf(err, "failed to remove time event: %v", te)
@@ -200,6 +211,11 @@ func (el *EventLoop) processEvents(timeEvents []*TimeEvent, fileEvents []*FileEv
 	}
 
 	for _, fe := range fileEvents {
+		// a callback of this round may have removed it
+		if el.fileEventMap[getFileEventMapKey(fe.fd, fe.mask)] != fe {
+			continue
+		}
+
 		fe.proc(el, fe.fd, fe.clientData)
 	}
 
-- 
2.43.0


From c2ffaff23237b11fe6e8cb0cfe8d51123dcf900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 38/57] fix: replies to pipelined writes could be sent before
 the write was logged

---
 ae/ae.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ae/ae.go b/ae/ae.go
index 8648ff8..aad7326 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -240,7 +240,8 @@ func (el *EventLoop) wait() ([]*TimeEvent, []*FileEvent, error) {
 		fileEvents []*FileEvent
 	)
 
-	epollEventTypes := []uint32{syscall.EPOLLIN, syscall.EPOLLOUT}
+	// writable before readable: a reply to what is read in this round must wait for the next before sleep proc
+	epollEventTypes := []uint32{syscall.EPOLLOUT, syscall.EPOLLIN}
 	for i := 0; i < nReady; i++ {
 		ev := events[i]
 		for _, epollEventType := range epollEventTypes {
-- 
2.43.0


From 8798cca11ae3070a013f61dc86c40c7750872dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 39/57] fix: BGREWRITEAOF without an append only file name
 panicked

---
 server/commandserver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/commandserver.go b/server/commandserver.go
index 59e5093..457282e 100644
--- a/server/commandserver.go
+++ b/server/commandserver.go
@@ -3,6 +3,10 @@ package server
 func bgRewriteAofCommand(client *Client) error {
 	srv := client.srv
 
+	if srv.aofFilename == "" {
+		return client.addReplyError("no append only file configured")
+	}
+
 	if srv.backgroundTaskTypeAtomic.Load() != uint32(TypeBackgroundTaskNone) {
 		return client.addReplySimpleString("Background append only file rewriting scheduled")
 	}
-- 
2.43.0


From 736769ca40e33d8574b4d9df4bddd14e81f190d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 40/57] fix: log the deletion of expired keys

---
 server/aof.go        |  6 ++++++
 server/command.go    | 21 +++++++++++++++++++--
 server/commandkey.go | 19 +++++++++++++++++++
 server/server.go     |  5 +++--
 4 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 424098d..626ae2e 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -144,6 +144,9 @@ func aofFileSync(srv *Server) {
 
 // loadAppendOnlyFile replays the AOF file.
 func loadAppendOnlyFile(srv *Server) {
+	srv.loading = true
+	defer func() { srv.loading = false }()
+
 	// bytes read so far, and up to the end of the last complete command
 	var nRead, nComplete int64
 
@@ -422,6 +425,9 @@ func rewriteZsetObject(file *os.File, key string, value *datastruct.Zset) error
 func aofRewriteDoneCallback(srv *Server) {
 	defer srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))
 
+	// what has not been flushed yet is in the rewrite buffer too, so it belongs to the old file only
+	flushAppendOnlyFile(srv)
+
 	tmpAofFilename := <-srv.aofRewriteDoneCh
 	defer os.Remove(tmpAofFilename)
 
diff --git a/server/command.go b/server/command.go
index fe5f6bd..d54eb16 100644
--- a/server/command.go
+++ b/server/command.go
@@ -4,6 +4,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/IfanTsai/metis/database"
 	"github.com/pkg/errors"
 )
 
@@ -30,6 +31,7 @@ var commandTable = []command{
 	{"expireat", expireAtCommand, 3},
 	{"ttl", ttlCommand, 2},
 	{"keys", keysCommand, 2},
+	{"del", delCommand, -2},
 	// string
 	{"set", setCommand, -3},
 	{"setex", setExCommand, 4},
@@ -74,6 +76,11 @@ var commandTable = []command{
 }
 
 func expireIfNeeded(client *Client, key string) (bool, error) {
+	// what expired while the append only file was written is deleted by the commands in it
+	if client.srv.loading {
+		return false, nil
+	}
+
 	expireObj := client.db.Expire.Find(key)
 	if expireObj != nil {
 		when, ok := expireObj.Value.(int64)
@@ -82,8 +89,7 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 		}
 
 		if when < time.Now().UnixMilli() {
-			_ = client.db.Dict.Delete(key)
-			_ = client.db.Expire.Delete(key)
+			deleteExpired(client.srv, client.db, key)
 
 			return true, nil
 		}
@@ -92,6 +98,17 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 	return false, nil
 }
 
+// deleteExpired deletes an expired key, and logs that, because commands
+// behind it in the append only file rely on the key being absent.
+func deleteExpired(srv *Server, db *database.Databse, key string) {
+	_ = db.Dict.Delete(key)
+	_ = db.Expire.Delete(key)
+
+	if srv.aofEnable {
+		feedAppendOnlyFile(srv, &command{name: "del"}, db.ID, []string{"del", key})
+	}
+}
+
 // deleteIfEmpty deletes the key of a collection which has just lost its last element.
 func deleteIfEmpty(client *Client, key string, size int64) {
 	if size == 0 {
diff --git a/server/commandkey.go b/server/commandkey.go
index 0f5acf0..309000a 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -57,6 +57,25 @@ func expireAtCommand(client *Client) error {
 	return client.addReplyOK()
 }
 
+func delCommand(client *Client) error {
+	var deleted int64
+	for _, key := range client.args[1:] {
+		exist, err := existKey(client, key)
+		if err != nil {
+			return client.addReplyError(err.Error())
+		}
+
+		if exist {
+			_ = client.db.Dict.Delete(key)
+			_ = client.db.Expire.Delete(key)
+			client.srv.dirty++
+			deleted++
+		}
+	}
+
+	return client.addReplyInt(deleted)
+}
+
 // parseExpire parses a number of seconds counted from base (in seconds too),
 // refusing those which would overflow a deadline in milliseconds.
 func parseExpire(str string, base int64) (int64, error) {
diff --git a/server/server.go b/server/server.go
index d62655f..34e24ab 100644
--- a/server/server.go
+++ b/server/server.go
@@ -45,6 +45,8 @@ type Server struct {
 
 	backgroundTaskTypeAtomic atomic.Uint32
 
+	loading bool // the append only file is being replayed
+
 	// AOF persistence
 	aofEnable        bool
 	aofFilename      string
@@ -290,8 +292,7 @@ func databasesCron(srv *Server) {
 			}
 
 			if when < time.Now().UnixMilli() {
-				db.Dict.Delete(entry.Key)
-				db.Expire.Delete(entry.Key)
+				deleteExpired(srv, db, entry.Key.(string))
 			}
 		}
 	}
-- 
2.43.0


From ed580ecf52de09c9dd723e0381db5079440d6f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 41/57] fix: log the deadline that was set instead of computing
 it again

---
 server/aof.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 626ae2e..4c54f1c 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -37,10 +37,10 @@ func feedAppendOnlyFile(srv *Server, cmd *command, dbID int, args []string) {
 	switch cmd.name {
 	case "expire":
 		// translate EXPIRE to EXPIREAT
-		aofStr += catAppendOnlyExpireCommand(args)
+		aofStr += catAppendOnlyExpireCommand(args, getExpireAt(srv.dbs[dbID], args[1]))
 	case "setex":
 		// translate SETEX to SET with EXAT, in one command so that a crash cannot separate value and deadline
-		when := strconv.FormatInt(getExpireAt(args[2]), 10)
+		when := strconv.FormatInt(getExpireAt(srv.dbs[dbID], args[1]), 10)
 		aofStr += catAppendOnlyGenericCommand([]string{"set", args[1], args[3], "exat", when})
 	default:
 		aofStr += catAppendOnlyGenericCommand(args)
@@ -58,21 +58,21 @@ func feedAppendOnlyFile(srv *Server, cmd *command, dbID int, args []string) {
 
 // catAppendOnlyExpireCommand is used to create the string representation of a EXPIRE command.
 // It is translated to EXPIREAT.
-func catAppendOnlyExpireCommand(args []string) string {
+func catAppendOnlyExpireCommand(args []string, when int64) string {
 	args[0] = "expireat"
-	args[2] = strconv.FormatInt(getExpireAt(args[2]), 10)
+	args[2] = strconv.FormatInt(when, 10)
 
 	return catAppendOnlyGenericCommand(args)
 }
 
-// getExpireAt returns the absolute deadline in seconds for a time to live in seconds.
-func getExpireAt(ttl string) int64 {
-	expireInt, err := strconv.ParseInt(ttl, 10, 64)
-	if err != nil {
-		log.Fatal("failed to parse expire time", zap.Error(err))
+// getExpireAt returns the deadline in seconds which the command that was just executed has set.
+func getExpireAt(db *database.Databse, key string) int64 {
+	entry := db.Expire.Find(key)
+	if entry == nil {
+		log.Fatal("no deadline to log", zap.String("key", key))
 	}
 
-	return time.Now().Unix() + expireInt
+	return entry.Value.(int64) / 1000
 }
 
 // catAppendOnlyGenericCommand is used to create the string representation of a command
-- 
2.43.0


From d588c0f281086a1cffd40b626c69ca085703c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 42/57] fix: stopping the server raced with its event loop and
 could panic

---
 ae/ae.go         |  8 ++++----
 server/server.go | 38 ++++++++++++++++++++++++++++++++------
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/ae/ae.go b/ae/ae.go
index aad7326..302f9df 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -3,6 +3,7 @@ package ae
 import (
 	"container/list"
 	"log"
+	"sync/atomic"
 	"syscall"
 	"time"
 
@@ -57,7 +58,7 @@ type EventLoop struct {
 	timeEventNextID int64
 	beforeSleep     BeforeSleepProc
 	fileEventFd     int
-	stop            bool
+	stop            atomic.Bool
 }
 
 // NewEventLoop creates a new event loop
@@ -71,7 +72,6 @@ func NewEventLoop() (*EventLoop, error) {
 		fileEventMap:  make(map[int]*FileEvent),
 		timeEventHead: list.New(),
 		fileEventFd:   epFd,
-		stop:          false,
 	}, nil
 }
 
@@ -164,7 +164,7 @@ func (el *EventLoop) RemoveTimeEvent(id int64) error {
 
 // Main runs event loop
 func (el *EventLoop) Main() error {
-	for !el.stop {
+	for !el.stop.Load() {
 		if el.beforeSleep != nil {
 			el.beforeSleep(el)
 		}
@@ -184,7 +184,7 @@ func (el *EventLoop) Main() error {
 
 // Stop stops event loop
 func (el *EventLoop) Stop() {
-	el.stop = true
+	el.stop.Store(true)
 }
 
 // processEvents processes time events and file events
diff --git a/server/server.go b/server/server.go
index 34e24ab..3d8fe2f 100644
--- a/server/server.go
+++ b/server/server.go
@@ -45,6 +45,9 @@ type Server struct {
 
 	backgroundTaskTypeAtomic atomic.Uint32
 
+	stopping atomic.Bool
+	doneCh   chan struct{} // closed when Run has returned
+
 	loading bool // the append only file is being replayed
 
 	// AOF persistence
@@ -82,6 +85,7 @@ func NewServer(config *config.Config) *Server {
 		aofRewritePercent: config.AofRewritePercent,
 		aofRewriteMinSize: config.AofRewriteMinSize,
 		aofRewriteDoneCh:  make(chan string, 1),
+		doneCh:            make(chan struct{}),
 		aofSelectDBID:     -1, // the file may end in any database, so select one before the first command
 	}
 
@@ -111,6 +115,8 @@ func NewServer(config *config.Config) *Server {
 }
 
 func (s *Server) Run() error {
+	defer close(s.doneCh)
+
 	listenFd, err := CreateTCPServer(s.host, s.port)
 	if err != nil {
 		log.Fatal("failed to create tcp server", zap.Error(err))
@@ -139,17 +145,33 @@ func (s *Server) Run() error {
 		loadAppendOnlyFile(s)
 	}
 
-	return eventLoop.Main()
+	if err := eventLoop.Main(); err != nil {
+		return err
+	}
+
+	// log what the last round of the event loop has executed
+	flushAppendOnlyFile(s)
+
+	return nil
 }
 
+// Stop lets the event loop finish its round, which may be in the middle of loading or
+// executing commands, and waits for that before closing the append only file.
 func (s *Server) Stop() {
-	s.eventLoop.Stop()
-	s.fd.Close()
-	close(s.aofRewriteDoneCh)
+	s.stopping.Store(true)
+	<-s.doneCh
 
-	if s.aofFile != nil {
-		s.aofFile.Close()
+	if s.aofFile == nil {
+		return
 	}
+
+	if s.aofFsyncPending && s.aofFsync == config.TypeAppendFsyncEverySecond {
+		if err := s.aofFile.Sync(); err != nil {
+			log.Error("failed to fsync the AOF file", zap.Error(err))
+		}
+	}
+
+	s.aofFile.Close()
 }
 
 func acceptTCPHandler(el *ae.EventLoop, fd socket.FD, extra any) {
@@ -300,6 +322,10 @@ func databasesCron(srv *Server) {
 
 func beforeSleepProc(el *ae.EventLoop, srv *Server) ae.BeforeSleepProc {
 	return func(el *ae.EventLoop) {
+		if srv.stopping.Load() {
+			el.Stop()
+		}
+
 		// write the AOF buffer on disk.
 		flushAppendOnlyFile(srv)
 	}
-- 
2.43.0


From 1c029a25b8075ac857a3cc2c454dddf5a5c220b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 43/57] fix: a signal during startup killed the server instead
 of stopping it

---
 cmd/root.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 3dfdf08..74a80ab 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -36,6 +36,9 @@ func run(configFile string) {
 	log.InitLogger(cfg)
 	metisServer := server.NewServer(cfg)
 
+	quit := make(chan os.Signal, 1)
+	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
+
 	go func() {
 		if err := metisServer.Run(); err != nil {
 			log.Panic("metis server run error", zap.Error(err))
@@ -44,8 +47,6 @@ func run(configFile string) {
 
 	log.Info(fmt.Sprintf("metis server is running on %s:%d", cfg.Host, cfg.Port))
 
-	quit := make(chan os.Signal, 1)
-	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
 	<-quit
 
 	metisServer.Stop()
-- 
2.43.0


From 5a1b9e78ab0473473e89db9b56c94d84f6c081cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:55 +0000
Subject: [PATCH 44/57] fix: quicklist Insert put the value one place too early
 in the second half

The length was increased before the position was looked up, and positions in
the second half are counted from the end.
---
 datastruct/quicklist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index b2c5429..73b84c0 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -129,9 +129,9 @@ func (q *Quicklist) Insert(index int, v any) bool {
 		return true
 	}
 
+	iter := q.get(index)
 	q.length++
 
-	iter := q.get(index)
 	page := iter.page()
 	// if the page is not full, just insert the value
 	if len(page) < pageSize {
-- 
2.43.0


From c72e7c94d0122c45c4454d8ae0afd2c46df8ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:32 +0000
Subject: [PATCH 45/57] fix: LPUSH and RPUSH on a key of another type said that
 the key does not exist

---
 server/commandlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/commandlist.go b/server/commandlist.go
index 08f1491..a6ab298 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -177,7 +177,7 @@ func getQuickList(client *Client, key string) (*datastruct.Quicklist, error) {
 
 	list, ok := value.(*datastruct.Quicklist)
 	if !ok {
-		return nil, errNotExist
+		return nil, errWrongType
 	}
 
 	return list, nil
-- 
2.43.0


From a27ddc5d0eea93dd1af13ce36d89f0846f4539ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 46/57] fix: a value of the wrong type in an edited
 configuration file ended the running server

---
 config/config.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/config/config.go b/config/config.go
index ce472e3..6b10e6a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -63,11 +63,15 @@ func LoadConfig(configFile, configType string) *Config {
 		viper.WatchConfig()
 
 		viper.OnConfigChange(func(e fsnotify.Event) {
-			if err := viper.Unmarshal(&config); err != nil {
-				log.Fatalln("failed to unmarshal from config:", err)
+			var changed Config
+			if err := viper.Unmarshal(&changed); err != nil {
+				log.Println("failed to unmarshal from changed config:", err)
+
+				return
 			}
 
-			config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")
+			changed.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")
+			config = changed
 		})
 	})
 
-- 
2.43.0


From 0a72494fdcdb9c8a3cdaa55adce0e16dcfc37e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 47/57] fix: a change of the configuration file raced with the
 start of the server

---
 config/config.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/config/config.go b/config/config.go
index 6b10e6a..ffb9fdb 100644
--- a/config/config.go
+++ b/config/config.go
@@ -10,6 +10,7 @@ import (
 
 var (
 	once   sync.Once
+	mutex  sync.Mutex
 	config Config
 )
 
@@ -60,8 +61,6 @@ func LoadConfig(configFile, configType string) *Config {
 
 		config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")
 
-		viper.WatchConfig()
-
 		viper.OnConfigChange(func(e fsnotify.Event) {
 			var changed Config
 			if err := viper.Unmarshal(&changed); err != nil {
@@ -71,9 +70,20 @@ func LoadConfig(configFile, configType string) *Config {
 			}
 
 			changed.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")
+
+			mutex.Lock()
+			defer mutex.Unlock()
+
 			config = changed
 		})
+
+		viper.WatchConfig()
 	})
 
-	return &config
+	mutex.Lock()
+	defer mutex.Unlock()
+
+	loaded := config
+
+	return &loaded
 }
-- 
2.43.0


From 2ac6873cd2c2d3faf68f233e4f47f43a268f280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 48/57] fix: a port out of range made the server listen on
 another port

---
 config/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/config/config.go b/config/config.go
index ffb9fdb..d80c643 100644
--- a/config/config.go
+++ b/config/config.go
@@ -2,6 +2,7 @@ package config
 
 import (
 	"log"
+	"math"
 	"sync"
 
 	"github.com/fsnotify/fsnotify"
@@ -59,6 +60,10 @@ func LoadConfig(configFile, configType string) *Config {
 			log.Fatalln("failed to unmarshal from config:", err)
 		}
 
+		if port := viper.GetInt64("port"); port < 0 || port > math.MaxUint16 {
+			log.Fatalln("invalid port in config:", port)
+		}
+
 		config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")
 
 		viper.OnConfigChange(func(e fsnotify.Event) {
-- 
2.43.0


From 2701e8434ff8aec07d0f7378293363f7e7bb2ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 49/57] fix: KEYS compiled the pattern again for every key,
 which stalled the server

---
 server/commandkey.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/server/commandkey.go b/server/commandkey.go
index 309000a..41aa995 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -134,6 +134,10 @@ func keysCommand(client *Client) error {
 
 	pattern := client.args[1]
 	keys := make([]string, 0, dict.Size())
+
+	// compiled once, since a client chooses how long that takes
+	var reg *regexp.Regexp
+
 	for entry := iter.Next(); entry != nil; entry = iter.Next() {
 		key := entry.Key.(string)
 		matched := false
@@ -141,9 +145,11 @@ func keysCommand(client *Client) error {
 		if pattern == "*" {
 			matched = true
 		} else {
-			reg, err := regexp.Compile(pattern)
-			if err != nil {
-				return client.addReplyErrorf("invalid pattern: %s, error: %v", pattern, err)
+			if reg == nil {
+				var err error
+				if reg, err = regexp.Compile(pattern); err != nil {
+					return client.addReplyErrorf("invalid pattern: %s, error: %v", pattern, err)
+				}
 			}
 
 			matched = reg.MatchString(key)
-- 
2.43.0


From a9a3e028074adbe0050551f1c1070ebee046a7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 50/57] fix: random picks from a table that most keys have left
 stalled the server

---
 datastruct/dict.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/datastruct/dict.go b/datastruct/dict.go
index c58f46a..0f48930 100644
--- a/datastruct/dict.go
+++ b/datastruct/dict.go
@@ -13,6 +13,7 @@ const (
 	tableInitialSize = 4
 	forceResizeRatio = 1
 	resizeRatio      = 2
+	shrinkRatio      = 10
 	rehashStepCount  = 1
 )
 
@@ -157,6 +158,8 @@ func (d *Dict) GetRandomKey() *DictEntry {
 		return nil
 	}
 
+	d.shrinkIfNeeded()
+
 	if d.isRehashing() {
 		d.rehashStep()
 	}
@@ -215,6 +218,7 @@ func (d *Dict) Delete(key any) error {
 				}
 
 				d.hashTables[table].used--
+				d.shrinkIfNeeded()
 
 				return nil
 			}
@@ -334,6 +338,24 @@ func (d *Dict) expand(size int64) error {
 		return errors.New("dict is rehashing or size is invalid")
 	}
 
+	d.resize(realSize)
+
+	return nil
+}
+
+// shrinkIfNeeded moves the entries to a smaller table if few slots are still in use,
+// because a random pick has to find one of them.
+func (d *Dict) shrinkIfNeeded() {
+	if d.isRehashing() || d.iterators > 0 {
+		return
+	}
+
+	if size := d.hashTables[0].size; size > tableInitialSize && d.hashTables[0].used*shrinkRatio < size {
+		d.resize(GetNextPower(d.hashTables[0].used))
+	}
+}
+
+func (d *Dict) resize(realSize int64) {
 	table := &hashTable{
 		tables:   make([]*DictEntry, realSize),
 		size:     realSize,
@@ -345,14 +367,12 @@ func (d *Dict) expand(size int64) error {
 	if d.hashTables[0] == nil {
 		d.hashTables[0] = table
 
-		return nil
+		return
 	}
 
 	// Prepare a second hash table for incremental rehashing
 	d.hashTables[1] = table
 	d.rehashIndex = 0
-
-	return nil
 }
 
 func (d *Dict) rehashStep() {
-- 
2.43.0


From d4f97ec4084faf549c6a708b451a6dad25472849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 51/57] fix: a start with fewer databases merged the keys of
 the others into the last one selected

---
 server/aof.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index 4c54f1c..c6b1604 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -258,6 +258,13 @@ func loadAppendOnlyFile(srv *Server) {
 
 		fakeClient.args = args
 		_ = cmd.proc(fakeClient)
+
+		// what follows belongs to this database and must not end up in another one
+		if cmd.name == "select" {
+			if id, err := strconv.Atoi(args[1]); err != nil || id != fakeClient.db.ID {
+				log.Fatal("database in aof file is not configured", zap.String("database", args[1]))
+			}
+		}
 	}
 
 }
-- 
2.43.0


From 665c6026012171d61795677024804d3cd6edcbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 52/57] fix: a rewrite that fails, for instance for lack of
 descriptors, ended the server

---
 server/aof.go | 66 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 9 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index c6b1604..171ff58 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -23,6 +23,8 @@ import (
 const (
 	AofRewriteTempFilePrefix  = "temp-rewriteaof-"
 	AofRewriteItemsPerCommand = 64
+
+	aofRewriteFailed = "" // sent instead of the name of a temp file
 )
 
 // feedAppendOnlyFile is used to feed the AOF file with the command that was just executed.
@@ -290,10 +292,20 @@ func rewriteAppendOnlyFile(dbs []*database.Databse, srv *Server) {
 	// create it beside the append only file, so that it can replace that file atomically
 	tmpFile, err := os.CreateTemp(filepath.Dir(srv.aofFilename), AofRewriteTempFilePrefix)
 	if err != nil {
-		log.Panic("failed to create temp file", zap.Error(err))
+		log.Error("failed to create temp file", zap.Error(err))
+		srv.aofRewriteDoneCh <- aofRewriteFailed
+
+		return
 	}
 	defer tmpFile.Close()
 
+	// giveUp is a helper function that leaves the append only file as it is.
+	giveUp := func(err error) {
+		log.Error("failed to rewrite AOF file", zap.Error(err))
+		os.Remove(tmpFile.Name())
+		srv.aofRewriteDoneCh <- aofRewriteFailed
+	}
+
 	// dump db from memory to AOF temp file
 	for _, db := range dbs {
 		if db.Dict.Size() == 0 {
@@ -301,7 +313,9 @@ func rewriteAppendOnlyFile(dbs []*database.Databse, srv *Server) {
 		}
 
 		if _, err := tmpFile.WriteString(catAppendOnlyGenericCommand([]string{"select", strconv.Itoa(db.ID)})); err != nil {
-			log.Panic("failed to write to AOF file", zap.Error(err))
+			giveUp(err)
+
+			return
 		}
 
 		iter := datastruct.NewDictIterator(db.Dict)
@@ -326,20 +340,26 @@ func rewriteAppendOnlyFile(dbs []*database.Databse, srv *Server) {
 			}
 
 			if err != nil {
-				log.Panic("failed to write to AOF file", zap.Error(err))
+				giveUp(err)
+
+				return
 			}
 
 			if entry := db.Expire.Find(key); entry != nil {
 				when := strconv.FormatInt(entry.Value.(int64)/1000, 10)
 				if _, err := tmpFile.WriteString(catAppendOnlyGenericCommand([]string{"expireat", key, when})); err != nil {
-					log.Panic("failed to write to AOF file", zap.Error(err))
+					giveUp(err)
+
+					return
 				}
 			}
 		}
 	}
 
 	if err := tmpFile.Sync(); err != nil {
-		log.Panic("failed to fsync the AOF file", zap.Error(err))
+		giveUp(err)
+
+		return
 	}
 
 	srv.aofRewriteDoneCh <- tmpFile.Name()
@@ -436,33 +456,54 @@ func aofRewriteDoneCallback(srv *Server) {
 	flushAppendOnlyFile(srv)
 
 	tmpAofFilename := <-srv.aofRewriteDoneCh
+	if tmpAofFilename == aofRewriteFailed {
+		abandonAofRewrite(srv)
+
+		return
+	}
+
 	defer os.Remove(tmpAofFilename)
 
 	aofFile, err := os.OpenFile(tmpAofFilename, os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
-		log.Panic("failed to open file",
+		log.Error("failed to open file",
 			zap.Error(err), zap.String("filename", tmpAofFilename))
+		abandonAofRewrite(srv)
+
+		return
 	}
 
 	//  append AOF rewrite buffer to AOF file
 	if srv.aofRewriteBuf.Len() > 0 {
 		if _, err := aofFile.WriteString(srv.aofRewriteBuf.String()); err != nil {
-			log.Panic("failed to write to AOF file", zap.Error(err))
+			log.Error("failed to write to AOF file", zap.Error(err))
+			aofFile.Close()
+			abandonAofRewrite(srv)
+
+			return
 		}
 	}
 
 	srv.aofRewriteBuf.Reset()
 
 	if err := aofFile.Sync(); err != nil {
-		log.Panic("failed to fsync the AOF file", zap.Error(err))
+		log.Error("failed to fsync the AOF file", zap.Error(err))
+		aofFile.Close()
+		abandonAofRewrite(srv)
+
+		return
 	}
 
 	// the new file is complete, so a crash leaves either the old or the new one
 	if err := os.Rename(tmpAofFilename, srv.aofFilename); err != nil {
-		log.Panic("failed to rename",
+		log.Error("failed to rename",
 			zap.Error(err),
 			zap.String("from", tmpAofFilename),
 			zap.String("to", srv.aofFilename))
+		aofFile.Close()
+		abandonAofRewrite(srv)
+
+		return
 	}
 
 	if srv.aofFile != nil {
@@ -480,3 +521,10 @@ func aofRewriteDoneCallback(srv *Server) {
 
 	aofFileSync(srv)
 }
+
+// abandonAofRewrite goes on with the old AOF file, which is complete, after a rewrite has failed.
+// The next automatic rewrite waits until that file has grown again.
+func abandonAofRewrite(srv *Server) {
+	srv.aofRewriteBuf.Reset()
+	srv.aofRewriteBaseSize = srv.aofCurrentSize
+}
-- 
2.43.0


From f80a2a519ebc1bf44dde04163b4dbba860dfaf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 53/57] fix: sync the append only file at a stop also when an
 fsync has just been begun in the background

---
 server/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 3d8fe2f..457ccac 100644
--- a/server/server.go
+++ b/server/server.go
@@ -165,7 +165,8 @@ func (s *Server) Stop() {
 		return
 	}
 
-	if s.aofFsyncPending && s.aofFsync == config.TypeAppendFsyncEverySecond {
+	// an fsync begun in the background may not have come about yet
+	if s.aofFsync == config.TypeAppendFsyncEverySecond {
 		if err := s.aofFile.Sync(); err != nil {
 			log.Error("failed to fsync the AOF file", zap.Error(err))
 		}
-- 
2.43.0


From 3c28706731d7f309e76e0a1bc097bf3117f6fcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:54 +0000
Subject: [PATCH 54/57] fix: a page of a list keeps values alive that have been
 removed from it

---
 datastruct/quicklist.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 73b84c0..d33fa02 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -12,6 +12,15 @@ func (p quicklistPage) Len() int {
 	return len(p)
 }
 
+// truncate shortens the page to n values; those behind are not referenced any more.
+func (p quicklistPage) truncate(n int) quicklistPage {
+	for i := n; i < len(p); i++ {
+		p[i] = nil
+	}
+
+	return p[:n]
+}
+
 type Quicklist struct {
 	data   *list.List // every node is a page which is a slice of interface{}
 	length int
@@ -145,7 +154,7 @@ func (q *Quicklist) Insert(index int, v any) bool {
 	nextPage := make(quicklistPage, 0, pageSize)
 	// copy the second half of the page to the next new page
 	nextPage = append(nextPage, page[pageSize/2:]...)
-	page = page[:pageSize/2]
+	page = page.truncate(pageSize / 2)
 	if iter.offset < len(page) {
 		// if the index is in the first half of the page, insert the value into the first page
 		page = append(page[:iter.offset+1], page[iter.offset:]...)
@@ -173,7 +182,8 @@ func (q *Quicklist) Remove(index int) any {
 	v := page[iter.offset]
 
 	q.length--
-	page = append(page[:iter.offset], page[iter.offset+1:]...)
+	copy(page[iter.offset:], page[iter.offset+1:])
+	page = page.truncate(len(page) - 1)
 	if len(page) > 0 {
 		iter.node.Value = page
 	} else {
-- 
2.43.0


From c14fbc602d2df474c214cf0010a7cb3d10e905b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:21 +0000
Subject: [PATCH 55/57] fix: keys and values of an inline request kept the
 whole query buffer in memory

---
 server/resp.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/server/resp.go b/server/resp.go
index d7bcfe2..ef92e71 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -75,9 +75,7 @@ func processInlineBuffer(client *Client) (bool, error) {
 
 	// a line with nothing behind its type byte carries no command
 	if index > 1 {
-		subs := strings.Split(byteutils.B2S(client.queryBuf[1:index]), " ")
-		client.args = make([]string, len(subs))
-		copy(client.args, subs)
+		client.args = strings.Split(string(client.queryBuf[1:index]), " ")
 	}
 
 	client.moveToNextLineInQueryBuffer(index)
-- 
2.43.0


From 59c7bf5c2c19fdf5958448261cb5b28f83f4c8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:00 +0000
Subject: [PATCH 56/57] fix: a client kept the memory of the largest request it
 had ever sent

---
 server/client.go | 7 +++++++
 server/server.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/server/client.go b/server/client.go
index 5970e4e..72c182c 100644
--- a/server/client.go
+++ b/server/client.go
@@ -67,6 +67,13 @@ func (c *Client) moveToNextLineInQueryBuffer(indexCRLF int) {
 	c.queryLen -= indexCRLF + 2
 }
 
+// shrinkQueryBuffer moves what has not been processed yet to a buffer of its own.
+func (c *Client) shrinkQueryBuffer() {
+	queryBuf := make([]byte, c.queryLen+maxBulk)
+	copy(queryBuf, c.queryBuf[:c.queryLen])
+	c.queryBuf = queryBuf
+}
+
 func (c *Client) addReply(str string) error {
 	if c.replayHead.Len() == 0 && c.fd >= 0 {
 		if err := c.srv.eventLoop.AddFileEvent(c.fd, ae.TypeFileEventWritable, sendReplayToClient, c); err != nil {
diff --git a/server/server.go b/server/server.go
index 457ccac..be41734 100644
--- a/server/server.go
+++ b/server/server.go
@@ -21,6 +21,7 @@ import (
 const (
 	defaultDBNum          = 16
 	maxBulk               = 1024 * 4
+	maxIdleQueryBuf       = 1024 * 64
 	checkExpireEntryCount = 100
 	serverCronInterval    = 1
 )
@@ -230,12 +231,18 @@ func readQueryFromClient(el *ae.EventLoop, fd socket.FD, clientData any) {
 	}
 
 	client.queryLen += nRead
+	received := client.queryLen
 	if err := processInputBuffer(client); err != nil {
 		log.Error("failed to process input buffer", zap.Error(err))
 		client.free()
 
 		return
 	}
+
+	// an idle client does not keep the memory of its large requests
+	if received-client.queryLen > maxIdleQueryBuf {
+		client.shrinkQueryBuffer()
+	}
 }
 
 func sendReplayToClient(el *ae.EventLoop, fd socket.FD, clientData any) {
-- 
2.43.0


From a6ad337e8e161481f63f9f43d3d3121a5201fa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:35 +0000
Subject: [PATCH 57/57] fix: timers stopped for as long as the clock had been
 set back

---
 ae/ae.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/ae/ae.go b/ae/ae.go
index 302f9df..ceb18f7 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -56,6 +56,7 @@ type EventLoop struct {
 	fileEventMap    map[int]*FileEvent
 	timeEventHead   *list.List // element is *TimeEvent
 	timeEventNextID int64
+	lastTime        int64 // what currentTime returned last
 	beforeSleep     BeforeSleepProc
 	fileEventFd     int
 	stop            atomic.Bool
@@ -136,7 +137,7 @@ func (el *EventLoop) AddTimeEvent(mask TypeTimeEvent, interval int64, proc TimeP
 	el.timeEventHead.PushFront(&TimeEvent{
 		id:         el.timeEventNextID,
 		mask:       mask,
-		when:       now() + interval,
+		when:       el.currentTime() + interval,
 		interval:   interval,
 		proc:       proc,
 		clientData: clientData,
@@ -206,7 +207,7 @@ func (el *EventLoop) processEvents(timeEvents []*TimeEvent, fileEvents []*FileEv
 				return errors.Wrapf(err, "failed to remove time event: %v", te)
 			}
 		} else {
-			te.when = now() + te.interval
+			te.when = el.currentTime() + te.interval
 		}
 	}
 
@@ -224,7 +225,7 @@ func (el *EventLoop) processEvents(timeEvents []*TimeEvent, fileEvents []*FileEv
 
 // wait waits for nearest time of time events until any event is ready
 func (el *EventLoop) wait() ([]*TimeEvent, []*FileEvent, error) {
-	timeout := el.getNearestTime(defaultNearestDeltaMs) - now()
+	timeout := el.getNearestTime(defaultNearestDeltaMs) - el.currentTime()
 	if timeout <= 0 {
 		timeout = defaultEpollWaitMs
 	}
@@ -254,7 +255,7 @@ func (el *EventLoop) wait() ([]*TimeEvent, []*FileEvent, error) {
 		}
 	}
 
-	nowMs := now()
+	nowMs := el.currentTime()
 	for e := el.timeEventHead.Front(); e != nil; e = e.Next() {
 		te := e.Value.(*TimeEvent)
 		if te.when <= nowMs {
@@ -266,7 +267,7 @@ func (el *EventLoop) wait() ([]*TimeEvent, []*FileEvent, error) {
 }
 
 func (el *EventLoop) getNearestTime(defaultNearestDelta int64) int64 {
-	nearest := now() + defaultNearestDelta
+	nearest := el.currentTime() + defaultNearestDelta
 	for e := el.timeEventHead.Front(); e != nil; e = e.Next() {
 		te := e.Value.(*TimeEvent)
 		if te.when < nearest {
@@ -277,6 +278,21 @@ func (el *EventLoop) getNearestTime(defaultNearestDelta int64) int64 {
 	return nearest
 }
 
+// currentTime returns current time in milliseconds. If the clock has been set back, the time
+// events are moved back with it, because they would not be due for as long otherwise.
+func (el *EventLoop) currentTime() int64 {
+	nowMs := now()
+	if back := el.lastTime - nowMs; back > 0 {
+		for e := el.timeEventHead.Front(); e != nil; e = e.Next() {
+			e.Value.(*TimeEvent).when -= back
+		}
+	}
+
+	el.lastTime = nowMs
+
+	return nowMs
+}
+
 // getEpollEventMask returns current epoll event mask
 func (el *EventLoop) getEpollEventMask(fd socket.FD) uint32 {
 	var mask uint32
-- 
2.43.0

