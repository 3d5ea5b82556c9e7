From 7f1492a4869519053f881d0a90ef4980f7fea1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 01/33] fix: a ChanSemaphore without permits must not grant one
 on Release

---
 concurrent/sema.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/concurrent/sema.go b/concurrent/sema.go
index 17e0765..3d41ab0 100644
--- a/concurrent/sema.go
+++ b/concurrent/sema.go
@@ -62,6 +62,11 @@ func (s *ChanSemaphore) Acquire() {
 }
 
 func (s *ChanSemaphore) Release() {
+	if cap(s.permits) == 0 {
+		// no permits at all, receiving from the unbuffered channel
+		// would let a blocked Acquire pass
+		return
+	}
 	select {
 	case <-s.permits:
 	default:
-- 
2.43.0


From f9cdac28d564bc8740fc90ed355c5628a451b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:31 +0000
Subject: [PATCH 02/33] fix: advance the fixed window with integer arithmetic

---
 ratelimiter/fixedwindow.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/fixedwindow.go b/ratelimiter/fixedwindow.go
index c7abf31..b0e174c 100644
--- a/ratelimiter/fixedwindow.go
+++ b/ratelimiter/fixedwindow.go
@@ -19,7 +19,6 @@ package ratelimiter
 
 import (
 	gtime "github.com/chanjarster/gears/util/time"
-	"math"
 	"sync"
 	"time"
 )
@@ -99,6 +98,15 @@ func (s *SyncFixedWindow) reset(ts int64) {
 	if s.contains(ts) {
 		return
 	}
-	s.until += int64(math.Ceil(float64(ts-s.until)/float64(s.windowSize))) * s.windowSize
 	s.count = 0
+	if s.windowSize <= 0 {
+		return
+	}
+	// do not calculate in float64, it cannot represent nanosecond timestamps exactly
+	gap := ts - s.until
+	windows := gap / s.windowSize
+	if gap%s.windowSize != 0 {
+		windows++
+	}
+	s.until += windows * s.windowSize
 }
-- 
2.43.0


From f4a19e371789f4f302a5d1f164692111e20772df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:05 +0000
Subject: [PATCH 03/33] fix: idle time of a full SyncTokenBucket must not be
 credited later

---
 ratelimiter/tokenbucket.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ratelimiter/tokenbucket.go b/ratelimiter/tokenbucket.go
index 7ded46a..f83c29f 100644
--- a/ratelimiter/tokenbucket.go
+++ b/ratelimiter/tokenbucket.go
@@ -83,9 +83,8 @@ func (t *SyncTokenBucket) Acquire() bool {
 }
 
 func (t *SyncTokenBucket) issueIfNecessary() {
-	if t.tokens >= t.capacity {
-		return
-	}
+	// Even if the bucket is full lastIssueTimestamp must move on, otherwise the
+	// idle time would be credited again right after the first token is taken.
 	now := t.nowFn().UnixNano()
 
 	elapse := now - t.lastIssueTimestamp
-- 
2.43.0


From d3c1aeed11ea9be006e504d02b62f6d4f3d4453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:43 +0000
Subject: [PATCH 04/33] fix: AtomicTokenBucket must credit elapsed time exactly
 once

---
 ratelimiter/tokenbucket.go | 64 ++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/ratelimiter/tokenbucket.go b/ratelimiter/tokenbucket.go
index f83c29f..05ef935 100644
--- a/ratelimiter/tokenbucket.go
+++ b/ratelimiter/tokenbucket.go
@@ -105,10 +105,11 @@ func (t *SyncTokenBucket) issueIfNecessary() {
 // TokenBucket implementation using "sync/atomic" package.
 // Has better concurrent performance than SyncTokenBucket.
 type AtomicTokenBucket struct {
-	capacity           int   // bucket capacity
-	tokens             int64 // currently issued tokens amount
-	issueRatePerSecond int   // token issuing rate(per second)
-	lastIssueTimestamp int64 // last time of issuing tokens
+	issueLock          sync.Mutex // guard issuing tokens
+	capacity           int        // bucket capacity
+	tokens             int64      // currently issued tokens amount
+	issueRatePerSecond int        // token issuing rate(per second)
+	lastIssueTimestamp int64      // last time of issuing tokens
 	nowFn              gtime.NowFunc
 }
 
@@ -136,41 +137,38 @@ func (t *AtomicTokenBucket) Acquire() bool {
 
 func (t *AtomicTokenBucket) issueIfNecessary() {
 
-	for {
-		oldTokens := atomic.LoadInt64(&t.tokens)
-		if oldTokens >= int64(t.capacity) {
-			return
-		}
-
-		oldLit := atomic.LoadInt64(&t.lastIssueTimestamp)
-		now := t.nowFn().UnixNano()
+	if t.issueDelta(t.nowFn().UnixNano()) == 0 {
+		return
+	}
 
-		nowNano := now
-		elapse := nowNano - oldLit
-		delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
+	// Adding tokens and moving lastIssueTimestamp must happen as one step,
+	// otherwise the same elapsed time could be credited more than once.
+	t.issueLock.Lock()
+	defer t.issueLock.Unlock()
 
-		if delta == 0 {
-			return
-		}
+	now := t.nowFn().UnixNano()
+	delta := t.issueDelta(now)
+	if delta == 0 {
+		return
+	}
 
-		if oldTokens+delta > int64(t.capacity) {
-			delta = int64(t.capacity) - oldTokens
+	for {
+		oldTokens := atomic.LoadInt64(&t.tokens)
+		newTokens := oldTokens + delta
+		if newTokens > int64(t.capacity) {
+			newTokens = int64(t.capacity)
 		}
-
-		s1 := atomic.CompareAndSwapInt64(&t.tokens, oldTokens, oldTokens+delta)
-		if !s1 {
-			continue
+		if atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens) {
+			break
 		}
+	}
 
-		s2 := atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, nowNano)
-		if !s2 {
-			if s1 {
-				atomic.AddInt64(&t.tokens, -delta)
-			}
-			continue
-		}
+	atomic.StoreInt64(&t.lastIssueTimestamp, now)
 
-		break
-	}
+}
 
+// how many tokens should be issued at now
+func (t *AtomicTokenBucket) issueDelta(now int64) int64 {
+	elapse := now - atomic.LoadInt64(&t.lastIssueTimestamp)
+	return elapse / int64(time.Second) * int64(t.issueRatePerSecond)
 }
-- 
2.43.0


From b1350d81fdd1818378f5faba61f970c0aa6e0f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 05/33] fix: keep the request history for at least the window
 in the redis TTL limiter

---
 ratelimiter/ttl_ratelimiter_redis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index c0e5f6d..f1bdbc5 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -75,7 +75,7 @@ local size = redis.call('LLEN', key)
 if size < cap
 then
   redis.call('RPUSH', key, now)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(win, exp) * 2)
   return {0, 0, 0, ''}
 end
 
@@ -93,7 +93,7 @@ local list = redis.call('LRANGE', key, 0, 0)
 if table.getn(list) == 0
 then
   redis.call('RPUSH', key, now)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(win, exp) * 2)
   return {0, 0, 0, ''}
 end
 
@@ -102,7 +102,7 @@ if now - oldest > win
 then
   redis.call('RPUSH', key, now)
   redis.call('LPOP', key)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(win, exp) * 2)
   return {0, 0, 0, ''}
 end
 
-- 
2.43.0


From c9abaee36a5b525a92a2735526e2bfd2b7862caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 06/33] fix: never report a zero ttl for a blocked key

---
 ratelimiter/ttl_ratelimiter_redis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index f1bdbc5..8f117a9 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -66,7 +66,7 @@ end
 
 if redis.call('EXISTS', keyb) == 1
 then
-  local ttl = redis.call('TTL', keyb)
+  local ttl = math.max(redis.call('TTL', keyb), 1)
   local omsg = redis.call('GET', keyb)
   return {1, 0, ttl, omsg}
 end
@@ -115,7 +115,7 @@ return {1, 1, exp, msg}
 
 if redis.call('EXISTS', keyb) == 1
 then
-  local ttl = redis.call('TTL', keyb)
+  local ttl = math.max(redis.call('TTL', keyb), 1)
   local omsg = redis.call('GET', keyb)
   return {1, 0, ttl, omsg}
 end
-- 
2.43.0


From 7d69efbe6064f440f4b659934d3a0c94ecf1dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:58 +0000
Subject: [PATCH 07/33] fix: look up the block key with its hash tag in
 IsBlocked

---
 ratelimiter/ttl_ratelimiter_redis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index 8f117a9..ddcc1b0 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -163,6 +163,10 @@ func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey str
 	result := &Result{}
 	blockKey = blockKey + suffix
 
+	if r.hashTag != "" {
+		blockKey = blockKey + r.hashTag
+	}
+
 	//local keyb = KEYS[1]
 	raw, err := r.redisClient.WithContext(ctx).EvalSha(
 		scriptSha2,
-- 
2.43.0


From 87274516e48584d1e2d813475b00f75d808cb8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 08/33] fix: stop collecting when the receiver is closed

---
 event/bus.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/event/bus.go b/event/bus.go
index fe214a0..868c182 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -155,11 +155,15 @@ drained:
 // CollectTimeout collects elements of Receiver.C until timeout
 func (r *Receiver) CollectTimeout(timeout time.Duration) (data []interface{}) {
 	timer := time.NewTimer(timeout)
+	defer timer.Stop()
 	data = make([]interface{}, 0, 10)
 drained:
 	for {
 		select {
-		case d := <-r.C:
+		case d, ok := <-r.C:
+			if !ok {
+				break drained
+			}
 			data = append(data, d)
 		case <-timer.C:
 			break drained
-- 
2.43.0


From c179c7d5e842576ff5cb81f369375b8096d7a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 09/33] fix: closing receivers or the event bus is safe at any
 time

---
 event/bus.go | 76 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 64 insertions(+), 12 deletions(-)

diff --git a/event/bus.go b/event/bus.go
index 868c182..15c0a62 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -29,6 +29,7 @@ type FanOutBus struct {
 	ch          chan interface{}   // internal channel(bidirectional), C is backed by this
 	recvMapLock sync.RWMutex
 	recvMap     map[string]*Receiver
+	closed      bool
 }
 
 // NewFanOutBus make a new FanOutBus
@@ -59,6 +60,8 @@ func (b *FanOutBus) NewRecv(name string, bufSize int) *Receiver {
 //
 // Be careful if choose Block, the whole event bus will be blocked if any Receiver can't catch-up.
 // i.e, if Receiver A blocks, other receivers cannot receive event until Receiver A proceeds.
+//
+// If a Receiver with the same name exists it is replaced and closed.
 func (b *FanOutBus) NewRecvStrategy(name string, bufSize int, fullStrategy FullStrategy) *Receiver {
 	ch := make(chan interface{}, bufSize)
 
@@ -68,12 +71,21 @@ func (b *FanOutBus) NewRecvStrategy(name string, bufSize int, fullStrategy FullS
 		name:     name,
 		bus:      b,
 		strategy: fullStrategy,
+		done:     make(chan struct{}),
 	}
 
 	b.recvMapLock.Lock()
-	b.recvMap[name] = recv
+	replaced := b.recvMap[name]
+	if b.closed {
+		recv.close()
+	} else {
+		b.recvMap[name] = recv
+	}
 	b.recvMapLock.Unlock()
 
+	if replaced != nil {
+		replaced.close()
+	}
 	return recv
 }
 
@@ -84,30 +96,47 @@ func (b *FanOutBus) GoDispatch() {
 
 // Close FanOutBus.C, close all Receiver.C, deregister Receivers
 func (b *FanOutBus) Close() {
-	close(b.ch)
 	b.recvMapLock.Lock()
+	defer b.recvMapLock.Unlock()
+	if b.closed {
+		return
+	}
+	b.closed = true
+	close(b.ch)
 	for name, recv := range b.recvMap {
-		close(recv.ch)
+		recv.close()
 		delete(b.recvMap, name)
 	}
-	b.recvMapLock.Unlock()
 }
 
 func (b *FanOutBus) doDispatch() {
 	for event := range b.ch {
-		b.recvMapLock.RLock()
-		for _, recv := range b.recvMap {
+		// don't hold the lock while delivering, a blocked Receiver must not
+		// hold up those who create or close Receivers
+		for _, recv := range b.receivers() {
 			recv.onEvent(event)
 		}
-		b.recvMapLock.RUnlock()
 	}
 }
 
-func (b *FanOutBus) deregisterRecv(name string) {
+func (b *FanOutBus) receivers() []*Receiver {
+	b.recvMapLock.RLock()
+	defer b.recvMapLock.RUnlock()
+	recvs := make([]*Receiver, 0, len(b.recvMap))
+	for _, recv := range b.recvMap {
+		recvs = append(recvs, recv)
+	}
+	return recvs
+}
+
+func (b *FanOutBus) deregisterRecv(recv *Receiver) {
 	b.recvMapLock.Lock()
-	close(b.recvMap[name].ch)
-	delete(b.recvMap, name)
+	// the name may belong to a newer Receiver by now
+	if b.recvMap[recv.name] == recv {
+		delete(b.recvMap, recv.name)
+	}
 	b.recvMapLock.Unlock()
+	recv.close()
 }
 
 // Strategy for when Receiver.C is full
@@ -127,11 +156,24 @@ type Receiver struct {
 	name     string
 	bus      *FanOutBus
 	strategy FullStrategy
+
+	closeOnce sync.Once
+	done      chan struct{} // closed when closing, wakes up a blocked delivery
+	sendLock  sync.Mutex    // held while delivering, so that ch isn't closed meanwhile
 }
 
 // Close Receiver.C, deregistered itself from event bus
 func (r *Receiver) Close() {
-	r.bus.deregisterRecv(r.name)
+	r.bus.deregisterRecv(r)
+}
+
+func (r *Receiver) close() {
+	r.closeOnce.Do(func() {
+		close(r.done)
+		r.sendLock.Lock()
+		close(r.ch)
+		r.sendLock.Unlock()
+	})
 }
 
 // Drain drains Receiver.C until it's empty
@@ -173,6 +215,13 @@ drained:
 }
 
 func (r *Receiver) onEvent(v interface{}) {
+	r.sendLock.Lock()
+	defer r.sendLock.Unlock()
+	select {
+	case <-r.done:
+		return
+	default:
+	}
 	switch r.strategy {
 	case Drop:
 		select {
@@ -181,6 +230,9 @@ func (r *Receiver) onEvent(v interface{}) {
 			log.Println("receiver[", r.name, "]: can't catch-up, dropping event")
 		}
 	case Block:
-		r.ch <- v
+		select {
+		case r.ch <- v:
+		case <-r.done:
+		}
 	}
 }
-- 
2.43.0


From 139c610526a14f73cdef8497e23351ae481c85b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:33 +0000
Subject: [PATCH 10/33] fix: persist a config value when its update is accepted

---
 confstore/store.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 0ae24ce..1274ffa 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -125,14 +125,14 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 
 func (m *defaultImpl) Update(key string, value string) *KVError {
 	err := m.UpdateNoPersist(key, value)
-	if err != nil {
-		err2 := m.persister.Save(key, value)
-		if err2 != nil {
-			simplelog.ErrLogger.Printf("error happened when persist key[%s] value[%s]\n", key, value)
-			return nil
-		}
+	if err != nil || key == "" {
+		return err
 	}
-	return err
+	err2 := m.persister.Save(key, value)
+	if err2 != nil {
+		simplelog.ErrLogger.Printf("error happened when persist key[%s] value[%s]: %v\n", key, value, err2)
+	}
+	return nil
 }
 
 func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
-- 
2.43.0


From 7f4f13b8527b119a41a4fdcfe4d9d8c1ac1744bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:56 +0000
Subject: [PATCH 11/33] fix: batch update persists exactly the accepted entries

---
 confstore/store.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 1274ffa..3c59c94 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -100,26 +100,21 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 		return nil
 	}
 
+	okKvStrs := make([]*KVStr, 0, len(kvStrs))
 	for _, kvStr := range kvStrs {
 		error := m.UpdateNoPersist(kvStr.Key, kvStr.Value)
 		if error != nil {
 			errors = append(errors, error)
+		} else if kvStr.Key != "" {
+			okKvStrs = append(okKvStrs, kvStr)
 		}
 	}
 
-	// batch persist kvStrs
-	errorKeys := make(map[string]bool)
-	for _, kvError := range errors {
-		errorKeys[kvError.Key] = true
-	}
-	okKvStrs := make([]*KVStr, 0, len(kvStrs))
-	for _, kvStr := range kvStrs {
-		if errorKeys[kvStr.Key] {
-			continue
-		}
-		okKvStrs = append(okKvStrs, kvStr)
+	// batch persist what was accepted
+	err := m.persister.BatchSave(okKvStrs)
+	if err != nil {
+		simplelog.ErrLogger.Println("perister batch save error:", err)
 	}
-	m.persister.BatchSave(okKvStrs)
 	return errors
 }
 
-- 
2.43.0


From 0e1b4bac2124f98adb77514b4f2ff7b7148b4301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:32 +0000
Subject: [PATCH 12/33] fix: keep memory and persister consistent under
 concurrent config changes

---
 confstore/store.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/confstore/store.go b/confstore/store.go
index 3c59c94..b2406f9 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -19,6 +19,9 @@ type defaultImpl struct {
 	kvStr        map[string]string
 	persister    Persister
 	loadPolicy   LoadPolicy
+
+	// keeps concurrent changes in the same order in memory and in the persister
+	persistLock *sync.Mutex
 }
 
 func NewStore(persister Persister, policy LoadPolicy) Interface {
@@ -32,6 +35,7 @@ func NewStore(persister Persister, policy LoadPolicy) Interface {
 		kvStr:           make(map[string]string),
 		persister:       persister,
 		loadPolicy:      policy,
+		persistLock:     &sync.Mutex{},
 	}
 }
 
@@ -75,6 +79,9 @@ func (m *defaultImpl) DeregisterKey(key string) {
 		return
 	}
 
+	m.persistLock.Lock()
+	defer m.persistLock.Unlock()
+
 	m.kvProcessorLock.Lock()
 	defer m.kvProcessorLock.Unlock()
 
@@ -100,6 +107,9 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 		return nil
 	}
 
+	m.persistLock.Lock()
+	defer m.persistLock.Unlock()
+
 	okKvStrs := make([]*KVStr, 0, len(kvStrs))
 	for _, kvStr := range kvStrs {
 		error := m.UpdateNoPersist(kvStr.Key, kvStr.Value)
@@ -119,6 +129,9 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 }
 
 func (m *defaultImpl) Update(key string, value string) *KVError {
+	m.persistLock.Lock()
+	defer m.persistLock.Unlock()
+
 	err := m.UpdateNoPersist(key, value)
 	if err != nil || key == "" {
 		return err
@@ -248,6 +261,9 @@ func (m *defaultImpl) GetValueString(key string) (v string, hit bool) {
 }
 
 func (m *defaultImpl) ResetKey(key string) {
+	m.persistLock.Lock()
+	defer m.persistLock.Unlock()
+
 	m.kvLock.Lock()
 	defer m.kvLock.Unlock()
 
-- 
2.43.0


From f951196a9e027b259931f22e8cf7c634456ee17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 13/33] fix: an update never outlives the registration it was
 validated for

---
 confstore/store.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index b2406f9..ee37aab 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -148,10 +148,11 @@ func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
 		return nil
 	}
 
+	// held until the value is stored, so that the key stays registered with p
 	m.kvProcessorLock.RLock()
-	p, hit := m.kvProcessor[key]
-	m.kvProcessorLock.RUnlock()
+	defer m.kvProcessorLock.RUnlock()
 
+	p, hit := m.kvProcessor[key]
 	if !hit {
 		return &KVError{
 			Key:   key,
-- 
2.43.0


From 53b04a93736f8c28c7eb7ba0333f6209b074f274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 14/33] fix: a css colour is the whole value

---
 confstore/procs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confstore/procs.go b/confstore/procs.go
index e3effbe..3e44ad3 100644
--- a/confstore/procs.go
+++ b/confstore/procs.go
@@ -165,7 +165,7 @@ func (c *cssColorHex) Validate(value string) (ok bool, err string) {
 		return true, ""
 	}
 
-	match, error := regexp.MatchString("#[a-fA-F0-9]{6}", value)
+	match, error := regexp.MatchString("^#[a-fA-F0-9]{6}$", value)
 	if error != nil {
 		return false, error.Error()
 	}
-- 
2.43.0


From ff596e777c2341a09257810877b02705d352de01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 15/33] fix: reading a public key that is not RSA is an error

---
 util/rsa/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/rsa/util.go b/util/rsa/util.go
index df1c2e1..fd0bc9f 100644
--- a/util/rsa/util.go
+++ b/util/rsa/util.go
@@ -77,7 +77,11 @@ func ReadPublicKeyBytes(pemBytes []byte) (*rsa.PublicKey, error) {
 	if err != nil {
 		return nil, err
 	}
-	return pub.(*rsa.PublicKey), nil
+	rsaPub, ok := pub.(*rsa.PublicKey)
+	if !ok {
+		return nil, fmt.Errorf("expected RSA PUBLIC KEY, got: %T", pub)
+	}
+	return rsaPub, nil
 }
 
 func ReadX509Certificate(pem string) (*x509.Certificate, error) {
-- 
2.43.0


From 28dad6704123e7b92bda0d80ef0d08c63c2f9803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 16/33] fix: a task that cannot be started does not occupy its
 name

---
 schedule/task_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schedule/task_manager.go b/schedule/task_manager.go
index 7e4485b..b65c1d3 100644
--- a/schedule/task_manager.go
+++ b/schedule/task_manager.go
@@ -57,8 +57,8 @@ func (m *taskManager) Register(task Task) error {
 		return errors.New(fmt.Sprintf("task[%s] duplicated", task.Name()))
 	}
 
-	m.taskMap[task.Name()] = task
 	task.MustStart()
+	m.taskMap[task.Name()] = task
 	return nil
 }
 
-- 
2.43.0


From bdeb4082bb0d033f65a72adcd5e140436475a937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 17/33] fix: fields of named types do not break config loading

---
 conf/reflect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conf/reflect.go b/conf/reflect.go
index 1272de6..e39d792 100644
--- a/conf/reflect.go
+++ b/conf/reflect.go
@@ -19,6 +19,7 @@ package conf
 
 import (
 	"reflect"
+	"time"
 )
 
 // Initialize p's field. If field is exported and is a pointer,
@@ -125,6 +126,10 @@ func visitExportedFieldsPath(f reflect.StructField, v reflect.Value, path string
 
 	case reflect.Bool, reflect.Float64, reflect.Int,
 		reflect.Int64, reflect.String, reflect.Uint, reflect.Uint64:
+		if v.Type().PkgPath() != "" && v.Type() != reflect.TypeOf(time.Nanosecond) {
+			// a named type other than time.Duration is not supported
+			return
+		}
 		fn(path, f, v)
 
 	case reflect.Struct:
-- 
2.43.0


From 35499573d552a831adfad98f0c9c67dfe0df8184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 18/33] fix: a null or empty yaml value does not discard
 pointers of the config

---
 conf/reflect.go | 44 ++++++++++++++++++++++++++++++++++++++++++++
 conf/yaml.go    |  4 ++++
 2 files changed, 48 insertions(+)

diff --git a/conf/reflect.go b/conf/reflect.go
index e39d792..ada533b 100644
--- a/conf/reflect.go
+++ b/conf/reflect.go
@@ -59,6 +59,50 @@ func initPtrValue(v reflect.Value, path string) {
 
 }
 
+// A pointer field and the pointer it holds
+type ptrField struct {
+	field reflect.Value
+	ptr   reflect.Value
+}
+
+// Collect p's exported non-nil pointer fields, recursively
+func collectPtrs(p interface{}) []ptrField {
+	return collectPtrFields(reflect.ValueOf(p), nil)
+}
+
+func collectPtrFields(v reflect.Value, ptrs []ptrField) []ptrField {
+
+	if v.Kind() == reflect.Ptr {
+		if v.IsNil() {
+			return ptrs
+		}
+		if v.CanSet() {
+			ptrs = append(ptrs, ptrField{v, reflect.ValueOf(v.Interface())})
+		}
+		v = v.Elem()
+	}
+
+	if !v.CanSet() || v.Kind() != reflect.Struct {
+		return ptrs
+	}
+
+	for i := 0; i < v.NumField(); i++ {
+		ptrs = collectPtrFields(v.Field(i), ptrs)
+	}
+
+	return ptrs
+
+}
+
+// Give the fields that became nil their pointers back
+func restorePtrs(ptrs []ptrField) {
+	for _, p := range ptrs {
+		if p.field.IsNil() {
+			p.field.Set(p.ptr)
+		}
+	}
+}
+
 // Field visitor
 //
 // args:
diff --git a/conf/yaml.go b/conf/yaml.go
index ad2c073..1367457 100644
--- a/conf/yaml.go
+++ b/conf/yaml.go
@@ -32,10 +32,14 @@ func (y *yamlFileResolver) Resolve(p interface{}) error {
 		return err
 	}
 
+	// A null or empty value in the file makes the pointer it belongs to nil,
+	// such a value gives nothing, so the pointer is kept.
+	ptrs := collectPtrs(p)
 	err = yaml.Unmarshal(bytes, p)
 	if err != nil {
 		return err
 	}
+	restorePtrs(ptrs)
 	return nil
 
 }
-- 
2.43.0


From 55eaad993d875b2eab8ca8e053d57b57180c33af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 19/33] fix: print MaxOpenConns of database configs

---
 confs/mysql.go      | 2 +-
 confs/oracle.go     | 2 +-
 confs/postgresql.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/confs/mysql.go b/confs/mysql.go
index d754b5d..7fc9902 100644
--- a/confs/mysql.go
+++ b/confs/mysql.go
@@ -85,7 +85,7 @@ type MysqlConf struct {
 
 func (m *MysqlConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Database: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ReadTimeout: %v, WriteTimeout: %v, Timeout: %v, Loc: %v, ParseTime: %v, Params: %v}",
-		m.Host, m.Port, m.Database, m.MaxIdleConns, m.MaxIdleConns, m.ConnMaxLifetime, m.ReadTimeout,
+		m.Host, m.Port, m.Database, m.MaxOpenConns, m.MaxIdleConns, m.ConnMaxLifetime, m.ReadTimeout,
 		m.WriteTimeout, m.Timeout, m.Loc, m.ParseTime, m.Params)
 }
 
diff --git a/confs/oracle.go b/confs/oracle.go
index a8e100e..cf00ca6 100644
--- a/confs/oracle.go
+++ b/confs/oracle.go
@@ -60,7 +60,7 @@ type OracleConf struct {
 
 func (c *OracleConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Service: %s, Sid: %s, Servers: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ConnectTimeout: %v, Params: %v}",
-		c.Host, c.Port, c.Service, c.Sid, c.Servers, c.MaxIdleConns, c.MaxIdleConns,
+		c.Host, c.Port, c.Service, c.Sid, c.Servers, c.MaxOpenConns, c.MaxIdleConns,
 		c.ConnMaxLifetime, c.ConnectTimeout, c.Params)
 }
 
diff --git a/confs/postgresql.go b/confs/postgresql.go
index b52cb87..9da0b78 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -58,7 +58,7 @@ type PostgresqlConf struct {
 
 func (c *PostgresqlConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Database: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ConnectTimeout: %v, Params: %v}",
-		c.Host, c.Port, c.Database, c.MaxIdleConns, c.MaxIdleConns,
+		c.Host, c.Port, c.Database, c.MaxOpenConns, c.MaxIdleConns,
 		c.ConnMaxLifetime, c.ConnectTimeout, c.Params)
 }
 
-- 
2.43.0


From b5220fc58446a27a36fcb6428fdcfe9e5e4fbed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:46 +0000
Subject: [PATCH 20/33] fix: mysql clients present usernames, passwords and
 databases with special characters as configured

---
 confs/mysql.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/confs/mysql.go b/confs/mysql.go
index 7fc9902..8ae10a2 100644
--- a/confs/mysql.go
+++ b/confs/mysql.go
@@ -19,6 +19,7 @@ package confs
 
 import (
 	"database/sql"
+	"database/sql/driver"
 	"fmt"
 	sqlPlugin "github.com/SkyAPM/go2sky-plugins/sql"
 	"github.com/chanjarster/gears/simplelog"
@@ -95,12 +96,12 @@ func NewMySqlDb(conf *MysqlConf, customizer MysqlConfigCustomizer) *sql.DB {
 
 	mc := prepareMySqlNativeConfig(conf, customizer)
 
-	dsn := mc.FormatDSN()
-	db, err := sql.Open("mysql", dsn)
+	connector, err := newMySqlConnector(mc)
 	if err != nil {
 		simplelog.ErrLogger.Fatal(err)
 		panic(err)
 	}
+	db := sql.OpenDB(connector)
 	db.SetMaxOpenConns(conf.MaxOpenConns)
 	db.SetMaxIdleConns(conf.MaxIdleConns)
 	db.SetConnMaxLifetime(conf.ConnMaxLifetime)
@@ -119,16 +120,17 @@ func NewMySqlDbWithTracer(conf *MysqlConf, tracer *go2sky.Tracer, customizer Mys
 
 	mc := prepareMySqlNativeConfig(conf, customizer)
 
-	dsn := mc.FormatDSN()
-	db, err := sqlPlugin.Open("mysql", dsn, tracer,
-		sqlPlugin.WithSQLDBType(sqlPlugin.MYSQL),
-		sqlPlugin.WithQueryReport(),
-		sqlPlugin.WithParamReport(),
-	)
+	connector, err := newMySqlConnector(mc)
 	if err != nil {
 		simplelog.ErrLogger.Fatal(err)
 		panic(err)
 	}
+	db := sqlPlugin.OpenDB(connector, tracer,
+		sqlPlugin.WithSQLDBType(sqlPlugin.MYSQL),
+		sqlPlugin.WithPeerAddr(mc.Addr),
+		sqlPlugin.WithQueryReport(),
+		sqlPlugin.WithParamReport(),
+	)
 	db.SetMaxOpenConns(conf.MaxOpenConns)
 	db.SetMaxIdleConns(conf.MaxIdleConns)
 	db.SetConnMaxLifetime(conf.ConnMaxLifetime)
@@ -143,6 +145,19 @@ func NewMySqlDbWithTracer(conf *MysqlConf, tracer *go2sky.Tracer, customizer Mys
 	return db.DB
 }
 
+// newMySqlConnector goes through a DSN, so that driver options found in Params are understood, but keeps the
+// username, password and database out of it, because a DSN has no way to escape their special characters.
+func newMySqlConnector(mc *mysql.Config) (driver.Connector, error) {
+	bare := mc.Clone()
+	bare.User, bare.Passwd, bare.DBName = "", "", ""
+	cfg, err := mysql.ParseDSN(bare.FormatDSN())
+	if err != nil {
+		return nil, err
+	}
+	cfg.User, cfg.Passwd, cfg.DBName = mc.User, mc.Passwd, mc.DBName
+	return mysql.NewConnector(cfg)
+}
+
 func prepareMySqlNativeConfig(conf *MysqlConf, customizer MysqlConfigCustomizer) *mysql.Config {
 	mc := mysql.NewConfig()
 	mc.Timeout = conf.Timeout
-- 
2.43.0


From 756e79761fb6de0e9e199e76592f900278e3c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:12 +0000
Subject: [PATCH 21/33] fix: escape every part of postgresql connection strings

---
 confs/postgresql.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/confs/postgresql.go b/confs/postgresql.go
index 9da0b78..9b3885b 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -88,16 +88,18 @@ func NewPostgresqlDb(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustom
 }
 
 func buildPgDsn(conf *PostgresqlConf, options map[string]string) string {
-	ret := fmt.Sprintf("postgres://%s:%s@%s:%d/%s?", conf.Username, conf.Password, conf.Host, conf.Port, conf.Database)
+	query := url.Values{}
 	for key, val := range options {
-		val = strings.TrimSpace(val)
-		for _, temp := range strings.Split(val, ",") {
-			temp = strings.TrimSpace(temp)
-			ret += fmt.Sprintf("%s=%s&", key, url.QueryEscape(temp))
-		}
+		query.Set(key, val)
+	}
+	dsn := url.URL{
+		Scheme:   "postgres",
+		User:     url.UserPassword(conf.Username, conf.Password),
+		Host:     fmt.Sprintf("%s:%d", conf.Host, conf.Port),
+		Path:     "/" + conf.Database,
+		RawQuery: query.Encode(),
 	}
-	ret = strings.TrimRight(ret, "&")
-	return ret
+	return dsn.String()
 }
 
 func preparePgUrlOptions(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustomizer) map[string]string {
-- 
2.43.0


From 19ba877106242e8b17784ffbebed2ac0bb573d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:02 +0000
Subject: [PATCH 22/33] fix: oracle clients present usernames with colons as
 configured

---
 confs/oracle.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/confs/oracle.go b/confs/oracle.go
index cf00ca6..f5bb685 100644
--- a/confs/oracle.go
+++ b/confs/oracle.go
@@ -69,7 +69,11 @@ type OracleUrlOptionsCustomizer func(options map[string]string)
 func NewOracleDb(conf *OracleConf, customizer OracleUrlOptionsCustomizer) *sql.DB {
 
 	options := prepareUrlOptions(conf, customizer)
-	connectionString := go_ora.BuildUrl(conf.Host, conf.Port, conf.Service, conf.Username, conf.Password, options)
+	connectionString, err := buildOracleUrl(conf, options)
+	if err != nil {
+		simplelog.ErrLogger.Fatal(err)
+		panic(err)
+	}
 	db, err := sql.Open("oracle", connectionString)
 	if err != nil {
 		simplelog.ErrLogger.Fatal(err)
@@ -89,6 +93,16 @@ func NewOracleDb(conf *OracleConf, customizer OracleUrlOptionsCustomizer) *sql.D
 	return db
 }
 
+// buildOracleUrl escapes the username and password itself, because go_ora.BuildUrl leaves colons in the username.
+func buildOracleUrl(conf *OracleConf, options map[string]string) (string, error) {
+	u, err := url.Parse(go_ora.BuildUrl(conf.Host, conf.Port, conf.Service, "", "", options))
+	if err != nil {
+		return "", err
+	}
+	u.User = url.UserPassword(conf.Username, conf.Password)
+	return u.String(), nil
+}
+
 func prepareUrlOptions(conf *OracleConf, customizer OracleUrlOptionsCustomizer) map[string]string {
 	options := map[string]string{}
 	if conf.Sid == "" && conf.Service == "" {
@@ -127,7 +141,11 @@ func prepareUrlOptions(conf *OracleConf, customizer OracleUrlOptionsCustomizer)
 func NewOracleDbWithTracer(conf *OracleConf, tracer *go2sky.Tracer, customizer OracleUrlOptionsCustomizer) *sql.DB {
 
 	options := prepareUrlOptions(conf, customizer)
-	connectionString := go_ora.BuildUrl(conf.Host, conf.Port, conf.Service, conf.Username, conf.Password, options)
+	connectionString, err := buildOracleUrl(conf, options)
+	if err != nil {
+		simplelog.ErrLogger.Fatal(err)
+		panic(err)
+	}
 	db, err := sqlPlugin.Open("oracle", connectionString, tracer,
 		sqlPlugin.WithSQLDBType(sqlPlugin.IPV4),
 		sqlPlugin.WithQueryReport(),
-- 
2.43.0


From 374b3be2c375c9dad58ca7202d2de94a4ec08abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:19 +0000
Subject: [PATCH 23/33] fix: enforce the configured connection limits of
 elasticsearch clients

---
 confs/es.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/confs/es.go b/confs/es.go
index bcc000d..fbeb39d 100644
--- a/confs/es.go
+++ b/confs/es.go
@@ -34,8 +34,9 @@ func NewEsClient(conf *EsConf, customizer EsConfigCustomizer) *elasticsearch.Cli
 	}
 
 	transport := http.DefaultTransport.(*http.Transport).Clone()
-	transport.MaxIdleConnsPerHost = conf.MaxConnsPerHost
-	transport.MaxIdleConns = conf.MaxIdleConnsPerHost
+	transport.MaxConnsPerHost = conf.MaxConnsPerHost
+	transport.MaxIdleConnsPerHost = conf.MaxIdleConnsPerHost
+	transport.MaxIdleConns = 0 // limited per host
 	transport.ResponseHeaderTimeout = time.Second * 60
 
 	esConf.Transport = transport
-- 
2.43.0


From 66da5fd4a27f90f1cf0d7b6ad7e3ef4602c864dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:00 +0000
Subject: [PATCH 24/33] fix: apply custom trust certificates without a client
 key pair

---
 confs/fasthttpclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/confs/fasthttpclient.go b/confs/fasthttpclient.go
index d9ff944..beff76a 100644
--- a/confs/fasthttpclient.go
+++ b/confs/fasthttpclient.go
@@ -97,6 +97,7 @@ func NewFastHttpClient(hcConf *FastHttpClientConf, customizer FastHttpClientCust
 			appendCertPool(certPool, cert)
 		}
 		tlsConfig.RootCAs = certPool
+		tlsConfigured = true
 	} else if hcConf.SslTrustMode == "INSECURE" {
 		tlsConfig.InsecureSkipVerify = true
 		tlsConfigured = true
-- 
2.43.0


From a0a1ebd9c4fc4a854db85c9dfb338fec5f1632a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:44 +0000
Subject: [PATCH 25/33] fix: require the Basic scheme on the fasthttp pprof
 handler

---
 confs/pprof.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/confs/pprof.go b/confs/pprof.go
index 7d0cc68..dfa94ce 100644
--- a/confs/pprof.go
+++ b/confs/pprof.go
@@ -89,13 +89,13 @@ func NewFasthttpRoutingPprofHandler(conf *PprofConf) routing.Handler {
 			ctx.SetStatusCode(fasthttp.StatusUnauthorized)
 		}
 
-		auth := strings.TrimPrefix(string(ctx.Request.Header.Peek("Authorization")), "Basic ")
-		if auth == "" {
+		auth := string(ctx.Request.Header.Peek("Authorization"))
+		if !strings.HasPrefix(auth, "Basic ") {
 			refuse(ctx)
 			return nil
 		}
 
-		b, err := base64.StdEncoding.DecodeString(auth)
+		b, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(auth, "Basic "))
 		if err != nil {
 			refuse(ctx)
 			return nil
-- 
2.43.0


From 6df627412b5f0a66f088533e3512c1731bccc4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:19 +0000
Subject: [PATCH 26/33] fix: accept passwords containing colons on the fasthttp
 pprof handler

---
 confs/pprof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confs/pprof.go b/confs/pprof.go
index dfa94ce..de316b4 100644
--- a/confs/pprof.go
+++ b/confs/pprof.go
@@ -101,7 +101,7 @@ func NewFasthttpRoutingPprofHandler(conf *PprofConf) routing.Handler {
 			return nil
 		}
 
-		user_pass := strings.Split(string(b), ":")
+		user_pass := strings.SplitN(string(b), ":", 2)
 		if len(user_pass) != 2 {
 			refuse(ctx)
 			return nil
-- 
2.43.0


From eb6b0c39d835c33062e7315c6cd4831edf0c1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 27/33] fix: let errors of handlers through the skywalking
 routing middleware

---
 skywalking/fasthttp-routing/middleware.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/skywalking/fasthttp-routing/middleware.go b/skywalking/fasthttp-routing/middleware.go
index dbe5250..57d3c99 100644
--- a/skywalking/fasthttp-routing/middleware.go
+++ b/skywalking/fasthttp-routing/middleware.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"github.com/SkyAPM/go2sky"
 	routing "github.com/qiangxue/fasthttp-routing"
+	"net/http"
 	agentv3 "skywalking.apache.org/repo/goapi/collect/language/agent/v3"
 	"strconv"
 	"time"
@@ -80,28 +81,38 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 		SetSwContext(rCtx, spanCtx)
 
 		err = rCtx.Next()
+		statusCode := rCtx.Response.StatusCode()
 		if err != nil {
+			statusCode = errorStatusCode(err)
 			if options.logError {
 				span.Error(time.Now(), err.Error())
 			} else {
 				span.Error(time.Now())
 			}
-		} else if err = rCtx.Err(); err != nil {
+		} else if ctxErr := rCtx.Err(); ctxErr != nil {
 			if options.logError {
-				span.Error(time.Now(), err.Error())
+				span.Error(time.Now(), ctxErr.Error())
 			} else {
 				span.Error(time.Now())
 			}
-		} else if rCtx.Response.StatusCode() >= 400 {
+		} else if statusCode >= 400 {
 			if options.log4xxBody {
 				span.Error(time.Now(), string(rCtx.Response.Body()))
 			} else {
 				span.Error(time.Now())
 			}
 		}
-		span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))
+		span.Tag(go2sky.TagStatusCode, strconv.Itoa(statusCode))
 		span.End()
-		return nil
+		return err
 	}
 
 }
+
+// errorStatusCode is the status code the router answers for an error of the handlers
+func errorStatusCode(err error) int {
+	if httpErr, ok := err.(routing.HTTPError); ok {
+		return httpErr.StatusCode()
+	}
+	return http.StatusInternalServerError
+}
-- 
2.43.0


From 025b14c0d59674003f86188c81f9701a8059181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:47 +0000
Subject: [PATCH 28/33] fix: do not consume response body streams in the
 skywalking routing middleware

---
 skywalking/fasthttp-routing/middleware.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skywalking/fasthttp-routing/middleware.go b/skywalking/fasthttp-routing/middleware.go
index 57d3c99..01c694e 100644
--- a/skywalking/fasthttp-routing/middleware.go
+++ b/skywalking/fasthttp-routing/middleware.go
@@ -96,7 +96,8 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 				span.Error(time.Now())
 			}
 		} else if statusCode >= 400 {
-			if options.log4xxBody {
+			// reading a body stream would buffer it
+			if options.log4xxBody && !rCtx.Response.IsBodyStream() {
 				span.Error(time.Now(), string(rCtx.Response.Body()))
 			} else {
 				span.Error(time.Now())
-- 
2.43.0


From 933e228bba6a0d15aabc4c422bb699ac9675eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:00 +0000
Subject: [PATCH 29/33] fix: end the span of requests whose handlers panic

---
 skywalking/fasthttp-routing/middleware.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/skywalking/fasthttp-routing/middleware.go b/skywalking/fasthttp-routing/middleware.go
index 01c694e..1782e77 100644
--- a/skywalking/fasthttp-routing/middleware.go
+++ b/skywalking/fasthttp-routing/middleware.go
@@ -80,7 +80,16 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 
 		SetSwContext(rCtx, spanCtx)
 
+		returned := false
+		defer func() {
+			if !returned { // a handler panicked
+				span.Error(time.Now())
+				span.End()
+			}
+		}()
+
 		err = rCtx.Next()
+		returned = true
 		statusCode := rCtx.Response.StatusCode()
 		if err != nil {
 			statusCode = errorStatusCode(err)
-- 
2.43.0


From 681c8a9259376349da1964a8d049c1362136a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:48 +0000
Subject: [PATCH 30/33] fix: record the timeout response sent in the skywalking
 routing middleware

---
 skywalking/fasthttp-routing/middleware.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/skywalking/fasthttp-routing/middleware.go b/skywalking/fasthttp-routing/middleware.go
index 1782e77..a0ea137 100644
--- a/skywalking/fasthttp-routing/middleware.go
+++ b/skywalking/fasthttp-routing/middleware.go
@@ -90,9 +90,16 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 
 		err = rCtx.Next()
 		returned = true
-		statusCode := rCtx.Response.StatusCode()
+		response := &rCtx.Response
+		timeoutResponse := rCtx.LastTimeoutErrorResponse()
+		if timeoutResponse != nil { // it is what the server sends
+			response = timeoutResponse
+		}
+		statusCode := response.StatusCode()
 		if err != nil {
-			statusCode = errorStatusCode(err)
+			if timeoutResponse == nil {
+				statusCode = errorStatusCode(err)
+			}
 			if options.logError {
 				span.Error(time.Now(), err.Error())
 			} else {
@@ -106,8 +113,8 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 			}
 		} else if statusCode >= 400 {
 			// reading a body stream would buffer it
-			if options.log4xxBody && !rCtx.Response.IsBodyStream() {
-				span.Error(time.Now(), string(rCtx.Response.Body()))
+			if options.log4xxBody && !response.IsBodyStream() {
+				span.Error(time.Now(), string(response.Body()))
 			} else {
 				span.Error(time.Now())
 			}
-- 
2.43.0


From c884c03437ef4912eab949bb68ad6e3e27337d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:02 +0000
Subject: [PATCH 31/33] fix: keep redis commands and callers' spans intact when
 the tracing hook cannot create a span

---
 skywalking/redis/hook.go | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/skywalking/redis/hook.go b/skywalking/redis/hook.go
index d3367cf..24be67c 100644
--- a/skywalking/redis/hook.go
+++ b/skywalking/redis/hook.go
@@ -68,8 +68,33 @@ func noopInjector(headerKey, headerValue string) error {
 	return nil
 }
 
+// spanKey finds the span this hook created in the context of a call
+type spanKey struct {
+	hook *tracerHook
+}
+
+// createSpan returns nil span when no span can be created
+func (h *tracerHook) createSpan(ctx context.Context, opName string) (go2sky.Span, context.Context) {
+	if h.tracer == nil {
+		return nil, ctx
+	}
+	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, opName, h.opts.peer, noopInjector)
+	if err != nil {
+		return nil, context.WithValue(ctx, spanKey{h}, nil)
+	}
+	return span, context.WithValue(nCtx, spanKey{h}, span)
+}
+
+func (h *tracerHook) activeSpan(ctx context.Context) go2sky.Span {
+	span, _ := ctx.Value(spanKey{h}).(go2sky.Span)
+	return span
+}
+
 func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
-	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, cmd.Name(), h.opts.peer, noopInjector)
+	span, nCtx := h.createSpan(ctx, cmd.Name())
+	if span == nil {
+		return nCtx, nil
+	}
 
 	if h.opts.reportArgs {
 		span.Tag(go2sky.TagDBStatement, cmd.String())
@@ -81,11 +106,11 @@ func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.
 	span.Tag(go2sky.TagDBType, "Redis")
 	span.SetComponent(componentID)
 	span.SetSpanLayer(agentv3.SpanLayer_Cache)
-	return nCtx, err
+	return nCtx, nil
 }
 
 func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
-	span := go2sky.ActiveSpan(ctx)
+	span := h.activeSpan(ctx)
 	if span == nil {
 		return nil
 	}
@@ -108,7 +133,10 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 		return obj.Name()
 	})
 
-	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, opName, h.opts.peer, noopInjector)
+	span, nCtx := h.createSpan(ctx, opName)
+	if span == nil {
+		return nCtx, nil
+	}
 
 	if h.opts.reportArgs {
 		stmt := quickJoin(cmds, "|", func(obj rv7.Cmder) string {
@@ -122,7 +150,7 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 	span.Tag(go2sky.TagDBType, "Redis")
 	span.SetComponent(componentID)
 	span.SetSpanLayer(agentv3.SpanLayer_Cache)
-	return nCtx, err
+	return nCtx, nil
 
 }
 
@@ -140,7 +168,7 @@ func quickJoin(objs []rv7.Cmder, sep string, stringer stringer) string {
 }
 
 func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder) error {
-	span := go2sky.ActiveSpan(ctx)
+	span := h.activeSpan(ctx)
 	if span == nil {
 		return nil
 	}
-- 
2.43.0


From 62e6216e35aba7a5120e64872ff13d3a3eeff7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:39 +0000
Subject: [PATCH 32/33] fix: do not print the postgresql password when the host
 is unusable

---
 confs/postgresql.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/confs/postgresql.go b/confs/postgresql.go
index 9b3885b..c23a930 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -94,11 +94,16 @@ func buildPgDsn(conf *PostgresqlConf, options map[string]string) string {
 	}
 	dsn := url.URL{
 		Scheme:   "postgres",
-		User:     url.UserPassword(conf.Username, conf.Password),
 		Host:     fmt.Sprintf("%s:%d", conf.Host, conf.Port),
 		Path:     "/" + conf.Database,
 		RawQuery: query.Encode(),
 	}
+	// the driver's error for an unusable url would quote the credentials
+	if _, err := url.Parse(dsn.String()); err != nil {
+		simplelog.ErrLogger.Fatal("Postgresql connection error: ", err)
+		panic(err)
+	}
+	dsn.User = url.UserPassword(conf.Username, conf.Password)
 	return dsn.String()
 }
 
-- 
2.43.0


From f5360161a2393da4b0396c5a83cab3ecf6021aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:32 +0000
Subject: [PATCH 33/33] fix: keep braces in keys out of the way of the hash tag

In cluster mode redis takes the first braces of a key for its hash tag, so a
request or block key holding a brace put the keys of one call in different
slots and the limiter let everything pass.
---
 ratelimiter/ttl_ratelimiter_redis.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index ddcc1b0..e04ef60 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -127,6 +127,9 @@ return {0, 0, 0, ''}
 var (
 	scriptSha1 = ""
 	scriptSha2 = ""
+
+	// Redis takes the first braces in a key for its hash tag, so there may be none before ours.
+	hashTagEscaper = strings.NewReplacer("%", "%25", "{", "%7B")
 )
 
 func NewRedisTtlRateLimiter(redisClient *redis.Client, params TtlRateLimiterParams) TtlRateLimiter {
@@ -164,7 +167,7 @@ func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey str
 	blockKey = blockKey + suffix
 
 	if r.hashTag != "" {
-		blockKey = blockKey + r.hashTag
+		blockKey = hashTagEscaper.Replace(blockKey) + r.hashTag
 	}
 
 	//local keyb = KEYS[1]
@@ -198,8 +201,8 @@ func (r *redisTtlRateLimiter) ShouldBlock2Context(ctx context.Context, key strin
 	blockKey = blockKey + suffix
 
 	if r.hashTag != "" {
-		key = key + r.hashTag
-		blockKey = blockKey + r.hashTag
+		key = hashTagEscaper.Replace(key) + r.hashTag
+		blockKey = hashTagEscaper.Replace(blockKey) + r.hashTag
 	}
 
 	//local key = KEYS[1]
-- 
2.43.0

