From 2b33a85cafb1b892e809ac27ff67196e9db4f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 01/27] fix: redis Keys reports the session status and hides
 the metadata field

---
 provider/redis/provider.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 9c67bb9..ddd7d9b 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -356,11 +356,37 @@ func (p *Provider) Keys(ctx context.Context, token string) (keys []string, e err
 		return
 	}
 
-	keys, e = p.opts.client.HKeys(ctx, p.keyName(token)).Result()
+	key := p.keyName(token)
+	tx := p.opts.client.TxPipeline()
+	defer tx.Close()
+	metadata := tx.HGet(ctx, key, p.opts.metadataKey)
+	fields := tx.HKeys(ctx, key)
+	_, e = tx.Exec(ctx)
 	if e != nil {
+		if e == redis.Nil {
+			e = sessionid.ErrTokenNotExists
+			return
+		}
 		e = p.toError(e)
 		return
 	}
+	var md _Metadata
+	e = p.opts.coder.Decode([]byte(metadata.Val()), &md)
+	if e != nil {
+		return
+	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
+		p.pushDelete(key)
+		return
+	} else if md.IsExpired() {
+		e = sessionid.ErrTokenExpired
+		return
+	}
+	for _, field := range fields.Val() {
+		if field != p.opts.metadataKey {
+			keys = append(keys, field)
+		}
+	}
 	return
 }
 
-- 
2.43.0


From 9221d3cc6a0631ed74b2dc7ddc2a3d33821683ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 02/27] fix: redis Create replaces a session of the same token
 instead of merging into it

---
 provider/redis/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index ddd7d9b..aa61f5d 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -151,6 +151,7 @@ func (p *Provider) Create(ctx context.Context,
 	key := p.keyName(access)
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
+	tx.Del(ctx, key)
 	tx.HSet(ctx, key, fields...)
 	tx.ExpireAt(ctx, key, md.RefreshDeadline)
 	tx.Expire(ctx, key, p.opts.refresh)
-- 
2.43.0


From 69fcfaac50e4793673eb1fc1eda0ab6a59a6e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 03/27] fix: redis keys must not expire before the refresh
 deadline

---
 provider/redis/metadata.go | 6 ++++++
 provider/redis/provider.go | 7 +++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/provider/redis/metadata.go b/provider/redis/metadata.go
index 2f0d8fa..2801a81 100644
--- a/provider/redis/metadata.go
+++ b/provider/redis/metadata.go
@@ -26,6 +26,12 @@ func (md *_Metadata) IsExpired() bool {
 func (md *_Metadata) IsDeleted() bool {
 	return !md.RefreshDeadline.After(time.Now())
 }
+
+// TTL returns how long redis has to keep the session, independent of the clock
+// of the server and never shorter than until the refresh deadline.
+func (md *_Metadata) TTL() time.Duration {
+	return time.Until(md.RefreshDeadline) + time.Millisecond
+}
 func (md *_Metadata) DoRefresh(access, refresh string, accessDuration, refreshDuration time.Duration) {
 	at := time.Now()
 	md.Access = access
diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index aa61f5d..135d054 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -153,8 +153,7 @@ func (p *Provider) Create(ctx context.Context,
 	defer tx.Close()
 	tx.Del(ctx, key)
 	tx.HSet(ctx, key, fields...)
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
-	tx.Expire(ctx, key, p.opts.refresh)
+	tx.PExpire(ctx, key, md.TTL())
 	_, e = tx.Exec(ctx)
 	if e != nil {
 		e = p.toError(e)
@@ -287,7 +286,7 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, fields)
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
+	tx.PExpire(ctx, key, md.TTL())
 	_, e = tx.Exec(ctx)
 	if e != nil {
 		e = p.toError(e)
@@ -452,7 +451,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, p.opts.metadataKey, string(b))
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
+	tx.PExpire(ctx, key, md.TTL())
 	tx.Rename(ctx, key, newkey)
 	_, e = tx.Exec(ctx)
 	if e != nil {
-- 
2.43.0


From 8105a1f7348edd6d4b13158dc56f872dd698d1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 04/27] fix: redis Refresh of a dead session reports
 ErrTokenNotExists

---
 provider/redis/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 135d054..58274c7 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -435,6 +435,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
 		p.pushDelete(key)
 		return
 	} else if md.Refresh != refresh {
-- 
2.43.0


From ccc6bb014a42ad1ffc803a265c5dbcb6a6e32f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 05/27] fix: redis Get hides the metadata field and does not
 delete absent sessions in the background

---
 provider/redis/provider.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 58274c7..c081c5a 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -334,10 +334,9 @@ func (p *Provider) Get(ctx context.Context, token string, keys []string) (vals [
 				}
 			} else {
 				e = sessionid.ErrTokenNotExists
-				p.pushDelete(key)
 				break
 			}
-		} else {
+		} else if keys[i-1] != p.opts.metadataKey {
 			if str, ok := v.(string); ok {
 				vals[i-1] = sessionid.Value{
 					Exists: true,
-- 
2.43.0


From b1c059871342b59e6f72ef892b31ec08efa812c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 06/27] fix: redis Delete reports the session status and
 refuses the reserved key

---
 provider/redis/provider.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index c081c5a..a5a743a 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -395,7 +395,14 @@ func (p *Provider) Delete(ctx context.Context, token string, keys []string) (e e
 	if e != nil {
 		return
 	}
-	if len(keys) == 0 {
+	for _, key := range keys {
+		e = p.checkKey(key)
+		if e != nil {
+			return
+		}
+	}
+	e = p.Check(ctx, token)
+	if e != nil || len(keys) == 0 {
 		return
 	}
 	_, e = p.opts.client.HDel(ctx, p.keyName(token), keys...).Result()
-- 
2.43.0


From 6e75613c0d6243e77ed50137f068b8c29906040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 07/27] fix: redis Destroy ends exactly the sessions of the id,
 also while they are refreshed

---
 provider/redis/provider.go | 41 +++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index a5a743a..a045468 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -3,6 +3,7 @@ package redis
 import (
 	"context"
 	"errors"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -174,22 +175,34 @@ func (p *Provider) keyName(key string) string {
 
 // Destroy a session by id
 func (p *Provider) Destroy(ctx context.Context, id string) (e error) {
-	result := p.opts.client.Keys(ctx, p.keyName(id+`.*`))
-	e = result.Err()
-	if e != nil {
-		e = p.toError(e)
-		return
-	}
-	keys := result.Val()
-	if len(keys) == 0 {
-		return
+	if strings.IndexByte(id, sessionid.Separator) != -1 {
+		return // not the id of any token
 	}
-	e = p.opts.client.Del(ctx, keys...).Err()
-	if e != nil {
-		e = p.toError(e)
-		return
+	pattern := escapePattern(p.keyName(id)) + `.*.*`
+	for {
+		var keys []string
+		keys, e = p.opts.client.Keys(ctx, pattern).Result()
+		if e != nil {
+			e = p.toError(e)
+			return
+		} else if len(keys) == 0 {
+			return
+		}
+		var count int64
+		count, e = p.opts.client.Del(ctx, keys...).Result()
+		if e != nil {
+			e = p.toError(e)
+			return
+		} else if count >= int64(len(keys)) {
+			return
+		}
+		// a key has gone in between, maybe because the session was refreshed
 	}
-	return
+}
+
+// escapePattern returns a pattern for KEYS that matches only s
+func escapePattern(s string) string {
+	return strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`, `]`, `\]`).Replace(s)
 }
 
 // Destroy a session by token
-- 
2.43.0


From ad2e4bdbcc922898440ef00f1423db73e4c01057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 08/27] fix: memory Refresh onto the token of another session
 replaces that session

---
 provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider.go b/provider.go
index 3c04702..8be954c 100644
--- a/provider.go
+++ b/provider.go
@@ -619,6 +619,7 @@ func (p *MemoryProvider) Refresh(ctx context.Context, access, refresh, newAccess
 	// remove old
 	p.unsafePop(ele)
 	delete(p.tokens, access)
+	p.unsafeDestroyByToken(newAccess)
 	// push new
 	t.Refresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
 	p.tokens[newAccess] = p.lru.PushBack(t)
-- 
2.43.0


From cd98958b5edb1a5510c7468b6c2e6a12988f6a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 09/27] fix: bolt Refresh onto the token of another session
 replaces that session

---
 provider/bolt/provider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index f6dee5d..717182c 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -772,6 +772,10 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 			if e != nil {
 				return
 			}
+			e = p.destoryToken(store, bMD, bData, bIDS, bLRU, newAccess)
+			if e != nil {
+				return
+			}
 			// new
 			md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
 			key = []byte(newAccess)
-- 
2.43.0


From d325aac2ab76ba66835df9eb493025d672746de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 10/27] fix: bolt Clear works on a database that never had a
 session

---
 provider/bolt/provider.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 717182c..6765384 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -860,9 +860,11 @@ func (p *Provider) Clear() (e error) {
 				store                  = p.store(t)
 				bMD, bData, bIDS, bLRU = p.buckets(store)
 			)
-			e = store.Delete(keyCount)
-			if e != nil {
-				return
+			if store.Get(keyCount) != nil {
+				e = store.Delete(keyCount)
+				if e != nil {
+					return
+				}
 			}
 			e = p.deleteBucket(bMD)
 			if e != nil {
-- 
2.43.0


From e074c523f9e4cc530e4ea8fadf313253e452c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 11/27] fix: bolt keeps the session limit when a database is
 reopened with a smaller one

---
 provider/bolt/provider.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 6765384..6e700a7 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -307,8 +307,8 @@ func (p *Provider) Create(ctx context.Context,
 		if e != nil {
 			return
 		}
-		if p.opts.maxSize > 0 &&
-			p.count(store) >= uint64(p.opts.maxSize) {
+		for count := p.count(store); p.opts.maxSize > 0 &&
+			count >= uint64(p.opts.maxSize); count-- {
 			e = p.unsafePop(store, bMD, bData, bIDS, bLRU)
 			if e != nil {
 				return
-- 
2.43.0


From 9111d9575eefe6dcae65645d894f345e84c93224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 12/27] fix: accept only the canonical encoding of a signature

---
 cryptoer/hmac.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptoer/hmac.go b/cryptoer/hmac.go
index a0faaba..c5729fc 100644
--- a/cryptoer/hmac.go
+++ b/cryptoer/hmac.go
@@ -85,6 +85,10 @@ func (m *SigningMethodHMAC) Verify(signingString, signature string, key interfac
 	if !hmac.Equal(sig, hasher.Sum(nil)) {
 		return ErrSignatureInvalid
 	}
+	// Decoding ignores line breaks and unused bits, only the exact text is a signature.
+	if signature != EncodeSegment(sig) {
+		return ErrSignatureInvalid
+	}
 
 	// No validation errors.  Signature is good.
 	return nil
-- 
2.43.0


From 325a221acad3ec4bb42fdc73b779707938363d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 13/27] fix: make the hashes of all signing methods available

---
 cryptoer/hmac.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptoer/hmac.go b/cryptoer/hmac.go
index c5729fc..ee162bf 100644
--- a/cryptoer/hmac.go
+++ b/cryptoer/hmac.go
@@ -3,6 +3,10 @@ package cryptoer
 import (
 	"crypto"
 	"crypto/hmac"
+	_ "crypto/md5"
+	_ "crypto/sha1"
+	_ "crypto/sha256"
+	_ "crypto/sha512"
 	"encoding/base64"
 	"errors"
 )
-- 
2.43.0


From a4debdd37e20945e914522f399d755eaede19a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 14/27] fix: a session handle decodes cached bytes again for
 every Get

The decoded value was kept and assigned to the destination of later calls: it
panicked when only the kinds of the types matched, shared maps and slices
between callers, and carried over what a destination held before decoding.
---
 session.go | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/session.go b/session.go
index 2ab136d..8c8eb8e 100644
--- a/session.go
+++ b/session.go
@@ -12,8 +12,6 @@ type Value struct {
 }
 type value struct {
 	Value
-	Elem  reflect.Value
-	Ready bool
 }
 
 type Session struct {
@@ -162,19 +160,8 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 	}
 	if v, ok := s.getKey(key); ok {
 		if v.Exists {
-			if v.Ready && vo.Elem().Kind() == v.Elem.Elem().Kind() {
-				vo.Elem().Set(v.Elem.Elem())
-			} else {
-				e = s.coder.Decode(v.Bytes, pointer)
-				if e != nil {
-					return
-				}
-				v.Ready = true
-				p := reflect.New(vo.Elem().Type())
-				p.Elem().Set(vo.Elem())
-				v.Elem = p
-				s.keys[key] = v
-			}
+			// decode again: the decoded value belongs to the earlier caller
+			e = s.coder.Decode(v.Bytes, pointer)
 			return
 		}
 		e = ErrKeyNotExists
@@ -200,14 +187,9 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 	if e != nil {
 		return
 	}
-	p := reflect.New(vo.Elem().Type())
-	p.Elem().Set(vo.Elem())
-
 	var v value
 	v.Exists = true
 	v.Bytes = vals[0].Bytes
-	v.Ready = true
-	v.Elem = p
 	s.keys[key] = v
 	return
 }
-- 
2.43.0


From df988c4e873c389df275a82121a8e2a24de8cf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 15/27] fix: a session handle forgets the keys it deleted

---
 session.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/session.go b/session.go
index 8c8eb8e..08129df 100644
--- a/session.go
+++ b/session.go
@@ -196,5 +196,11 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 
 // Delete keys
 func (s *Session) Delete(ctx context.Context, token string, key ...string) (e error) {
-	return s.provider.Delete(ctx, token, key)
+	e = s.provider.Delete(ctx, token, key)
+	if e == nil && token == s.token {
+		for _, k := range key {
+			delete(s.keys, k)
+		}
+	}
+	return
 }
-- 
2.43.0


From 0858a1a924e84e090b52747d7433ca7da8bd6247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 16/27] fix: bolt Get returns copies, not memory of the ended
 transaction

---
 provider/bolt/metadata.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/provider/bolt/metadata.go b/provider/bolt/metadata.go
index a2b5fff..650c41f 100644
--- a/provider/bolt/metadata.go
+++ b/provider/bolt/metadata.go
@@ -170,7 +170,8 @@ func (p *Provider) getData(bucket *bolt.Bucket, token string, key []string) (pai
 		b := bucket.Get([]byte(k))
 		if b != nil {
 			pairs[i] = sessionid.Value{
-				Bytes:  b,
+				// b is only valid until the transaction ends
+				Bytes:  append([]byte{}, b...),
 				Exists: true,
 			}
 		}
-- 
2.43.0


From 1808e6325177243e9e19130a047a7ece365a201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 17/27] fix: bolt Clear on a closed store releases its lock

---
 provider/bolt/provider.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 6e700a7..ec48d76 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -854,6 +854,7 @@ func (p *Provider) deleteBucket(bucket *bolt.Bucket) (e error) {
 }
 func (p *Provider) Clear() (e error) {
 	p.m.Lock()
+	defer p.m.Unlock()
 	if p.done == 0 {
 		e = p.db.Update(func(t *bolt.Tx) (e error) {
 			var (
@@ -887,8 +888,6 @@ func (p *Provider) Clear() (e error) {
 
 	} else {
 		e = sessionid.ErrProviderClosed
-		return
 	}
-	p.m.Unlock()
 	return
 }
-- 
2.43.0


From 572ff895f418172e8c3cf781809391c7d30f9746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 18/27] fix: redis Destroy reports a closed store for every id

---
 provider/redis/provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index a045468..a60f755 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -176,6 +176,9 @@ func (p *Provider) keyName(key string) string {
 // Destroy a session by id
 func (p *Provider) Destroy(ctx context.Context, id string) (e error) {
 	if strings.IndexByte(id, sessionid.Separator) != -1 {
+		if p.ctx.Err() != nil {
+			e = sessionid.ErrProviderClosed
+		}
 		return // not the id of any token
 	}
 	pattern := escapePattern(p.keyName(id)) + `.*.*`
-- 
2.43.0


From fbaf6da12950b0d9833aeeb072418c283d5fc747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 19/27] fix: memory cleaning forgets an id with its last
 session

---
 provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider.go b/provider.go
index 8be954c..336c3f8 100644
--- a/provider.go
+++ b/provider.go
@@ -191,7 +191,7 @@ func (p *MemoryProvider) unsafeClear() {
 				if str != t.access {
 					continue
 				}
-				if len(strs) == 0 {
+				if len(strs) == 1 {
 					delete(p.ids, t.id)
 				} else {
 					copy(strs[i:], strs[i+1:])
-- 
2.43.0


From 0361c128923bb3a0341b203e8faa0fa59aaac3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 20/27] fix: bolt removes the dead sessions that were touched

---
 provider/bolt/provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index ec48d76..8b9b486 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -240,7 +240,7 @@ func (p *Provider) doCheck(m map[string]bool) (closed bool) {
 		)
 		for token := range m {
 			md, e = p.getMetadata(bMD, []byte(token))
-			if e == nil {
+			if e != nil {
 				return
 			} else if md == nil {
 				continue
-- 
2.43.0


From f62b71c44b2e9d57a3ae07836b94705dd71ca2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 21/27] fix: a closed bolt store does not clean its database
 any more

---
 provider/bolt/provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 8b9b486..b84971c 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -158,6 +158,9 @@ func (p *Provider) data(t *bolt.Tx) (store, md, data *bolt.Bucket) {
 }
 
 func (p *Provider) doClear() {
+	if p.done != 0 {
+		return
+	}
 	p.db.Update(func(t *bolt.Tx) (e error) {
 		var (
 			store                  = p.store(t)
-- 
2.43.0


From 35984decbc0fa41398476ea9dfe77f15113bea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 22/27] fix: a redis refresh token works only once under
 concurrency

---
 provider/redis/provider.go | 76 ++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 31 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index a60f755..a2429f2 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -222,8 +222,18 @@ func (p *Provider) DestroyByToken(ctx context.Context, token string) (e error) {
 	}
 	return
 }
-func (p *Provider) getMetadata(ctx context.Context, key string, md *_Metadata) (val string, e error) {
-	val, e = p.opts.client.HGet(ctx, key, p.opts.metadataKey).Result()
+
+// watch calls f, again if another client has changed the key in the meantime
+func (p *Provider) watch(ctx context.Context, key string, f func(tx *redis.Tx) error) (e error) {
+	for {
+		e = p.opts.client.Watch(ctx, f, key)
+		if e != redis.TxFailedErr {
+			return p.toError(e)
+		}
+	}
+}
+func (p *Provider) getMetadata(ctx context.Context, cmd redis.Cmdable, key string, md *_Metadata) (val string, e error) {
+	val, e = cmd.HGet(ctx, key, p.opts.metadataKey).Result()
 	if e != nil {
 		if e.Error() == `redis: nil` {
 			e = sessionid.ErrTokenNotExists
@@ -248,7 +258,7 @@ func (p *Provider) Check(ctx context.Context, token string) (e error) {
 
 	var md _Metadata
 	key := p.keyName(token)
-	_, e = p.getMetadata(ctx, key, &md)
+	_, e = p.getMetadata(ctx, p.opts.client, key, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
@@ -286,7 +296,7 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 
 	var md _Metadata
 	key := p.keyName(token)
-	mdStr, e := p.getMetadata(ctx, key, &md)
+	mdStr, e := p.getMetadata(ctx, p.opts.client, key, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
@@ -451,35 +461,39 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	if e != nil {
 		return
 	}
-	var md _Metadata
-	key := p.keyName(access)
-	_, e = p.getMetadata(ctx, key, &md)
-	if e != nil {
+	var (
+		key     = p.keyName(access)
+		newkey  = p.keyName(newAccess)
+		deleted bool
+	)
+	e = p.watch(ctx, key, func(tx *redis.Tx) (e error) {
+		var md _Metadata
+		_, e = p.getMetadata(ctx, tx, key, &md)
+		if e != nil {
+			return
+		} else if md.IsDeleted() {
+			e = sessionid.ErrTokenNotExists
+			deleted = true
+			return
+		} else if md.Refresh != refresh {
+			e = sessionid.ErrRefreshTokenNotMatched
+			return
+		}
+		md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
+		b, e := p.opts.coder.Encode(&md)
+		if e != nil {
+			return
+		}
+		_, e = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+			pipe.HSet(ctx, key, p.opts.metadataKey, string(b))
+			pipe.PExpire(ctx, key, md.TTL())
+			pipe.Rename(ctx, key, newkey)
+			return nil
+		})
 		return
-	} else if md.IsDeleted() {
-		e = sessionid.ErrTokenNotExists
+	})
+	if deleted {
 		p.pushDelete(key)
-		return
-	} else if md.Refresh != refresh {
-		e = sessionid.ErrRefreshTokenNotMatched
-		return
-	}
-	md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
-	b, e := p.opts.coder.Encode(&md)
-	if e != nil {
-		return
-	}
-
-	newkey := p.keyName(newAccess)
-	tx := p.opts.client.TxPipeline()
-	defer tx.Close()
-	tx.HSet(ctx, key, p.opts.metadataKey, string(b))
-	tx.PExpire(ctx, key, md.TTL())
-	tx.Rename(ctx, key, newkey)
-	_, e = tx.Exec(ctx)
-	if e != nil {
-		e = p.toError(e)
-		return
 	}
 	return
 }
-- 
2.43.0


From 01508ac6fd138bbca709471fe99f97be21266683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 23/27] fix: redis Put does not revive a session ended at the
 same time

---
 provider/redis/provider.go | 63 +++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index a2429f2..21baa46 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -271,6 +271,37 @@ func (p *Provider) Check(ctx context.Context, token string) (e error) {
 	}
 	return
 }
+
+// update queues changes of a session that is neither expired nor changed by another client meanwhile
+func (p *Provider) update(ctx context.Context, token string, f func(pipe redis.Pipeliner, key string, md *_Metadata)) (e error) {
+	var (
+		key     = p.keyName(token)
+		deleted bool
+	)
+	e = p.watch(ctx, key, func(tx *redis.Tx) (e error) {
+		var md _Metadata
+		_, e = p.getMetadata(ctx, tx, key, &md)
+		if e != nil {
+			return
+		} else if md.IsDeleted() {
+			e = sessionid.ErrTokenNotExists
+			deleted = true
+			return
+		} else if md.IsExpired() {
+			e = sessionid.ErrTokenExpired
+			return
+		}
+		_, e = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+			f(pipe, key, &md)
+			return nil
+		})
+		return
+	})
+	if deleted {
+		p.pushDelete(key)
+	}
+	return
+}
 func (p *Provider) pushDelete(token string) {
 	select {
 	case <-p.ctx.Done():
@@ -285,7 +316,7 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 		return
 	}
 
-	fields := make([]string, 0, (len(pair)+1)*2)
+	fields := make([]interface{}, 0, (len(pair)+1)*2)
 	for _, field := range pair {
 		e = p.checkKey(field.Key)
 		if e != nil {
@@ -294,30 +325,12 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 		fields = append(fields, field.Key, string(field.Value))
 	}
 
-	var md _Metadata
-	key := p.keyName(token)
-	mdStr, e := p.getMetadata(ctx, p.opts.client, key, &md)
-	if e != nil {
-		return
-	} else if md.IsDeleted() {
-		e = sessionid.ErrTokenNotExists
-		p.pushDelete(key)
-		return
-	} else if md.IsExpired() {
-		e = sessionid.ErrTokenExpired
-		return
-	}
-	fields = append(fields, p.opts.metadataKey, mdStr)
-
-	tx := p.opts.client.TxPipeline()
-	defer tx.Close()
-	tx.HSet(ctx, key, fields)
-	tx.PExpire(ctx, key, md.TTL())
-	_, e = tx.Exec(ctx)
-	if e != nil {
-		e = p.toError(e)
-		return
-	}
+	e = p.update(ctx, token, func(pipe redis.Pipeliner, key string, md *_Metadata) {
+		if len(fields) != 0 {
+			pipe.HSet(ctx, key, fields...)
+		}
+		pipe.PExpire(ctx, key, md.TTL())
+	})
 	return
 }
 
-- 
2.43.0


From c59c3ad65bd15fd401e010cb326f4da0f76a2d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 24/27] fix: redis Delete is not lost when the session is
 refreshed at the same time

---
 provider/redis/provider.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 21baa46..1de9107 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -440,15 +440,12 @@ func (p *Provider) Delete(ctx context.Context, token string, keys []string) (e e
 			return
 		}
 	}
-	e = p.Check(ctx, token)
-	if e != nil || len(keys) == 0 {
-		return
-	}
-	_, e = p.opts.client.HDel(ctx, p.keyName(token), keys...).Result()
-	if e != nil {
-		e = p.toError(e)
-		return
+	if len(keys) == 0 {
+		return p.Check(ctx, token)
 	}
+	e = p.update(ctx, token, func(pipe redis.Pipeliner, key string, md *_Metadata) {
+		pipe.HDel(ctx, key, keys...)
+	})
 	return
 }
 func (p *Provider) checkID(token ...string) (e error) {
-- 
2.43.0


From 90984f0f063efcdd431f5c1c040231f397a8efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 25/27] fix: a bolt store kept using the caller's slice as its
 bucket name

Changing the slice passed to WithBucket made every later call panic
because the bucket was not found.
---
 provider/bolt/option.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/provider/bolt/option.go b/provider/bolt/option.go
index 35dfd02..4c8ea3c 100644
--- a/provider/bolt/option.go
+++ b/provider/bolt/option.go
@@ -69,6 +69,8 @@ func WithDB(db *bolt.DB) Option {
 	})
 }
 func WithBucket(bucket []byte) Option {
+	// the caller may change its slice later
+	bucket = append([]byte(nil), bucket...)
 	return newFuncOption(func(o *options) {
 		o.bucket = bucket
 	})
-- 
2.43.0


From 36558db9f081962be241974c8abe5d90b3090a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:14 +0000
Subject: [PATCH 26/27] fix: a manager kept using the caller's slice as its key

Changing the slice passed to WithKey changed the key of the manager:
issued tokens were refused, and others accepted.
---
 option.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/option.go b/option.go
index 235ba44..744026a 100644
--- a/option.go
+++ b/option.go
@@ -38,6 +38,8 @@ func WithMethod(method cryptoer.SigningMethod) Option {
 	})
 }
 func WithKey(key []byte) Option {
+	// the caller may change its slice later
+	key = append([]byte(nil), key...)
 	return newFuncOption(func(o *options) {
 		o.key = key
 	})
-- 
2.43.0


From 1b23762441b6ca94d6f69e0ca9d8e34868833542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 27/27] fix: redis sessions with the longest life time must not
 end at once

---
 provider/redis/metadata.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/provider/redis/metadata.go b/provider/redis/metadata.go
index 2801a81..08c2e8f 100644
--- a/provider/redis/metadata.go
+++ b/provider/redis/metadata.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"time"
 )
 
@@ -30,7 +31,11 @@ func (md *_Metadata) IsDeleted() bool {
 // TTL returns how long redis has to keep the session, independent of the clock
 // of the server and never shorter than until the refresh deadline.
 func (md *_Metadata) TTL() time.Duration {
-	return time.Until(md.RefreshDeadline) + time.Millisecond
+	ttl := time.Until(md.RefreshDeadline)
+	if ttl < math.MaxInt64-time.Millisecond {
+		ttl += time.Millisecond
+	}
+	return ttl
 }
 func (md *_Metadata) DoRefresh(access, refresh string, accessDuration, refreshDuration time.Duration) {
 	at := time.Now()
-- 
2.43.0

