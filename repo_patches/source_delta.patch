From 0773a81311167dcd73c0b9c0b2133dea608503ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 01/12] fix: BytesSet.Del deletes the key it is given

The key comparison was inverted: deleting a present key did nothing, and
deleting a missing key removed whichever key shared its hash prefix.
---
 bytes_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytes_set.go b/bytes_set.go
index c0027fb..7fac452 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -203,7 +203,7 @@ func (s BytesSet) Del(key []byte) {
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			continue
 		}
-		if bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
+		if !bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
 			return
 		}
 		l.pmap &^= bit
-- 
2.43.0


From b1ecce749607e4fb519f660d423f5f7785f07f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 02/12] fix: rehash the conflicting key with the right count in
 Map.Set and Set.Add

The repeat count is the number of 64-bit hashes used up (d>>4), not the
position within the current one. With the wrong hash the conflicting key was
filed under a slot where it could not be found again.
---
 generic_map.go | 2 +-
 generic_set.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generic_map.go b/generic_map.go
index d93eb22..2fd1a23 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -146,7 +146,7 @@ func (m Map[K, V]) Set(key K, value V) {
 			return
 		}
 		// rehash conflicting key
-		chd := ckey.Hash(m.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
diff --git a/generic_set.go b/generic_set.go
index ec8f206..d862c20 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -97,7 +97,7 @@ func (s Set[K]) Add(key K) {
 			return
 		}
 		// rehash conflicting key
-		chd := ckey.Hash(s.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(s.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		s.dep -= uint64(d) // conflicting key depth
-- 
2.43.0


From 019e4639027fd01276f85239959a62ce873e52a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 03/12] fix: hash the conflicting key, not the new one, in
 Map.Mod

The new key was hashed in place of the conflicting one (and with the wrong
repeat count), so the existing entry was lost or the split never ended.
---
 generic_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generic_map.go b/generic_map.go
index 2fd1a23..70ad36d 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -235,7 +235,7 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 			return
 		}
 		// rehash conflicting key
-		chd := key.Hash(m.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
-- 
2.43.0


From fe790b22459e7211c29bb55b079c54d4d7c5469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 04/12] fix: ArrMap.Set stores the value when the new key
 splits an entry

---
 arr_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arr_map.go b/arr_map.go
index 01fda75..ff26598 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -167,7 +167,7 @@ func (m ArrMap[K, V]) Set(key K, value V) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &arrkv[K, V]{k: key}
+				kv := &arrkv[K, V]{k: key, v: value}
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
-- 
2.43.0


From ff6ad3d747413f5d489e4318c9217c3e9cff132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 05/12] fix: clear the type bits of a branch created over an
 inline integer key

The link held the upper half of the conflicting key in tmap. When the two keys
collided again at the next level these bits were left in place, so the branch
could be taken for a key-value.
---
 int_map.go | 2 ++
 int_set.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/int_map.go b/int_map.go
index 6eeb39c..8005151 100644
--- a/int_map.go
+++ b/int_map.go
@@ -193,6 +193,7 @@ func (m IntMap[V]) Set(key IntKey, value V) {
 				return // item added
 			}
 			// handle collision at new level
+			item.tmap = 0
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
@@ -302,6 +303,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 				return // item added
 			}
 			// handle collision at new level
+			item.tmap = 0
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
diff --git a/int_set.go b/int_set.go
index 7c6e44a..56e9b88 100644
--- a/int_set.go
+++ b/int_set.go
@@ -144,6 +144,7 @@ func (s IntSet) Add(key IntKey) {
 				return // key added
 			}
 			// handle collision at new level
+			item.tmap = 0
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
-- 
2.43.0


From 92bf1659dfea4f7d7a691038281bdaac54111f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 06/12] fix: HashBytes honours repeat counts of 255 and more

The 8-bit loop counter never exceeded 255, so a count of 255 looped forever,
and larger counts were truncated.
---
 generic_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generic_map.go b/generic_map.go
index 70ad36d..857dca9 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -43,7 +43,7 @@ type Key[K any] interface {
 func HashBytes(key []byte, seed maphash.Seed, iter uint) uint64 {
 	var hw maphash.Hash
 	hw.SetSeed(seed)
-	for i := uint8(0); i <= uint8(iter); i++ {
+	for i := uint(0); i <= iter; i++ {
 		hw.Write(key)
 	}
 	return hw.Sum64()
-- 
2.43.0


From 5b3cd5ee2a6745d7ec53783d7690f1d40404a324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 07/12] fix: Int implements Key[Int]

Int is documented as a key type for Map[Int, V] but had no Equal method.
---
 int_map.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/int_map.go b/int_map.go
index 8005151..b0bd20a 100644
--- a/int_map.go
+++ b/int_map.go
@@ -31,6 +31,8 @@ import (
 // Int may be used as the key type of a generic Map[Int, V].
 type Int int
 
+func (i Int) Equal(i2 Int) bool { return i == i2 }
+
 func (i Int) Hash(seed maphash.Seed, iter uint) uint64 {
 	b := intbytes(IntKey(i))
 	var hw maphash.Hash
-- 
2.43.0


From 2c5708b91557bcc24402c75857fcd2fa7f0a6e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 08/12] fix: Mod runs its callback before it changes the map

When the new key split an existing entry, the callback ran while the branch was
half built: a callback that panicked, or read the map, met a corrupt map.
---
 arr_map.go     | 4 ++--
 bytes_map.go   | 4 ++--
 generic_map.go | 4 ++--
 int_map.go     | 4 ++--
 string_map.go  | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/arr_map.go b/arr_map.go
index ff26598..6539ed3 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -243,6 +243,8 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 			mod(&ckv.v, true)
 			return
 		}
+		kv := &arrkv[K, V]{k: key}
+		mod(&kv.v, false)
 		// rehash conflicting key
 		ckb := ckey.KeyBytes()
 		var chw maphash.Hash
@@ -269,8 +271,6 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &arrkv[K, V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/bytes_map.go b/bytes_map.go
index 830804d..c843216 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -254,6 +254,8 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 			mod(&ckv.v, true)
 			return
 		}
+		kv := &byteskv[V]{k: key}
+		mod(&kv.v, false)
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
@@ -285,8 +287,6 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &byteskv[V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/generic_map.go b/generic_map.go
index 857dca9..1f4d329 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -234,6 +234,8 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 			mod(&ckv.v, true)
 			return
 		}
+		kv := &kv[K, V]{k: key}
+		mod(&kv.v, false)
 		// rehash conflicting key
 		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
@@ -252,8 +254,6 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &kv[K, V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/int_map.go b/int_map.go
index b0bd20a..f43c5d2 100644
--- a/int_map.go
+++ b/int_map.go
@@ -265,6 +265,8 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 			mod(&cval.v, true)
 			return
 		}
+		val := &intkv[V]{}
+		mod(&val.v, false)
 		// rehash conflicting key
 		ckb := intbytes(ckey)
 		var chw maphash.Hash
@@ -291,8 +293,6 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				val := &intkv[V]{}
-				mod(&val.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0] = link{ptr: unsafe.Pointer(val), pmap: uint32(key), tmap: uint32(key >> 32)}
 					pair[1] = link{ptr: unsafe.Pointer(cval), pmap: uint32(ckey), tmap: uint32(ckey >> 32)}
diff --git a/string_map.go b/string_map.go
index 2470a61..e2f658a 100644
--- a/string_map.go
+++ b/string_map.go
@@ -246,6 +246,8 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 			mod(&ckv.v, true)
 			return
 		}
+		kv := &strkv[V]{k: key}
+		mod(&kv.v, false)
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
@@ -271,8 +273,6 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &strkv[V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
-- 
2.43.0


From 9315ada8be6df99c60c409c20ffbdc8a747f5cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 09/12] fix: clear the slot vacated by a deletion

After the items were shifted back within the same array, the slot past the last
one still held a copy of it, which kept deleted keys and values alive.
---
 arr_map.go     | 3 +++
 arr_set.go     | 3 +++
 bytes_map.go   | 3 +++
 bytes_set.go   | 3 +++
 generic_map.go | 3 +++
 generic_set.go | 3 +++
 int_map.go     | 3 +++
 int_set.go     | 3 +++
 string_map.go  | 3 +++
 string_set.go  | 3 +++
 10 files changed, 30 insertions(+)

diff --git a/arr_map.go b/arr_map.go
index 6539ed3..8b59d05 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -376,6 +376,9 @@ func (m ArrMap[K, V]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if src == l.ptr { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/arr_set.go b/arr_set.go
index c19eccf..13e5142 100644
--- a/arr_set.go
+++ b/arr_set.go
@@ -237,6 +237,9 @@ func (s ArrSet[K]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if src == l.ptr { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/bytes_map.go b/bytes_map.go
index c843216..177452c 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -391,6 +391,9 @@ func (m BytesMap[V]) Del(key []byte) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if src == l.ptr { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/bytes_set.go b/bytes_set.go
index 7fac452..4f6f5ec 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -236,6 +236,9 @@ func (s BytesSet) Del(key []byte) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if src == l.ptr { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/generic_map.go b/generic_map.go
index 1f4d329..8ed1320 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -354,6 +354,9 @@ func (m Map[K, V]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if src == l.ptr { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/generic_set.go b/generic_set.go
index d862c20..b235e2f 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -213,6 +213,9 @@ func (s Set[K]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if src == l.ptr { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/int_map.go b/int_map.go
index f43c5d2..e307353 100644
--- a/int_map.go
+++ b/int_map.go
@@ -405,6 +405,9 @@ func (m IntMap[V]) Del(key IntKey) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if src == l.ptr { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/int_set.go b/int_set.go
index 56e9b88..e52339b 100644
--- a/int_set.go
+++ b/int_set.go
@@ -240,6 +240,9 @@ func (s IntSet) Del(key IntKey) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if src == l.ptr { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/string_map.go b/string_map.go
index e2f658a..7c43f23 100644
--- a/string_map.go
+++ b/string_map.go
@@ -377,6 +377,9 @@ func (m StringMap[V]) Del(key string) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if src == l.ptr { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/string_set.go b/string_set.go
index 4b7da97..81b7208 100644
--- a/string_set.go
+++ b/string_set.go
@@ -233,6 +233,9 @@ func (s StringSet) Del(key string) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if src == l.ptr { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
-- 
2.43.0


From c8d03c98350cdfa938ffdb2c7ca3ced27b4b5c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 10/12] fix: clear the deletion path on every return

Deleting a missing key, or one deeper than the scratch array, left pointers to
branches in the root, which kept them alive after their entries were deleted.
---
 amt.go         | 5 +++++
 arr_map.go     | 1 +
 arr_set.go     | 1 +
 bytes_map.go   | 1 +
 bytes_set.go   | 1 +
 generic_map.go | 1 +
 generic_set.go | 1 +
 int_map.go     | 1 +
 int_set.go     | 1 +
 string_map.go  | 1 +
 string_set.go  | 1 +
 11 files changed, 15 insertions(+)

diff --git a/amt.go b/amt.go
index 501f94e..9347af8 100644
--- a/amt.go
+++ b/amt.go
@@ -91,6 +91,11 @@ func (r *root) Dep() float64 {
 	return float64(r.dep) / float64(r.len)
 }
 
+// clearPath drops the references held by the scratch path to prevent leaks.
+func (r *root) clearPath() {
+	r.path = [12]pathLink{}
+}
+
 // link is an Array Mapped Trie (AMT) level with up to 16 items or a key-value
 // pointer within a level.
 //
diff --git a/arr_map.go b/arr_map.go
index 8b59d05..25d2be7 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -320,6 +320,7 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 // Del deletes the value for key.
 func (m ArrMap[K, V]) Del(key K) {
 	path := m.path[:0]
+	defer m.clearPath()
 	kb := key.KeyBytes()
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
diff --git a/arr_set.go b/arr_set.go
index 13e5142..a1db246 100644
--- a/arr_set.go
+++ b/arr_set.go
@@ -181,6 +181,7 @@ func (s ArrSet[K]) Add(key K) {
 // Del deletes key from s.
 func (s ArrSet[K]) Del(key K) {
 	path := s.path[:0]
+	defer s.clearPath()
 	kb := key.KeyBytes()
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
diff --git a/bytes_map.go b/bytes_map.go
index 177452c..86ca221 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -336,6 +336,7 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 // Del deletes the value for key.
 func (m BytesMap[V]) Del(key []byte) {
 	path := m.path[:0]
+	defer m.clearPath()
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
diff --git a/bytes_set.go b/bytes_set.go
index 4f6f5ec..e577e45 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -181,6 +181,7 @@ func (s BytesSet) Add(key []byte) {
 // Del deletes key from s.
 func (s BytesSet) Del(key []byte) {
 	path := s.path[:0]
+	defer s.clearPath()
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(key)
diff --git a/generic_map.go b/generic_map.go
index 8ed1320..43cf77c 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -303,6 +303,7 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 // Del deletes the value for key.
 func (m Map[K, V]) Del(key K) {
 	path := m.path[:0]
+	defer m.clearPath()
 	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
diff --git a/generic_set.go b/generic_set.go
index b235e2f..0ef3926 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -162,6 +162,7 @@ func (s Set[K]) Add(key K) {
 // Del deletes key from s.
 func (s Set[K]) Del(key K) {
 	path := s.path[:0]
+	defer s.clearPath()
 	hd, l, d := key.Hash(s.seed, 0), &s.link, uint8(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
diff --git a/int_map.go b/int_map.go
index e307353..d6fef61 100644
--- a/int_map.go
+++ b/int_map.go
@@ -349,6 +349,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 // Del deletes the value for key.
 func (m IntMap[V]) Del(key IntKey) {
 	path := m.path[:0]
+	defer m.clearPath()
 	kb := intbytes(key)
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
diff --git a/int_set.go b/int_set.go
index e52339b..e57dd73 100644
--- a/int_set.go
+++ b/int_set.go
@@ -184,6 +184,7 @@ func (s IntSet) Add(key IntKey) {
 // Del deletes key from s.
 func (s IntSet) Del(key IntKey) {
 	path := s.path[:0]
+	defer s.clearPath()
 	kb := intbytes(key)
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
diff --git a/string_map.go b/string_map.go
index 7c43f23..2141a11 100644
--- a/string_map.go
+++ b/string_map.go
@@ -322,6 +322,7 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 // Del deletes the value for key.
 func (m StringMap[V]) Del(key string) {
 	path := m.path[:0]
+	defer m.clearPath()
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
diff --git a/string_set.go b/string_set.go
index 81b7208..9e8e3d5 100644
--- a/string_set.go
+++ b/string_set.go
@@ -178,6 +178,7 @@ func (s StringSet) Add(key string) {
 // Del deletes key from s.
 func (s StringSet) Del(key string) {
 	path := s.path[:0]
+	defer s.clearPath()
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.WriteString(key)
-- 
2.43.0


From 7aa38f421bbdcb60fe9ae9e4c176fcf2f3caf785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 11/12] fix: BytesMap.Mod runs its callback once when a
 conflicting key slice was modified

Running the callback before the change (2c5708b) left a second call on this path.
---
 bytes_map.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bytes_map.go b/bytes_map.go
index 86ca221..571af56 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -264,8 +264,6 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
 		if uint8(chd&0xF) != radix { // conflict key slice was modified
-			kv := &byteskv[V]{k: key}
-			mod(&kv.v, false)
 			item.ptr = unsafe.Pointer(kv)
 			return
 		}
-- 
2.43.0


From ff74b9fab028b951f970b9a161581d7698d2b558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:02 +0000
Subject: [PATCH 12/12] fix: depth counters no longer wrap at 256 levels

Depths were held in 8-bit counters, so keys that collide on 15 or more
successive hashes (reachable with the Hash method of a generic key) made
Set, Mod and Add loop forever, and lookups and deletions treat nested
branches as the root level.
---
 arr_map.go     | 12 ++++++------
 arr_set.go     |  8 ++++----
 bytes_map.go   | 12 ++++++------
 bytes_set.go   |  8 ++++----
 generic_map.go |  8 ++++----
 generic_set.go |  6 +++---
 int_map.go     | 12 ++++++------
 int_set.go     |  8 ++++----
 string_map.go  | 12 ++++++------
 string_set.go  |  8 ++++----
 10 files changed, 47 insertions(+), 47 deletions(-)

diff --git a/arr_map.go b/arr_map.go
index 25d2be7..08204fa 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -85,7 +85,7 @@ func (m ArrMap[K, V]) Ptr(key K) *V {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -117,7 +117,7 @@ func (m ArrMap[K, V]) Set(key K, value V) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -145,7 +145,7 @@ func (m ArrMap[K, V]) Set(key K, value V) {
 		ckb := ckey.KeyBytes()
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -219,7 +219,7 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -249,7 +249,7 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 		ckb := ckey.KeyBytes()
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -325,7 +325,7 @@ func (m ArrMap[K, V]) Del(key K) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/arr_set.go b/arr_set.go
index a1db246..4aba2ad 100644
--- a/arr_set.go
+++ b/arr_set.go
@@ -55,7 +55,7 @@ func (s ArrSet[K]) Has(key K) bool {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -84,7 +84,7 @@ func (s ArrSet[K]) Add(key K) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -111,7 +111,7 @@ func (s ArrSet[K]) Add(key K) {
 		ckb := ckey.KeyBytes()
 		var chw maphash.Hash
 		chw.SetSeed(s.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -186,7 +186,7 @@ func (s ArrSet[K]) Del(key K) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/bytes_map.go b/bytes_map.go
index 571af56..e9fa00f 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -93,7 +93,7 @@ func (m BytesMap[V]) Ptr(key []byte) *V {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -125,7 +125,7 @@ func (m BytesMap[V]) Set(key []byte, value V) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -152,7 +152,7 @@ func (m BytesMap[V]) Set(key []byte, value V) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -230,7 +230,7 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -259,7 +259,7 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -338,7 +338,7 @@ func (m BytesMap[V]) Del(key []byte) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/bytes_set.go b/bytes_set.go
index e577e45..e662dd4 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -56,7 +56,7 @@ func (s BytesSet) Has(key []byte) bool {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -85,7 +85,7 @@ func (s BytesSet) Add(key []byte) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -111,7 +111,7 @@ func (s BytesSet) Add(key []byte) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(s.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -185,7 +185,7 @@ func (s BytesSet) Del(key []byte) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/generic_map.go b/generic_map.go
index 43cf77c..c55d02e 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -95,7 +95,7 @@ func (m Map[K, V]) Val(key K) (value V) {
 // Ptr returns a pointer to the value for key, or nil if the key is missing.
 // The value may be updated through the returned pointer.
 func (m Map[K, V]) Ptr(key K) *V {
-	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
+	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -122,7 +122,7 @@ func (m Map[K, V]) Ptr(key K) *V {
 
 // Set adds or updates the value for key.
 func (m Map[K, V]) Set(key K, value V) {
-	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
+	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -211,7 +211,7 @@ func (m Map[K, V]) Set(key K, value V) {
 // Mod modifies the value for key using the mod callback. The mod callback receives
 // a pointer to the existing or new value for key, and true if the key existed.
 func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
-	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
+	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -304,7 +304,7 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 func (m Map[K, V]) Del(key K) {
 	path := m.path[:0]
 	defer m.clearPath()
-	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
+	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/generic_set.go b/generic_set.go
index 0ef3926..85f1e05 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -50,7 +50,7 @@ func (s Set[K]) Dep() float64 { return s.root.Dep() }
 
 // Has returns true if s contains key.
 func (s Set[K]) Has(key K) bool {
-	hd, l, d := key.Hash(s.seed, 0), &s.link, uint8(0)
+	hd, l, d := key.Hash(s.seed, 0), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -74,7 +74,7 @@ func (s Set[K]) Has(key K) bool {
 
 // Add adds key to s.
 func (s Set[K]) Add(key K) {
-	hd, l, d := key.Hash(s.seed, 0), &s.link, uint8(0)
+	hd, l, d := key.Hash(s.seed, 0), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -163,7 +163,7 @@ func (s Set[K]) Add(key K) {
 func (s Set[K]) Del(key K) {
 	path := s.path[:0]
 	defer s.clearPath()
-	hd, l, d := key.Hash(s.seed, 0), &s.link, uint8(0)
+	hd, l, d := key.Hash(s.seed, 0), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/int_map.go b/int_map.go
index d6fef61..6b4f6dd 100644
--- a/int_map.go
+++ b/int_map.go
@@ -100,7 +100,7 @@ func (m IntMap[V]) Ptr(key IntKey) *V {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -132,7 +132,7 @@ func (m IntMap[V]) Set(key IntKey, value V) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -160,7 +160,7 @@ func (m IntMap[V]) Set(key IntKey, value V) {
 		ckb := intbytes(ckey)
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -241,7 +241,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -271,7 +271,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 		ckb := intbytes(ckey)
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -354,7 +354,7 @@ func (m IntMap[V]) Del(key IntKey) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/int_set.go b/int_set.go
index e57dd73..826a91b 100644
--- a/int_set.go
+++ b/int_set.go
@@ -55,7 +55,7 @@ func (s IntSet) Has(key IntKey) bool {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -84,7 +84,7 @@ func (s IntSet) Add(key IntKey) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -110,7 +110,7 @@ func (s IntSet) Add(key IntKey) {
 		ckb := intbytes(ckey)
 		var chw maphash.Hash
 		chw.SetSeed(s.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -189,7 +189,7 @@ func (s IntSet) Del(key IntKey) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/string_map.go b/string_map.go
index 2141a11..36bfad7 100644
--- a/string_map.go
+++ b/string_map.go
@@ -91,7 +91,7 @@ func (m StringMap[V]) Ptr(key string) *V {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -122,7 +122,7 @@ func (m StringMap[V]) Set(key string, value V) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -149,7 +149,7 @@ func (m StringMap[V]) Set(key string, value V) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -222,7 +222,7 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -251,7 +251,7 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -326,7 +326,7 @@ func (m StringMap[V]) Del(key string) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/string_set.go b/string_set.go
index 9e8e3d5..2ac4255 100644
--- a/string_set.go
+++ b/string_set.go
@@ -54,7 +54,7 @@ func (s StringSet) Has(key string) bool {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -82,7 +82,7 @@ func (s StringSet) Add(key string) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -108,7 +108,7 @@ func (s StringSet) Add(key string) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(s.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -182,7 +182,7 @@ func (s StringSet) Del(key string) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
-- 
2.43.0

