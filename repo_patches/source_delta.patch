From d4a695bb971f1f7f26e8e25d140f7322c556694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:01 +0000
Subject: [PATCH 1/4] fix: count the segment header when carving allocator
 blocks

The free list was filled as if the whole segment was available for
blocks, without subtracting the header that links the segments. For some
block and alignment sizes (for example block 8 and alignment 8) the last
block ended past the end of the allocated memory.
---
 tommyds/tommyalloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tommyds/tommyalloc.c b/tommyds/tommyalloc.c
index 0da604c..bae7348 100644
--- a/tommyds/tommyalloc.c
+++ b/tommyds/tommyalloc.c
@@ -103,6 +103,7 @@ void* tommy_allocator_alloc(tommy_allocator* alloc)
 		segment->next = alloc->used_segment;
 		alloc->used_segment = segment;
 		data += sizeof(tommy_allocator_entry);
+		size -= sizeof(tommy_allocator_entry);
 
 		/* align if not aligned */
 		off = (tommy_uintptr_t)data;
-- 
2.43.0


From 18b10169c8559ed3604fa8ebaf1bf0de911f8d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:01 +0000
Subject: [PATCH 2/4] fix: set the height of a new tree leaf to 1

A new leaf was linked with height 0, the same value used for a missing
child, and the rebalance was missing one level: inserting 0, 1, 2 in an
empty tree gave a chain of three nodes.
---
 tommyds/tommytree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tommyds/tommytree.c b/tommyds/tommytree.c
index 8ef8478..f9202c4 100644
--- a/tommyds/tommytree.c
+++ b/tommyds/tommytree.c
@@ -145,7 +145,7 @@ void* tommy_tree_insert(tommy_tree* tree, tommy_tree_node* node, void* data)
 	insert->data = data;
 	insert->prev = 0;
 	insert->next = 0;
-	insert->index = 0;
+	insert->index = 1;
 
 	tree->root = tommy_tree_insert_node(tree->cmp, tree->root, &insert);
 
-- 
2.43.0


From 7322e2a1a0df892fe0449c9698db50d2f934e9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 3/4] fix: don't read past the terminator in
 tommy_strhash_u32()

The string was read in words of four bytes, up to three bytes after the
terminator, crashing if the string ends at the end of a mapped page.
The hash value doesn't change, as the bytes after the terminator were
already ignored.
---
 tommyds/tommyhash.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/tommyds/tommyhash.c b/tommyds/tommyhash.c
index 71c4ef3..f21fd83 100644
--- a/tommyds/tommyhash.c
+++ b/tommyds/tommyhash.c
@@ -42,6 +42,26 @@ tommy_inline tommy_uint32_t tommy_le_uint32_read(const void* ptr)
 #endif
 }
 
+/**
+ * Reads a little endian word from a string without reading past its terminator.
+ * The bytes after the terminator are set to 0.
+ */
+tommy_inline tommy_uint32_t tommy_le_uint32_strread(const unsigned char* str)
+{
+	tommy_uint32_t v = str[0];
+
+	if (str[0]) {
+		v |= (tommy_uint32_t)str[1] << 8;
+		if (str[1]) {
+			v |= (tommy_uint32_t)str[2] << 16;
+			if (str[2])
+				v |= (tommy_uint32_t)str[3] << 24;
+		}
+	}
+
+	return v;
+}
+
 #define tommy_rot(x, k) \
 	(((x) << (k)) | ((x) >> (32 - (k))))
 
@@ -175,7 +195,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 	/* this is different than original lookup3 and the result won't match */
 
 	while (1) {
-		tommy_uint32_t v = tommy_le_uint32_read(key);
+		tommy_uint32_t v = tommy_le_uint32_strread(key);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
@@ -192,7 +212,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 
 		a += v;
 
-		v = tommy_le_uint32_read(key + 4);
+		v = tommy_le_uint32_strread(key + 4);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
@@ -209,7 +229,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 
 		b += v;
 
-		v = tommy_le_uint32_read(key + 8);
+		v = tommy_le_uint32_strread(key + 8);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
-- 
2.43.0


From 7ac70825e4d8302f53d300ad91380cd5f554bbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 4/4] fix: reverse a hashlin shrink when the buckets in use are
 50% full

If elements are inserted while a shrink is in progress, the grow was
started only when the count exceeds half of the full table, and not half
of the buckets in use. At that point a single insert had to split all the
buckets already joined, taking a time proportional to the table size, and
until then the load factor was up to 1.0.
---
 tommyds/tommyhashlin.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tommyds/tommyhashlin.c b/tommyds/tommyhashlin.c
index fe138f7..9adf8cf 100644
--- a/tommyds/tommyhashlin.c
+++ b/tommyds/tommyhashlin.c
@@ -88,9 +88,10 @@ void tommy_hashlin_done(tommy_hashlin* hashlin)
  */
 tommy_inline void hashlin_grow_step(tommy_hashlin* hashlin)
 {
-	/* grow if more than 50% full */
+	/* grow if more than 50% full, counting only the buckets in use */
+	/* that are less than bucket_max if we are reversing a shrink */
 	if (hashlin->state != TOMMY_HASHLIN_STATE_GROW
-		&& hashlin->count > hashlin->bucket_max / 2
+		&& hashlin->count > (hashlin->low_max + hashlin->split) / 2
 	) {
 		/* if we are stable, setup a new grow state */
 		/* otherwise continue with the already setup shrink one */
-- 
2.43.0

