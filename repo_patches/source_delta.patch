From 9029d12cc9b8ff13240ed77648d788b68bf64e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:51 +0000
Subject: [PATCH 001/102] fix: database: lookup: Fall back to less specific
 networks

If the path of an address continued into a part of the tree which did
not hold any matching network, the search ended without considering the
less specific networks that have been passed on the way.
---
 src/database.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/database.c b/src/database.c
index 8bbbe79..fec275c 100644
--- a/src/database.c
+++ b/src/database.c
@@ -908,14 +908,14 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 		// Move on to the next node
 		r = __loc_database_lookup(db, address, network, network_address, node_index, level + 1);
 
-		// End here if a result was found
-		if (r == 0)
-			return r;
-
 		// Raise any errors
-		else if (r < 0)
+		if (r < 0)
 			return r;
 
+		// End here if a result was found
+		else if (*network)
+			return 0;
+
 		DEBUG(db->ctx, "No match found below level %u\n", level);
 	} else {
 		DEBUG(db->ctx, "Tree ended at level %u\n", level);
-- 
2.43.0


From c97cc13f51c5ba6525ee7a120f3ff61ba3d9f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:51 +0000
Subject: [PATCH 002/102] fix: database: lookup: Don't access any bits beyond
 the address

When reaching a host route (/128 or /32), the search read and modified
the 129th bit of the address and, with a crafted database, could
continue to descend forever.
---
 src/database.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/database.c b/src/database.c
index fec275c..b5e9cd2 100644
--- a/src/database.c
+++ b/src/database.c
@@ -887,14 +887,20 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 	if (!node_v1)
 		return 1;
 
+	// There are no more bits to follow
+	if (level >= 128) {
+		node_index = 0;
+
 	// Follow the path
-	int bit = loc_address_get_bit(address, level);
-	loc_address_set_bit(network_address, level, bit);
+	} else {
+		int bit = loc_address_get_bit(address, level);
+		loc_address_set_bit(network_address, level, bit);
 
-	if (bit == 0)
-		node_index = be32toh(node_v1->zero);
-	else
-		node_index = be32toh(node_v1->one);
+		if (bit == 0)
+			node_index = be32toh(node_v1->zero);
+		else
+			node_index = be32toh(node_v1->one);
+	}
 
 	// If the node index is zero, the tree ends here
 	// and we cannot descend any further
-- 
2.43.0


From d21eb9b05e5e56002a496b0b7c893430763ea75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:51 +0000
Subject: [PATCH 003/102] fix: address: Don't call __builtin_ctz() with zero

The result is undefined.
---
 src/libloc/address.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/libloc/address.h b/src/libloc/address.h
index 082c33f..6050224 100644
--- a/src/libloc/address.h
+++ b/src/libloc/address.h
@@ -143,12 +143,9 @@ static inline unsigned int loc_address_bit_length(const struct in6_addr* address
 
 	// Walk backwards until we find the first one
 	foreach_octet_in_address_reverse(octet, address) {
-		// Count all trailing zeroes
-		int trailing_zeroes = __builtin_ctz(address->s6_addr[octet]);
-
-		// We only have one byte
-		if (trailing_zeroes > 8)
-			trailing_zeroes = 8;
+		// Count all trailing zeroes (which is undefined if there are no ones)
+		int trailing_zeroes = (address->s6_addr[octet])
+			? __builtin_ctz(address->s6_addr[octet]) : 8;
 
 		// Remove any trailing zeroes from the total length
 		bitlength -= trailing_zeroes;
-- 
2.43.0


From a90c2109437dec1e138f5986beba313de2db41a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:50 +0000
Subject: [PATCH 004/102] fix: network-tree: Don't access networks after they
 have been merged

The tree might have held the last reference.
---
 src/network-tree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/network-tree.c b/src/network-tree.c
index 7096625..b4726d5 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -351,6 +351,9 @@ static int loc_network_tree_merge_step(struct loc_network* network, void* data)
 	struct loc_network* m = NULL;
 	int r;
 
+	// Fetch the prefix now, because the network might be released if it gets merged
+	const unsigned int prefix = loc_network_prefix(network);
+
 	// How many networks do we have?
 	size_t i = loc_network_list_size(ctx->networks);
 
@@ -431,8 +434,6 @@ static int loc_network_tree_merge_step(struct loc_network* network, void* data)
 		n = NULL;
 	}
 
-	const unsigned int prefix = loc_network_prefix(network);
-
 	// Remove any networks that we cannot merge
 	loc_network_list_remove_with_prefix_smaller_than(ctx->networks, prefix);
 
-- 
2.43.0


From fac9c7526aab04c0ca06f289f3e898e78d020ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:20 +0000
Subject: [PATCH 005/102] fix: as: Don't use the old name after it has been
 released

Setting the name of an AS to (a part of) its current name used memory that
had just been freed, and a failing strdup() was reported as success.
---
 src/as.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/as.c b/src/as.c
index 97c0a56..8115e50 100644
--- a/src/as.c
+++ b/src/as.c
@@ -90,13 +90,19 @@ LOC_EXPORT const char* loc_as_get_name(struct loc_as* as) {
 }
 
 LOC_EXPORT int loc_as_set_name(struct loc_as* as, const char* name) {
+	char* copy = NULL;
+
+	// Copy the name first, because it might be the one that is currently set
+	if (name) {
+		copy = strdup(name);
+		if (!copy)
+			return 1;
+	}
+
 	if (as->name)
 		free(as->name);
 
-	if (name)
-		as->name = strdup(name);
-	else
-		as->name = NULL;
+	as->name = copy;
 
 	return 0;
 }
-- 
2.43.0


From 43e869e9b3d5a2b59455c031e135483e95408dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:20 +0000
Subject: [PATCH 006/102] fix: country: Reset the name when it is released

Setting the name to NULL left a dangling pointer behind which was used and
freed again later.
---
 src/country.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/country.c b/src/country.c
index 8152a89..beeacb6 100644
--- a/src/country.c
+++ b/src/country.c
@@ -123,17 +123,22 @@ LOC_EXPORT const char* loc_country_get_name(struct loc_country* country) {
 }
 
 LOC_EXPORT int loc_country_set_name(struct loc_country* country, const char* name) {
-	if (country->name)
-		free(country->name);
+	char* copy = NULL;
 
+	// Copy the name first, because it might be the one that is currently set
 	if (name) {
-		country->name = strdup(name);
+		copy = strdup(name);
 
 		// Report error if we could not copy the string
-		if (!country->name)
+		if (!copy)
 			return 1;
 	}
 
+	if (country->name)
+		free(country->name);
+
+	country->name = copy;
+
 	return 0;
 }
 
-- 
2.43.0


From 0e3954ef9cd310c1332e89bc0b2dd2464050ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:20 +0000
Subject: [PATCH 007/102] fix: stringpool: Grow until the string fits

Strings that were larger than one block were written beyond the end of the
pool. If growing failed, the error code was mistaken for an offset, and
the pool was lost.
---
 src/stringpool.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/stringpool.c b/src/stringpool.c
index 9986a61..f6c2d33 100644
--- a/src/stringpool.c
+++ b/src/stringpool.c
@@ -45,16 +45,17 @@ struct loc_stringpool {
 static int loc_stringpool_grow(struct loc_stringpool* pool, const size_t size) {
 	DEBUG(pool->ctx, "Growing string pool by %zu byte(s)\n", size);
 
-	// Increment size
-	pool->size += size;
-
 	// Reallocate blocks
-	pool->blocks = realloc(pool->blocks, pool->size);
-	if (!pool->blocks) {
+	char* blocks = realloc(pool->blocks, pool->size + size);
+	if (!blocks) {
 		ERROR(pool->ctx, "Could not grow string pool: %m\n");
 		return 1;
 	}
 
+	// Increment size
+	pool->blocks = blocks;
+	pool->size += size;
+
 	// Update data pointer
 	pool->data = pool->blocks;
 
@@ -73,10 +74,10 @@ static off_t loc_stringpool_append(struct loc_stringpool* pool, const char* stri
 	const size_t length = strlen(string) + 1;
 
 	// Make sure we have enough space
-	if (pool->length + length > pool->size) {
+	while (pool->length + length > pool->size) {
 		int r = loc_stringpool_grow(pool, LOC_STRINGPOOL_BLOCK_SIZE);
 		if (r)
-			return r;
+			return -1;
 	}
 
 	off_t offset = pool->length;
-- 
2.43.0


From 7d76e71962a9a970e5902f322a3079dc2fe6afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:20 +0000
Subject: [PATCH 008/102] fix: writer: Sort countries before writing them

loc_database_get_country() performs a binary search.
---
 src/writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer.c b/src/writer.c
index ec5f896..36d4be1 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -526,6 +526,9 @@ static int loc_database_write_countries(struct loc_writer* writer,
 	DEBUG(writer->ctx, "Countries section starts at %jd bytes\n", (intmax_t)*offset);
 	header->countries_offset = htobe32(*offset);
 
+	// Sort the list first, because the reader performs a binary search
+	loc_country_list_sort(writer->country_list);
+
 	const size_t countries_count = loc_country_list_size(writer->country_list);
 
 	struct loc_database_country_v1 block;
-- 
2.43.0


From ed592d9314886feb38ad74935b22876a20d63021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:20 +0000
Subject: [PATCH 009/102] fix: writer: Don't leak countries or their continent
 codes

Countries without a continent code got the one of the previous country, or
whatever was on the stack. All country objects were leaked.
---
 src/writer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/writer.c b/src/writer.c
index 36d4be1..f9c5005 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -536,6 +536,11 @@ static int loc_database_write_countries(struct loc_writer* writer,
 
 	for (unsigned int i = 0; i < countries_count; i++) {
 		struct loc_country* country = loc_country_list_get(writer->country_list, i);
+		if (!country)
+			return 1;
+
+		// Don't inherit anything from the previous country
+		memset(&block, '\0', sizeof(block));
 
 		// Convert country into database format
 		loc_country_to_database_v1(country, writer->pool, &block);
@@ -543,6 +548,9 @@ static int loc_database_write_countries(struct loc_writer* writer,
 		// Write to disk
 		*offset += fwrite(&block, 1, sizeof(block), f);
 		block_length += sizeof(block);
+
+		// Unref country
+		loc_country_unref(country);
 	}
 
 	DEBUG(writer->ctx, "Countries section has a length of %zu bytes\n", block_length);
-- 
2.43.0


From 2c0546666fd3de762220c608c72cd9e4443a62f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:41 +0000
Subject: [PATCH 010/102] fix: database: Make the stack of the enumerator large
 enough

The last node was written beyond the end of the array and databases with
the deepest possible tree could not be enumerated at all.
---
 src/database.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/database.c b/src/database.c
index b5e9cd2..5cf1ecb 100644
--- a/src/database.c
+++ b/src/database.c
@@ -96,7 +96,8 @@ struct loc_database {
 	struct loc_database_objects country_objects;
 };
 
-#define MAX_STACK_DEPTH 256
+// The root node and up to two nodes for each bit of the address
+#define MAX_STACK_DEPTH (1 + 2 * 128)
 
 struct loc_node_stack {
 	off_t offset;
@@ -128,7 +129,7 @@ struct loc_database_enumerator {
 
 	// Network state
 	struct in6_addr network_address;
-	struct loc_node_stack network_stack[MAX_STACK_DEPTH];
+	struct loc_node_stack network_stack[MAX_STACK_DEPTH + 1]; // starts at one
 	int network_stack_depth;
 	unsigned int* networks_visited;
 
-- 
2.43.0


From e8a74661d30c60dfcebe5758e6b9ea976890cdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:41 +0000
Subject: [PATCH 011/102] fix: database: Don't follow network trees beyond the
 last bit

A corrupted database could make the enumerator write behind the address.
---
 src/database.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/database.c b/src/database.c
index 5cf1ecb..124cf96 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1267,6 +1267,13 @@ static int loc_database_enumerator_stack_push_node(
 	if (!offset)
 		return 0;
 
+	// Addresses don't have any more bits than this
+	if (depth > 128) {
+		ERROR(e->ctx, "The network tree is too deep\n");
+		errno = ERANGE;
+		return 1;
+	}
+
 	// Check if there is any space left on the stack
 	if (e->network_stack_depth >= MAX_STACK_DEPTH) {
 		ERROR(e->ctx, "Maximum stack size reached: %d\n", e->network_stack_depth);
-- 
2.43.0


From 518a7fea867df9e8fe911bc4f9307ca96e5fe176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:41 +0000
Subject: [PATCH 012/102] fix: database: Don't access the root node of an empty
 tree

If a (corrupted) database has no nodes at all, there is nothing to visit.
---
 src/database.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/database.c b/src/database.c
index 124cf96..bb51759 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1119,9 +1119,9 @@ LOC_EXPORT int loc_database_enumerator_new(struct loc_database_enumerator** enum
 	e->flatten = (flags & LOC_DB_ENUMERATOR_FLAGS_FLATTEN);
 
 	// Initialise graph search
-	e->network_stack_depth = 1;
+	e->network_stack_depth = (db->network_node_objects.count > 0) ? 1 : 0;
 	e->networks_visited = calloc(db->network_node_objects.count, sizeof(*e->networks_visited));
-	if (!e->networks_visited) {
+	if (!e->networks_visited && db->network_node_objects.count > 0) {
 		ERROR(db->ctx, "Could not allocated visited networks: %m\n");
 		r = 1;
 		goto ERROR;
-- 
2.43.0


From 647bdb202c10f2e77e2bb44f3e7b68cf950b673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:41 +0000
Subject: [PATCH 013/102] fix: network-list: Summarize only the addresses of
 the given range

The result contained addresses outside of the range and overlapping networks,
a range of a single address was refused, and all networks were leaked.
---
 src/network-list.c | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/network-list.c b/src/network-list.c
index d35bf56..814b9ba 100644
--- a/src/network-list.c
+++ b/src/network-list.c
@@ -322,7 +322,7 @@ LOC_EXPORT int loc_network_list_merge(
 
 int loc_network_list_summarize(struct loc_ctx* ctx,
 		const struct in6_addr* first, const struct in6_addr* last, struct loc_network_list** list) {
-	int bits;
+	unsigned int bits;
 	int r;
 
 	if (!list) {
@@ -342,26 +342,31 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 		return 1;
 	}
 
-	// Check if the last address is larger than the first address
-	if (loc_address_cmp(first, last) >= 0) {
-		ERROR(ctx, "The first address must be smaller than the last address\n");
+	// Check that the last address isn't smaller than the first address
+	if (loc_address_cmp(first, last) > 0) {
+		ERROR(ctx, "The first address must not be larger than the last address\n");
 		errno = EINVAL;
 		return 1;
 	}
 
 	struct loc_network* network = NULL;
 	struct in6_addr start = *first;
+	struct in6_addr end;
+	struct in6_addr bitmask;
 
-	while (loc_address_cmp(&start, last) <= 0) {
-		// Count how many leading bits the IP addresses have in common
-		bits = loc_address_common_bits(&start, last);
-		if (bits < 0)
-			return bits;
+	// IPv4 addresses are mapped into the IPv6 space
+	const unsigned int offset = (family1 == AF_INET) ? 96 : 0;
 
-		// If the start and end address don't have any bits in common, we try
-		// to cut the subnet into halves and try again...
-		else if (bits == 0)
-			bits = 1;
+	while (loc_address_cmp(&start, last) <= 0) {
+		// Find the largest network that starts at the start address
+		// and which does not go beyond the last address
+		for (bits = loc_address_bit_length(&start); ; bits++) {
+			bitmask = loc_prefix_to_bitmask(offset + bits);
+			end = loc_address_or(&start, &bitmask);
+
+			if (loc_address_cmp(&end, last) <= 0)
+				break;
+		}
 
 		// Create a network
 		r = loc_network_new(ctx, &network, &start, bits);
@@ -381,8 +386,10 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 			return r;
 		}
 
+		loc_network_unref(network);
+
 		// The next network starts right after this one
-		start = *loc_network_get_last_address(network);
+		start = end;
 
 		// If we have reached the end of possible IP addresses, we stop
 		if (loc_address_all_ones(&start))
-- 
2.43.0


From dd4c28f1125996971cbfa9cd9dba7c5759fd006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:41 +0000
Subject: [PATCH 014/102] fix: database: Find bogons at the edges of the
 address space

Networks that contain the first address made the enumeration fail, those that
contain the last address created a bogon inside of them, and single
addresses right after another network were reported as bogons.
---
 src/database.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/database.c b/src/database.c
index bb51759..354d8d7 100644
--- a/src/database.c
+++ b/src/database.c
@@ -140,6 +140,10 @@ struct loc_database_enumerator {
 	// For bogons
 	struct in6_addr gap6_start;
 	struct in6_addr gap4_start;
+
+	// Have we reached the last address?
+	int gap6_end;
+	int gap4_end;
 };
 
 /*
@@ -1560,6 +1564,7 @@ static int __loc_database_enumerator_next_bogon(
 
 	struct loc_network* network = NULL;
 	struct in6_addr* gap_start = NULL;
+	int* end = NULL;
 	struct in6_addr gap_end = IN6ADDR_ANY_INIT;
 
 	while (1) {
@@ -1590,10 +1595,12 @@ static int __loc_database_enumerator_next_bogon(
 		switch (family) {
 			case AF_INET6:
 				gap_start = &enumerator->gap6_start;
+				end = &enumerator->gap6_end;
 				break;
 
 			case AF_INET:
 				gap_start = &enumerator->gap4_start;
+				end = &enumerator->gap4_end;
 				break;
 
 			default:
@@ -1606,17 +1613,17 @@ static int __loc_database_enumerator_next_bogon(
 		const struct in6_addr* last_address = loc_network_get_last_address(network);
 
 		// Skip if this network is a subnet of a former one
-		if (loc_address_cmp(gap_start, last_address) >= 0) {
+		if (*end || loc_address_cmp(gap_start, last_address) > 0) {
 			loc_network_unref(network);
 			continue;
 		}
 
-		// Search where the gap could end
-		gap_end = *first_address;
-		loc_address_decrement(&gap_end);
-
 		// There is a gap
-		if (loc_address_cmp(gap_start, &gap_end) <= 0) {
+		if (loc_address_cmp(gap_start, first_address) < 0) {
+			// It ends right before this network
+			gap_end = *first_address;
+			loc_address_decrement(&gap_end);
+
 			r = loc_network_list_summarize(enumerator->ctx,
 				gap_start, &gap_end, &enumerator->stack);
 			if (r) {
@@ -1625,6 +1632,9 @@ static int __loc_database_enumerator_next_bogon(
 			}
 		}
 
+		// There cannot be another gap after the last address
+		*end = loc_address_all_ones(last_address);
+
 		// The gap now starts after this network
 		*gap_start = *last_address;
 		loc_address_increment(gap_start);
@@ -1645,7 +1655,7 @@ FINISH:
 		if (r)
 			return r;
 
-		if (loc_address_cmp(&enumerator->gap6_start, &gap_end) <= 0) {
+		if (!enumerator->gap6_end) {
 			r = loc_network_list_summarize(enumerator->ctx,
 				&enumerator->gap6_start, &gap_end, &enumerator->stack);
 			if (r)
@@ -1661,7 +1671,7 @@ FINISH:
 		if (r)
 			return r;
 
-		if (loc_address_cmp(&enumerator->gap4_start, &gap_end) <= 0) {
+		if (!enumerator->gap4_end) {
 			r = loc_network_list_summarize(enumerator->ctx,
 				&enumerator->gap4_start, &gap_end, &enumerator->stack);
 			if (r)
-- 
2.43.0


From 5570dcf4d04b626b76750ba1ca0373236e49fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:03 +0000
Subject: [PATCH 015/102] fix: network-list: Don't stop summarizing at the
 IPv4-mapped addresses

If an IPv6 network ended with ::ffff:ffff:ffff, this was mistaken for the end
of the address space.
---
 src/network-list.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/network-list.c b/src/network-list.c
index 814b9ba..830f3da 100644
--- a/src/network-list.c
+++ b/src/network-list.c
@@ -388,14 +388,18 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 
 		loc_network_unref(network);
 
+		// We stop if we have reached the last address
+		if (loc_address_cmp(&end, last) >= 0)
+			break;
+
 		// The next network starts right after this one
+		// (IPv6 networks might have ended with the last IPv4-mapped address)
 		start = end;
 
-		// If we have reached the end of possible IP addresses, we stop
-		if (loc_address_all_ones(&start))
-			break;
-
-		loc_address_increment(&start);
+		for (int octet = 15; octet >= 0; octet--) {
+			if (++start.s6_addr[octet])
+				break;
+		}
 	}
 
 	return 0;
-- 
2.43.0


From a75e5627f440b53b3fe0db62a4259960d18c68b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:32 +0000
Subject: [PATCH 016/102] fix: address: Reject anything that is not a prefix

An empty prefix or garbage was parsed as zero or ignored, and very large
numbers could wrap around into the valid range.
---
 src/address.c | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/address.c b/src/address.c
index d338243..734385b 100644
--- a/src/address.c
+++ b/src/address.c
@@ -66,6 +66,35 @@ static void loc_address_from_address4(struct in6_addr* address,
 	address->s6_addr32[3] = address4->s_addr;
 }
 
+static int loc_address_parse_prefix(unsigned int* prefix,
+		const char* string, const unsigned int max_prefix) {
+	unsigned int p = 0;
+
+	// There must be something
+	if (!*string)
+		goto ERROR;
+
+	// Only decimal digits are allowed
+	for (; *string; string++) {
+		if (*string < '0' || *string > '9')
+			goto ERROR;
+
+		p = p * 10 + (*string - '0');
+
+		// Check if prefix is within bounds
+		if (p > max_prefix)
+			goto ERROR;
+	}
+
+	*prefix = p;
+
+	return 0;
+
+ERROR:
+	errno = EINVAL;
+	return 1;
+}
+
 int loc_address_parse(struct in6_addr* address, unsigned int* prefix, const char* string) {
 	char buffer[INET6_ADDRSTRLEN + 4];
 	int r;
@@ -143,13 +172,9 @@ int loc_address_parse(struct in6_addr* address, unsigned int* prefix, const char
 
 		// Parse the actual string
 		if (p) {
-			*prefix = strtol(p, NULL, 10);
-
-			// Check if prefix is within bounds
-			if (*prefix > max_prefix) {
-				errno = EINVAL;
-				return 1;
-			}
+			r = loc_address_parse_prefix(prefix, p, max_prefix);
+			if (r)
+				return r;
 
 		// If the string didn't contain a prefix, we set the maximum
 		} else {
-- 
2.43.0


From 77041386f374f01a88de5b20d5a0a0cd8ab47095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:32 +0000
Subject: [PATCH 017/102] fix: address: Don't truncate long input

The prefix of the longest possible network was cut off, and anything that
followed after the first 48 characters was ignored.
---
 src/address.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/address.c b/src/address.c
index 734385b..a9bd64a 100644
--- a/src/address.c
+++ b/src/address.c
@@ -105,10 +105,16 @@ int loc_address_parse(struct in6_addr* address, unsigned int* prefix, const char
 	}
 
 	// Copy the string into the buffer
-	r = snprintf(buffer, sizeof(buffer) - 1, "%s", string);
+	r = snprintf(buffer, sizeof(buffer), "%s", string);
 	if (r < 0)
 		return 1;
 
+	// Nothing that is longer than this can be valid
+	if ((size_t)r >= sizeof(buffer)) {
+		errno = EINVAL;
+		return 1;
+	}
+
 	// Find /
 	char* p = strchr(buffer, '/');
 	if (p) {
-- 
2.43.0


From 98c88da24a3101c84ef57181631057dfc6896484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:32 +0000
Subject: [PATCH 018/102] fix: network: Don't leak memory when building reverse
 pointers

---
 src/network.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/network.c b/src/network.c
index 69306a9..21e6b76 100644
--- a/src/network.c
+++ b/src/network.c
@@ -703,6 +703,7 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 
 static char* loc_network_reverse_pointer6(struct loc_network* network, const char* suffix) {
 	char* buffer = NULL;
+	char* p = NULL;
 	int r;
 
 	unsigned int prefix = loc_network_prefix(network);
@@ -717,21 +718,27 @@ static char* loc_network_reverse_pointer6(struct loc_network* network, const cha
 		suffix = "ip6.arpa.";
 
 	// Initialize the buffer
-	r = asprintf(&buffer, "%s", suffix);
-	if (r < 0)
+	buffer = strdup(suffix);
+	if (!buffer)
 		goto ERROR;
 
 	for (unsigned int i = 0; i < (prefix / 4); i++) {
-		r = asprintf(&buffer, "%x.%s", loc_address_get_nibble(&network->first_address, i), buffer);
+		r = asprintf(&p, "%x.%s", loc_address_get_nibble(&network->first_address, i), buffer);
 		if (r < 0)
 			goto ERROR;
+
+		free(buffer);
+		buffer = p;
 	}
 
 	// Add the asterisk
 	if (prefix < 128) {
-		r = asprintf(&buffer, "*.%s", buffer);
+		r = asprintf(&p, "*.%s", buffer);
 		if (r < 0)
 			goto ERROR;
+
+		free(buffer);
+		buffer = p;
 	}
 
 	return buffer;
-- 
2.43.0


From 904fafb038ab2d274395d8d87b4455812ea0925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:32 +0000
Subject: [PATCH 019/102] fix: network: Don't match any flags without a country
 code

If there was no country code, the error was used as a bitmask and networks
with any flag matched.
---
 src/network.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/network.c b/src/network.c
index 21e6b76..ae71146 100644
--- a/src/network.c
+++ b/src/network.c
@@ -222,6 +222,10 @@ LOC_EXPORT int loc_network_matches_country_code(struct loc_network* network, con
 	// Search for any special flags
 	const int flag = loc_country_special_code_to_flag(country_code);
 
+	// Fail on invalid input
+	if (flag < 0)
+		return -EINVAL;
+
 	// If we found a flag, we will return whether it is set or not
 	if (flag)
 		return loc_network_has_flag(network, flag);
-- 
2.43.0


From 78e59d96ec595e5c5b315aafff53341b66691c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:32 +0000
Subject: [PATCH 020/102] fix: country: Compare the entire special country code

Anything that started with one of the codes was accepted.
---
 src/country.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/country.c b/src/country.c
index beeacb6..30dbc53 100644
--- a/src/country.c
+++ b/src/country.c
@@ -231,7 +231,7 @@ LOC_EXPORT int loc_country_special_code_to_flag(const char* cc) {
 	// Return flags for any known special country
 	for (const struct loc_special_country* country = loc_special_countries;
 			country->flags; country++) {
-		if (strncmp(country->code, cc, 2) == 0)
+		if (strcmp(country->code, cc) == 0)
 			return country->flags;
 	}
 
-- 
2.43.0


From 7495e7ac732b4be29e2024ec9aae27e833bda93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:46 +0000
Subject: [PATCH 021/102] fix: database: verify: Fail if the file cannot be
 read

If reading failed before the end of the file has been reached, this function
never returned.
---
 src/database.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/database.c b/src/database.c
index 354d8d7..4fe9382 100644
--- a/src/database.c
+++ b/src/database.c
@@ -557,6 +557,12 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 	int r = 0;
 
 	EVP_MD_CTX* mdctx = EVP_MD_CTX_new();
+	if (!mdctx) {
+		ERROR(db->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
+
+		goto CLEANUP;
+	}
 
 	// Initialise hash function
 	r = EVP_DigestVerifyInit(mdctx, NULL, NULL, NULL, pkey);
@@ -635,6 +641,13 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 	while (!feof(db->f)) {
 		bytes_read = fread(buffer, 1, sizeof(buffer), db->f);
 
+		if (ferror(db->f)) {
+			ERROR(db->ctx, "Error reading from file: %m\n");
+			r = 1;
+
+			goto CLEANUP;
+		}
+
 		hexdump(db->ctx, buffer, bytes_read);
 
 		r = EVP_DigestVerifyUpdate(mdctx, buffer, bytes_read);
-- 
2.43.0


From 61748acbe2440cd61d0e486ec10f36ac697765dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:46 +0000
Subject: [PATCH 022/102] fix: database: verify: Don't abort if one signature
 cannot be parsed

If the other signature was created by a different type of key, verifying it
results in an error, and a database with a valid signature was refused.
---
 src/database.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/database.c b/src/database.c
index 4fe9382..01cb550 100644
--- a/src/database.c
+++ b/src/database.c
@@ -675,15 +675,14 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 			DEBUG(db->ctx, "The first signature is valid\n");
 			sig1_valid = 1;
 		} else {
-			ERROR(db->ctx, "Error verifying the first signature: %s\n",
+			// The signature might have been created by a different type of key
+			DEBUG(db->ctx, "Error verifying the first signature: %s\n",
 				ERR_error_string(ERR_get_error(), NULL));
-			r = -1;
-			goto CLEANUP;
 		}
 	}
 
 	// Check second signature only when the first one was invalid
-	if (db->signature2.length) {
+	if (!sig1_valid && db->signature2.length) {
 		hexdump(db->ctx, db->signature2.data, db->signature2.length);
 
 		r = EVP_DigestVerifyFinal(mdctx,
@@ -695,10 +694,8 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 			DEBUG(db->ctx, "The second signature is valid\n");
 			sig2_valid = 1;
 		} else {
-			ERROR(db->ctx, "Error verifying the second signature: %s\n",
+			DEBUG(db->ctx, "Error verifying the second signature: %s\n",
 				ERR_error_string(ERR_get_error(), NULL));
-			r = -1;
-			goto CLEANUP;
 		}
 	}
 
-- 
2.43.0


From 318bba9235c82cd6fd7bd156f41ff0c294ac63e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:20 +0000
Subject: [PATCH 023/102] fix: writer: Fail if a signature could not be created

OpenSSL returns zero if a key does not support an operation. This was passed
on as success, and the database was written with an invalid signature.
---
 src/writer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/writer.c b/src/writer.c
index f9c5005..7bc5603 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -573,11 +573,16 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 
 	// Create a new context for signing
 	EVP_MD_CTX* mdctx = EVP_MD_CTX_new();
+	if (!mdctx) {
+		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		return -1;
+	}
 
 	// Initialise the context
 	int r = EVP_DigestSignInit(mdctx, NULL, NULL, NULL, private_key);
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
@@ -596,6 +601,7 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	r = EVP_DigestSignUpdate(mdctx, &magic, sizeof(magic));
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
@@ -605,6 +611,7 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	r = EVP_DigestSignUpdate(mdctx, header, sizeof(*header));
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
-- 
2.43.0


From cb8063feb0ab790daee8b94aa8a64df1a6ddd097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:57 +0000
Subject: [PATCH 024/102] fix: writer: Check if nodes could be allocated

A failed allocation led to a NULL pointer being dereferenced, and all nodes
and networks that had not been written, yet, were leaked.
---
 src/writer.c | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index 7bc5603..57aedc7 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -424,6 +424,7 @@ static int loc_database_write_networks(struct loc_writer* writer,
 	// Add root
 	struct loc_network_tree_node* root = loc_network_tree_get_root(writer->networks);
 	node = make_node(root);
+	loc_network_tree_node_unref(root);
 	if (!node)
 		return 1;
 
@@ -443,6 +444,11 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 			child_node = make_node(node_zero);
 			loc_network_tree_node_unref(node_zero);
+			if (!child_node) {
+				free_node(node);
+				r = 1;
+				goto ERROR;
+			}
 
 			TAILQ_INSERT_TAIL(&nodes, child_node, nodes);
 		}
@@ -453,6 +459,11 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 			child_node = make_node(node_one);
 			loc_network_tree_node_unref(node_one);
+			if (!child_node) {
+				free_node(node);
+				r = 1;
+				goto ERROR;
+			}
 
 			TAILQ_INSERT_TAIL(&nodes, child_node, nodes);
 		}
@@ -466,14 +477,15 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 			// Append network to be written out later
 			struct network* nw = make_network(network);
+			loc_network_unref(network);
 			if (!nw) {
 				free_node(node);
-				return 1;
+				r = 1;
+				goto ERROR;
 			}
 			TAILQ_INSERT_TAIL(&networks, nw, networks);
 
 			db_node.network = htobe32(network_index++);
-			loc_network_unref(network);
 		} else {
 			db_node.network = htobe32(0xffffffff);
 		}
@@ -488,8 +500,6 @@ static int loc_database_write_networks(struct loc_writer* writer,
 		free_node(node);
 	}
 
-	loc_network_tree_node_unref(root);
-
 	header->network_tree_length = htobe32(network_tree_length);
 
 	align_page_boundary(offset, f);
@@ -505,8 +515,10 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 		// Prepare what we are writing to disk
 		r = loc_network_to_database_v1(nw->network, &db_network);
-		if (r)
-			return r;
+		if (r) {
+			free_network(nw);
+			goto ERROR;
+		}
 
 		*offset += fwrite(&db_network, 1, sizeof(db_network), f);
 		network_data_length += sizeof(db_network);
@@ -518,7 +530,23 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 	align_page_boundary(offset, f);
 
-	return 0;
+ERROR:
+	// Release everything that has not been written
+	while (!TAILQ_EMPTY(&nodes)) {
+		node = TAILQ_FIRST(&nodes);
+		TAILQ_REMOVE(&nodes, node, nodes);
+
+		free_node(node);
+	}
+
+	while (!TAILQ_EMPTY(&networks)) {
+		struct network* nw = TAILQ_FIRST(&networks);
+		TAILQ_REMOVE(&networks, nw, networks);
+
+		free_network(nw);
+	}
+
+	return r;
 }
 
 static int loc_database_write_countries(struct loc_writer* writer,
-- 
2.43.0


From ce5aba479e3b17221f0724a0be01fc66f6076261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:57 +0000
Subject: [PATCH 025/102] fix: writer: Report any errors when writing

Errors were ignored, so that a database which has not been written completely
was reported as success. If the padding could not be written, this function
never returned.
---
 src/writer.c | 55 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index 57aedc7..8f60d5b 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -280,10 +280,16 @@ static void make_magic(struct loc_writer* writer, struct loc_database_magic* mag
 	magic->version = version;
 }
 
-static void align_page_boundary(off_t* offset, FILE* f) {
+static int align_page_boundary(off_t* offset, FILE* f) {
 	// Move to next page boundary
-	while (*offset % LOC_DATABASE_PAGE_SIZE > 0)
-		*offset += fwrite("", 1, 1, f);
+	while (*offset % LOC_DATABASE_PAGE_SIZE > 0) {
+		if (fwrite("", 1, 1, f) < 1)
+			return 1;
+
+		*offset += 1;
+	}
+
+	return 0;
 }
 
 static int loc_database_write_pool(struct loc_writer* writer,
@@ -334,9 +340,7 @@ static int loc_database_write_as_section(struct loc_writer* writer,
 	DEBUG(writer->ctx, "AS section has a length of %zu bytes\n", block_length);
 	header->as_length = htobe32(block_length);
 
-	align_page_boundary(offset, f);
-
-	return 0;
+	return align_page_boundary(offset, f);
 }
 
 struct node {
@@ -502,7 +506,9 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 	header->network_tree_length = htobe32(network_tree_length);
 
-	align_page_boundary(offset, f);
+	r = align_page_boundary(offset, f);
+	if (r)
+		goto ERROR;
 
 	DEBUG(writer->ctx, "Networks data section starts at %jd bytes\n", (intmax_t)*offset);
 	header->network_data_offset = htobe32(*offset);
@@ -528,7 +534,7 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 	header->network_data_length = htobe32(network_data_length);
 
-	align_page_boundary(offset, f);
+	r = align_page_boundary(offset, f);
 
 ERROR:
 	// Release everything that has not been written
@@ -584,9 +590,7 @@ static int loc_database_write_countries(struct loc_writer* writer,
 	DEBUG(writer->ctx, "Countries section has a length of %zu bytes\n", block_length);
 	header->countries_length = htobe32(block_length);
 
-	align_page_boundary(offset, f);
-
-	return 0;
+	return align_page_boundary(offset, f);
 }
 
 static int loc_writer_create_signature(struct loc_writer* writer,
@@ -644,7 +648,11 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	}
 
 	// Skip header
-	fseek(f, sizeof(*header), SEEK_CUR);
+	r = fseek(f, sizeof(*header), SEEK_CUR);
+	if (r) {
+		ERROR(writer->ctx, "Could not skip the header: %m\n");
+		goto END;
+	}
 
 	// Walk through the file in chunks of 64kB
 	char buffer[64 * 1024];
@@ -731,6 +739,9 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	int r;
 	off_t offset = 0;
 
+	// Forget about any previous errors
+	clearerr(f);
+
 	// Start writing at the beginning of the file
 	r = fseek(f, 0, SEEK_SET);
 	if (r)
@@ -747,7 +758,9 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	}
 	offset += sizeof(header);
 
-	align_page_boundary(&offset, f);
+	r = align_page_boundary(&offset, f);
+	if (r)
+		return r;
 
 	// Write all ASes
 	r = loc_database_write_as_section(writer, &header, &offset, f);
@@ -769,6 +782,12 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	if (r)
 		return r;
 
+	// Check if everything has been written
+	if (ferror(f) || fflush(f)) {
+		ERROR(writer->ctx, "Could not write database: %m\n");
+		return 1;
+	}
+
 	// Create the signatures
 	if (writer->private_key1) {
 		DEBUG(writer->ctx, "Creating signature with first private key\n");
@@ -817,7 +836,7 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	bytes_written = fwrite(&header, 1, sizeof(header), f);
 	if (bytes_written < sizeof(header)) {
 		ERROR(writer->ctx, "Could not write header: %s\n", strerror(errno));
-		return r;
+		return 1;
 	}
 
 	// Seek back to the end
@@ -826,7 +845,11 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 		return r;
 
 	// Flush everything
-	fflush(f);
+	r = fflush(f);
+	if (r) {
+		ERROR(writer->ctx, "Could not write database: %m\n");
+		return r;
+	}
 
-	return r;
+	return 0;
 }
-- 
2.43.0


From 81f61db275c1598f973388d0abbac55218470cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:14 +0000
Subject: [PATCH 026/102] fix: writer: Don't write uninitialized memory

The padding of the networks was never initialized and leaked the content of
the stack into the database, which was different every time.
---
 src/writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer.c b/src/writer.c
index 8f60d5b..30c6cfa 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -519,6 +519,9 @@ static int loc_database_write_networks(struct loc_writer* writer,
 		struct network* nw = TAILQ_FIRST(&networks);
 		TAILQ_REMOVE(&networks, nw, networks);
 
+		// Don't write any uninitialized memory
+		memset(&db_network, '\0', sizeof(db_network));
+
 		// Prepare what we are writing to disk
 		r = loc_network_to_database_v1(nw->network, &db_network);
 		if (r) {
-- 
2.43.0


From 95848d5bd1e2a9bf67560bf1e1c24e48475706bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 027/102] fix: database: Don't overflow when checking
 boundaries

---
 src/database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.c b/src/database.c
index 01cb550..523268d 100644
--- a/src/database.c
+++ b/src/database.c
@@ -157,7 +157,7 @@ static inline int __loc_database_check_boundaries(struct loc_database* db,
 	size_t offset = p - db->data;
 
 	// Return if everything is within the boundary
-	if (offset <= db->length - length)
+	if (length <= (size_t)db->length && offset <= (size_t)db->length - length)
 		return 1;
 
 	DEBUG(db->ctx, "Database read check failed at %p for %zu byte(s)\n", p, length);
-- 
2.43.0


From 1d6f28de111a2526b672ac4ca3ada6b4fd544dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 028/102] fix: database: Don't read beyond the end of the
 string pool

---
 src/database.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/database.c b/src/database.c
index 523268d..c0df453 100644
--- a/src/database.c
+++ b/src/database.c
@@ -349,6 +349,13 @@ static int loc_database_read_header_v1(struct loc_database* db) {
 	if (!__loc_database_check_boundaries(db, stringpool_start, stringpool_length))
 		return 1;
 
+	// The last string must be terminated
+	if (stringpool_length && stringpool_start[stringpool_length - 1]) {
+		ERROR(db->ctx, "The string pool is not terminated\n");
+		errno = EINVAL;
+		return 1;
+	}
+
 	// Open the stringpool
 	r = loc_stringpool_open(db->ctx, &db->pool, stringpool_start, stringpool_length);
 	if (r)
-- 
2.43.0


From 7cf3d5645b64fca25d75fb8d0e8183fd04fe8f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 029/102] fix: network: Release networks that could not be read
 from the database

---
 src/network.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/network.c b/src/network.c
index ae71146..2656941 100644
--- a/src/network.c
+++ b/src/network.c
@@ -683,7 +683,7 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_country_code(*network, country_code);
 	if (r) {
 		ERROR(ctx, "Could not set country code: %s\n", country_code);
-		return r;
+		goto ERROR;
 	}
 
 	// Import ASN
@@ -691,7 +691,7 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_asn(*network, asn);
 	if (r) {
 		ERROR(ctx, "Could not set ASN: %d\n", asn);
-		return r;
+		goto ERROR;
 	}
 
 	// Import flags
@@ -699,10 +699,17 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_flag(*network, flags);
 	if (r) {
 		ERROR(ctx, "Could not set flags: %d\n", flags);
-		return r;
+		goto ERROR;
 	}
 
 	return 0;
+
+ERROR:
+	// Don't return half a network
+	loc_network_unref(*network);
+	*network = NULL;
+
+	return r;
 }
 
 static char* loc_network_reverse_pointer6(struct loc_network* network, const char* suffix) {
-- 
2.43.0


From 5c707252f3d658af4e07ca39f91d9fdbc537d047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 030/102] fix: writer: Release objects that could not be added

---
 src/writer.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index 30c6cfa..36f0969 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -245,7 +245,13 @@ LOC_EXPORT int loc_writer_add_as(struct loc_writer* writer, struct loc_as** as,
 		return r;
 
 	// Append it to the list
-	return loc_as_list_append(writer->as_list, *as);
+	r = loc_as_list_append(writer->as_list, *as);
+	if (r) {
+		loc_as_unref(*as);
+		*as = NULL;
+	}
+
+	return r;
 }
 
 LOC_EXPORT int loc_writer_add_network(struct loc_writer* writer, struct loc_network** network, const char* string) {
@@ -257,7 +263,13 @@ LOC_EXPORT int loc_writer_add_network(struct loc_writer* writer, struct loc_netw
 		return r;
 
 	// Add it to the local tree
-	return loc_network_tree_add_network(writer->networks, *network);
+	r = loc_network_tree_add_network(writer->networks, *network);
+	if (r) {
+		loc_network_unref(*network);
+		*network = NULL;
+	}
+
+	return r;
 }
 
 LOC_EXPORT int loc_writer_add_country(struct loc_writer* writer, struct loc_country** country, const char* country_code) {
@@ -267,7 +279,13 @@ LOC_EXPORT int loc_writer_add_country(struct loc_writer* writer, struct loc_coun
 		return r;
 
 	// Append it to the list
-	return loc_country_list_append(writer->country_list, *country);
+	r = loc_country_list_append(writer->country_list, *country);
+	if (r) {
+		loc_country_unref(*country);
+		*country = NULL;
+	}
+
+	return r;
 }
 
 static void make_magic(struct loc_writer* writer, struct loc_database_magic* magic,
-- 
2.43.0


From 17e05359eff444fc2692e440521db0af7aebde55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 031/102] fix: database: Release everything if flattening fails

---
 src/database.c | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/database.c b/src/database.c
index c0df453..56d4a49 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1470,19 +1470,15 @@ static int __loc_database_enumerator_next_network_flattened(
 	if (!enumerator->subnets) {
 		r = loc_network_list_new(enumerator->ctx, &enumerator->subnets);
 		if (r)
-			return r;
+			goto ERROR;
 	}
 
 	// Search all subnets from the database
 	while (1) {
 		// Fetch the next network in line
 		r = __loc_database_enumerator_next_network(enumerator, &subnet, 0);
-		if (r) {
-			loc_network_unref(subnet);
-			loc_network_list_clear(enumerator->subnets);
-
-			return r;
-		}
+		if (r)
+			goto ERROR;
 
 		// End if we did not receive another subnet
 		if (!subnet)
@@ -1493,9 +1489,7 @@ static int __loc_database_enumerator_next_network_flattened(
 			r = loc_network_list_push(enumerator->subnets, subnet);
 			if (r) {
 				loc_network_unref(subnet);
-				loc_network_list_clear(enumerator->subnets);
-
-				return r;
+				goto ERROR;
 			}
 
 			loc_network_unref(subnet);
@@ -1506,9 +1500,7 @@ static int __loc_database_enumerator_next_network_flattened(
 		r = loc_network_list_push(enumerator->stack, subnet);
 		if (r) {
 			loc_network_unref(subnet);
-			loc_network_list_clear(enumerator->subnets);
-
-			return r;
+			goto ERROR;
 		}
 
 		loc_network_unref(subnet);
@@ -1529,26 +1521,22 @@ static int __loc_database_enumerator_next_network_flattened(
 	// without the subnets.
 	struct loc_network_list* excluded = loc_network_exclude_list(*network, enumerator->subnets);
 	if (!excluded) {
-		loc_network_list_clear(enumerator->subnets);
-		return 1;
+		r = 1;
+		goto ERROR;
 	}
 
 	// Merge subnets onto the stack
 	r = loc_network_list_merge(enumerator->stack, enumerator->subnets);
 	if (r) {
-		loc_network_list_clear(enumerator->subnets);
 		loc_network_list_unref(excluded);
-
-		return r;
+		goto ERROR;
 	}
 
 	// Push excluded list onto the stack
 	r = loc_network_list_merge(enumerator->stack, excluded);
 	if (r) {
-		loc_network_list_clear(enumerator->subnets);
 		loc_network_list_unref(excluded);
-
-		return r;
+		goto ERROR;
 	}
 
 	loc_network_list_clear(enumerator->subnets);
@@ -1558,6 +1546,15 @@ static int __loc_database_enumerator_next_network_flattened(
 	loc_network_unref(*network);
 
 	return __loc_database_enumerator_next_network_flattened(enumerator, network);
+
+ERROR:
+	if (enumerator->subnets)
+		loc_network_list_clear(enumerator->subnets);
+
+	loc_network_unref(*network);
+	*network = NULL;
+
+	return r;
 }
 
 /*
-- 
2.43.0


From bc25271ca287c033ab22cea6575a73a4432868b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 032/102] fix: network-tree: Fail if a node could not be
 allocated

---
 src/network-tree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network-tree.c b/src/network-tree.c
index b4726d5..72a4bf7 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -105,6 +105,8 @@ static struct loc_network_tree_node* loc_network_tree_get_path(struct loc_networ
 	for (unsigned int i = 0; i < prefix; i++) {
 		// Check if the ith bit is one or zero
 		node = loc_network_tree_get_node(node, loc_address_get_bit(address, i));
+		if (!node)
+			return NULL;
 	}
 
 	return node;
-- 
2.43.0


From 8919673219553c45c4f1f712549931d70e4d4b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 033/102] fix: network-tree: Don't leak a network if the stack
 cannot grow

---
 src/network-tree.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/network-tree.c b/src/network-tree.c
index 72a4bf7..e1ae837 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -526,8 +526,6 @@ static int loc_network_tree_dedup_step(struct loc_network* network, void* data)
 
 	// If network did not get removed, we push it into the stack
 	r = loc_network_list_push(ctx->stack, network);
-	if (r)
-		return r;
 
 END:
 	if (n)
-- 
2.43.0


From 7bf1ab42eda35b43def35be232e06235f39ab77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 034/102] fix: network: Don't leak the first half if there is
 no second one

---
 src/network.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index 2656941..4e59801 100644
--- a/src/network.c
+++ b/src/network.c
@@ -361,8 +361,12 @@ LOC_EXPORT int loc_network_subnets(struct loc_network* network,
 
 	// Create the second half of the network
 	r = loc_network_new(network->ctx, subnet2, &first_address, prefix);
-	if (r)
+	if (r) {
+		loc_network_unref(*subnet1);
+		*subnet1 = NULL;
+
 		return r;
+	}
 
 	// Copy country code
 	const char* country_code = loc_network_get_country_code(network);
-- 
2.43.0


From 3b6d116f7f6a1e68206ab2bf7b097badd80681b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 035/102] fix: network: Raise any errors when excluding
 networks

---
 src/network.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/network.c b/src/network.c
index 4e59801..64c2f3b 100644
--- a/src/network.c
+++ b/src/network.c
@@ -530,8 +530,10 @@ LOC_EXPORT struct loc_network_list* loc_network_exclude_list(
 
 	off_t smallest_subnet = 0;
 
+	struct loc_network* subnet_to_check = NULL;
+
 	while (!loc_network_list_empty(to_check)) {
-		struct loc_network* subnet_to_check = loc_network_list_pop_first(to_check);
+		subnet_to_check = loc_network_list_pop_first(to_check);
 
 		// Check whether the subnet to check is part of the input list
 		if (loc_network_list_contains(list, subnet_to_check)) {
@@ -556,9 +558,12 @@ LOC_EXPORT struct loc_network_list* loc_network_exclude_list(
 			if (loc_network_overlaps(subnet, subnet_to_check)) {
 				passed = 0;
 
-				__loc_network_exclude_to_list(subnet_to_check, subnet, to_check);
+				r = __loc_network_exclude_to_list(subnet_to_check, subnet, to_check);
 
 				loc_network_unref(subnet);
+
+				if (r)
+					goto ERROR;
 				break;
 			}
 
@@ -580,6 +585,8 @@ LOC_EXPORT struct loc_network_list* loc_network_exclude_list(
 
 		if (passed) {
 			r = loc_network_list_push(subnets, subnet_to_check);
+			if (r)
+				goto ERROR;
 		}
 
 		loc_network_unref(subnet_to_check);
@@ -588,6 +595,13 @@ LOC_EXPORT struct loc_network_list* loc_network_exclude_list(
 	loc_network_list_unref(to_check);
 
 	return subnets;
+
+ERROR:
+	loc_network_unref(subnet_to_check);
+	loc_network_list_unref(to_check);
+	loc_network_list_unref(subnets);
+
+	return NULL;
 }
 
 int loc_network_merge(struct loc_network** n,
-- 
2.43.0


From 960d0759ee66ad5295207ea5c5b3088e6a00dffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 036/102] fix: as-list: Don't match if there is no memory

---
 src/as-list.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/as-list.c b/src/as-list.c
index 50805e7..e53e2da 100644
--- a/src/as-list.c
+++ b/src/as-list.c
@@ -152,16 +152,12 @@ LOC_EXPORT int loc_as_list_contains(
 
 LOC_EXPORT int loc_as_list_contains_number(
 		struct loc_as_list* list, uint32_t number) {
-	struct loc_as* as;
-
-	int r = loc_as_new(list->ctx, &as, number);
-	if (r)
-		return -1;
-
-	r = loc_as_list_contains(list, as);
-	loc_as_unref(as);
+	for (unsigned int i = 0; i < list->size; i++) {
+		if (loc_as_get_number(list->elements[i]) == number)
+			return 1;
+	}
 
-	return r;
+	return 0;
 }
 
 static int __loc_as_cmp(const void* as1, const void* as2) {
-- 
2.43.0


From cd8f75bea54b38db7c530e5712527b4fb01c8436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 037/102] fix: country-list: Don't match if there is no memory

---
 src/country-list.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/country-list.c b/src/country-list.c
index 536fd9e..7b78171 100644
--- a/src/country-list.c
+++ b/src/country-list.c
@@ -16,6 +16,7 @@
 
 #include <errno.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <libloc/compat.h>
 #include <libloc/country.h>
@@ -150,21 +151,16 @@ LOC_EXPORT int loc_country_list_contains(
 
 LOC_EXPORT int loc_country_list_contains_code(
 		struct loc_country_list* list, const char* code) {
-	struct loc_country* country;
-
-	int r = loc_country_new(list->ctx, &country, code);
-	if (r) {
-		// Ignore invalid country codes which would never match
-		if (errno == EINVAL)
-			return 0;
+	// Ignore invalid country codes which would never match
+	if (!loc_country_code_is_valid(code))
+		return 0;
 
-		return r;
+	for (unsigned int i = 0; i < list->size; i++) {
+		if (strcmp(loc_country_get_code(list->elements[i]), code) == 0)
+			return 1;
 	}
 
-	r = loc_country_list_contains(list, country);
-	loc_country_unref(country);
-
-	return r;
+	return 0;
 }
 
 static int __loc_country_cmp(const void* country1, const void* country2) {
-- 
2.43.0


From b9a150422b22163b975d1951bf3c83bef5317338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 038/102] fix: writer: Fail if a name could not be stored

---
 src/as.c      |  3 +++
 src/country.c |  5 ++++-
 src/writer.c  | 12 ++++++++++--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/as.c b/src/as.c
index 8115e50..c01394c 100644
--- a/src/as.c
+++ b/src/as.c
@@ -141,6 +141,9 @@ int loc_as_to_database_v1(struct loc_as* as, struct loc_stringpool* pool,
 
 	// Save the name string in the string pool
 	off_t name = loc_stringpool_add(pool, as->name ? as->name : "");
+	if (name < 0)
+		return 1;
+
 	dbobj->name = htobe32(name);
 
 	return 0;
diff --git a/src/country.c b/src/country.c
index 30dbc53..12359e5 100644
--- a/src/country.c
+++ b/src/country.c
@@ -190,8 +190,11 @@ int loc_country_to_database_v1(struct loc_country* country,
 		loc_country_code_copy(dbobj->continent_code, country->continent_code);
 
 	// Save the name string in the string pool
-	if (country->name)
+	if (country->name) {
 		name = loc_stringpool_add(pool, country->name);
+		if (name < 0)
+			return 1;
+	}
 
 	dbobj->name = htobe32(name);
 
diff --git a/src/writer.c b/src/writer.c
index 36f0969..d491fcc 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -345,7 +345,11 @@ static int loc_database_write_as_section(struct loc_writer* writer,
 			return 1;
 
 		// Convert AS into database format
-		loc_as_to_database_v1(as, writer->pool, &block);
+		int r = loc_as_to_database_v1(as, writer->pool, &block);
+		if (r) {
+			loc_as_unref(as);
+			return r;
+		}
 
 		// Write to disk
 		*offset += fwrite(&block, 1, sizeof(block), f);
@@ -598,7 +602,11 @@ static int loc_database_write_countries(struct loc_writer* writer,
 		memset(&block, '\0', sizeof(block));
 
 		// Convert country into database format
-		loc_country_to_database_v1(country, writer->pool, &block);
+		int r = loc_country_to_database_v1(country, writer->pool, &block);
+		if (r) {
+			loc_country_unref(country);
+			return r;
+		}
 
 		// Write to disk
 		*offset += fwrite(&block, 1, sizeof(block), f);
-- 
2.43.0


From 862ec7c5cc7c75b665f9e38500929523a1bf3c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 039/102] fix: database: Don't leak the file descriptor if it
 cannot be opened

---
 src/database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/database.c b/src/database.c
index 56d4a49..531ad66 100644
--- a/src/database.c
+++ b/src/database.c
@@ -415,7 +415,7 @@ static int loc_database_clone_handle(struct loc_database* db, FILE* f) {
 
 	// Clone file descriptor
 	fd = dup(fd);
-	if (!fd) {
+	if (fd < 0) {
 		ERROR(db->ctx, "Could not duplicate file descriptor\n");
 		return 1;
 	}
@@ -424,6 +424,7 @@ static int loc_database_clone_handle(struct loc_database* db, FILE* f) {
 	db->f = fdopen(fd, "r");
 	if (!db->f) {
 		ERROR(db->ctx, "Could not re-open database file\n");
+		close(fd);
 		return 1;
 	}
 
-- 
2.43.0


From 07a43ab67197e82139f96459c71d91fcdde697b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 040/102] fix: database: Don't leak any previous search strings

---
 src/database.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/database.c b/src/database.c
index 531ad66..b305389 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1188,12 +1188,20 @@ LOC_EXPORT struct loc_database_enumerator* loc_database_enumerator_unref(struct
 }
 
 LOC_EXPORT int loc_database_enumerator_set_string(struct loc_database_enumerator* enumerator, const char* string) {
-	enumerator->string = strdup(string);
+	char* s = strdup(string);
+	if (!s)
+		return 1;
 
 	// Make the string lowercase
-	for (char *p = enumerator->string; *p; p++)
+	for (char *p = s; *p; p++)
 		*p = tolower(*p);
 
+	// Replace any previous string
+	if (enumerator->string)
+		free(enumerator->string);
+
+	enumerator->string = s;
+
 	return 0;
 }
 
-- 
2.43.0


From e1580d6b240b67b146a667f5d901388b9d2cd948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 041/102] fix: database: Don't return anything uninitialized
 when not enumerating networks

---
 src/database.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/database.c b/src/database.c
index b305389..64c2f2f 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1713,6 +1713,8 @@ FINISH:
 
 LOC_EXPORT int loc_database_enumerator_next_network(
 		struct loc_database_enumerator* enumerator, struct loc_network** network) {
+	*network = NULL;
+
 	switch (enumerator->mode) {
 		case LOC_DB_ENUMERATE_NETWORKS:
 			// Flatten output?
-- 
2.43.0


From a8bc323f87d8fce00d5b3141f50f9b30ac75d347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:00 +0000
Subject: [PATCH 042/102] fix: network-tree: Don't release the root node if
 there is none

---
 src/network-tree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network-tree.c b/src/network-tree.c
index e1ae837..6603b8f 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -164,7 +164,8 @@ int loc_network_tree_walk(struct loc_network_tree* tree,
 static void loc_network_tree_free(struct loc_network_tree* tree) {
 	DEBUG(tree->ctx, "Releasing network tree at %p\n", tree);
 
-	loc_network_tree_node_unref(tree->root);
+	if (tree->root)
+		loc_network_tree_node_unref(tree->root);
 
 	loc_unref(tree->ctx);
 	free(tree);
-- 
2.43.0


From 9b49bbae4816343455d709f0b0939dbf5266b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:00 +0000
Subject: [PATCH 043/102] fix: database: lookup: Raise any errors

---
 src/database.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/database.c b/src/database.c
index 64c2f2f..95d2ae1 100644
--- a/src/database.c
+++ b/src/database.c
@@ -889,7 +889,7 @@ static int __loc_database_lookup_handle_leaf(struct loc_database* db, const stru
 
 		loc_network_unref(*network);
 		*network = NULL;
-		return 1;
+		return 0;
 	}
 
 	// A network was found and the IP address matches
@@ -938,7 +938,7 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 		r = __loc_database_lookup(db, address, network, network_address, node_index, level + 1);
 
 		// Raise any errors
-		if (r < 0)
+		if (r)
 			return r;
 
 		// End here if a result was found
@@ -953,7 +953,7 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 	// If this node has a leaf, we will check if it matches
 	if (__loc_database_node_is_leaf(node_v1)) {
 		r = __loc_database_lookup_handle_leaf(db, address, network, network_address, level, node_v1);
-		if (r < 0)
+		if (r)
 			return r;
 	}
 
-- 
2.43.0


From f67ac8fda0ec766657286887d2ee5029a1cb95f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:03 +0000
Subject: [PATCH 044/102] fix: resolv: Don't write beyond the end of the answer

---
 src/resolv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resolv.c b/src/resolv.c
index 1c4cd75..68fdc67 100644
--- a/src/resolv.c
+++ b/src/resolv.c
@@ -56,13 +56,14 @@ LOC_EXPORT int loc_discover_latest_version(struct loc_ctx* ctx,
     char domain[64];
     snprintf(domain, 63, LOC_DATABASE_DOMAIN, version);
 
-    unsigned char answer[PACKETSZ];
+    // Leave some space to terminate the payload
+    unsigned char answer[PACKETSZ + 1];
     int len;
 
     DEBUG(ctx, "Querying %s\n", domain);
 
     // Send a query
-    if ((len = res_query(domain, C_IN, T_TXT, answer, sizeof(answer))) < 0 || len > PACKETSZ) {
+    if ((len = res_query(domain, C_IN, T_TXT, answer, PACKETSZ)) < 0 || len > PACKETSZ) {
         ERROR(ctx, "Could not query %s: \n", domain);
 
         return -1;
-- 
2.43.0


From 8e5fa6ed7723476a39aa1c29125cf47448c870f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:03 +0000
Subject: [PATCH 045/102] fix: address: Don't share any buffers between threads

---
 src/address.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/address.c b/src/address.c
index a9bd64a..662cad3 100644
--- a/src/address.c
+++ b/src/address.c
@@ -27,8 +27,8 @@
 #define LOC_ADDRESS_BUFFERS				6
 #define LOC_ADDRESS_BUFFER_LENGTH		INET6_ADDRSTRLEN
 
-static char __loc_address_buffers[LOC_ADDRESS_BUFFERS][LOC_ADDRESS_BUFFER_LENGTH + 1];
-static int  __loc_address_buffer_idx = 0;
+static __thread char __loc_address_buffers[LOC_ADDRESS_BUFFERS][LOC_ADDRESS_BUFFER_LENGTH + 1];
+static __thread int __loc_address_buffer_idx = 0;
 
 static const char* __loc_address6_str(const struct in6_addr* address, char* buffer, size_t length) {
 	return inet_ntop(AF_INET6, address, buffer, length);
-- 
2.43.0


From 07d9819fd2f7342c8251bebb504ddf586133260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:48 +0000
Subject: [PATCH 046/102] fix: python: Return None for the name of an AS that
 does not have any

---
 src/python/as.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/as.c b/src/python/as.c
index 2f4b26f..2a3b1a5 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -87,6 +87,10 @@ static PyObject* AS_get_number(ASObject* self) {
 static PyObject* AS_get_name(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
+	// Return None if no name has been set
+	if (!name)
+		Py_RETURN_NONE;
+
 	return PyUnicode_FromString(name);
 }
 
-- 
2.43.0


From 49c0fae40e10b68e1f643e54b891bb4d5fb1f7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:52 +0000
Subject: [PATCH 047/102] fix: python: Accept and show all 32 bit AS numbers
 and refuse any others

---
 src/python/as.c       | 35 ++++++++++++++++++++++++++++++-----
 src/python/as.h       |  2 ++
 src/python/database.c |  8 ++++++--
 src/python/writer.c   |  2 +-
 4 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 2a3b1a5..9654c88 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -31,6 +31,31 @@ PyObject* new_as(PyTypeObject* type, struct loc_as* as) {
 	return (PyObject*)self;
 }
 
+/*
+	A converter for PyArg_ParseTuple() that accepts any 32 bit AS number
+*/
+int PyObject_AsASN(PyObject* object, void* number) {
+	PyObject* index = PyNumber_Index(object);
+	if (!index)
+		return 0;
+
+	// This raises OverflowError for anything that is negative or too large
+	unsigned long long n = PyLong_AsUnsignedLongLong(index);
+	Py_DECREF(index);
+
+	if (PyErr_Occurred())
+		return 0;
+
+	if (n > UINT32_MAX) {
+		PyErr_SetString(PyExc_OverflowError, "AS numbers cannot be longer than 32 bit");
+		return 0;
+	}
+
+	*(uint32_t*)number = n;
+
+	return 1;
+}
+
 static PyObject* AS_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
 	ASObject* self = (ASObject*)type->tp_alloc(type, 0);
 
@@ -47,7 +72,7 @@ static void AS_dealloc(ASObject* self) {
 static int AS_init(ASObject* self, PyObject* args, PyObject* kwargs) {
 	uint32_t number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "O&", PyObject_AsASN, &number))
 		return -1;
 
 	// Create the AS object
@@ -63,9 +88,9 @@ static PyObject* AS_repr(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
 	if (name)
-		return PyUnicode_FromFormat("<AS %d (%s)>", number, name);
+		return PyUnicode_FromFormat("<AS %u (%s)>", number, name);
 
-	return PyUnicode_FromFormat("<AS %d>", number);
+	return PyUnicode_FromFormat("<AS %u>", number);
 }
 
 static PyObject* AS_str(ASObject* self) {
@@ -73,9 +98,9 @@ static PyObject* AS_str(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
 	if (name)
-		return PyUnicode_FromFormat("AS%d - %s", number, name);
+		return PyUnicode_FromFormat("AS%u - %s", number, name);
 
-	return PyUnicode_FromFormat("AS%d", number);
+	return PyUnicode_FromFormat("AS%u", number);
 }
 
 static PyObject* AS_get_number(ASObject* self) {
diff --git a/src/python/as.h b/src/python/as.h
index d7fe36a..4a6ec5b 100644
--- a/src/python/as.h
+++ b/src/python/as.h
@@ -31,4 +31,6 @@ extern PyTypeObject ASType;
 
 PyObject* new_as(PyTypeObject* type, struct loc_as* as);
 
+int PyObject_AsASN(PyObject* object, void* number);
+
 #endif /* PYTHON_LOCATION_AS_H */
diff --git a/src/python/database.c b/src/python/database.c
index f84b003..c2c1530 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -143,7 +143,7 @@ static PyObject* Database_get_as(DatabaseObject* self, PyObject* args) {
 	struct loc_as* as = NULL;
 	uint32_t number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "O&", PyObject_AsASN, &number))
 		return NULL;
 
 	// Try to retrieve the AS
@@ -393,7 +393,11 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				return NULL;
 			}
 
-			unsigned long number = PyLong_AsLong(item);
+			uint32_t number = 0;
+			if (!PyObject_AsASN(item, &number)) {
+				loc_as_list_unref(asns);
+				return NULL;
+			}
 
 			struct loc_as* as;
 			r = loc_as_new(loc_ctx, &as, number);
diff --git a/src/python/writer.c b/src/python/writer.c
index 1c06384..bf5162c 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -149,7 +149,7 @@ static PyObject* Writer_add_as(WriterObject* self, PyObject* args) {
 	struct loc_as* as;
 	uint32_t number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "O&", PyObject_AsASN, &number))
 		return NULL;
 
 	// Create AS object
-- 
2.43.0


From e15badcb8f97a0cfd355022ce19286eba8db6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:56 +0000
Subject: [PATCH 048/102] fix: python: Raise an exception whenever an operation
 fails

---
 src/python/as.c       |  4 +++-
 src/python/country.c  | 15 ++++++++++++++-
 src/python/database.c |  7 ++++++-
 src/python/network.c  | 12 ++++++++++--
 src/python/writer.c   | 24 +++++++++++++++++++-----
 5 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 9654c88..abd964c 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -77,8 +77,10 @@ static int AS_init(ASObject* self, PyObject* args, PyObject* kwargs) {
 
 	// Create the AS object
 	int r = loc_as_new(loc_ctx, &self->as, number);
-	if (r)
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
 		return -1;
+	}
 
 	return 0;
 }
diff --git a/src/python/country.c b/src/python/country.c
index 7114846..63b8840 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -16,6 +16,8 @@
 
 #include <Python.h>
 
+#include <errno.h>
+
 #include <libloc/libloc.h>
 #include <libloc/country.h>
 
@@ -52,8 +54,19 @@ static int Country_init(CountryObject* self, PyObject* args, PyObject* kwargs) {
 
 	// Create the country object
 	int r = loc_country_new(loc_ctx, &self->country, country_code);
-	if (r)
+	if (r) {
+		switch (errno) {
+			case EINVAL:
+				PyErr_Format(PyExc_ValueError, "Invalid country code: %s", country_code);
+				break;
+
+			default:
+				PyErr_SetFromErrno(PyExc_OSError);
+				break;
+		}
+
 		return -1;
+	}
 
 	return 0;
 }
diff --git a/src/python/database.c b/src/python/database.c
index c2c1530..d30730c 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -16,6 +16,8 @@
 
 #include <Python.h>
 
+#include <errno.h>
+
 #include <libloc/libloc.h>
 #include <libloc/as.h>
 #include <libloc/as-list.h>
@@ -162,6 +164,7 @@ static PyObject* Database_get_as(DatabaseObject* self, PyObject* args) {
 	}
 
 	// Unexpected error
+	PyErr_SetFromErrno(PyExc_OSError);
 	return NULL;
 }
 
@@ -213,9 +216,11 @@ static PyObject* Database_lookup(DatabaseObject* self, PyObject* args) {
 		switch (errno) {
 			case EINVAL:
 				PyErr_Format(PyExc_ValueError, "Invalid IP address: %s", address);
+				break;
 
 			default:
 				PyErr_SetFromErrno(PyExc_OSError);
+				break;
 		}
 
 		return NULL;
@@ -340,7 +345,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			struct loc_country* country;
 			r = loc_country_new(loc_ctx, &country, country_code);
 			if (r) {
-				if (r == -EINVAL) {
+				if (errno == EINVAL) {
 					PyErr_Format(PyExc_ValueError, "Invalid country code: %s", country_code);
 				} else {
 					PyErr_SetString(PyExc_SystemError, "Could not create country");
diff --git a/src/python/network.c b/src/python/network.c
index 4bae918..5087d33 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -109,6 +109,8 @@ static int Network_set_country_code(NetworkObject* self, PyObject* value) {
 		if (r == -EINVAL)
 			PyErr_Format(PyExc_ValueError,
 				"Invalid country code: %s", country_code);
+		else
+			PyErr_SetFromErrno(PyExc_OSError);
 
 		return -1;
 	}
@@ -143,8 +145,10 @@ static int Network_set_asn(NetworkObject* self, PyObject* value) {
 #endif
 
 	int r = loc_network_set_asn(self->network, asn);
-	if (r)
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
 		return -1;
+	}
 
 	return 0;
 }
@@ -170,7 +174,7 @@ static PyObject* Network_set_flag(NetworkObject* self, PyObject* args) {
 	int r = loc_network_set_flag(self->network, flag);
 
 	if (r) {
-		// What exception to throw here?
+		PyErr_SetFromErrno(PyExc_OSError);
 		return NULL;
 	}
 
@@ -184,6 +188,10 @@ static PyObject* Network_exclude(NetworkObject* self, PyObject* args) {
 		return NULL;
 
 	struct loc_network_list* list = loc_network_exclude(self->network, other->network);
+	if (!list) {
+		PyErr_SetFromErrno(PyExc_OSError);
+		return NULL;
+	}
 
 	// Convert to Python objects
 	PyObject* obj = PyList_FromNetworkList(list);
diff --git a/src/python/writer.c b/src/python/writer.c
index bf5162c..9159fa6 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -16,6 +16,8 @@
 
 #include <Python.h>
 
+#include <errno.h>
+
 #include <libloc/libloc.h>
 #include <libloc/writer.h>
 
@@ -154,8 +156,10 @@ static PyObject* Writer_add_as(WriterObject* self, PyObject* args) {
 
 	// Create AS object
 	int r = loc_writer_add_as(self->writer, &as, number);
-	if (r)
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
 		return NULL;
+	}
 
 	PyObject* obj = new_as(&ASType, as);
 	loc_as_unref(as);
@@ -173,14 +177,17 @@ static PyObject* Writer_add_country(WriterObject* self, PyObject* args) {
 	// Create country object
 	int r = loc_writer_add_country(self->writer, &country, country_code);
 	if (r) {
-		switch (r) {
-			case -EINVAL:
-				PyErr_SetString(PyExc_ValueError, "Invalid network");
+		switch (errno) {
+			case EINVAL:
+				PyErr_SetString(PyExc_ValueError, "Invalid country code");
 				break;
 
 			default:
-				return NULL;
+				PyErr_SetFromErrno(PyExc_OSError);
+				break;
 		}
+
+		return NULL;
 	}
 
 	PyObject* obj = new_country(&CountryType, country);
@@ -207,6 +214,13 @@ static PyObject* Writer_add_network(WriterObject* self, PyObject* args) {
 			case -EBUSY:
 				PyErr_SetString(PyExc_IndexError, "A network already exists here");
 				break;
+
+			default:
+				if (errno == EINVAL)
+					PyErr_SetString(PyExc_ValueError, "Invalid network");
+				else
+					PyErr_SetFromErrno(PyExc_OSError);
+				break;
 		}
 
 		return NULL;
-- 
2.43.0


From 2c0a2ba17dd376c71f263124cb862d63ea8416da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:00 +0000
Subject: [PATCH 049/102] fix: python: Check the values that attributes are set
 to

---
 src/python/as.c      | 11 +++++++++--
 src/python/country.c | 24 ++++++++++++++++++++----
 src/python/network.c | 16 +++++++++++++++-
 src/python/writer.c  | 39 +++++++++++++++++++++++++++++++++------
 4 files changed, 77 insertions(+), 13 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index abd964c..c3097d1 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -122,12 +122,19 @@ static PyObject* AS_get_name(ASObject* self) {
 }
 
 static int AS_set_name(ASObject* self, PyObject* value) {
-	const char* name = PyUnicode_AsUTF8(value);
+	const char* name = NULL;
+
+	// Passing None (or deleting the attribute) will reset it
+	if (value && value != Py_None) {
+		name = PyUnicode_AsUTF8(value);
+		if (!name)
+			return -1;
+	}
 
 	int r = loc_as_set_name(self->as, name);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set name: %s", name);
-		return r;
+		return -1;
 	}
 
 	return 0;
diff --git a/src/python/country.c b/src/python/country.c
index 63b8840..f90a0af 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -102,12 +102,19 @@ static PyObject* Country_get_name(CountryObject* self) {
 }
 
 static int Country_set_name(CountryObject* self, PyObject* value) {
-	const char* name = PyUnicode_AsUTF8(value);
+	const char* name = NULL;
+
+	// Passing None (or deleting the attribute) will reset it
+	if (value && value != Py_None) {
+		name = PyUnicode_AsUTF8(value);
+		if (!name)
+			return -1;
+	}
 
 	int r = loc_country_set_name(self->country, name);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set name: %s", name);
-		return r;
+		return -1;
 	}
 
 	return 0;
@@ -123,12 +130,21 @@ static PyObject* Country_get_continent_code(CountryObject* self) {
 }
 
 static int Country_set_continent_code(CountryObject* self, PyObject* value) {
-	const char* code = PyUnicode_AsUTF8(value);
+	const char* code = NULL;
+
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "Cannot delete the continent code");
+		return -1;
+	}
+
+	code = PyUnicode_AsUTF8(value);
+	if (!code)
+		return -1;
 
 	int r = loc_country_set_continent_code(self->country, code);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set continent code: %s", code);
-		return r;
+		return -1;
 	}
 
 	return 0;
diff --git a/src/python/network.c b/src/python/network.c
index 5087d33..4292989 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -102,7 +102,14 @@ static PyObject* Network_get_country_code(NetworkObject* self) {
 }
 
 static int Network_set_country_code(NetworkObject* self, PyObject* value) {
-	const char* country_code = PyUnicode_AsUTF8(value);
+	const char* country_code = NULL;
+
+	// Passing None (or deleting the attribute) will reset it
+	if (value && value != Py_None) {
+		country_code = PyUnicode_AsUTF8(value);
+		if (!country_code)
+			return -1;
+	}
 
 	int r = loc_network_set_country_code(self->network, country_code);
 	if (r) {
@@ -128,7 +135,14 @@ static PyObject* Network_get_asn(NetworkObject* self) {
 }
 
 static int Network_set_asn(NetworkObject* self, PyObject* value) {
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "Cannot delete the ASN");
+		return -1;
+	}
+
 	long int asn = PyLong_AsLong(value);
+	if (asn == -1 && PyErr_Occurred())
+		return -1;
 
 	// Check if the ASN is within the valid range
 	if (asn <= 0) {
diff --git a/src/python/writer.c b/src/python/writer.c
index 9159fa6..12d33d4 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -100,12 +100,21 @@ static PyObject* Writer_get_vendor(WriterObject* self) {
 }
 
 static int Writer_set_vendor(WriterObject* self, PyObject* value) {
-	const char* vendor = PyUnicode_AsUTF8(value);
+	const char* vendor = NULL;
+
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "Cannot delete the vendor");
+		return -1;
+	}
+
+	vendor = PyUnicode_AsUTF8(value);
+	if (!vendor)
+		return -1;
 
 	int r = loc_writer_set_vendor(self->writer, vendor);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set vendor: %s", vendor);
-		return r;
+		return -1;
 	}
 
 	return 0;
@@ -118,12 +127,21 @@ static PyObject* Writer_get_description(WriterObject* self) {
 }
 
 static int Writer_set_description(WriterObject* self, PyObject* value) {
-	const char* description = PyUnicode_AsUTF8(value);
+	const char* description = NULL;
+
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "Cannot delete the description");
+		return -1;
+	}
+
+	description = PyUnicode_AsUTF8(value);
+	if (!description)
+		return -1;
 
 	int r = loc_writer_set_description(self->writer, description);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set description: %s", description);
-		return r;
+		return -1;
 	}
 
 	return 0;
@@ -136,12 +154,21 @@ static PyObject* Writer_get_license(WriterObject* self) {
 }
 
 static int Writer_set_license(WriterObject* self, PyObject* value) {
-	const char* license = PyUnicode_AsUTF8(value);
+	const char* license = NULL;
+
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "Cannot delete the license");
+		return -1;
+	}
+
+	license = PyUnicode_AsUTF8(value);
+	if (!license)
+		return -1;
 
 	int r = loc_writer_set_license(self->writer, license);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set license: %s", license);
-		return r;
+		return -1;
 	}
 
 	return 0;
-- 
2.43.0


From 6bdfe873c9eb5507ef5d84edec9dccb5b95d4d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:04 +0000
Subject: [PATCH 050/102] fix: python: Do not allow to create enumerators
 without a database

---
 src/python/database.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/python/database.c b/src/python/database.c
index d30730c..dfb5d79 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -598,12 +598,6 @@ PyTypeObject DatabaseType = {
 	.tp_repr =               (reprfunc)Database_repr,
 };
 
-static PyObject* DatabaseEnumerator_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
-	DatabaseEnumeratorObject* self = (DatabaseEnumeratorObject*)type->tp_alloc(type, 0);
-
-	return (PyObject*)self;
-}
-
 static void DatabaseEnumerator_dealloc(DatabaseEnumeratorObject* self) {
 	loc_database_enumerator_unref(self->enumerator);
 
@@ -671,7 +665,6 @@ PyTypeObject DatabaseEnumeratorType = {
 	.tp_basicsize =          sizeof(DatabaseEnumeratorObject),
 	.tp_flags =              Py_TPFLAGS_DEFAULT,
 	.tp_alloc =              PyType_GenericAlloc,
-	.tp_new =                DatabaseEnumerator_new,
 	.tp_dealloc =            (destructor)DatabaseEnumerator_dealloc,
 	.tp_iter =               PyObject_SelfIter,
 	.tp_iternext =           (iternextfunc)DatabaseEnumerator_next,
-- 
2.43.0


From 8d14d42c96673d8bafeff94f8d9e0e435f1005f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:08 +0000
Subject: [PATCH 051/102] fix: python: Do not leak file handles of keys and do
 not drop references to None

---
 src/python/database.c |  9 +++++
 src/python/writer.c   | 80 +++++++++++++++++++++++++------------------
 2 files changed, 55 insertions(+), 34 deletions(-)

diff --git a/src/python/database.c b/src/python/database.c
index dfb5d79..bfb3ca5 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -96,14 +96,23 @@ static PyObject* Database_verify(DatabaseObject* self, PyObject* args) {
 	if (fd < 0)
 		return NULL;
 
+	// Duplicate the file descriptor, because Python will keep using it
+	fd = dup(fd);
+	if (fd < 0) {
+		PyErr_SetFromErrno(PyExc_IOError);
+		return NULL;
+	}
+
 	// Re-open file descriptor
 	f = fdopen(fd, "r");
 	if (!f) {
 		PyErr_SetFromErrno(PyExc_IOError);
+		close(fd);
 		return NULL;
 	}
 
 	int r = loc_database_verify(self->db, f);
+	fclose(f);
 
 	if (r == 0)
 		Py_RETURN_TRUE;
diff --git a/src/python/writer.c b/src/python/writer.c
index 12d33d4..82c9db2 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -40,57 +40,69 @@ static void Writer_dealloc(WriterObject* self) {
 	Py_TYPE(self)->tp_free((PyObject* )self);
 }
 
+/*
+	Returns a FILE handle for the given Python file object.
+
+	The file descriptor is being duplicated, because Python will keep using its own.
+*/
+static FILE* open_private_key(PyObject* key) {
+	int fd = PyObject_AsFileDescriptor(key);
+	if (fd < 0)
+		return NULL;
+
+	fd = dup(fd);
+	if (fd < 0) {
+		PyErr_SetFromErrno(PyExc_IOError);
+		return NULL;
+	}
+
+	FILE* f = fdopen(fd, "r");
+	if (!f) {
+		PyErr_SetFromErrno(PyExc_IOError);
+		close(fd);
+	}
+
+	return f;
+}
+
 static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
 	PyObject* private_key1 = NULL;
 	PyObject* private_key2 = NULL;
 	FILE* f1 = NULL;
 	FILE* f2 = NULL;
-	int fd;
+	int r = -1;
 
 	// Parse arguments
 	if (!PyArg_ParseTuple(args, "|OO", &private_key1, &private_key2))
 		return -1;
 
-	// Ignore None
-	if (private_key1 == Py_None) {
-		Py_DECREF(private_key1);
-		private_key1 = NULL;
+	// Convert into FILE* (and ignore None)
+	if (private_key1 && private_key1 != Py_None) {
+		f1 = open_private_key(private_key1);
+		if (!f1)
+			goto ERROR;
 	}
 
-	if (private_key2 == Py_None) {
-		Py_DECREF(private_key2);
-		private_key2 = NULL;
+	if (private_key2 && private_key2 != Py_None) {
+		f2 = open_private_key(private_key2);
+		if (!f2)
+			goto ERROR;
 	}
 
-	// Convert into FILE*
-	if (private_key1) {
-		fd = PyObject_AsFileDescriptor(private_key1);
-		if (fd < 0)
-			return -1;
-
-		// Re-open file descriptor
-		f1 = fdopen(fd, "r");
-		if (!f1) {
-			PyErr_SetFromErrno(PyExc_IOError);
-			return -1;
-		}
+	// Create the writer object
+	r = loc_writer_new(loc_ctx, &self->writer, f1, f2);
+	if (r) {
+		PyErr_SetString(PyExc_ValueError, "Could not create the writer");
+		r = -1;
 	}
 
-	if (private_key2) {
-		fd = PyObject_AsFileDescriptor(private_key2);
-		if (fd < 0)
-			return -1;
+ERROR:
+	if (f1)
+		fclose(f1);
+	if (f2)
+		fclose(f2);
 
-		// Re-open file descriptor
-		f2 = fdopen(fd, "r");
-		if (!f2) {
-			PyErr_SetFromErrno(PyExc_IOError);
-			return -1;
-		}
-	}
-
-	// Create the writer object
-	return loc_writer_new(loc_ctx, &self->writer, f1, f2);
+	return r;
 }
 
 static PyObject* Writer_get_vendor(WriterObject* self) {
-- 
2.43.0


From 42e2b47446d1d13d1fbfbe0feb672affb61e30d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:12 +0000
Subject: [PATCH 052/102] fix: python: Do not leak the enumerator when a search
 cannot be created

---
 src/python/database.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/python/database.c b/src/python/database.c
index bfb3ca5..9d59481 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -337,7 +337,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 		r = loc_country_list_new(loc_ctx, &countries);
 		if (r) {
 			PyErr_SetString(PyExc_SystemError, "Could not create country list");
-			return NULL;
+			goto ERROR;
 		}
 
 		for (int i = 0; i < PyList_Size(country_codes); i++) {
@@ -346,10 +346,14 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			if (!PyUnicode_Check(item)) {
 				PyErr_SetString(PyExc_TypeError, "Country codes must be strings");
 				loc_country_list_unref(countries);
-				return NULL;
+				goto ERROR;
 			}
 
 			const char* country_code = PyUnicode_AsUTF8(item);
+			if (!country_code) {
+				loc_country_list_unref(countries);
+				goto ERROR;
+			}
 
 			struct loc_country* country;
 			r = loc_country_new(loc_ctx, &country, country_code);
@@ -361,7 +365,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				}
 
 				loc_country_list_unref(countries);
-				return NULL;
+				goto ERROR;
 			}
 
 			// Append it to the list
@@ -371,7 +375,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 				loc_country_list_unref(countries);
 				loc_country_unref(country);
-				return NULL;
+				goto ERROR;
 			}
 
 			loc_country_unref(country);
@@ -382,7 +386,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			PyErr_SetFromErrno(PyExc_SystemError);
 
 			loc_country_list_unref(countries);
-			return NULL;
+			goto ERROR;
 		}
 
 		loc_country_list_unref(countries);
@@ -394,7 +398,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 		r = loc_as_list_new(loc_ctx, &asns);
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 
 		for (int i = 0; i < PyList_Size(asn_list); i++) {
@@ -404,13 +408,13 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				PyErr_SetString(PyExc_TypeError, "ASNs must be numbers");
 
 				loc_as_list_unref(asns);
-				return NULL;
+				goto ERROR;
 			}
 
 			uint32_t number = 0;
 			if (!PyObject_AsASN(item, &number)) {
 				loc_as_list_unref(asns);
-				return NULL;
+				goto ERROR;
 			}
 
 			struct loc_as* as;
@@ -419,8 +423,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				PyErr_SetFromErrno(PyExc_OSError);
 
 				loc_as_list_unref(asns);
-				loc_as_unref(as);
-				return NULL;
+				goto ERROR;
 			}
 
 			r = loc_as_list_append(asns, as);
@@ -429,7 +432,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 				loc_as_list_unref(asns);
 				loc_as_unref(as);
-				return NULL;
+				goto ERROR;
 			}
 
 			loc_as_unref(as);
@@ -440,7 +443,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			PyErr_SetFromErrno(PyExc_OSError);
 
 			loc_as_list_unref(asns);
-			return NULL;
+			goto ERROR;
 		}
 
 		loc_as_list_unref(asns);
@@ -452,7 +455,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 	}
 
@@ -462,7 +465,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 	}
 
@@ -470,6 +473,11 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 	loc_database_enumerator_unref(enumerator);
 
 	return obj;
+
+ERROR:
+	loc_database_enumerator_unref(enumerator);
+
+	return NULL;
 }
 
 static PyObject* Database_countries(DatabaseObject* self) {
-- 
2.43.0


From c4ec06cabfca07b69c31bddb277076a2c7599728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:17 +0000
Subject: [PATCH 053/102] fix: python: Equal objects must not compare as being
 different

---
 src/python/as.c      | 6 ++++++
 src/python/country.c | 6 ++++++
 src/python/network.c | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/python/as.c b/src/python/as.c
index c3097d1..93f32a9 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -158,6 +158,12 @@ static PyObject* AS_richcompare(ASObject* self, PyObject* other, int op) {
 
 			Py_RETURN_FALSE;
 
+		case Py_NE:
+			if (r != 0)
+				Py_RETURN_TRUE;
+
+			Py_RETURN_FALSE;
+
 		case Py_LT:
 			if (r < 0)
 				Py_RETURN_TRUE;
diff --git a/src/python/country.c b/src/python/country.c
index f90a0af..5190723 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -168,6 +168,12 @@ static PyObject* Country_richcompare(CountryObject* self, PyObject* other, int o
 
 			Py_RETURN_FALSE;
 
+		case Py_NE:
+			if (r != 0)
+				Py_RETURN_TRUE;
+
+			Py_RETURN_FALSE;
+
 		case Py_LT:
 			if (r < 0)
 				Py_RETURN_TRUE;
diff --git a/src/python/network.c b/src/python/network.c
index 4292989..0e4e49b 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -288,6 +288,12 @@ static PyObject* Network_richcompare(NetworkObject* self, PyObject* other, int o
 
 			Py_RETURN_FALSE;
 
+		case Py_NE:
+			if (r != 0)
+				Py_RETURN_TRUE;
+
+			Py_RETURN_FALSE;
+
 		case Py_LT:
 			if (r < 0)
 				Py_RETURN_TRUE;
-- 
2.43.0


From 366a3a05da2ed8735fe9d626da9ddb055ffe0577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:07 +0000
Subject: [PATCH 054/102] fix: lua: Return nil if a country could not be found

---
 src/lua/database.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lua/database.c b/src/lua/database.c
index dfdb705..2a53121 100644
--- a/src/lua/database.c
+++ b/src/lua/database.c
@@ -171,6 +171,12 @@ static int Database_get_country(lua_State* L) {
 		return 1;
 	}
 
+	// Nothing found
+	if (!country) {
+		lua_pushnil(L);
+		return 1;
+	}
+
 	// Create a new country object
 	r = create_country(L, country);
 	loc_country_unref(country);
-- 
2.43.0


From 6423da10aa11c652e231ebea3aa925ef8f2d2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:12 +0000
Subject: [PATCH 055/102] fix: lua: Accept and show all 32 bit AS numbers and
 refuse any others

---
 src/lua/as.c       | 22 ++++++++++++++++++----
 src/lua/as.h       |  4 ++++
 src/lua/database.c |  2 +-
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/lua/as.c b/src/lua/as.c
index 558fcbf..53698fe 100644
--- a/src/lua/as.c
+++ b/src/lua/as.c
@@ -15,6 +15,8 @@
 */
 
 #include <errno.h>
+#include <stdint.h>
+#include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
 
@@ -40,6 +42,15 @@ static AS* luaL_checkas(lua_State* L, int i) {
 	return (AS*)userdata;
 }
 
+uint32_t luaL_checkasn(lua_State* L, int i) {
+	lua_Number number = luaL_checknumber(L, i);
+
+	// AS numbers have 32 bits
+	luaL_argcheck(L, number >= 0 && number <= UINT32_MAX, i, "invalid AS number");
+
+	return number;
+}
+
 int create_as(lua_State* L, struct loc_as* as) {
 	// Allocate a new object
 	AS* self = (AS*)lua_newuserdata(L, sizeof(*self));
@@ -59,7 +70,7 @@ static int AS_new(lua_State* L) {
 	int r;
 
 	// Fetch the number
-	n = luaL_checknumber(L, 1);
+	n = luaL_checkasn(L, 1);
 
 	// Create the AS
 	r = loc_as_new(ctx, &as, n);
@@ -88,14 +99,17 @@ static int AS_gc(lua_State* L) {
 static int AS_tostring(lua_State* L) {
 	AS* self = luaL_checkas(L, 1);
 
-	uint32_t number = loc_as_get_number(self->as);
 	const char* name = loc_as_get_name(self->as);
+	char number[16];
+
+	// lua_pushfstring() cannot format any unsigned numbers
+	snprintf(number, sizeof(number), "AS%u", loc_as_get_number(self->as));
 
 	// Return string
 	if (name)
-		lua_pushfstring(L, "AS%d - %s", number, name);
+		lua_pushfstring(L, "%s - %s", number, name);
 	else
-		lua_pushfstring(L, "AS%d", number);
+		lua_pushstring(L, number);
 
 	return 1;
 }
diff --git a/src/lua/as.h b/src/lua/as.h
index 0ea34f9..3c7736b 100644
--- a/src/lua/as.h
+++ b/src/lua/as.h
@@ -17,6 +17,8 @@
 #ifndef LUA_LOCATION_AS_H
 #define LUA_LOCATION_AS_H
 
+#include <stdint.h>
+
 #include <lua.h>
 #include <lauxlib.h>
 
@@ -26,4 +28,6 @@ int register_as(lua_State* L);
 
 int create_as(lua_State* L, struct loc_as* as);
 
+uint32_t luaL_checkasn(lua_State* L, int i);
+
 #endif /* LUA_LOCATION_AS_H */
diff --git a/src/lua/database.c b/src/lua/database.c
index 2a53121..39d4b47 100644
--- a/src/lua/database.c
+++ b/src/lua/database.c
@@ -139,7 +139,7 @@ static int Database_get_as(lua_State* L) {
 	Database* self = luaL_checkdatabase(L, 1);
 
 	// Fetch number
-	uint32_t asn = luaL_checknumber(L, 2);
+	uint32_t asn = luaL_checkasn(L, 2);
 
 	// Fetch the AS
 	r = loc_database_get_as(self->db, &as, asn);
-- 
2.43.0


From 711ae14ee2a89cd7a05dfd5c64d1919eca6775e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:16 +0000
Subject: [PATCH 056/102] fix: lua: Raise an error when an object has already
 been released

---
 src/lua/as.c       |  9 +++++++--
 src/lua/country.c  |  9 +++++++--
 src/lua/database.c | 20 ++++++++++++++++----
 src/lua/network.c  |  9 +++++++--
 4 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/lua/as.c b/src/lua/as.c
index 53698fe..06d51a1 100644
--- a/src/lua/as.c
+++ b/src/lua/as.c
@@ -39,7 +39,12 @@ static AS* luaL_checkas(lua_State* L, int i) {
 	// Throw an error if the argument doesn't match
 	luaL_argcheck(L, userdata, i, "AS expected");
 
-	return (AS*)userdata;
+	AS* self = (AS*)userdata;
+
+	// The object might already have been released
+	luaL_argcheck(L, self->as, i, "AS has been released");
+
+	return self;
 }
 
 uint32_t luaL_checkasn(lua_State* L, int i) {
@@ -85,7 +90,7 @@ static int AS_new(lua_State* L) {
 }
 
 static int AS_gc(lua_State* L) {
-	AS* self = luaL_checkas(L, 1);
+	AS* self = (AS*)luaL_checkudata(L, 1, "location.AS");
 
 	// Free AS
 	if (self->as) {
diff --git a/src/lua/country.c b/src/lua/country.c
index 816bd2f..a69cd96 100644
--- a/src/lua/country.c
+++ b/src/lua/country.c
@@ -37,7 +37,12 @@ static Country* luaL_checkcountry(lua_State* L, int i) {
 	// Throw an error if the argument doesn't match
 	luaL_argcheck(L, userdata, i, "Country expected");
 
-	return (Country*)userdata;
+	Country* self = (Country*)userdata;
+
+	// The object might already have been released
+	luaL_argcheck(L, self->country, i, "Country has been released");
+
+	return self;
 }
 
 int create_country(lua_State* L, struct loc_country* country) {
@@ -74,7 +79,7 @@ static int Country_new(lua_State* L) {
 }
 
 static int Country_gc(lua_State* L) {
-	Country* self = luaL_checkcountry(L, 1);
+	Country* self = (Country*)luaL_checkudata(L, 1, "location.Country");
 
 	// Free country
 	if (self->country) {
diff --git a/src/lua/database.c b/src/lua/database.c
index 39d4b47..34ae615 100644
--- a/src/lua/database.c
+++ b/src/lua/database.c
@@ -39,7 +39,12 @@ static Database* luaL_checkdatabase(lua_State* L, int i) {
 	// Throw an error if the argument doesn't match
 	luaL_argcheck(L, userdata, i, "Database expected");
 
-	return (Database*)userdata;
+	Database* self = (Database*)userdata;
+
+	// The object might already have been released
+	luaL_argcheck(L, self->db, i, "Database has been released");
+
+	return self;
 }
 
 static int Database_open(lua_State* L) {
@@ -76,7 +81,7 @@ static int Database_open(lua_State* L) {
 }
 
 static int Database_gc(lua_State* L) {
-	Database* self = luaL_checkdatabase(L, 1);
+	Database* self = (Database*)luaL_checkudata(L, 1, "location.Database");
 
 	// Free database
 	if (self->db) {
@@ -245,11 +250,16 @@ static DatabaseEnumerator* luaL_checkdatabaseenumerator(lua_State* L, int i) {
 	// Throw an error if the argument doesn't match
 	luaL_argcheck(L, userdata, i, "DatabaseEnumerator expected");
 
-	return (DatabaseEnumerator*)userdata;
+	DatabaseEnumerator* self = (DatabaseEnumerator*)userdata;
+
+	// The object might already have been released
+	luaL_argcheck(L, self->e, i, "DatabaseEnumerator has been released");
+
+	return self;
 }
 
 static int DatabaseEnumerator_gc(lua_State* L) {
-	DatabaseEnumerator* self = luaL_checkdatabaseenumerator(L, 1);
+	DatabaseEnumerator* self = (DatabaseEnumerator*)luaL_checkudata(L, 1, "location.DatabaseEnumerator");
 
 	if (self->e) {
 		loc_database_enumerator_unref(self->e);
@@ -291,6 +301,8 @@ static int Database_list_networks(lua_State* L) {
 
 	// Allocate a new enumerator
 	e = lua_newuserdata(L, sizeof(*e));
+	e->e = NULL;
+
 	luaL_setmetatable(L, "location.DatabaseEnumerator");
 
 	// Create a new enumerator
diff --git a/src/lua/network.c b/src/lua/network.c
index 2da6a1d..46a4a83 100644
--- a/src/lua/network.c
+++ b/src/lua/network.c
@@ -37,7 +37,12 @@ static Network* luaL_checknetwork(lua_State* L, int i) {
 	// Throw an error if the argument doesn't match
 	luaL_argcheck(L, userdata, i, "Network expected");
 
-	return (Network*)userdata;
+	Network* self = (Network*)userdata;
+
+	// The object might already have been released
+	luaL_argcheck(L, self->network, i, "Network has been released");
+
+	return self;
 }
 
 int create_network(lua_State* L, struct loc_network* network) {
@@ -74,7 +79,7 @@ static int Network_new(lua_State* L) {
 }
 
 static int Network_gc(lua_State* L) {
-	Network* self = luaL_checknetwork(L, 1);
+	Network* self = (Network*)luaL_checkudata(L, 1, "location.Network");
 
 	// Free the network
 	if (self->network) {
-- 
2.43.0


From e115464ddb9a9c8290dfc4b933052c55a99afdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:20 +0000
Subject: [PATCH 057/102] fix: lua: Do not use a thread for logging that might
 have been collected

---
 src/lua/location.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/lua/location.c b/src/lua/location.c
index 1c94889..5c186e6 100644
--- a/src/lua/location.c
+++ b/src/lua/location.c
@@ -34,7 +34,10 @@
 
 struct loc_ctx* ctx = NULL;
 
-static int log_callback_ref = 0;
+static int log_callback_ref = LUA_NOREF;
+
+// The callback is being called in a thread of its own
+static int log_thread_ref = LUA_NOREF;
 
 static void log_callback(struct loc_ctx* _ctx, void* data, int priority, const char* file,
 		int line, const char* fn, const char* format, va_list args) {
@@ -57,8 +60,10 @@ static void log_callback(struct loc_ctx* _ctx, void* data, int priority, const c
 	// Pass the message as second argument
 	lua_pushstring(L, message);
 
-	// Call the function
-	lua_call(L, 2, 0);
+	// Call the function, but do not let any errors escape into the library
+	r = lua_pcall(L, 2, 0, 0);
+	if (r)
+		lua_pop(L, 1);
 
 	free(message);
 }
@@ -68,11 +73,23 @@ static int set_log_callback(lua_State* L) {
 	luaL_checktype(L, 1, LUA_TFUNCTION);
 
 	// Store a reference to the callback function
-	log_callback_ref = luaL_ref(L, LUA_REGISTRYINDEX);
+	lua_pushvalue(L, 1);
+	const int callback = luaL_ref(L, LUA_REGISTRYINDEX);
+
+	// Create a thread, because the current one might go away
+	lua_State* thread = lua_newthread(L);
+	const int thread_ref = luaL_ref(L, LUA_REGISTRYINDEX);
+
+	// Drop any previous callback function
+	luaL_unref(L, LUA_REGISTRYINDEX, log_callback_ref);
+	luaL_unref(L, LUA_REGISTRYINDEX, log_thread_ref);
+
+	log_callback_ref = callback;
+	log_thread_ref = thread_ref;
 
 	// Register our callback helper
 	if (ctx)
-		loc_set_log_callback(ctx, log_callback, L);
+		loc_set_log_callback(ctx, log_callback, thread);
 
 	return 0;
 }
-- 
2.43.0


From 5f11da117ce14414a86d65974c02122bbe1ea71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:17 +0000
Subject: [PATCH 058/102] fix: perl: Return undef if a country or its continent
 does not exist

---
 src/perl/Location.xs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index be6df14..0c00697 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -267,12 +267,13 @@ get_country_name(db, ccode)
 		RETVAL = &PL_sv_undef;
 
 		// Lookup country code
-		struct loc_country *country;
+		struct loc_country *country = NULL;
 		int err = loc_database_get_country(db, &country, ccode);
-		if(!err) {
+		if (!err && country) {
 			// Extract the name for the given country code.
 			const char* country_name = loc_country_get_name(country);
-			RETVAL = newSVpv(country_name, strlen(country_name));
+			if (country_name)
+				RETVAL = newSVpv(country_name, strlen(country_name));
 
 			loc_country_unref(country);
 		}
@@ -289,12 +290,13 @@ get_continent_code(db, ccode)
 		RETVAL = &PL_sv_undef;
 
 		// Lookup country code
-		struct loc_country *country;
+		struct loc_country *country = NULL;
 		int err = loc_database_get_country(db, &country, ccode);
-		if(!err) {
+		if (!err && country) {
 			//Extract the continent code for the given country code.
 			const char* continent_code =  loc_country_get_continent_code(country);
-			RETVAL = newSVpv(continent_code, strlen(continent_code));
+			if (continent_code)
+				RETVAL = newSVpv(continent_code, strlen(continent_code));
 
 			loc_country_unref(country);
 		}
-- 
2.43.0


From 4f9d2ed1196a6c7b001144f5c8cc91f744e00b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:20 +0000
Subject: [PATCH 059/102] fix: perl: Do not truncate AS numbers

---
 src/perl/Location.xs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index 0c00697..97dcc08 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -3,6 +3,7 @@
 #include "perl.h"
 #include "XSUB.h"
 
+#include <stdint.h>
 #include <stdio.h>
 #include <string.h>
 
@@ -307,19 +308,22 @@ get_continent_code(db, ccode)
 SV*
 get_as_name(db, as_number)
 	struct loc_database* db;
-	unsigned int as_number;
+	UV as_number;
 
 	CODE:
 		RETVAL = &PL_sv_undef;
 
-		// Lookup AS.
-		struct loc_as *as;
-		int err = loc_database_get_as(db, &as, as_number);
-		if(!err) {
+		// Lookup AS. There are no numbers with more than 32 bits
+		struct loc_as *as = NULL;
+		int err = 1;
+		if (as_number <= UINT32_MAX)
+			err = loc_database_get_as(db, &as, as_number);
+		if (!err) {
 			// Get the name of the given AS number.
 			const char* as_name = loc_as_get_name(as);
 
-			RETVAL = newSVpv(as_name, strlen(as_name));
+			if (as_name)
+				RETVAL = newSVpv(as_name, strlen(as_name));
 
 			loc_as_unref(as);
 		}
-- 
2.43.0


From 7592ee1ea8a499ebea09fab5ab67ea8f24af3efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:24 +0000
Subject: [PATCH 060/102] fix: perl: Only accept databases as such and close
 them automatically

---
 src/perl/Location.xs | 16 ++++++++++++----
 src/perl/typemap     | 15 ++++++++++++++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index 97dcc08..f5516c1 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -332,9 +332,17 @@ get_as_name(db, as_number)
 		RETVAL
 
 void
-DESTROY(db)
-	struct loc_database* db;
+DESTROY(self)
+	SV* self;
 
 	CODE:
-		// Close database
-		loc_database_unref(db);
+		if (!SvROK(self) || !sv_derived_from(self, "Location"))
+			croak("Location::DESTROY: self is not a database");
+
+		struct loc_database* db = INT2PTR(struct loc_database*, SvIV(SvRV(self)));
+
+		// Close database, but only once
+		if (db) {
+			sv_setiv(SvRV(self), 0);
+			loc_database_unref(db);
+		}
diff --git a/src/perl/typemap b/src/perl/typemap
index c53fb53..7d259ea 100644
--- a/src/perl/typemap
+++ b/src/perl/typemap
@@ -1,2 +1,15 @@
 TYPEMAP
-struct loc_database * T_PTRREF
+struct loc_database * T_LOCATION
+
+INPUT
+T_LOCATION
+	if (!SvROK($arg) || !sv_derived_from($arg, \"Location\"))
+		croak(\"%s: %s is not a database\", ${$ALIAS?\q[GvNAME(CvGV(cv))]:\qq[\"$pname\"]}, \"$var\");
+
+	$var = INT2PTR($type, SvIV(SvRV($arg)));
+	if (!$var)
+		croak(\"%s: %s has already been closed\", ${$ALIAS?\q[GvNAME(CvGV(cv))]:\qq[\"$pname\"]}, \"$var\");
+
+OUTPUT
+T_LOCATION
+	sv_setref_pv($arg, \"Location\", (void*)$var);
-- 
2.43.0


From ffe63112e0067676e1965d9908ccfe436aa75725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:16 +0000
Subject: [PATCH 061/102] fix: python: export: Make xt_geoip usable again

The constructor of all writers assigns the tag, but this class had a
read-only property of the same name. Every export raised AttributeError.
---
 src/python/location/export.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/location/export.py b/src/python/location/export.py
index 1d147b1..930923f 100644
--- a/src/python/location/export.py
+++ b/src/python/location/export.py
@@ -218,8 +218,7 @@ class XTGeoIPOutputWriter(OutputWriter):
 	"""
 	mode = "wb"
 
-	@property
-	def tag(self):
+	def _make_tag(self):
 		return self.name
 
 	@property
-- 
2.43.0


From 3cfff46e51275ca5ed4f3388b5ac362e3b35315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:16 +0000
Subject: [PATCH 062/102] fix: python: export: Search for networks with flags,
 too

Special country codes were removed from the search, but nothing was
searched for instead. Their files were missing all networks that did not
happen to be in one of the other requested countries or ASes.
---
 src/python/location/export.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/location/export.py b/src/python/location/export.py
index 930923f..a587ff1 100644
--- a/src/python/location/export.py
+++ b/src/python/location/export.py
@@ -260,9 +260,15 @@ class Exporter(object):
 				country_code for country_code in countries if not country_code in FLAGS.values()
 			]
 
+			# Collect the flags of all special country codes
+			flags = 0
+			for flag in FLAGS:
+				if FLAGS[flag] in countries:
+					flags |= flag
+
 			# Get all networks that match the family
 			networks = self.db.search_networks(family=family,
-				country_codes=country_codes, asns=asns, flatten=True)
+				country_codes=country_codes, asns=asns, flags=flags, flatten=True)
 
 			# Walk through all networks
 			for network in networks:
-- 
2.43.0


From d7b199f0153133318cd467585412d1ecc0228b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:13 +0000
Subject: [PATCH 063/102] fix: location: Don't show a traceback if the database
 cannot be opened

Only files that do not exist were handled.
---
 src/scripts/location.in | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index b34cc91..d072706 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -220,6 +220,12 @@ class CLI(object):
 					% (args.database, e))
 				sys.exit(1)
 
+		# The file is not a (readable) database
+		except OSError as e:
+			sys.stderr.write("location: Could not open database %s: %s\n" \
+				% (args.database, e))
+			sys.exit(1)
+
 		# Translate family (if present)
 		if "family" in args:
 			if args.family == "ipv6":
-- 
2.43.0


From ddefa069e6eedbe0f119fbf634de02fc3b060baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:13 +0000
Subject: [PATCH 064/102] fix: location: List countries without a name or
 continent

list-countries stopped at the first country which did not have one.
---
 src/scripts/location.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index d072706..57deae6 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -505,10 +505,10 @@ class CLI(object):
 			]
 
 			if ns.show_continent:
-				line.append(country.continent_code)
+				line.append(country.continent_code or "--")
 
 			if ns.show_name:
-				line.append(country.name)
+				line.append(country.name or "")
 
 			# Format the output
 			line = " ".join(line)
-- 
2.43.0


From 808015df4281b73334595b5f8c7403df0c8b0144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:13 +0000
Subject: [PATCH 065/102] fix: location: Continue after ASNs which are out of
 range

get-as did not print anything for the ASNs that followed.
---
 src/scripts/location.in | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index 57deae6..228254c 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -403,14 +403,15 @@ class CLI(object):
 		for asn in ns.asn:
 			try:
 				asn = int(asn)
-			except ValueError:
+
+				# Fetch AS from database
+				a = db.get_as(asn)
+
+			except (OverflowError, ValueError):
 				print(_("Invalid ASN: %s") % asn, file=sys.stderr)
 				ret = 1
 				continue
 
-			# Fetch AS from database
-			a = db.get_as(asn)
-
 			# Nothing found
 			if not a:
 				print(_("Could not find AS%s") % asn, file=sys.stderr)
-- 
2.43.0


From 8db19a9bbd56946e24082e5509a22b4b31cb68c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:13 +0000
Subject: [PATCH 066/102] fix: location: Don't seek in standard output

The ipset writer returns to the beginning of its file to update the header.
If standard output was redirected into a file that already had some content,
this either overwrote it or - when appending - added another "flush" to the
end so that the set would have been loaded without any networks.

Collect the output and print it once it is complete, as "export" does.
---
 src/scripts/location.in | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index 228254c..78a2014 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -521,26 +521,27 @@ class CLI(object):
 		writer = self.__get_output_formatter(ns)
 
 		for asn in ns.asn:
-			f = writer("AS%s" % asn, family=ns.family, f=sys.stdout)
+			f = writer("AS%s" % asn, family=ns.family)
 
 			# Print all matching networks
 			for n in db.search_networks(asns=[asn], family=ns.family):
 				f.write(n)
 
 			f.finish()
+			f.print()
 
 	def handle_list_networks_by_cc(self, db, ns):
 		writer = self.__get_output_formatter(ns)
 
 		for country_code in ns.country_code:
-			# Open standard output
-			f = writer(country_code, family=ns.family, f=sys.stdout)
+			f = writer(country_code, family=ns.family)
 
 			# Print all matching networks
 			for n in db.search_networks(country_codes=[country_code], family=ns.family):
 				f.write(n)
 
 			f.finish()
+			f.print()
 
 	def handle_list_networks_by_flags(self, db, ns):
 		flags = 0
@@ -561,21 +562,23 @@ class CLI(object):
 			raise ValueError(_("You must at least pass one flag"))
 
 		writer = self.__get_output_formatter(ns)
-		f = writer("custom", family=ns.family, f=sys.stdout)
+		f = writer("custom", family=ns.family)
 
 		for n in db.search_networks(flags=flags, family=ns.family):
 			f.write(n)
 
 		f.finish()
+		f.print()
 
 	def handle_list_bogons(self, db, ns):
 		writer = self.__get_output_formatter(ns)
-		f = writer("bogons", family=ns.family, f=sys.stdout)
+		f = writer("bogons", family=ns.family)
 
 		for n in db.list_bogons(family=ns.family):
 			f.write(n)
 
 		f.finish()
+		f.print()
 
 	def handle_export(self, db, ns):
 		countries, asns = [], []
-- 
2.43.0


From e815e2431bdfb97764c4e423ed32b30a3b1f5cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:45 +0000
Subject: [PATCH 067/102] fix: location: Fail if the output could not be
 written

Python ignores errors when it flushes standard output after the script has
ended, and when it closes files implicitly. When the disk was full, commands
returned with an exit code of zero and incomplete output.
---
 src/scripts/location.in | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index 78a2014..82d78e7 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -239,6 +239,9 @@ class CLI(object):
 		try:
 			ret = args.func(db, args)
 
+			# Make sure that everything has been written
+			sys.stdout.flush()
+
 		# Catch invalid inputs
 		except ValueError as e:
 			sys.stderr.write("%s\n" % e)
@@ -394,6 +397,9 @@ class CLI(object):
 				if n.has_flag(flag):
 					f.write(format % (flags[flag], "yes"))
 
+		# Make sure that everything has been written
+		f.flush()
+
 	def handle_get_as(self, db, ns):
 		"""
 			Gets information about Autonomous Systems
-- 
2.43.0


From be32395a0619bb68bef0f45769ba12410395e195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:43 +0000
Subject: [PATCH 068/102] fix: downloader: Start over with every mirror

truncate() without any arguments cuts the file at the current position and
therefore did not remove anything, and it was not called at all after
decompression errors. The data of the next mirror was appended to what was
received before, so that no database could be downloaded any more.
---
 src/python/location/downloader.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 3dffbc7..d4c26e5 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -129,6 +129,10 @@ class Downloader(object):
 				# Prepare HTTP request
 				req = self._make_request(url, baseurl=mirror, headers=headers)
 
+				# Throw away anything we have received from another mirror
+				t.seek(0)
+				t.truncate()
+
 				try:
 					with self._send_request(req) as res:
 						decompressor = lzma.LZMADecompressor()
@@ -161,16 +165,10 @@ class Downloader(object):
 					else:
 						log.warning("%s reported: %s" % (mirror, e))
 
-					# Throw away any downloaded content and try again
-					t.truncate()
-
 				else:
 					# Check if the downloaded database is recent
 					if not self._check_database(t, public_key, timestamp):
 						log.warning("Downloaded database is outdated. Trying next mirror...")
-
-						# Throw away the data and try again
-						t.truncate()
 						continue
 
 					# Make the file readable for everyone
-- 
2.43.0


From 980a14176d5b798467e85540a7d724ce85e5353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:43 +0000
Subject: [PATCH 069/102] fix: downloader: Try the next mirror if there is data
 after the end of the file

---
 src/python/location/downloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index d4c26e5..43764e1 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -152,7 +152,7 @@ class Downloader(object):
 					t.flush()
 
 				# Catch decompression errors
-				except lzma.LZMAError as e:
+				except (lzma.LZMAError, EOFError) as e:
 					log.warning("Could not decompress downloaded file: %s" % e)
 					continue
 
-- 
2.43.0


From 80085440c9b5763a40ab584d80db5f2be3c4df45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:43 +0000
Subject: [PATCH 070/102] fix: downloader: Try the next mirror after connection
 problems

Only HTTP errors were handled. If a mirror could not be reached or closed the
connection too early, the download failed, no other mirrors were tried, and
the temporary file was left behind.
---
 src/python/location/downloader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 43764e1..7506fe1 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -17,6 +17,7 @@
 ###############################################################################
 
 import gzip
+import http.client
 import logging
 import lzma
 import os
@@ -165,6 +166,10 @@ class Downloader(object):
 					else:
 						log.warning("%s reported: %s" % (mirror, e))
 
+				# Catch any connection problems
+				except (http.client.HTTPException, OSError) as e:
+					log.warning("Could not download from %s: %s" % (mirror, e))
+
 				else:
 					# Check if the downloaded database is recent
 					if not self._check_database(t, public_key, timestamp):
-- 
2.43.0


From 8f0e6d5bea395142f9ee84281030144822cddf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:43 +0000
Subject: [PATCH 071/102] fix: downloader: Try the next mirror if the file is
 not a database

---
 src/python/location/downloader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 7506fe1..5243cfa 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -194,7 +194,11 @@ class Downloader(object):
 		"""
 		log.debug("Opening downloaded database at %s" % f.name)
 
-		db = Database(f.name)
+		try:
+			db = Database(f.name)
+		except OSError as e:
+			log.error("Could not open downloaded database: %s" % e)
+			return False
 
 		# Database is not recent
 		if timestamp and db.created_at < timestamp:
-- 
2.43.0


From ae82e47b9ddedef0d677f6e7010dc2ea82f580d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:43 +0000
Subject: [PATCH 072/102] fix: downloader: Always delete the temporary file
 when a download fails

It was left behind when the key could not be opened, the disk was full or
the download was interrupted.
---
 src/python/location/downloader.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 5243cfa..aa5bc7a 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -115,6 +115,17 @@ class Downloader(object):
 		return res
 
 	def download(self, public_key, timestamp=None, tmpdir=None, **kwargs):
+		t = tempfile.NamedTemporaryFile(dir=tmpdir, delete=False)
+
+		try:
+			return self._download(t, public_key, timestamp)
+
+		# Delete the temporary file after unsuccessful downloads
+		except BaseException:
+			os.unlink(t.name)
+			raise
+
+	def _download(self, t, public_key, timestamp=None):
 		url = "%s/%s" % (self.version, DATABASE_FILENAME)
 
 		headers = {}
@@ -123,7 +134,6 @@ class Downloader(object):
 				"%a, %d %b %Y %H:%M:%S GMT", time.gmtime(timestamp),
 			)
 
-		t = tempfile.NamedTemporaryFile(dir=tmpdir, delete=False)
 		with t:
 			# Try all mirrors
 			for mirror in self.mirrors:
@@ -182,9 +192,6 @@ class Downloader(object):
 					# Return temporary file
 					return t
 
-		# Delete the temporary file after unsuccessful downloads
-		os.unlink(t.name)
-
 		raise FileNotFoundError(url)
 
 	def _check_database(self, f, public_key, timestamp=None):
-- 
2.43.0


From 8209a7d25057c1c3ab41d4dd874f53d4fe846d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:25 +0000
Subject: [PATCH 073/102] fix: downloader: Don't use any data before it has
 been verified

If the timestamp of a damaged database could not be converted, the download
failed and no other mirrors were tried.
---
 src/python/location/downloader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index aa5bc7a..1351898 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -211,16 +211,16 @@ class Downloader(object):
 		if timestamp and db.created_at < timestamp:
 			return False
 
-		log.info("Downloaded new database from %s" % (time.strftime(
-			"%a, %d %b %Y %H:%M:%S GMT", time.gmtime(db.created_at),
-		)))
-
 		# Verify the database
 		with open(public_key, "r") as f:
 			if not db.verify(f):
 				log.error("Could not verify database")
 				return False
 
+		log.info("Downloaded new database from %s" % (time.strftime(
+			"%a, %d %b %Y %H:%M:%S GMT", time.gmtime(db.created_at),
+		)))
+
 		return True
 
 	def retrieve(self, url, timeout=None, **kwargs):
-- 
2.43.0


From 8e884bccb6ad9ee5222540abaca466772f49c299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:42 +0000
Subject: [PATCH 074/102] fix: location: Always replace the database atomically

If the new database could not be renamed, shutil.move() would write it into
the existing file, which other processes have mapped into their memory and
which is incomplete if that fails or is interrupted. The temporary file is in
the same directory so that it should always be possible to rename it.
---
 src/scripts/location.in | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index 82d78e7..eeab098 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -23,7 +23,6 @@ import ipaddress
 import logging
 import os
 import re
-import shutil
 import socket
 import sys
 import time
@@ -482,7 +481,11 @@ class CLI(object):
 			return 3
 
 		# Move temporary file to destination
-		shutil.move(t.name, ns.database)
+		try:
+			os.replace(t.name, ns.database)
+		except OSError:
+			os.unlink(t.name)
+			raise
 
 		return 0
 
-- 
2.43.0


From 4d80d26e6329182e6a7479e64da89f9b99f2727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:32 +0000
Subject: [PATCH 075/102] fix: location: Never update to an older database

If the latest version could not be determined, any database with a valid
signature was accepted. Mirrors could downgrade the database this way.
---
 src/scripts/location.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index eeab098..2b0f844 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -461,6 +461,10 @@ class CLI(object):
 			log.info("Already on the latest version")
 			return
 
+		# If the latest version is not known, we must not go back to an older one
+		if db and not t:
+			t = db.created_at
+
 		# Download the database into the correct directory
 		tmpdir = os.path.dirname(ns.database)
 
-- 
2.43.0


From 7c66c95764c3fc16e77384e4997ab40506466e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 076/102] fix: importer: Use a type that can hold any AS number

---
 src/scripts/location-importer.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 3e651b4..7e580bb 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -379,7 +379,7 @@ class CLI(object):
 				n
 			(
 				network               inet NOT NULL,
-				autnum                integer,
+				autnum                bigint,
 				country               text,
 				is_anonymous_proxy    boolean,
 				is_satellite_provider boolean,
@@ -914,7 +914,7 @@ class CLI(object):
 
 			# Create some temporary tables to store parsed data
 			self.db.execute("""
-				CREATE TEMPORARY TABLE _autnums(number integer NOT NULL,
+				CREATE TEMPORARY TABLE _autnums(number bigint NOT NULL,
 					organization text NOT NULL, source text NOT NULL) ON COMMIT DROP;
 				CREATE UNIQUE INDEX _autnums_number ON _autnums(number);
 
-- 
2.43.0


From eaaaf4c19e23806e8d9bd3344abf7ce6fcec8399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 077/102] fix: importer: Skip invalid AS numbers in aut-num
 blocks

---
 src/scripts/location-importer.in | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 7e580bb..686988f 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1270,9 +1270,9 @@ class CLI(object):
 			key, val = split_line(line)
 
 			if key == "aut-num":
-				m = re.match(r"^(AS|as)(\d+)", val)
+				m = re.match(r"^(AS|as)(\d+)$", val)
 				if m:
-					autnum["asn"] = m.group(2)
+					autnum["asn"] = int(m.group(2))
 
 			elif key == "org":
 				autnum[key] = val.upper()
@@ -1286,6 +1286,11 @@ class CLI(object):
 		if not autnum or not "asn" in autnum:
 			return
 
+		# Skip invalid ASNs
+		if not self._check_parsed_asn(autnum["asn"]):
+			log.warning("Skipping invalid ASN %s" % autnum["asn"])
+			return
+
 		# Insert a dummy organisation handle into our temporary organisations
 		# table in case the AS does not have an organisation handle set, but
 		# has a description (a quirk often observed in APNIC area), so we can
-- 
2.43.0


From f0589abe1a9983da64ebe4ea9feb0abbdfb53bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 078/102] fix: importer: Skip organisations without a handle or
 name

---
 src/scripts/location-importer.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 686988f..536bb5d 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1490,8 +1490,8 @@ class CLI(object):
 			elif key == "org-name":
 				org[key] = val
 
-		# Skip empty objects
-		if not org:
+		# Skip incomplete objects
+		if not org.get("organisation") or not org.get("org-name"):
 			return
 
 		self.db.execute("INSERT INTO _organizations(handle, name, source) \
-- 
2.43.0


From 5e716fa33eabced64bc11bdd8b427413ea502c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 079/102] fix: importer: Skip malformed networks in inetnum
 blocks

---
 src/scripts/location-importer.in | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 536bb5d..e9c8ac8 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1344,7 +1344,10 @@ class CLI(object):
 
 						# How many octets do we need to add?
 						# (LACNIC does not seem to have a /8 or greater assigned, so the following should suffice.)
-						if ldigits == 1:
+						if not len(start_address) == 2:
+							log.warning("Could not parse line in LACNIC DB format: %s" % line)
+							return
+						elif ldigits == 1:
 							start_address = start_address[0] + ".0.0/" + start_address[1]
 						elif ldigits == 2:
 							start_address = start_address[0] + ".0/" + start_address[1]
@@ -1371,10 +1374,19 @@ class CLI(object):
 						log.warning("Could not parse line: %s" % line)
 						return
 
-				inetnum["inetnum"] = list(ipaddress.summarize_address_range(start_address, end_address))
+				# Convert the range into networks
+				try:
+					inetnum["inetnum"] = list(ipaddress.summarize_address_range(start_address, end_address))
+				except (TypeError, ValueError):
+					log.warning("Invalid address range: %s" % line)
+					return
 
 			elif key == "inet6num":
-				inetnum[key] = [ipaddress.ip_network(val, strict=False)]
+				try:
+					inetnum[key] = [ipaddress.ip_network(val, strict=False)]
+				except ValueError:
+					log.warning("Could not parse line: %s" % line)
+					return
 
 			elif key == "country":
 				cc = val.upper()
@@ -1410,13 +1422,9 @@ class CLI(object):
 				if m:
 					inetnum["geofeed"] = m.group(1)
 
-		# Skip empty objects
-		if not inetnum:
-			return
-
 		# Iterate through all networks enumerated from above, check them for plausibility and insert
 		# them into the database, if _check_parsed_network() succeeded
-		for single_network in inetnum.get("inet6num") or inetnum.get("inetnum"):
+		for single_network in inetnum.get("inet6num") or inetnum.get("inetnum") or ():
 			if not self._check_parsed_network(single_network):
 				continue
 
-- 
2.43.0


From 7f1a17f6e794a87765baf6b83d44d3ec4c40b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 080/102] fix: importer: Skip multicast and reserved networks

---
 src/scripts/location-importer.in | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index e9c8ac8..2fe6678 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1166,7 +1166,7 @@ class CLI(object):
 			networks from RIR data (both Whois and so-called "extended sources"),
 			which are or have...
 
-			(a) not globally routable (RFC 1918 space, et al.)
+			(a) not globally routable (RFC 1918 space, et al.) or not unicast
 			(b) covering a too large chunk of the IP address space (prefix length
 				is < 7 for IPv4 networks, and < 10 for IPv6)
 			(c) "0.0.0.0" or "::" as a network address
@@ -1190,6 +1190,11 @@ class CLI(object):
 			log.debug("Skipping non-globally routable network: %s" % network)
 			return False
 
+		# Ignore anything that isn't unicast or that has not been given to anyone
+		elif network.is_multicast or network.is_reserved:
+			log.debug("Skipping multicast or reserved network: %s" % network)
+			return False
+
 		# Ignore anything that is unspecified IP range (See RFC 5735 for IPv4 or RFC 2373 for IPv6)
 		elif network.is_unspecified:
 			log.debug("Skipping unspecified network: %s" % network)
-- 
2.43.0


From 559783da1cc3b927253f4a7bea668bcd4bfa9230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 081/102] fix: importer: Import exactly the addresses of lines
 in the extended format

---
 src/scripts/location-importer.in | 52 +++++++++++++++++---------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 2fe6678..d62311c 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -26,7 +26,6 @@ import io
 import ipaddress
 import json
 import logging
-import math
 import re
 import socket
 import sys
@@ -1571,37 +1570,42 @@ class CLI(object):
 			log.warning("Invalid prefix: %s" % prefix)
 			return
 
-		# Fix prefix length for IPv4
-		if type == "ipv4":
-			prefix = 32 - int(math.log(prefix, 2))
-
 		# Try to parse the address
 		try:
-			network = ipaddress.ip_network("%s/%s" % (address, prefix), strict=False)
+			# IPv4 has the number of addresses which might not be a power of two
+			if type == "ipv4":
+				address = ipaddress.IPv4Address(address)
+
+				networks = list(ipaddress.summarize_address_range(address, address + (prefix - 1)))
+
+			# IPv6 has the prefix length
+			else:
+				networks = [ipaddress.IPv6Network("%s/%s" % (address, prefix), strict=False)]
 		except ValueError:
 			log.warning("Invalid IP address: %s" % address)
 			return
 
-		if not self._check_parsed_network(network):
-			return
+		for network in networks:
+			if not self._check_parsed_network(network):
+				continue
 
-		self.db.execute("""
-			INSERT INTO
-				networks
-			(
-				network,
-				country,
-				original_countries,
-				source
-			)
-			VALUES
-			(
-				%s, %s, %s, %s
+			self.db.execute("""
+				INSERT INTO
+					networks
+				(
+					network,
+					country,
+					original_countries,
+					source
+				)
+				VALUES
+				(
+					%s, %s, %s, %s
+				)
+				ON CONFLICT (network)
+					DO UPDATE SET country = excluded.country
+				""", "%s" % network, country_code, [country_code], source_key,
 			)
-			ON CONFLICT (network)
-				DO UPDATE SET country = excluded.country
-			""", "%s" % network, country_code, [country_code], source_key,
-		)
 
 	async def handle_update_announcements(self, ns):
 		server = ns.server[0]
-- 
2.43.0


From f63bb7a2c19e2258ff9ad8e01e5f59821426d4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 082/102] fix: importer: Skip lines that cannot be decoded

---
 src/scripts/location-importer.in | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index d62311c..b055a9e 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2593,7 +2593,11 @@ def iterate_over_blocks(f, charsets=("utf-8", "latin1")):
 def iterate_over_lines(f):
 	for line in f:
 		# Decode the line
-		line = line.decode()
+		try:
+			line = line.decode()
+		except UnicodeDecodeError:
+			log.warning("Could not decode line: %s" % line)
+			continue
 
 		# Strip the ending
 		yield line.rstrip()
-- 
2.43.0


From cbbaa100101ad59ef96d98fa4442f97eb6c5dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 083/102] fix: importer: Skip malformed lines in the list of AS
 names

---
 src/scripts/location-importer.in | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index b055a9e..d96006e 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1098,7 +1098,7 @@ class CLI(object):
 
 	async def _import_arin_as_names(self, source, countries, f, *args):
 		# Wrap the data to text
-		f = io.TextIOWrapper(f)
+		f = io.TextIOWrapper(f, encoding="utf-8", errors="replace")
 
 		# Walk through the file
 		for line in csv.DictReader(f, dialect="arin"):
@@ -1111,6 +1111,8 @@ class CLI(object):
 
 			# Fetch organization name
 			name = line.get("Org Name")
+			if not name:
+				continue
 
 			# Extract ASNs
 			first_asn = line.get("Start AS Number")
@@ -1119,13 +1121,13 @@ class CLI(object):
 			# Cast to a number
 			try:
 				first_asn = int(first_asn)
-			except TypeError as e:
+			except (TypeError, ValueError) as e:
 				log.warning("Could not parse ASN '%s'" % first_asn)
 				continue
 
 			try:
 				last_asn = int(last_asn)
-			except TypeError as e:
+			except (TypeError, ValueError) as e:
 				log.warning("Could not parse ASN '%s'" % last_asn)
 				continue
 
-- 
2.43.0


From e5ea0f8c6e79ed0b67a9dc890264381c6253b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 084/102] fix: importer: Skip malformed prefixes from AWS

---
 src/scripts/location-importer.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index d96006e..9c9a0cc 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2305,7 +2305,7 @@ class CLI(object):
 			# Parse the network
 			try:
 				network = ipaddress.ip_network(network)
-			except ValuleError as e:
+			except ValueError as e:
 				log.warning("%s: Unable to parse prefix %s" % (name, network))
 				continue
 
@@ -2314,7 +2314,7 @@ class CLI(object):
 				continue
 
 			# Fetch the region
-			region = prefix.get("region")
+			region = prefix.get("region") or ""
 
 			# Set some defaults
 			cc = None
-- 
2.43.0


From c5354bc9805ff6c71373d451420b2dc575d20d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 085/102] fix: importer: Only accept Spamhaus DROP feeds with
 networks

---
 src/scripts/location-importer.in | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 9c9a0cc..5020b8b 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2372,20 +2372,17 @@ class CLI(object):
 		# Walk through all lines
 		for line in f:
 			# Decode line
-			line = line.decode("utf-8")
+			line = line.decode("utf-8", errors="replace")
 
 			# Strip off any comments
 			line, _, comment = line.partition(";")
 
-			# Ignore empty lines
-			if not line:
-				continue
-
 			# Strip any excess whitespace
 			line = line.strip()
 
-			# Increment line counter
-			lines += 1
+			# Ignore empty lines
+			if not line:
+				continue
 
 			# Parse the network
 			try:
@@ -2399,6 +2396,9 @@ class CLI(object):
 				log.warning("%s: Skipping bogus network: %s" % (name, network))
 				continue
 
+			# Increment line counter
+			lines += 1
+
 			# Insert into the database
 			self.db.execute("""
 				INSERT INTO
@@ -2411,7 +2411,9 @@ class CLI(object):
 				VALUES
 				(
 					%s, %s, %s
-				)""", "%s" % network, name, True,
+				)
+				ON CONFLICT (network, source) DO NOTHING
+				""", "%s" % network, name, True,
 			)
 
 		# Raise an exception if we could not import anything
-- 
2.43.0


From 48debb0152543ec62498b408d7cbe0154e873443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 086/102] fix: importer: Skip malformed lines in Spamhaus
 ASNDROP

---
 src/scripts/location-importer.in | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 5020b8b..429bd54 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2426,7 +2426,7 @@ class CLI(object):
 		"""
 		for line in f:
 			# Decode the line
-			line = line.decode("utf-8")
+			line = line.decode("utf-8", errors="replace")
 
 			# Parse JSON
 			try:
@@ -2435,6 +2435,11 @@ class CLI(object):
 				log.warning("%s: Unable to parse JSON object %s: %s" % (name, line, e))
 				continue
 
+			# Skip anything that isn't an object
+			if not isinstance(line, dict):
+				log.warning("%s: Skipping %s" % (name, line))
+				continue
+
 			# Fetch type
 			type = line.get("type")
 
@@ -2446,7 +2451,7 @@ class CLI(object):
 			asn  = line.get("asn")
 
 			# Skip any lines without an ASN
-			if not asn:
+			if not isinstance(asn, int):
 				continue
 
 			# Filter invalid ASNs
@@ -2466,7 +2471,9 @@ class CLI(object):
 				VALUES
 				(
 					%s, %s, %s
-				)""", "%s" % asn, name, True,
+				)
+				ON CONFLICT (number, source) DO NOTHING
+				""", asn, name, True,
 			)
 
 	@staticmethod
-- 
2.43.0


From d81d0c3c3e65faa4f7331377d9ed0d952bb7c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 087/102] fix: importer: Skip implausible networks in Geofeeds

---
 src/scripts/location-importer.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 429bd54..fc8f660 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1951,6 +1951,10 @@ class CLI(object):
 								log.debug("Could not parse network: %s" % network)
 								continue
 
+							# Check the network
+							if not self._check_parsed_network(network):
+								continue
+
 							# Strip any excess whitespace from country codes
 							country = country.strip()
 
-- 
2.43.0


From 5e8a309d72e3873d56c35fd67107c253ce07e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 088/102] fix: importer: A broken Geofeed must not stop all
 others

---
 src/scripts/location-importer.in | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index fc8f660..8a13729 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -30,6 +30,7 @@ import re
 import socket
 import sys
 import urllib.error
+import zlib
 
 # Load our location module
 import location
@@ -1898,6 +1899,9 @@ class CLI(object):
 						timeout=10,
 					)
 
+					# Read all lines (and decompress them)
+					lines = f.readlines()
+
 					# Remove any previous data
 					self.db.execute("DELETE FROM geofeed_networks \
 						WHERE geofeed_id = %s", geofeed.id)
@@ -1906,7 +1910,7 @@ class CLI(object):
 
 					# Read the output line by line
 					with self.db.pipeline():
-						for line in f:
+						for line in lines:
 							lineno += 1
 
 							try:
@@ -2001,7 +2005,7 @@ class CLI(object):
 							WHERE geofeed_id = %s", geofeed.id)
 
 				# Catch any other errors and connection timeouts
-				except (http.client.InvalidURL, urllib.request.URLError, TimeoutError) as e:
+				except (http.client.HTTPException, OSError, EOFError, UnicodeError, zlib.error) as e:
 					log.debug("Could not fetch URL %s: %s" % (geofeed.url, e))
 
 					self.db.execute("UPDATE geofeeds SET status = %s, error = %s \
-- 
2.43.0


From d82db60951bbd8a092cc4b37af1a6996c9367757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 089/102] fix: importer: Ignore alternative routes for the same
 network

---
 src/scripts/location-importer.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 8a13729..14a40ae 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1676,7 +1676,7 @@ class CLI(object):
 
 	async def _handle_update_announcements_from_bird(self, server):
 		# Pre-compile the regular expression for faster searching
-		route = re.compile(b"^\s(.+?)\s+.+?\[(?:AS(.*?))?.\]$")
+		route = re.compile(rb"^\s(\S+)\s+.+?\[(?:AS(\d+))?.\]$")
 
 		log.info("Requesting routing table from Bird (%s)" % server)
 
-- 
2.43.0


From b0e6f578553418848524d2ed5438e770fcd632a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:49 +0000
Subject: [PATCH 090/102] fix: importer: Don't wait forever when Bird fails or
 disconnects

---
 src/scripts/location-importer.in | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 14a40ae..3882285 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1759,14 +1759,18 @@ class CLI(object):
 
 		while True:
 			# Fill up the buffer
-			buffer += s.recv(4096)
+			data = s.recv(4096)
+			if not data:
+				raise ConnectionError("Bird closed the connection")
+
+			buffer += data
 
 			while True:
 				# Search for the next newline
 				pos = buffer.find(b"\n")
 
 				# If we cannot find one, we go back and read more data
-				if pos <= 0:
+				if pos < 0:
 					break
 
 				# Cut after the newline character
@@ -1789,6 +1793,11 @@ class CLI(object):
 					elif code == 1:
 						continue
 
+					# Errors end the output, too
+					elif code >= 8000:
+						log.error("Bird failed to run '%s': %s" % (command, line.decode(errors="replace").rstrip()))
+						return
+
 				# Otherwise return the line
 				yield line
 
-- 
2.43.0


From d733c3a99a411f247c3dff33629e4671ab2d7bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:25 +0000
Subject: [PATCH 091/102] fix: importer: Skip site-local networks

---
 src/scripts/location-importer.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 3882285..597c111 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1204,6 +1204,10 @@ class CLI(object):
 
 		# IPv6
 		if network.version == 6:
+			if network.is_site_local:
+				log.debug("Skipping site-local network: %s" % network)
+				return False
+
 			if network.prefixlen < 10:
 				log.debug("Skipping too big IP chunk: %s" % network)
 				return False
-- 
2.43.0


From 0033299112aa1ce0d6bd95ae9b640082b0e9a575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:25 +0000
Subject: [PATCH 092/102] fix: importer: Drop NUL characters

---
 src/scripts/location-importer.in | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 597c111..c163496 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1111,7 +1111,7 @@ class CLI(object):
 				continue
 
 			# Fetch organization name
-			name = line.get("Org Name")
+			name = (line.get("Org Name") or "").replace("\0", "")
 			if not name:
 				continue
 
@@ -1935,6 +1935,9 @@ class CLI(object):
 									% (lineno, geofeed.url))
 								continue
 
+							# Remove any NUL characters which cannot be stored in the database
+							line = line.replace("\0", "")
+
 							# Strip any newline
 							line = line.rstrip()
 
@@ -2596,6 +2599,9 @@ def iterate_over_blocks(f, charsets=("utf-8", "latin1")):
 			else:
 				break
 
+		# Remove any NUL characters which cannot be stored in the database
+		line = line.replace("\0", "")
+
 		# Remove any comments at the end of line
 		line, hash, comment = line.partition("#")
 
-- 
2.43.0


From 3c06d9ba9d4116c0736107e0c473055452f4ae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:48 +0000
Subject: [PATCH 093/102] fix: importer: Skip networks with a scope ID

---
 src/scripts/location-importer.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index c163496..6e2f600 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1208,6 +1208,10 @@ class CLI(object):
 				log.debug("Skipping site-local network: %s" % network)
 				return False
 
+			if network.network_address.scope_id:
+				log.debug("Skipping network with a scope: %s" % network)
+				return False
+
 			if network.prefixlen < 10:
 				log.debug("Skipping too big IP chunk: %s" % network)
 				return False
-- 
2.43.0


From ba5ff090b262b84ee2ecdc7caa30bc8a221e52a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:05 +0000
Subject: [PATCH 094/102] fix: importer: Purge announcements of the IPv6
 documentation prefix

---
 src/scripts/location-importer.in | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 6e2f600..0c37b80 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1650,6 +1650,7 @@ class CLI(object):
 				DELETE FROM announcements WHERE family(network) = 4 AND network <<= '198.18.0.0/15';
 				DELETE FROM announcements WHERE family(network) = 4 AND network <<= '198.51.100.0/24';
 				DELETE FROM announcements WHERE family(network) = 4 AND network <<= '203.0.113.0/24';
+				DELETE FROM announcements WHERE family(network) = 6 AND network <<= '2001:db8::/32';
 
 				-- DELETE CGNAT address space (RFC 6598)
 				DELETE FROM announcements WHERE family(network) = 4 AND network <<= '100.64.0.0/10';
-- 
2.43.0


From d8da8f68e8c728a419cb62e0998fee769bfc24cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:57 +0000
Subject: [PATCH 095/102] fix: network: Clear the entire country code

When the country code of a network was removed, the second character
stayed behind. Such networks were no longer merged with their
neighbours, and the character was written to the database.
---
 src/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index 64c2f3b..a44f640 100644
--- a/src/network.c
+++ b/src/network.c
@@ -205,7 +205,7 @@ LOC_EXPORT const char* loc_network_get_country_code(struct loc_network* network)
 LOC_EXPORT int loc_network_set_country_code(struct loc_network* network, const char* country_code) {
 	// Set empty country code
 	if (!country_code || !*country_code) {
-		*network->country_code = '\0';
+		memset(network->country_code, '\0', sizeof(network->country_code));
 		return 0;
 	}
 
-- 
2.43.0


From f95bb94682ff729c07b989c58e3af1e28d8a9d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:31 +0000
Subject: [PATCH 096/102] fix: python: Release the previous object when being
 initialised again

Calling __init__() once more leaked the object that was created before,
and a failed attempt could leave the object without any.
---
 src/python/as.c       |  8 +++++++-
 src/python/country.c  |  8 +++++++-
 src/python/database.c | 25 ++++++++++++++++++++-----
 src/python/network.c  |  8 +++++++-
 src/python/writer.c   |  9 ++++++++-
 5 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 93f32a9..e3a0fb1 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -70,18 +70,24 @@ static void AS_dealloc(ASObject* self) {
 }
 
 static int AS_init(ASObject* self, PyObject* args, PyObject* kwargs) {
+	struct loc_as* as = NULL;
 	uint32_t number = 0;
 
 	if (!PyArg_ParseTuple(args, "O&", PyObject_AsASN, &number))
 		return -1;
 
 	// Create the AS object
-	int r = loc_as_new(loc_ctx, &self->as, number);
+	int r = loc_as_new(loc_ctx, &as, number);
 	if (r) {
 		PyErr_SetFromErrno(PyExc_OSError);
 		return -1;
 	}
 
+	// Replace any previous AS
+	if (self->as)
+		loc_as_unref(self->as);
+	self->as = as;
+
 	return 0;
 }
 
diff --git a/src/python/country.c b/src/python/country.c
index 5190723..7eacfc9 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -47,13 +47,14 @@ static void Country_dealloc(CountryObject* self) {
 }
 
 static int Country_init(CountryObject* self, PyObject* args, PyObject* kwargs) {
+	struct loc_country* country = NULL;
 	const char* country_code = NULL;
 
 	if (!PyArg_ParseTuple(args, "s", &country_code))
 		return -1;
 
 	// Create the country object
-	int r = loc_country_new(loc_ctx, &self->country, country_code);
+	int r = loc_country_new(loc_ctx, &country, country_code);
 	if (r) {
 		switch (errno) {
 			case EINVAL:
@@ -68,6 +69,11 @@ static int Country_init(CountryObject* self, PyObject* args, PyObject* kwargs) {
 		return -1;
 	}
 
+	// Replace any previous country
+	if (self->country)
+		loc_country_unref(self->country);
+	self->country = country;
+
 	return 0;
 }
 
diff --git a/src/python/database.c b/src/python/database.c
index 9d59481..5d63ce2 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -46,7 +46,9 @@ static void Database_dealloc(DatabaseObject* self) {
 }
 
 static int Database_init(DatabaseObject* self, PyObject* args, PyObject* kwargs) {
+	struct loc_database* db = NULL;
 	const char* path = NULL;
+	char* p = NULL;
 	FILE* f = NULL;
 
 	// Parse arguments
@@ -54,28 +56,41 @@ static int Database_init(DatabaseObject* self, PyObject* args, PyObject* kwargs)
 		return -1;
 
 	// Copy path
-	self->path = strdup(path);
-	if (!self->path)
+	p = strdup(path);
+	if (!p)
 		goto ERROR;
 
 	// Open the file for reading
-	f = fopen(self->path, "r");
+	f = fopen(p, "r");
 	if (!f)
 		goto ERROR;
 
 	// Load the database
-	int r = loc_database_new(loc_ctx, &self->db, f);
+	int r = loc_database_new(loc_ctx, &db, f);
 	if (r)
 		goto ERROR;
 
 	fclose(f);
+
+	// Replace any previous database
+	if (self->db)
+		loc_database_unref(self->db);
+	if (self->path)
+		free(self->path);
+
+	self->db = db;
+	self->path = p;
+
 	return 0;
 
 ERROR:
+	PyErr_SetFromErrno(PyExc_OSError);
+
 	if (f)
 		fclose(f);
+	if (p)
+		free(p);
 
-	PyErr_SetFromErrno(PyExc_OSError);
 	return -1;
 }
 
diff --git a/src/python/network.c b/src/python/network.c
index 0e4e49b..9494c03 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -68,18 +68,24 @@ static void Network_dealloc(NetworkObject* self) {
 }
 
 static int Network_init(NetworkObject* self, PyObject* args, PyObject* kwargs) {
+	struct loc_network* n = NULL;
 	const char* network = NULL;
 
 	if (!PyArg_ParseTuple(args, "s", &network))
 		return -1;
 
 	// Load the Network
-	int r = loc_network_new_from_string(loc_ctx, &self->network, network);
+	int r = loc_network_new_from_string(loc_ctx, &n, network);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Invalid network: %s", network);
 		return -1;
 	}
 
+	// Replace any previous network
+	if (self->network)
+		loc_network_unref(self->network);
+	self->network = n;
+
 	return 0;
 }
 
diff --git a/src/python/writer.c b/src/python/writer.c
index 82c9db2..8949f99 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -66,6 +66,7 @@ static FILE* open_private_key(PyObject* key) {
 }
 
 static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
+	struct loc_writer* writer = NULL;
 	PyObject* private_key1 = NULL;
 	PyObject* private_key2 = NULL;
 	FILE* f1 = NULL;
@@ -90,12 +91,18 @@ static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
 	}
 
 	// Create the writer object
-	r = loc_writer_new(loc_ctx, &self->writer, f1, f2);
+	r = loc_writer_new(loc_ctx, &writer, f1, f2);
 	if (r) {
 		PyErr_SetString(PyExc_ValueError, "Could not create the writer");
 		r = -1;
+		goto ERROR;
 	}
 
+	// Replace any previous writer
+	if (self->writer)
+		loc_writer_unref(self->writer);
+	self->writer = writer;
+
 ERROR:
 	if (f1)
 		fclose(f1);
-- 
2.43.0


From 9f73962bbeaf85aadcb7c946c6cb4f1e0dbfa9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:02 +0000
Subject: [PATCH 097/102] fix: Call the log function that has been set

loc_set_log_fn() has not done anything, although it is the documented way to
receive log messages.
---
 src/libloc.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/libloc.c b/src/libloc.c
index 5d1b87e..8f0bb4a 100644
--- a/src/libloc.c
+++ b/src/libloc.c
@@ -38,6 +38,10 @@ struct loc_ctx {
 		// Callback
 		loc_log_callback callback;
 		void* data;
+
+		// Log function
+		void (*fn)(struct loc_ctx* ctx, int priority, const char* file,
+			int line, const char* fn, const char* format, va_list args);
 	} log;
 };
 
@@ -58,6 +62,12 @@ static void log_stderr(struct loc_ctx* ctx, void* data,
 	vfprintf(stderr, format, args);
 }
 
+static void log_function(struct loc_ctx* ctx, void* data,
+		int priority, const char* file, int line, const char* fn,
+		const char* format, va_list args) {
+	ctx->log.fn(ctx, priority, file, line, fn, format, args);
+}
+
 static int log_priority(const char* priority) {
 	char *endptr;
 
@@ -125,7 +135,9 @@ LOC_EXPORT void loc_set_log_callback(struct loc_ctx* ctx, loc_log_callback callb
 LOC_EXPORT void loc_set_log_fn(struct loc_ctx* ctx,
 		void (*log_fn)(struct loc_ctx* ctx, int priority, const char* file,
 		int line, const char* fn, const char* format, va_list args)) {
-	//ctx->log_fn = log_fn;
+	ctx->log.fn = log_fn;
+	loc_set_log_callback(ctx, (log_fn) ? log_function : log_stderr, NULL);
+
 	INFO(ctx, "custom logging function %p registered\n", log_fn);
 }
 
-- 
2.43.0


From ea79046a7ef6a8108ebf1a0e48405e1cd19d3a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:47 +0000
Subject: [PATCH 098/102] fix: network-tree: Merge networks that were blocked
 by one that got merged

---
 src/network-tree.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/network-tree.c b/src/network-tree.c
index 6603b8f..ec2af2f 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -346,6 +346,7 @@ struct loc_network_tree_merge_ctx {
 	struct loc_network_tree* tree;
 	struct loc_network_list* networks;
 	unsigned int merged;
+	unsigned int blocked;
 };
 
 static int loc_network_tree_merge_step(struct loc_network* network, void* data) {
@@ -386,6 +387,7 @@ static int loc_network_tree_merge_step(struct loc_network* network, void* data)
 
 				// There might already be a network
 				case -EBUSY:
+					ctx->blocked++;
 					r = 0;
 					goto ERROR;
 
@@ -454,6 +456,7 @@ static int loc_network_tree_merge(struct loc_network_tree* tree) {
 		.tree     = tree,
 		.networks = NULL,
 		.merged   = 0,
+		.blocked  = 0,
 	};
 	int r;
 
@@ -462,12 +465,22 @@ static int loc_network_tree_merge(struct loc_network_tree* tree) {
 	if (r)
 		goto ERROR;
 
-	// Walk through the entire tree
-	r = loc_network_tree_walk(tree, NULL, loc_network_tree_merge_step, &ctx);
-	if (r)
-		goto ERROR;
+	do {
+		ctx.merged  = 0;
+		ctx.blocked = 0;
+
+		// Start with an empty stack
+		loc_network_list_clear(ctx.networks);
+
+		// Walk through the entire tree
+		r = loc_network_tree_walk(tree, NULL, loc_network_tree_merge_step, &ctx);
+		if (r)
+			goto ERROR;
+
+		DEBUG(tree->ctx, "%u network(s) have been merged\n", ctx.merged);
 
-	DEBUG(tree->ctx, "%u network(s) have been merged\n", ctx.merged);
+	// Networks that were in the way might have been merged since
+	} while (ctx.merged && ctx.blocked);
 
 ERROR:
 	if (ctx.networks)
-- 
2.43.0


From e1cc29052db33918e03c5c5e863bc15695fe3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:37 +0000
Subject: [PATCH 099/102] fix: database: Don't exhaust the stack when
 flattening

---
 src/database.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/database.c b/src/database.c
index 95d2ae1..cca05b2 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1464,8 +1464,11 @@ static int __loc_database_enumerator_next_network(
 
 static int __loc_database_enumerator_next_network_flattened(
 		struct loc_database_enumerator* enumerator, struct loc_network** network) {
+	int r;
+
+NEXT:
 	// Fetch the next network
-	int r = __loc_database_enumerator_next_network(enumerator, network, 1);
+	r = __loc_database_enumerator_next_network(enumerator, network, 1);
 	if (r)
 		return r;
 
@@ -1553,8 +1556,7 @@ static int __loc_database_enumerator_next_network_flattened(
 
 	// Drop the network and restart the whole process again to pick the next network
 	loc_network_unref(*network);
-
-	return __loc_database_enumerator_next_network_flattened(enumerator, network);
+	goto NEXT;
 
 ERROR:
 	if (enumerator->subnets)
-- 
2.43.0


From e2eb5efa79de920c2b1dd00dc329f26ffb1ae222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 100/102] fix: python: Don't cut off strings at a null
 character

The setters silently stored everything up to the first null character
("DE\0x" became the country code "DE") while the constructors and
methods raise ValueError for those.
---
 src/python/as.c             |  2 +-
 src/python/country.c        |  4 ++--
 src/python/database.c       |  2 +-
 src/python/locationmodule.c | 19 +++++++++++++++++++
 src/python/locationmodule.h |  4 ++++
 src/python/network.c        |  2 +-
 src/python/writer.c         |  6 +++---
 7 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index e3a0fb1..fa1ffcf 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -132,7 +132,7 @@ static int AS_set_name(ASObject* self, PyObject* value) {
 
 	// Passing None (or deleting the attribute) will reset it
 	if (value && value != Py_None) {
-		name = PyUnicode_AsUTF8(value);
+		name = PyObject_AsCString(value);
 		if (!name)
 			return -1;
 	}
diff --git a/src/python/country.c b/src/python/country.c
index 7eacfc9..1ad29b1 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -112,7 +112,7 @@ static int Country_set_name(CountryObject* self, PyObject* value) {
 
 	// Passing None (or deleting the attribute) will reset it
 	if (value && value != Py_None) {
-		name = PyUnicode_AsUTF8(value);
+		name = PyObject_AsCString(value);
 		if (!name)
 			return -1;
 	}
@@ -143,7 +143,7 @@ static int Country_set_continent_code(CountryObject* self, PyObject* value) {
 		return -1;
 	}
 
-	code = PyUnicode_AsUTF8(value);
+	code = PyObject_AsCString(value);
 	if (!code)
 		return -1;
 
diff --git a/src/python/database.c b/src/python/database.c
index 5d63ce2..ef37cf4 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -364,7 +364,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				goto ERROR;
 			}
 
-			const char* country_code = PyUnicode_AsUTF8(item);
+			const char* country_code = PyObject_AsCString(item);
 			if (!country_code) {
 				loc_country_list_unref(countries);
 				goto ERROR;
diff --git a/src/python/locationmodule.c b/src/python/locationmodule.c
index 45c7bd8..c574155 100644
--- a/src/python/locationmodule.c
+++ b/src/python/locationmodule.c
@@ -15,6 +15,7 @@
 */
 
 #include <Python.h>
+#include <string.h>
 #include <syslog.h>
 
 #include <libloc/format.h>
@@ -30,6 +31,24 @@
 /* Declare global context */
 struct loc_ctx* loc_ctx;
 
+/*
+	Returns the string, which would be silently truncated in C if it contained any null characters
+*/
+const char* PyObject_AsCString(PyObject* object) {
+	Py_ssize_t length = 0;
+
+	const char* s = PyUnicode_AsUTF8AndSize(object, &length);
+	if (!s)
+		return NULL;
+
+	if (strlen(s) != (size_t)length) {
+		PyErr_SetString(PyExc_ValueError, "embedded null character");
+		return NULL;
+	}
+
+	return s;
+}
+
 PyMODINIT_FUNC PyInit__location(void);
 
 static void location_free(void) {
diff --git a/src/python/locationmodule.h b/src/python/locationmodule.h
index e267986..5efa819 100644
--- a/src/python/locationmodule.h
+++ b/src/python/locationmodule.h
@@ -17,8 +17,12 @@
 #ifndef PYTHON_LOCATION_MODULE_H
 #define PYTHON_LOCATION_MODULE_H
 
+#include <Python.h>
+
 #include <libloc/libloc.h>
 
 extern struct loc_ctx* loc_ctx;
 
+const char* PyObject_AsCString(PyObject* object);
+
 #endif /* PYTHON_LOCATION_MODULE_H */
diff --git a/src/python/network.c b/src/python/network.c
index 9494c03..9e614c9 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -112,7 +112,7 @@ static int Network_set_country_code(NetworkObject* self, PyObject* value) {
 
 	// Passing None (or deleting the attribute) will reset it
 	if (value && value != Py_None) {
-		country_code = PyUnicode_AsUTF8(value);
+		country_code = PyObject_AsCString(value);
 		if (!country_code)
 			return -1;
 	}
diff --git a/src/python/writer.c b/src/python/writer.c
index 8949f99..304bea8 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -126,7 +126,7 @@ static int Writer_set_vendor(WriterObject* self, PyObject* value) {
 		return -1;
 	}
 
-	vendor = PyUnicode_AsUTF8(value);
+	vendor = PyObject_AsCString(value);
 	if (!vendor)
 		return -1;
 
@@ -153,7 +153,7 @@ static int Writer_set_description(WriterObject* self, PyObject* value) {
 		return -1;
 	}
 
-	description = PyUnicode_AsUTF8(value);
+	description = PyObject_AsCString(value);
 	if (!description)
 		return -1;
 
@@ -180,7 +180,7 @@ static int Writer_set_license(WriterObject* self, PyObject* value) {
 		return -1;
 	}
 
-	license = PyUnicode_AsUTF8(value);
+	license = PyObject_AsCString(value);
 	if (!license)
 		return -1;
 
-- 
2.43.0


From 07232f947a6998660cf7db8bbafe8edfd2001706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 101/102] fix: export: Let ipsets hold all networks

The maximum number of elements was fixed to 1048576, so that sets with
more networks could not be loaded.
---
 src/python/location/export.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/location/export.py b/src/python/location/export.py
index a587ff1..7d95db9 100644
--- a/src/python/location/export.py
+++ b/src/python/location/export.py
@@ -136,6 +136,9 @@ class IpsetOutputWriter(OutputWriter):
 	# The value is being used if we don't know any better
 	DEFAULT_HASHSIZE = 64
 
+	# The maximum number of networks, unless there are more
+	DEFAULT_MAXELEM = 1048576
+
 	# We aim for this many networks in a bucket on average. This allows us to choose
 	# how much memory we want to sacrifice to gain better performance. The lower the
 	# factor, the faster a lookup will be, but it will use more memory.
@@ -173,7 +176,9 @@ class IpsetOutputWriter(OutputWriter):
 			self.tag,
 			"6" if self.family == socket.AF_INET6 else ""
 		))
-		self.f.write(" hashsize %8d maxelem 1048576 -exist\n" % self.hashsize)
+		self.f.write(" hashsize %8d maxelem %8d -exist\n" % (
+			self.hashsize, max(self.networks, self.DEFAULT_MAXELEM)
+		))
 		self.f.write("flush %s\n" % self.tag)
 
 	def write(self, network):
-- 
2.43.0


From 0597e2e2034b6aedd2d72529b7003ac34073ee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:48 +0000
Subject: [PATCH 102/102] fix: lua: Refuse strings with null characters

They were silently cut off there, so that "DE\0FR" was accepted as the
country code "DE" and "1.2.3.4\0" as an address.
---
 src/lua/country.c  |  2 +-
 src/lua/database.c |  8 ++++----
 src/lua/location.h | 15 +++++++++++++++
 src/lua/network.c  |  2 +-
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/lua/country.c b/src/lua/country.c
index a69cd96..a0d7b4d 100644
--- a/src/lua/country.c
+++ b/src/lua/country.c
@@ -64,7 +64,7 @@ static int Country_new(lua_State* L) {
 	int r;
 
 	// Fetch the code
-	code = luaL_checkstring(L, 1);
+	code = luaL_checkcstring(L, 1);
 
 	// Parse the string
 	r = loc_country_new(ctx, &country, code);
diff --git a/src/lua/database.c b/src/lua/database.c
index 34ae615..09723a3 100644
--- a/src/lua/database.c
+++ b/src/lua/database.c
@@ -53,7 +53,7 @@ static int Database_open(lua_State* L) {
 	int r;
 
 	// Fetch the path
-	path = luaL_checkstring(L, 1);
+	path = luaL_checkcstring(L, 1);
 
 	// Allocate a new object
 	Database* self = (Database*)lua_newuserdata(L, sizeof(*self));
@@ -167,7 +167,7 @@ static int Database_get_country(lua_State* L) {
 	Database* self = luaL_checkdatabase(L, 1);
 
 	// Fetch code
-	const char* code = luaL_checkstring(L, 2);
+	const char* code = luaL_checkcstring(L, 2);
 
 	// Fetch the country
 	r = loc_database_get_country(self->db, &country, code);
@@ -196,7 +196,7 @@ static int Database_lookup(lua_State* L) {
 	Database* self = luaL_checkdatabase(L, 1);
 
 	// Require a string
-	const char* address = luaL_checkstring(L, 2);
+	const char* address = luaL_checkcstring(L, 2);
 
 	// Perform lookup
 	r = loc_database_lookup_from_string(self->db, address, &network);
@@ -223,7 +223,7 @@ static int Database_verify(lua_State* L) {
 	Database* self = luaL_checkdatabase(L, 1);
 
 	// Fetch path to key
-	const char* key = luaL_checkstring(L, 2);
+	const char* key = luaL_checkcstring(L, 2);
 
 	// Open the keyfile
 	f = fopen(key, "r");
diff --git a/src/lua/location.h b/src/lua/location.h
index 0708988..e813ed0 100644
--- a/src/lua/location.h
+++ b/src/lua/location.h
@@ -17,7 +17,10 @@
 #ifndef LUA_LOCATION_LOCATION_H
 #define LUA_LOCATION_LOCATION_H
 
+#include <string.h>
+
 #include <lua.h>
+#include <lauxlib.h>
 
 #include <libloc/libloc.h>
 
@@ -27,6 +30,18 @@ extern struct loc_ctx* ctx;
 
 int luaopen_location(lua_State* L);
 
+/*
+	Like luaL_checkstring(), but refuses what would be cut off at a null character
+*/
+static inline const char* luaL_checkcstring(lua_State* L, int i) {
+	size_t length = 0;
+
+	const char* s = luaL_checklstring(L, i, &length);
+	luaL_argcheck(L, strlen(s) == length, i, "string contains zeros");
+
+	return s;
+}
+
 static inline int register_class(lua_State* L,
 		const char* name, const struct luaL_Reg* functions) {
 	// Create a new metatable
diff --git a/src/lua/network.c b/src/lua/network.c
index 46a4a83..1ee2deb 100644
--- a/src/lua/network.c
+++ b/src/lua/network.c
@@ -64,7 +64,7 @@ static int Network_new(lua_State* L) {
 	int r;
 
 	// Fetch the network
-	n = luaL_checkstring(L, 1);
+	n = luaL_checkcstring(L, 1);
 
 	// Parse the string
 	r = loc_network_new_from_string(ctx, &network, n);
-- 
2.43.0

