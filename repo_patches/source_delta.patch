From 537f27c0f9e50bdacbbd0857acc85e245a6bc2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 01/17] fix: report a persisted, unflagged value from a failed
 pcas

When the CAS lost a race, the word it returned still carried the other
thread's dirty flag and had not been persisted. putIfMatch then failed to
recognise its own key and claimed a second slot for it, and copySlot took a
retired slot for a live one and counted it twice.
---
 include/persistence.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/persistence.hpp b/include/persistence.hpp
index 9ab0f17..791e98d 100644
--- a/include/persistence.hpp
+++ b/include/persistence.hpp
@@ -96,11 +96,16 @@ static bool pcas(std::atomic<U> *address, U &oldVal, U newVal)
 {
     U oldValCopy = oldVal;
     // Ensure the field is persisted.
-    pcas_read<U>(address);
-    // Attempt to CAS.
-    bool ret = address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag));
-    assert((ret && oldValCopy == oldVal) || (!ret && oldValCopy != oldVal));
-    return ret;
+    // Only ever compare with, and report back, a persisted value without its dirty flag.
+    while ((oldVal = pcas_read<U>(address)) == oldValCopy)
+    {
+        // Attempt to CAS.
+        if (address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag)))
+        {
+            return true;
+        }
+    }
+    return false;
 }
 
 #endif
-- 
2.43.0


From 6f0af071aabb00bd5e34a46b54cf625df58dd482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 02/17] fix: make an update durable before it is reported as
 done

Nothing wrote a successful CAS back unless somebody happened to read the word
later, so a completed update could be lost in a crash, and a migration could
retire the (durable) old copy of a binding before the new copy was durable.
---
 include/persistence.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/persistence.hpp b/include/persistence.hpp
index 791e98d..832c671 100644
--- a/include/persistence.hpp
+++ b/include/persistence.hpp
@@ -102,6 +102,8 @@ static bool pcas(std::atomic<U> *address, U &oldVal, U newVal)
         // Attempt to CAS.
         if (address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag)))
         {
+            // The update must be durable before anything relies on it having happened.
+            persist<U>(address, (U)((uintptr_t)newVal | DirtyFlag));
             return true;
         }
     }
-- 
2.43.0


From 00f2e7cc27a1182e83979b6fffab54ae7597b7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 03/17] fix: keep the update function when an update moves to
 the new table

putIfMatch dropped its CAS function whenever it continued in the next table,
so an increment that met a resize stored its placeholder argument instead of
the incremented value. It also skipped the function altogether if the
placeholder happened to equal the current value.
---
 containers/cliffMap/hashMap.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index d97a9a3..29448f8 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -1125,7 +1125,7 @@ public:
                 }
                 // Try again in the new table.
                 // This is a recursive call.
-                return putIfMatch(newTable, key, newVal, oldVal);
+                return putIfMatch(newTable, key, newVal, oldVal, CAS);
 #else
                 // The key is not present.
                 return VINITIAL;
@@ -1137,7 +1137,8 @@ public:
         // Now we have a key slot.
 
         // If the value we want to place is already there.
-        if (newVal == V)
+        // (This only tells us something if the value to place does not depend on the old one.)
+        if (newVal == V && CAS == &Table::CASvalue)
         {
             // Then we can get away with doing nothing.
             return V;
@@ -1161,7 +1162,7 @@ public:
         {
             // Copy the slot and retry in the new table.
             // This is a recursive call to the new table.
-            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);
+            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
         }
 #endif
         // Update the existing table.
@@ -1222,7 +1223,7 @@ public:
             // If a primed value was is present (placed by us or someone else), re-run put on the new table.
             if (isMarked((uintptr_t)table->value(idx), MigrationFlag))
             {
-                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);
+                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
             }
 #endif
             // Otherwise retry our put.
-- 
2.43.0


From e9db84cc5ae0d76609798bf01f3967247d48e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 04/17] fix: count a migrated slot when it is retired

copySlot reported progress only to the thread whose insert into the new table
won. If the new table already had a value for the key (a later write, or a copy
made before a crash), nobody ever counted the slot and the resize never ended.
---
 containers/cliffMap/hashMap.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 29448f8..16e7d26 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -209,7 +209,7 @@ public:
                 // Only succeeds if there isn't already a value there.
                 // If there is, we say that our write "happened before" the write that placed the existing value.
                 // In that case, we don't need to do anything.
-                bool copiedIntoNew = (hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL) == VINITIAL);
+                hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL);
 
                 // Now that the value has been migrated, replace the old table value with a tombstone.
                 // This will prevent other threads from redundantly attempting to copy to the new table.
@@ -217,15 +217,17 @@ public:
                 // They will see the value has been migrated and fail to replace.
                 // Keep trying until we succeed.
                 Value actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
+                // Whoever retires the slot counts it, no matter who copied the value.
+                bool retired = (actualVal == oldVal);
                 while (actualVal != oldVal)
                 {
                     oldVal = actualVal;
                     actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
                 }
-                // Return whether or not we made progress (copied a value from the old table to the new table).
+                // Return whether or not we made progress (retired a slot of the old table).
                 // Note: Stalling threads may delay reporting of completed migrations.
                 // This means old tables may continue to exist for longer than we like, but it shouldn't hurt correctness.
-                return copiedIntoNew;
+                return retired;
             }
 #endif
         public:
-- 
2.43.0


From ff02c141a0df405a8f93fcc10aeb20501ed16048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 05/17] fix: remove reports whether a binding was removed

The previous value was converted to bool: the reserved "absent" value became
true and a bound value of zero became false.
---
 containers/cliffMap/hashMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 16e7d26..92eb89b 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -918,7 +918,7 @@ public:
     }
     bool remove(Key key)
     {
-        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD);
+        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD) != VINITIAL;
     }
     // Remove key with specified value.
     bool remove(Key key, Value value)
-- 
2.43.0


From 2ac803491549e562fc84411eb2c2c72e9664f841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 06/17] fix: ucf insert returns whether the element is new,
 like its siblings

---
 containers/ucfMap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/containers/ucfMap.hpp b/containers/ucfMap.hpp
index 78a07f5..be2d57f 100644
--- a/containers/ucfMap.hpp
+++ b/containers/ucfMap.hpp
@@ -17,7 +17,8 @@ namespace ucf
             //assert((shiftedEl >> ConcurrentHashMap<KeyT, ValT>::BITS_MARKED) == el);
 
             ValT x = c->put(shiftedEl, shiftedEl);
-            return x == shiftedEl;
+            // The previous value is reserved (absent) exactly if this is a new element.
+            return ConcurrentHashMap<KeyT, ValT>::isValueReserved(x);
         }
 
         bool erase(ValT el)
-- 
2.43.0


From 0e023586eb2cb81d8111a6cdcf3525f6c8e67cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 07/17] fix: lock the stl map in get and count, too

---
 containers/stlMap.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/containers/stlMap.hpp b/containers/stlMap.hpp
index 9d10f83..ec38759 100644
--- a/containers/stlMap.hpp
+++ b/containers/stlMap.hpp
@@ -38,6 +38,7 @@ namespace stl
 
         ValT get(KeyT el)
         {
+            guard_type g(global_lock);
             try
             {
                 return c->at(el);
@@ -50,6 +51,7 @@ namespace stl
 
         size_t count()
         {
+            guard_type g(global_lock);
             return c->size();
         }
 
-- 
2.43.0


From 3b88ff957ca253e4e7edffc1b7b970ecba0ff61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 08/17] fix: munmapTable unmaps the mapped pairs, and returns
 true on success

It passed the heap address of the control structure and the number of
elements, and reported failure as success.
---
 containers/cliffMap/hashMap.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 92eb89b..5998bd3 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -754,8 +754,7 @@ public:
         }
         static bool munmapTable(Table *table)
         {
-            size_t size = table->chm.size.load();
-            bool ret = (munmap(table, (sizeof(KVpair) * size)) != 0);
+            bool ret = (munmap(table->pairs, (sizeof(KVpair) * table->len)) == 0);
             delete table;
             return ret;
         }
-- 
2.43.0


From d84078471a4db052a8c9382a44e71ff7071a61c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 09/17] fix: do not truncate the hash in get

put uses the whole hash, so in tables of more than 2^32 slots get looked for
the key in the wrong place.
---
 containers/cliffMap/hashMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 5998bd3..ce53bc9 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -958,7 +958,7 @@ public:
     }
 
     // Heavy lifting for user-facing get value from key.
-    Value getImpl(Table *table, Key key, int fullHash)
+    Value getImpl(Table *table, Key key, size_t fullHash)
     {
         // The capacity of the table.
         size_t len = table->len;
-- 
2.43.0


From c08dc4840cf9ffb50e9f00c9a6a08bc585d37758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 10/17] fix: map the existing file when an existing table is
 asked for

The flag was inverted: recovery re-initialised (wiped) the table files, and a
new table silently took over the contents of a left-over file.
---
 containers/cliffMap/hashMap.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index ce53bc9..c1e1b66 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -621,16 +621,22 @@ public:
                 count = Table::numFromName(fileName);
             }
 
-            // If we want to map a new file.
-            if (newTable)
+            // If we want to map an existing file.
+            if (!newTable)
             {
                 // Try to open an existing hash table.
                 fd = open(fileName, O_RDWR);
+                if (fd == -1)
+                {
+                    // Error.
+                    std::cerr << "Failed to open the existing file." << std::endl;
+                    throw std::runtime_error("cannot open file");
+                }
             }
-            // If we want to map an existing file.
+            // If we want to map a new file.
             else
             {
-                // We will open the existing file.
+                // We will create the file.
                 // Report table doesn't exist.
                 fd = -1;
             }
-- 
2.43.0


From 866124f99190f8b07327c9e5a9c0778e4aab4f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 11/17] fix: report a failing fstat, and close the file on
 every error path

The size of the mapping was taken from an uninitialised structure when fstat
failed, and the descriptor leaked when sizing or mapping failed.
---
 containers/cliffMap/hashMap.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index c1e1b66..89e9217 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -651,6 +651,8 @@ public:
                 {
                     // Error.
                     fprintf(stderr, "Failed to read the existing file's size.\n");
+                    close(fd);
+                    throw std::runtime_error("cannot read file size");
                 }
                 size_t length = finfo.st_size;
                 // length should always be some multiple of our KVpair size.
@@ -664,6 +666,7 @@ public:
                     // Error.
                     std::cerr << "Failed to mmap the existing file. errno = "
                               << errno << ", " << strerror(errno) << std::endl;
+                    close(fd);
                     throw std::logic_error("mmap existing file failed.");
                 }
 
@@ -724,6 +727,7 @@ public:
                 {
                     // Error.
                     std::cerr << "Failed to adjust file size." << std::endl;
+                    close(fd);
                     throw std::runtime_error("cannot create or open file");
                 }
                 // Allocate our file.
@@ -733,6 +737,7 @@ public:
                     // Error.
                     std::cerr << "Failed to mmap a new file. errno = "
                               << errno << ", " << strerror(errno) << std::endl;
+                    close(fd);
                     throw std::logic_error("mmap new file failed.");
                 }
                 // Ensure the allocation is actually to persistent memory.
-- 
2.43.0


From 3a5553301367209364a4ae3230b828844dd7dcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 12/17] fix: let recovery see only completely initialised table
 files

A crash while a table was being created left a file full of zeros, which
recovery would have taken for bindings of key 0. Recovery also used the bare
file names, without their directory.
---
 containers/cliffMap/hashMap.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 89e9217..16cd914 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -713,7 +713,9 @@ public:
             else
             {
                 // Create and open the file.
-                fd = open(fileName, O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);
+                // It gets its proper name, under which recovery finds it, once it is initialized.
+                const std::string tmpName = std::string(fileName) + ".tmp";
+                fd = open(tmpName.c_str(), O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);
                 if (fd == -1)
                 {
                     // Error.
@@ -752,6 +754,15 @@ public:
                 // Persist all keys and values.
                 // Everything else can be inferred upon recovery.
                 PERSIST(pairs, sizeof(KVpair) * tableCapacity);
+                // The table is complete.
+                if (std::rename(tmpName.c_str(), fileName) == -1)
+                {
+                    // Error.
+                    std::cerr << "Failed to name the new file." << std::endl;
+                    munmap(pairs, length);
+                    close(fd);
+                    throw std::runtime_error("cannot rename file");
+                }
                 // Allocate our table.
                 // We pass in the location of our KV pairs to assign them to the structure.
                 // We pass in the size of the table to assign the length.
@@ -785,8 +796,8 @@ public:
             std::filesystem::path path = fileDir;
             for (auto &p : std::filesystem::directory_iterator(path))
             {
-                const std::string filenameStr = p.path().filename().string();
-                if (p.is_regular_file())
+                const std::string filenameStr = p.path().string();
+                if (p.is_regular_file() && p.path().extension() == ".dat")
                 {
                     tableNames.push_back(filenameStr);
                 }
-- 
2.43.0


From 04ab7bf74082d5245830fec6aeefecaa8efc9c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 13/17] fix: recover tables left behind by an interrupted
 resize

Recovery went on using an empty table after unmapping it (and unmapped it
twice), dropped a table whose tombstones hide bindings of an older table,
sorted "10.dat" before "2.dat", crashed if no table was left, and handed out
the name of the newest table again. A resumed migration neither counted the
slots retired before the crash nor survived a missing, still empty new table.
---
 containers/cliffMap/hashMap.hpp | 48 +++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 16cd914..35aa48c 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -280,6 +280,14 @@ public:
 #endif
             }
 
+            // Record the slots that were already migrated before a crash.
+            void recoverCopyDone(size_t retired)
+            {
+#ifdef RESIZE
+                copyDone.store(retired);
+#endif
+            }
+
             // Heuristic to estimate if the table is overfull.
             // This will prevent the load factor from getting too high.
             bool tableFull(size_t reprobeCount, size_t len)
@@ -381,7 +389,8 @@ public:
                 // We should never migrate into the old table.
                 assert(&(oldTable->chm) == this);
                 // Get our new table we want to migrate the slot to.
-                Table *newTable = this->newTable.load();
+                // (An interrupted table transfer may have lost its still empty new table in a crash.)
+                Table *newTable = resize(hashMap, oldTable);
                 // Don't bother copying if there isn't even a table transfer in progress.
                 assert(newTable != nullptr);
                 // Copy the desired slot.
@@ -675,6 +684,8 @@ public:
                 // We pass in the size of the table to assign the length.
                 table = new Table(size, existingSize, count, pairs);
 
+                // Slots retired before a crash need not be migrated again.
+                size_t retired = 0;
                 // Use the KV pairs to infer the number of used and free entries in the table.
                 table->chm.size.store(0);
                 table->chm.slots.store(0);
@@ -707,7 +718,12 @@ public:
                     {
                         table->chm.slots.fetch_add(1);
                     }
+                    if (V == TOMBPRIME)
+                    {
+                        retired++;
+                    }
                 }
+                table->chm.recoverCopyDone(retired);
             }
             // If the file doesn't exist yet, try to make it.
             else
@@ -803,11 +819,11 @@ public:
                 }
             }
 
-            // Sort the tables by name.
+            // Sort the tables by number ("10" comes after "9").
             std::sort(tableNames.begin(), tableNames.end(),
                       [](std::string a, std::string b)
                       {
-                          return a.compare(b) < 0;
+                          return Table::numFromName(a.c_str()) < Table::numFromName(b.c_str());
                       });
 
             // For each table.
@@ -818,17 +834,17 @@ public:
                 // Allocate an mmapped table.
                 Table *table = Table::mmapTable(!reconstruct, size, 0, (*it).c_str());
 
-                // If the table is empty, deallocate it and continue.
-                if (table->chm.size.load() == 0)
-                {
-                    Table::munmapTable(table);
-                }
-
+                // If no key was ever placed in the table, deallocate it and continue.
+                bool untouched = true;
                 // If the table is fully migrated, deallocate it and continue.
                 bool migrationDone = true;
                 // Check for non-migrated values.
                 for (size_t i = 0; i < table->len; i++)
                 {
+                    if (table->key(i) != KINITIAL)
+                    {
+                        untouched = false;
+                    }
                     ValT val = table->value(i);
                     // If the value is a tombstone, initial value, or migrated.
                     if (val == VTOMBSTONE ||
@@ -847,7 +863,8 @@ public:
                     }
                 }
                 // If this table was fully migrated.
-                if (migrationDone)
+                // NOTE: While an older table still migrates into it, its tombstones hide older bindings. Keep it then.
+                if (untouched || (migrationDone && tables.empty()))
                 {
                     // Deallocate it.
                     Table::munmapTable(table);
@@ -879,12 +896,15 @@ public:
                     assert(CASSucceed);
                 }
             }
+            // Ensure we use unique file names.
+            if (!tableNames.empty())
+            {
+                fileNameCounter.store(Table::numFromName(lastTableName.c_str()) + 1);
+            }
             // Store the lowest table with an incomplete migration, as the base.
             // Might as well not migrate during recovery, since we lose out on parallel migration performance.
-            this->table.store(tables[0]);
-
-            // Ensure we use unique file names.
-            fileNameCounter.store(Table::numFromName(lastTableName.c_str()));
+            // If there is none, start with a new one.
+            this->table.store(tables.empty() ? Table::mmapTable(true, size) : tables[0]);
         }
         else
         {
-- 
2.43.0


From 215a77b6356765cf9c273b8abce6fc6055a37cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 14/17] fix: do not delete the binding of an interrupted
 migration during recovery

A crash between placing a migrated key and its value in the new table left a
key without a value there. Recovery made that a tombstone, which stopped the
resumed migration from copying the (still present) old value.
---
 containers/cliffMap/hashMap.hpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 35aa48c..e7fba46 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -695,18 +695,9 @@ public:
                     Value V = table->value(i);
                     Key K = table->key(i);
 
-                    // While we're at it, check for inconsistent table entries.
-                    // THis is the only situation I've come up with where we could have a problem with partial persists.
-                    if (K != KINITIAL && V == VINITIAL)
-                    {
-                        // If the key has been set but the value hasn't, then we have an incomplete insert on our hands.
-                        // Just make it a tombstone since we don't know what value it should have been.
-                        Table::CASvalue(table, i, VINITIAL, VTOMBSTONE);
-                        // Update the replaced value for subsequent use in this loop.
-                        V = table->value(i);
-                        // We should always succeed. We are running sequentially, after all.
-                        assert(V == VTOMBSTONE);
-                    }
+                    // If the key has been set but the value hasn't, then we have an incomplete insert on our hands.
+                    // Leave it as it is: the key has no value yet, just as if the inserting thread were stalled.
+                    // NOTE: It must not become a tombstone. If it is an incomplete migration, that would hide the old table's value.
 
                     // Anything that's not a sentinel.
                     if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME)
-- 
2.43.0


From 31ede0ee22cacd14220321f9ffa406fe49911cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 15/17] fix: make the map's destructor and pretty-printers
 compile

They could not be instantiated (the destructor loaded from its own local
variable, the printers copied a stream), and clang rejected the header.
---
 containers/cliffMap/hashMap.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index e7fba46..05256c7 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -915,10 +915,10 @@ public:
     ~ConcurrentHashMap()
     {
         // TODO: Unmap all mapped files, I guess.
-        Table *table = table.load();
+        Table *table = this->table.load();
         // Unmap the file.
         // TODO: What about the other files?
-        if (!munmapTable(table))
+        if (!Table::munmapTable(table))
         {
             // Error.
             fprintf(stderr, "Failed to unmap the file from memory.\n");
@@ -1280,7 +1280,7 @@ public:
     }
 #endif
     // Pretty-printing for Value sentinels.
-    void printValue(Value val, std::ostream stream = std::cout)
+    void printValue(Value val, std::ostream &stream = std::cout)
     {
         switch (val)
         {
@@ -1305,7 +1305,7 @@ public:
         }
     }
     // Pretty-printing for Key sentinels.
-    void printKey(Key key, std::ostream stream = std::cout)
+    void printKey(Key key, std::ostream &stream = std::cout)
     {
         switch (key)
         {
-- 
2.43.0


From e1b4b61ef7c5dafb8b61f88a8857d1a2487bb46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:23 +0000
Subject: [PATCH 16/17] fix: clevel search reads each slot once, so that an
 erase in between cannot make it follow an empty pointer

---
 .../libpmemobj++/experimental/clevel_hash.hpp    | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 1bdde1f..1e34d63 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -570,11 +570,13 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::search(
 			bucket &f_b = cl->buckets[f_idx];
 			for (size_type j = 0; j < assoc_num; j++)
 			{
-				if (f_b.slots[j].x.partial == partial
-					&& f_b.slots[j].p.get_offset() != 0)
+				// Read the slot once: another thread may empty it meanwhile.
+				KV_entry_ptr_u tmp(f_b.slots[j].p.off);
+				if (tmp.x.partial == partial
+					&& tmp.p.get_offset() != 0)
 				{
 					if (key_equal{}(
-						f_b.slots[j].p.get_address(my_pool_uuid)->first, key))
+						tmp.p.get_address(my_pool_uuid)->first, key))
 					{
 						return ret(i, f_idx, j);
 					}
@@ -584,11 +586,13 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::search(
 			bucket &s_b = cl->buckets[s_idx];
 			for (size_type j = 0; j < assoc_num; j++)
 			{
-				if (s_b.slots[j].x.partial == partial
-					&& s_b.slots[j].p.get_offset() != 0)
+				// Read the slot once: another thread may empty it meanwhile.
+				KV_entry_ptr_u tmp(s_b.slots[j].p.off);
+				if (tmp.x.partial == partial
+					&& tmp.p.get_offset() != 0)
 				{
 					if (key_equal{}(
-						s_b.slots[j].p.get_address(my_pool_uuid)->first, key))
+						tmp.p.get_address(my_pool_uuid)->first, key))
 					{
 						return ret(i, s_idx, j);
 					}
-- 
2.43.0


From 582a8720864e4d380a7a8f36e12cacf585ee70b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:23 +0000
Subject: [PATCH 17/17] fix: clevel erase reads where the rehashing stands
 before it searches instead of using an uninitialised variable

---
 include/libpmemobj++/experimental/clevel_hash.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 1e34d63..eec2e92 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -1117,6 +1117,8 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 		level_meta_ptr_t m_copy(meta);
 		level_meta *m = static_cast<level_meta *>(m_copy(my_pool_uuid));
 
+		expand_bucket_old = expand_bucket;
+
 		difference_type f_idx, s_idx;
 		size_type i = 0;
 		level_ptr_t li = nullptr, next_li = m->last_level;
-- 
2.43.0

