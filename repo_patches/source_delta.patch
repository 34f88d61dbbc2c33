From e051d0aa0e746d86f442323defa05c8ea6da00c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:35 +0000
Subject: [PATCH 01/19] fix: insert value in the middle of a linked list

Inserting at a position other than the first or last linked the element that
was already there instead of the new one.  The new value was lost and leaked
while the element count was still incremented.
---
 wizard/hashmap.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 6253f67..69df2b4 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1046,7 +1046,6 @@ WizardExport WizardBooleanType InsertValueInLinkedList(
               element=element->next;
               next->next=element->next;
             }
-            next=next->next;
             element->next=next;
             if (list_info->next == next->next)
               list_info->next=next;
-- 
2.43.0


From 0b2a6a6880642509378d1974f37d02caa2404589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:35 +0000
Subject: [PATCH 02/19] fix: release the replaced element of a sorted linked
 list

Replacing the first element leaked it, and a list iterator positioned on the
replaced element kept pointing at released memory.
---
 wizard/hashmap.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 69df2b4..e9bb12b 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1122,11 +1122,15 @@ WizardExport WizardBooleanType InsertValueInSortedLinkedList(
       {
         if (i == 0)
           {
-            *replace=next->next->value;
-            next->next=next->next->next;
-            if (element != (ElementInfo *) NULL)
-              element->next=(ElementInfo *) RelinquishWizardMemory(
-                element->next);
+            ElementInfo
+              *entry;
+
+            entry=next->next;
+            *replace=entry->value;
+            next->next=entry->next;
+            if (list_info->next == entry)
+              list_info->next=next;
+            entry=(ElementInfo *) RelinquishWizardMemory(entry);
             list_info->elements--;
           }
         if (element != (ElementInfo *) NULL)
-- 
2.43.0


From c840018520fbae7f54eeed9da2aa175431b08755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:49 +0000
Subject: [PATCH 03/19] fix: count a replaced hash-map entry once

Storing a value under a key that is already present replaced the entry but
still incremented the number of entries.
---
 wizard/hashmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index e9bb12b..3775e67 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1546,6 +1546,7 @@ WizardExport WizardBooleanType PutEntryInHashmap(HashmapInfo *hashmap_info,
                 if (hashmap_info->relinquish_value != (void *(*)(void *)) NULL)
                   entry->value=hashmap_info->relinquish_value(entry->value);
                 entry=(EntryInfo *) RelinquishWizardMemory(entry);
+                hashmap_info->entries--;
                 break;
               }
           }
-- 
2.43.0


From 0e312bc2241c2b36f2973e6493f1818d0d366e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:49 +0000
Subject: [PATCH 04/19] fix: store an entry although the hash-map cannot grow

The entry is already in the map when growing fails, so reporting failure made
the caller release a key and value the map still referenced, and the entry was
not counted.  A map that cannot grow is slower but complete.
---
 wizard/hashmap.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 3775e67..9eb1ca5 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1559,13 +1559,9 @@ WizardExport WizardBooleanType PutEntryInHashmap(HashmapInfo *hashmap_info,
       UnlockSemaphoreInfo(hashmap_info->semaphore);
       return(WizardFalse);
     }
-  if (list_info->elements >= (hashmap_info->capacity-1))
-    if (IncreaseHashmapCapacity(hashmap_info) == WizardFalse)
-      {
-        UnlockSemaphoreInfo(hashmap_info->semaphore);
-        return(WizardFalse);
-      }
   hashmap_info->entries++;
+  if (list_info->elements >= (hashmap_info->capacity-1))
+    (void) IncreaseHashmapCapacity(hashmap_info);
   UnlockSemaphoreInfo(hashmap_info->semaphore);
   return(WizardTrue);
 }
-- 
2.43.0


From ad49ef2025824e94aa0e7ac696cdb37574e7d2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:10 +0000
Subject: [PATCH 05/19] fix: keep the splay-tree iterator off removed keys

---
 wizard/splay-tree.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/wizard/splay-tree.c b/wizard/splay-tree.c
index 40be8b1..48b1ccd 100644
--- a/wizard/splay-tree.c
+++ b/wizard/splay-tree.c
@@ -119,6 +119,26 @@ static int
 
 static void
   SplaySplayTree(SplayTreeInfo *,const void *);
+
+static inline void AdvanceSplayTreeIterator(SplayTreeInfo *splay_tree)
+{
+  NodeInfo
+    *node;
+
+  /*
+    The root is about to be removed, do not leave the iterator at its key.
+  */
+  if (splay_tree->next != splay_tree->root->key)
+    return;
+  splay_tree->next=(void *) NULL;
+  node=splay_tree->root->right;
+  if (node != (NodeInfo *) NULL)
+    {
+      while (node->left != (NodeInfo *) NULL)
+        node=node->left;
+      splay_tree->next=node->key;
+    }
+}
 
 /*
 %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
@@ -174,6 +194,8 @@ WizardExport WizardBooleanType AddValueToSplayTree(SplayTreeInfo *splay_tree,
               (splay_tree->root->value != (void *) NULL))
             splay_tree->root->value=splay_tree->relinquish_value(
               splay_tree->root->value);
+          if (splay_tree->next == splay_tree->root->key)
+            splay_tree->next=(void *) key;
           if ((splay_tree->relinquish_key != (void *(*)(void *)) NULL) &&
               (splay_tree->root->key != (void *) NULL))
             splay_tree->root->key=splay_tree->relinquish_key(
@@ -538,6 +560,7 @@ WizardExport WizardBooleanType DeleteNodeByValueFromSplayTree(
             UnlockSemaphoreInfo(splay_tree->semaphore);
             return(WizardFalse);
           }
+        AdvanceSplayTreeIterator(splay_tree);
         left=splay_tree->root->left;
         right=splay_tree->root->right;
         if ((splay_tree->relinquish_value != (void *(*)(void *)) NULL) &&
@@ -625,6 +648,7 @@ WizardExport WizardBooleanType DeleteNodeFromSplayTree(
       UnlockSemaphoreInfo(splay_tree->semaphore);
       return(WizardFalse);
     }
+  AdvanceSplayTreeIterator(splay_tree);
   left=splay_tree->root->left;
   right=splay_tree->root->right;
   if ((splay_tree->relinquish_value != (void *(*)(void *)) NULL) &&
@@ -1197,6 +1221,7 @@ WizardExport void *RemoveNodeByValueFromSplayTree(SplayTreeInfo *splay_tree,
             UnlockSemaphoreInfo(splay_tree->semaphore);
             return(key);
           }
+        AdvanceSplayTreeIterator(splay_tree);
         left=splay_tree->root->left;
         right=splay_tree->root->right;
         if ((splay_tree->relinquish_value != (void *(*)(void *)) NULL) &&
@@ -1284,6 +1309,7 @@ WizardExport void *RemoveNodeFromSplayTree(SplayTreeInfo *splay_tree,
       UnlockSemaphoreInfo(splay_tree->semaphore);
       return(value);
     }
+  AdvanceSplayTreeIterator(splay_tree);
   left=splay_tree->root->left;
   right=splay_tree->root->right;
   value=splay_tree->root->value;
-- 
2.43.0


From 1bbdf349e09f6f6c894a66c633a3bcff2b15b46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:26 +0000
Subject: [PATCH 06/19] fix: append the source at the end of the string info

---
 wizard/string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/string.c b/wizard/string.c
index 580c2bf..1df8113 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -726,7 +726,8 @@ WizardExport void ConcatenateStringInfo(StringInfo *string_info,
       sizeof(*string_info->datum));
   if (string_info->datum == (unsigned char *) NULL)
     ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
-  (void) memcpy(string_info->datum+length,source->datum,source->length);
+  (void) memcpy(string_info->datum+length-source->length,source->datum,
+    source->length);
 }
 
 /*
-- 
2.43.0


From 43e530916c4cbe9cfe7386d736f0a2a71adb62ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:26 +0000
Subject: [PATCH 07/19] fix: report all characters of a truncated string copy

---
 wizard/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/string.c b/wizard/string.c
index 1df8113..361b081 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -803,7 +803,7 @@ WizardExport size_t CopyWizardString(char *destination,const char *source,
     }
   if (length != 0)
     *q='\0';
-  return((size_t) (p-source-1));
+  return((size_t) (p-source));
 }
 
 /*
-- 
2.43.0


From dd42baeaab71a08637cd11209544affcb5b81e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:28 +0000
Subject: [PATCH 08/19] fix: stop a file transfer at end of file

---
 wizard/file.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wizard/file.c b/wizard/file.c
index 42e9b62..dd7d564 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -621,9 +621,9 @@ WizardExport WizardBooleanType ReadFileChunk(FileInfo *file_info,void *data,
       WizardMaxBufferExtent));
     if (count <= 0)
       {
-        count=0;
-        if (errno != EINTR)
+        if ((count == 0) || (errno != EINTR))
           break;
+        count=0;
       }
   }
   if (i < (ssize_t) length)
@@ -865,9 +865,9 @@ WizardExport WizardBooleanType WriteFileChunk(FileInfo *file_info,
     count=write(file_info->file,(unsigned char *) data+i,length-i);
     if (count <= 0)
       {
-        count=0;
-        if (errno != EINTR)
+        if ((count == 0) || (errno != EINTR))
           break;
+        count=0;
       }
   }
   if (i < (ssize_t) length)
-- 
2.43.0


From d1fe6a148f05396d6a9eb3af4bc3edf323115780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:28 +0000
Subject: [PATCH 09/19] fix: acquire the file lock after removing a stale one

---
 wizard/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wizard/file.c b/wizard/file.c
index dd7d564..7a381dd 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -202,6 +202,8 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
                   (void) ThrowWizardException(exception,GetWizardModule(),
                     FileError,"unable to remove file `%s': %s",path,
                     strerror(errno));
+                else
+                  continue;
                 break;
               }
           }
-- 
2.43.0


From 9f2e434679c647e25858345890d4523910aaab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:28 +0000
Subject: [PATCH 10/19] fix: do not leave an incomplete file lock behind

---
 wizard/file.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wizard/file.c b/wizard/file.c
index 7a381dd..d63cb6b 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -213,13 +213,16 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
     pid=(ssize_t) getpid();
     status=WriteFileChunk(file_info,&pid,sizeof(pid));
     tid=GetWizardThreadId();
-    status=WriteFileChunk(file_info,&tid,sizeof(tid));
+    status&=WriteFileChunk(file_info,&tid,sizeof(tid));
     if (close(file_info->file) == -1)
       (void) ThrowWizardException(exception,GetWizardModule(),FileError,
         "unable to close file `%s': %s",path,strerror(errno));
     file_info->file=(-1);
     if (status == WizardFalse)
-      break;
+      {
+        (void) remove_utf8(path);
+        break;
+      }
     i--;
   }
   path=DestroyString(path);
-- 
2.43.0


From 3eae8de3b8cc3adf6a1bcc0429e3d32635eb0e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:28 +0000
Subject: [PATCH 11/19] fix: leave the file lock of another owner in place

---
 wizard/file.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wizard/file.c b/wizard/file.c
index d63cb6b..c8c3e98 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -330,7 +330,13 @@ WizardExport FileInfo *AcquireFileInfo(const char *path,
     }
   if (AcquireFileLock(file_info,exception) == WizardFalse)
     {
-      file_info=DestroyFileInfo(file_info,exception);
+      /*
+        The lock belongs to another owner, do not relinquish it.
+      */
+      file_info->path=DestroyString(file_info->path);
+      file_info->signature=(~WizardSignature);
+      RelinquishSemaphoreInfo(&file_info->semaphore);
+      file_info=(FileInfo *) RelinquishWizardMemory(file_info);
       return((FileInfo *) NULL);
     }
   /*
-- 
2.43.0


From fa504e7705a3250602aa6fc271ddf5367a036c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:28 +0000
Subject: [PATCH 12/19] fix: relinquish only the resources virtual memory has
 acquired

---
 wizard/memory.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/memory.c b/wizard/memory.c
index e82d8a2..71c6070 100644
--- a/wizard/memory.c
+++ b/wizard/memory.c
@@ -496,8 +496,8 @@ WizardExport MemoryInfo *AcquireVirtualMemory(const size_t count,
           memory_info->type=AlignedVirtualMemory;
           return(memory_info);
         }
+      RelinquishWizardResource(MemoryResource,length);
     }
-  RelinquishWizardResource(MemoryResource,length);
   if (AcquireWizardResource(MapResource,length) != WizardFalse)
     {
       /*
@@ -545,10 +545,10 @@ WizardExport MemoryInfo *AcquireVirtualMemory(const size_t count,
                 WizardTrue);
               *memory_info->filename = '\0';
             }
+          RelinquishWizardResource(DiskResource,length);
         }
-      RelinquishWizardResource(DiskResource,length);
+      RelinquishWizardResource(MapResource,length);
     }
-  RelinquishWizardResource(MapResource,length);
   if (memory_info->blob == NULL)
     {
       memory_info->blob=AcquireWizardMemory(length);
-- 
2.43.0


From d6e8207f07138b5c269b3d5276cfa0a7f0a77a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:28 +0000
Subject: [PATCH 13/19] fix: remove the temporary file that exceeds the file
 limit

---
 wizard/resource.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 361db6c..ff6f9ec 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -341,7 +341,7 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
       if (close(file) == -1)
         (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
           "unable to close file `%s': %s",filename,strerror(errno));
-      if (remove_utf8(path) == -1)
+      if (remove_utf8(filename) == -1)
         (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
           "unable to remove file `%s': %s",filename,strerror(errno));
       return(-1);
-- 
2.43.0


From 9a2ac613f516dde699ed89ed87ae637a63b8ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:28 +0000
Subject: [PATCH 14/19] fix: relinquish the file resource of a temporary file

---
 wizard/resource.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index ff6f9ec..71d2d00 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -858,8 +858,9 @@ WizardExport WizardBooleanType RelinquishUniqueFileResource(const char *path,
           break;
         p=(char *) GetNextKeyInSplayTree(temporary_resources);
       }
-      if (p != (char *) NULL)
-        (void) DeleteNodeFromSplayTree(temporary_resources,p);
+      if ((p != (char *) NULL) &&
+          (DeleteNodeFromSplayTree(temporary_resources,p) != WizardFalse))
+        RelinquishWizardResource(FileResource,1);
     }
   if (trash == WizardFalse)
     return(WizardTrue);
-- 
2.43.0


From a5dc745e9ab05508e638ba045f2822e70bd74a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:28 +0000
Subject: [PATCH 15/19] fix: refuse resource requests that wrap around

---
 wizard/resource.c | 50 ++++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 71d2d00..42513b5 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -385,6 +385,20 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
 %    o size: The number of bytes needed from for this resource.
 %
 */
+static inline WizardBooleanType IsResourceAvailable(
+  const WizardOffsetType resource,const WizardSizeType size,
+  const WizardSizeType limit)
+{
+  WizardSizeType
+    extent;
+
+  extent=(WizardSizeType) resource+size;
+  if ((extent < size) || ((WizardOffsetType) extent < 0))
+    return(WizardFalse);
+  return((limit == WizardResourceInfinity) || (extent < limit) ? WizardTrue :
+    WizardFalse);
+}
+
 WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
   const WizardSizeType size)
 {
@@ -420,13 +434,10 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case MemoryResource:
     {
-      resource_info.memory+=size;
       limit=resource_info.memory_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.memory < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.memory-=(WizardOffsetType) size;
+      status=IsResourceAvailable(resource_info.memory,size,limit);
+      if (status != WizardFalse)
+        resource_info.memory+=size;
       (void) FormatWizardSize((WizardSizeType) resource_info.memory,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.memory_limit,WizardTrue,
@@ -435,13 +446,10 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case MapResource:
     {
-      resource_info.map+=size;
       limit=resource_info.map_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.map < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.map-=(WizardOffsetType) size;
+      status=IsResourceAvailable(resource_info.map,size,limit);
+      if (status != WizardFalse)
+        resource_info.map+=size;
       (void) FormatWizardSize((WizardSizeType) resource_info.map,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.map_limit,WizardTrue,
@@ -450,13 +458,10 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case DiskResource:
     {
-      resource_info.disk+=size;
       limit=resource_info.disk_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.disk < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.disk-=(WizardOffsetType) size;
+      status=IsResourceAvailable(resource_info.disk,size,limit);
+      if (status != WizardFalse)
+        resource_info.disk+=size;
       (void) FormatWizardSize((WizardSizeType) resource_info.disk,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.disk_limit,WizardTrue,
@@ -465,13 +470,10 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case FileResource:
     {
-      resource_info.file+=size;
       limit=resource_info.file_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.file < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.file-=(WizardOffsetType) size;
+      status=IsResourceAvailable(resource_info.file,size,limit);
+      if (status != WizardFalse)
+        resource_info.file+=size;
       (void) FormatWizardSize((WizardSizeType) resource_info.file,WizardFalse,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize((WizardSizeType) resource_info.file_limit,
-- 
2.43.0


From 1d2f70ef626587d6784c6374409661f3f28ccf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:43 +0000
Subject: [PATCH 16/19] fix: tell temporary files apart whose names differ in
 case only

---
 wizard/resource.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 42513b5..21f54fa 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -178,6 +178,11 @@ WizardExport WizardBooleanType AcquireUniqueFilename(char *path,
 %
 */
 
+static int CompareTemporaryResources(const void *target,const void *source)
+{
+  return(strcmp((const char *) target,(const char *) source));
+}
+
 static void *DestroyTemporaryResources(void *temporary_resource)
 {
   (void) remove_utf8((char *) temporary_resource);
@@ -350,7 +355,7 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
     ActivateSemaphoreInfo(&resource_semaphore);
   LockSemaphoreInfo(resource_semaphore);
   if (temporary_resources == (SplayTreeInfo *) NULL)
-    temporary_resources=NewSplayTree(CompareSplayTreeString,
+    temporary_resources=NewSplayTree(CompareTemporaryResources,
       DestroyTemporaryResources,(void *(*)(void *)) NULL);
   UnlockSemaphoreInfo(resource_semaphore);
   (void) AddValueToSplayTree(temporary_resources,ConstantString(filename),
@@ -856,7 +861,7 @@ WizardExport WizardBooleanType RelinquishUniqueFileResource(const char *path,
       p=(char *) GetNextKeyInSplayTree(temporary_resources);
       while (p != (char *) NULL)
       {
-        if (LocaleCompare(p,path) == 0)
+        if (strcmp(p,path) == 0)
           break;
         p=(char *) GetNextKeyInSplayTree(temporary_resources);
       }
-- 
2.43.0


From a5089b2b443f7c7a82efda928f5b6c7463f3f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:59 +0000
Subject: [PATCH 17/19] fix: carry the eighth SHA-224 state word over block
 boundaries

TransformSHA2224() updated only seven of the eight chaining words, so the
digest of any message that spans more than one block (56 bytes and up) was
not SHA-224.  The truncation to 28 bytes only concerns the output.
---
 wizard/sha2224.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/sha2224.c b/wizard/sha2224.c
index bf17f6d..54cf2cb 100644
--- a/wizard/sha2224.c
+++ b/wizard/sha2224.c
@@ -566,6 +566,7 @@ static void TransformSHA2224(SHA2224Info *sha_info)
   sha_info->accumulator[4]=Trunc32(sha_info->accumulator[4]+E);
   sha_info->accumulator[5]=Trunc32(sha_info->accumulator[5]+F);
   sha_info->accumulator[6]=Trunc32(sha_info->accumulator[6]+G);
+  sha_info->accumulator[7]=Trunc32(sha_info->accumulator[7]+H);
   /*
     Reset working registers.
   */
-- 
2.43.0


From 85c1c641253f0878d9ffa843b1e1e34d5bae6f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:52:55 +0000
Subject: [PATCH 18/19] fix: Serpent works on blocks of 16 bytes

The cipher reported 32, so that the second half of each block was copied
through the modes without being enciphered.
---
 wizard/serpent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/serpent.c b/wizard/serpent.c
index 3d751fe..5b9b98a 100644
--- a/wizard/serpent.c
+++ b/wizard/serpent.c
@@ -70,7 +70,7 @@ struct _SerpentInfo
   (value)|=(*p++) << 16; \
   (value)|=(*p++) << 24; \
 }
-#define SerpentBlocksize 32
+#define SerpentBlocksize 16
 #define Write32Bits(p,value) \
 { \
   *p++=(unsigned char) (value); \
-- 
2.43.0


From 9379da9abbd7ab487c2f37ab61ec744cf038613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:29:29 +0000
Subject: [PATCH 19/19] fix: random values stay below 1.0

Only the largest key was rejected, but the upper 1024 keys round to the
same double as the range and gave 1.0, which the interval excludes.
---
 wizard/random.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wizard/random.c b/wizard/random.c
index ad344d5..bdf4d55 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -877,6 +877,9 @@ WizardExport unsigned long GetRandomSecretKey(const RandomInfo *random_info)
 */
 WizardExport double GetRandomValue(RandomInfo *random_info)
 {
+  double
+    value;
+
   unsigned long
     key,
     range;
@@ -885,8 +888,9 @@ WizardExport double GetRandomValue(RandomInfo *random_info)
   do
   {
     SetRandomKey(random_info,sizeof(key),(unsigned char *) &key);
-  } while (key == range);
-  return((double) key/range);
+    value=(double) key/range;
+  } while (value >= 1.0);
+  return(value);
 }
 
 /*
-- 
2.43.0

