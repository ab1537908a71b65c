From 9e98491a9cb2312f3fa32cd94ae0c45037748572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:53 +0000
Subject: [PATCH 01/28] fix: fall back to the global chunk types inside a
 registered FORM scope

---
 src/libiff/chunkregistry.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libiff/chunkregistry.c b/src/libiff/chunkregistry.c
index 7de22f7..1134a5d 100644
--- a/src/libiff/chunkregistry.c
+++ b/src/libiff/chunkregistry.c
@@ -90,13 +90,14 @@ IFF_ChunkType *IFF_findChunkType(const IFF_ChunkRegistry *chunkRegistry, const I
     {
         /* Search for the requested FORM chunk types */
         const IFF_FormChunkTypes *formChunkTypes = getFormChunkTypes(formType, chunkRegistry);
-        IFF_ChunkType *result;
+        IFF_ChunkType *result = NULL;
 
-        if(formChunkTypes == NULL)
-            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
-        else
+        if(formChunkTypes != NULL)
             result = getChunkType(chunkId, formChunkTypes->chunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
 
+        if(result == NULL)
+            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* If there is no FORM-specific chunk type, search for a global one */
+
         if(result == NULL)
             return chunkRegistry->defaultChunkType;
         else
-- 
2.43.0


From c23eec8567486b515d75f0cf599bf1ee652f5200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:23 +0000
Subject: [PATCH 02/28] fix: do not access fields of chunks that are smaller
 than the field

---
 src/libiff/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/field.c b/src/libiff/field.c
index 29ccfc8..aea7f23 100644
--- a/src/libiff/field.c
+++ b/src/libiff/field.c
@@ -30,7 +30,7 @@ IFF_Bool IFF_deriveSuccess(const IFF_FieldStatus status)
 
 static IFF_Bool fieldDoesNotFitInChunk(const size_t fieldSize, const IFF_Long chunkSize, const IFF_Long bytesProcessed)
 {
-    return bytesProcessed > chunkSize - fieldSize;
+    return chunkSize < (IFF_Long)fieldSize || bytesProcessed > chunkSize - (IFF_Long)fieldSize;
 }
 
 static void increaseBytesProcessed(IFF_Long *bytesProcessed, const size_t fieldSize)
-- 
2.43.0


From 0736dab1b96b2f5ba02ad8ebf089ca765373b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:26 +0000
Subject: [PATCH 03/28] fix: detect the end of the file while skipping unknown
 bytes in a chunk

---
 src/libiff/io.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index 9d03487..159d443 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -210,20 +210,23 @@ IFF_Bool IFF_skipUnknownBytes(FILE *file, const IFF_ID chunkId, const IFF_Long c
 {
     if(bytesProcessed < chunkSize)
     {
-        long bytesToSkip = chunkSize - bytesProcessed;
+        IFF_Long bytesToSkip = chunkSize - bytesProcessed;
+        IFF_Long i;
 
-        if(fseek(file, bytesToSkip, SEEK_CUR) == 0)
+        /* Read the bytes instead of seeking, because seeking beyond the end of a file succeeds and streams such as pipes are not seekable */
+        for(i = 0; i < bytesToSkip; i++)
         {
-            IFF_error("Cannot skip: %d bytes in data chunk: '", bytesToSkip);
-            IFF_errorId(chunkId);
-            IFF_error("'\n");
-            return TRUE;
+            if(fgetc(file) == EOF)
+            {
+                IFF_error("Cannot skip: %d bytes in data chunk: '", bytesToSkip);
+                IFF_errorId(chunkId);
+                IFF_error("'\n");
+                return FALSE;
+            }
         }
-        else
-            return FALSE;
     }
-    else
-        return TRUE;
+
+    return TRUE;
 }
 
 IFF_Bool IFF_writeZeroFillerBytes(FILE *file, const IFF_ID chunkId, const IFF_Long chunkSize, const IFF_Long bytesProcessed)
-- 
2.43.0


From 067302a21df1fbf60e8ce807118faa15ab9cdca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:28 +0000
Subject: [PATCH 04/28] fix: report write errors that occur while flushing or
 closing a file

---
 src/libiff/iff.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/libiff/iff.c b/src/libiff/iff.c
index d2c3942..26b21a9 100644
--- a/src/libiff/iff.c
+++ b/src/libiff/iff.c
@@ -92,7 +92,17 @@ IFF_Chunk *IFF_read(const char *filename, const IFF_ChunkRegistry *chunkRegistry
 
 IFF_Bool IFF_writeFd(FILE *file, const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)
 {
-    return IFF_writeChunk(file, chunk, 0, selectChunkRegistry(chunkRegistry));
+    if(!IFF_writeChunk(file, chunk, 0, selectChunkRegistry(chunkRegistry)))
+        return FALSE;
+
+    /* Data may still be buffered. Only when it has been flushed, we know that it has been written */
+    if(fflush(file) != 0)
+    {
+        IFF_error("ERROR: cannot write all data to the file!\n");
+        return FALSE;
+    }
+
+    return TRUE;
 }
 
 IFF_Bool IFF_writeFile(const char *filename, const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)
@@ -107,7 +117,13 @@ IFF_Bool IFF_writeFile(const char *filename, const IFF_Chunk *chunk, const IFF_C
     }
 
     status = IFF_writeFd(file, chunk, chunkRegistry);
-    fclose(file);
+
+    if(fclose(file) != 0)
+    {
+        IFF_error("ERROR: cannot close file: %s\n", filename);
+        status = FALSE;
+    }
+
     return status;
 }
 
-- 
2.43.0


From a5c6f2faad827e4a0cc6acb80655946390fa1571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:31 +0000
Subject: [PATCH 05/28] fix: free the intermediate results while searching for
 forms

---
 src/libiff/form.c  | 4 ++++
 src/libiff/group.c | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/libiff/form.c b/src/libiff/form.c
index 788d609..d4132dc 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -196,6 +196,10 @@ IFF_Form **IFF_mergeFormArray(IFF_Form **target, unsigned int *targetLength, IFF
     unsigned int i;
     unsigned int newLength = *targetLength + sourceLength;
 
+    /* If there is nothing to merge, keep the target as it is. Reallocating to 0 bytes is not portable */
+    if(sourceLength == 0)
+        return target;
+
     target = (IFF_Form**)realloc(target, newLength * sizeof(IFF_Form*));
 
     for(i = 0; i < sourceLength; i++)
diff --git a/src/libiff/group.c b/src/libiff/group.c
index c180a21..53ed87a 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -262,6 +262,7 @@ IFF_Form **IFF_searchFormsInGroup(IFF_Group *group, const IFF_ID *formTypes, con
         IFF_Form **result = IFF_searchFormsFromArray(group->chunk[i], formTypes, formTypesLength, &resultLength);
 
         forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
+        free(result);
     }
 
     return forms;
-- 
2.43.0


From e7910cb1b236629d4409686d06fbfd4c15e639af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 06/28] fix: pass arguments matching the format specifiers to
 the diagnostics

---
 src/libiff/group.c | 2 +-
 src/libiff/io.c    | 2 +-
 src/libiff/list.c  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index 53ed87a..4de8436 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -89,7 +89,7 @@ static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_Chunk
     }
 
     if(*bytesProcessed > group->chunkSize)
-        IFF_error("WARNING: truncated group chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", group->chunkSize, bytesProcessed);
+        IFF_error("WARNING: truncated group chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", group->chunkSize, *bytesProcessed);
 
     return TRUE;
 }
diff --git a/src/libiff/io.c b/src/libiff/io.c
index 159d443..7342da0 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -239,7 +239,7 @@ IFF_Bool IFF_writeZeroFillerBytes(FILE *file, const IFF_ID chunkId, const IFF_Lo
 
         if(!status)
         {
-            IFF_error("Cannot write: %u zero bytes in data chunk: '", bytesToSkip);
+            IFF_error("Cannot write: %u zero bytes in data chunk: '", (unsigned int)bytesToSkip);
             IFF_errorId(chunkId);
             IFF_error("'\n");
         }
diff --git a/src/libiff/list.c b/src/libiff/list.c
index bcc75dd..74f7369 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -102,7 +102,7 @@ static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkReg
     }
 
     if(*bytesProcessed > list->chunkSize)
-        IFF_error("WARNING: truncated LIST chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", list->chunkSize, bytesProcessed);
+        IFF_error("WARNING: truncated LIST chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", list->chunkSize, *bytesProcessed);
 
     return TRUE;
 }
-- 
2.43.0


From 30b6a5ec8a15467709b5e2bfc2e97d294d0d3da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 07/28] fix: also compare the chunk sizes of PROP chunks in
 lists

---
 src/libiff/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/list.c b/src/libiff/list.c
index 74f7369..0f6eab2 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -256,7 +256,7 @@ static IFF_Bool compareListPropChunks(const IFF_List *list1, const IFF_List *lis
 
         for(i = 0; i < list1->propLength; i++)
         {
-            if(!IFF_compareProp((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[i], chunkRegistry))
+            if(!IFF_compareChunk((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[i], list1->contentsType, chunkRegistry))
                return FALSE;
         }
 
-- 
2.43.0


From df316a4f433c1b29beea6bc250333cd6cffe136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:20 +0000
Subject: [PATCH 08/28] fix: reject chunks with a negative size

---
 src/libiff/chunk.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libiff/chunk.c b/src/libiff/chunk.c
index 18d6a48..e5f4ab9 100644
--- a/src/libiff/chunk.c
+++ b/src/libiff/chunk.c
@@ -74,6 +74,15 @@ IFF_Chunk *IFF_readChunk(FILE *file, const IFF_ID formType, const IFF_ChunkRegis
         || !IFF_readLong(file, &chunkSize, chunkId, "chunkSize"))
         return NULL;
 
+    /* A chunk cannot have a negative size */
+    if(chunkSize < 0)
+    {
+        IFF_error("Negative chunk size of '");
+        IFF_errorId(chunkId);
+        IFF_error("': %d\n", chunkSize);
+        return NULL;
+    }
+
     return readChunkBody(file, chunkId, chunkSize, formType, chunkRegistry);
 }
 
-- 
2.43.0


From 8b19fc6d0f6ac6b1704a1bf43486e92bd5158e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:24 +0000
Subject: [PATCH 09/28] fix: report failing memory allocations while adding
 chunks to groups

---
 src/libiff/cat.c   | 17 +++++++++++++----
 src/libiff/cat.h   |  6 ++++--
 src/libiff/form.c  |  4 ++--
 src/libiff/form.h  |  3 ++-
 src/libiff/group.c | 26 +++++++++++++++++++++-----
 src/libiff/group.h |  6 ++++--
 src/libiff/list.c  | 37 +++++++++++++++++++++++++------------
 src/libiff/list.h  |  9 ++++++---
 src/libiff/prop.c  |  4 ++--
 src/libiff/prop.h  |  3 ++-
 10 files changed, 81 insertions(+), 34 deletions(-)

diff --git a/src/libiff/cat.c b/src/libiff/cat.c
index bb8db66..7dbb21a 100644
--- a/src/libiff/cat.c
+++ b/src/libiff/cat.c
@@ -65,15 +65,24 @@ static void updateContentsType(IFF_CAT *cat, IFF_Chunk *chunk)
     }
 }
 
-void IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk)
+IFF_Bool IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk)
 {
-    IFF_addToGroup((IFF_Group*)cat, chunk);
+    return IFF_addToGroup((IFF_Group*)cat, chunk);
 }
 
-void IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk)
+IFF_Bool IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk)
 {
+    const IFF_ID contentsType = cat->contentsType;
+
     updateContentsType(cat, chunk);
-    IFF_addToCAT(cat, chunk);
+
+    if(!IFF_addToCAT(cat, chunk))
+    {
+        cat->contentsType = contentsType; /* The chunk has not been added */
+        return FALSE;
+    }
+
+    return TRUE;
 }
 
 IFF_Bool IFF_readCAT(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
diff --git a/src/libiff/cat.h b/src/libiff/cat.h
index 9113b3e..66b1d5c 100644
--- a/src/libiff/cat.h
+++ b/src/libiff/cat.h
@@ -110,8 +110,9 @@ IFF_Chunk *IFF_createUnparsedCAT(const IFF_ID chunkId, const IFF_Long chunkSize)
  *
  * @param cat An instance of a CAT struct
  * @param chunk A FORM, CAT or LIST chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
  */
-void IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk);
+IFF_Bool IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk);
 
 /**
  * Adds a chunk to the body of the given CAT and updates the contents type.
@@ -121,8 +122,9 @@ void IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk);
  *
  * @param cat An instance of a CAT struct
  * @param chunk A FORM, CAT or LIST chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
  */
-void IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk);
+IFF_Bool IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk);
 
 /**
  * Reads a concatenation chunk and its sub chunks from a file.
diff --git a/src/libiff/form.c b/src/libiff/form.c
index d4132dc..6ea1086 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -75,9 +75,9 @@ IFF_Chunk *IFF_createUnparsedForm(const IFF_ID chunkId, const IFF_Long chunkSize
     return IFF_createUnparsedGroup(chunkId, chunkSize);
 }
 
-void IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk)
+IFF_Bool IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk)
 {
-    IFF_addToGroup((IFF_Group*)form, chunk);
+    return IFF_addToGroup((IFF_Group*)form, chunk);
 }
 
 IFF_Bool IFF_readForm(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
diff --git a/src/libiff/form.h b/src/libiff/form.h
index 74ee595..5e40444 100644
--- a/src/libiff/form.h
+++ b/src/libiff/form.h
@@ -98,8 +98,9 @@ IFF_Chunk *IFF_createUnparsedForm(const IFF_ID chunkId, const IFF_Long chunkSize
  *
  * @param form An instance of a FORM chunk
  * @param chunk An arbitrary group or data chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
  */
-void IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk);
+IFF_Bool IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk);
 
 /**
  * Reads a form chunk and its sub chunks from a file.
diff --git a/src/libiff/group.c b/src/libiff/group.c
index 4de8436..6a6fe84 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -57,18 +57,30 @@ IFF_Chunk *IFF_createUnparsedGroup(const IFF_ID chunkId, const IFF_Long chunkSiz
     return (IFF_Chunk*)IFF_createGroup(chunkId, chunkSize, 0);
 }
 
-void IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
+IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
 {
-    group->chunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));
+    IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));
+
+    if(newChunk == NULL)
+    {
+        IFF_error("Cannot allocate memory for a sub chunk!\n");
+        return FALSE;
+    }
+
+    group->chunk = newChunk;
     group->chunk[group->chunkLength] = chunk;
     group->chunkLength++;
     chunk->parent = group;
+    return TRUE;
 }
 
-void IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk)
+IFF_Bool IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk)
 {
-    IFF_attachToGroup(group, chunk);
+    if(!IFF_attachToGroup(group, chunk))
+        return FALSE;
+
     group->chunkSize = IFF_incrementChunkSize(group->chunkSize, chunk);
+    return TRUE;
 }
 
 static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
@@ -82,7 +94,11 @@ static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_Chunk
             return FALSE;
 
         /* Attach chunk to the group */
-        IFF_attachToGroup(group, chunk);
+        if(!IFF_attachToGroup(group, chunk))
+        {
+            IFF_freeChunk(chunk, group->groupType, chunkRegistry);
+            return FALSE;
+        }
 
         /* Increase the bytes processed counter */
         *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);
diff --git a/src/libiff/group.h b/src/libiff/group.h
index 6490c74..a605102 100644
--- a/src/libiff/group.h
+++ b/src/libiff/group.h
@@ -103,8 +103,9 @@ IFF_Chunk *IFF_createUnparsedGroup(const IFF_ID chunkId, const IFF_Long chunkSiz
  *
  * @param group An instance of a group chunk
  * @param chunk An arbitrary group or data chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
  */
-void IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
+IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
 
 /**
  * Adds a chunk to the body of the given group. This function also increments the
@@ -112,8 +113,9 @@ void IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
  *
  * @param group An instance of a group chunk
  * @param chunk An arbitrary group or data chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
  */
-void IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk);
+IFF_Bool IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk);
 
 /**
  * Reads a group chunk and its sub chunks from a file.
diff --git a/src/libiff/list.c b/src/libiff/list.c
index 0f6eab2..c05f3f0 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -57,28 +57,40 @@ IFF_Chunk *IFF_createUnparsedList(const IFF_ID chunkId, const IFF_Long chunkSize
     return (IFF_Chunk*)IFF_createList(chunkSize, 0);
 }
 
-static void addPropToList(IFF_List *list, IFF_Prop *prop)
+static IFF_Bool addPropToList(IFF_List *list, IFF_Prop *prop)
 {
-    list->prop = (IFF_Prop**)realloc(list->prop, (list->propLength + 1) * sizeof(IFF_Prop*));
+    IFF_Prop **newProp = (IFF_Prop**)realloc(list->prop, (list->propLength + 1) * sizeof(IFF_Prop*));
+
+    if(newProp == NULL)
+    {
+        IFF_error("Cannot allocate memory for a PROP chunk!\n");
+        return FALSE;
+    }
+
+    list->prop = newProp;
     list->prop[list->propLength] = prop;
     list->propLength++;
     prop->parent = (IFF_Group*)list;
+    return TRUE;
 }
 
-void IFF_addPropToList(IFF_List *list, IFF_Prop *prop)
+IFF_Bool IFF_addPropToList(IFF_List *list, IFF_Prop *prop)
 {
-    addPropToList(list, prop);
+    if(!addPropToList(list, prop))
+        return FALSE;
+
     list->chunkSize = IFF_incrementChunkSize(list->chunkSize, (IFF_Chunk*)prop);
+    return TRUE;
 }
 
-void IFF_addToList(IFF_List *list, IFF_Chunk *chunk)
+IFF_Bool IFF_addToList(IFF_List *list, IFF_Chunk *chunk)
 {
-    IFF_addToCAT((IFF_CAT*)list, chunk);
+    return IFF_addToCAT((IFF_CAT*)list, chunk);
 }
 
-void IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk)
+IFF_Bool IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk)
 {
-    IFF_addToCATAndUpdateContentsType((IFF_CAT*)list, chunk);
+    return IFF_addToCATAndUpdateContentsType((IFF_CAT*)list, chunk);
 }
 
 static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
@@ -92,10 +104,11 @@ static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkReg
             return FALSE;
 
         /* Add the PROP chunk or arbitrary sub chunk */
-        if(chunk->chunkId == IFF_ID_PROP)
-            addPropToList(list, (IFF_Prop*)chunk);
-        else
-            IFF_attachToGroup((IFF_Group*)list, chunk);
+        if(!(chunk->chunkId == IFF_ID_PROP ? addPropToList(list, (IFF_Prop*)chunk) : IFF_attachToGroup((IFF_Group*)list, chunk)))
+        {
+            IFF_freeChunk(chunk, list->contentsType, chunkRegistry);
+            return FALSE;
+        }
 
         /* Increase the bytes processed counter */
         *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);
diff --git a/src/libiff/list.h b/src/libiff/list.h
index 0ed5b02..5aedc54 100644
--- a/src/libiff/list.h
+++ b/src/libiff/list.h
@@ -116,8 +116,9 @@ IFF_Chunk *IFF_createUnparsedList(const IFF_ID chunkId, const IFF_Long chunkSize
  *
  * @param list An instance of a list struct
  * @param prop A PROP chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
  */
-void IFF_addPropToList(IFF_List *list, IFF_Prop *prop);
+IFF_Bool IFF_addPropToList(IFF_List *list, IFF_Prop *prop);
 
 /**
  * Adds a chunk to the body of the given list. This function also increments the
@@ -125,8 +126,9 @@ void IFF_addPropToList(IFF_List *list, IFF_Prop *prop);
  *
  * @param list An instance of a list struct
  * @param chunk A FORM, CAT or LIST chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
  */
-void IFF_addToList(IFF_List *list, IFF_Chunk *chunk);
+IFF_Bool IFF_addToList(IFF_List *list, IFF_Chunk *chunk);
 
 /**
  * Adds a chunk to the body of the given list.
@@ -136,8 +138,9 @@ void IFF_addToList(IFF_List *list, IFF_Chunk *chunk);
  *
  * @param list An instance of a list struct
  * @param chunk A FORM, CAT or LIST chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
  */
-void IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk);
+IFF_Bool IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk);
 
 /**
  * Reads a list chunk and its sub chunks from a file.
diff --git a/src/libiff/prop.c b/src/libiff/prop.c
index 87f56d2..ba964e8 100644
--- a/src/libiff/prop.c
+++ b/src/libiff/prop.c
@@ -46,9 +46,9 @@ IFF_Chunk *IFF_createUnparsedProp(const IFF_ID chunkId, const IFF_Long chunkSize
     return IFF_createUnparsedGroup(chunkId, chunkSize);
 }
 
-void IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk)
+IFF_Bool IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk)
 {
-    IFF_addToForm((IFF_Form*)prop, chunk);
+    return IFF_addToForm((IFF_Form*)prop, chunk);
 }
 
 IFF_Bool IFF_readProp(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
diff --git a/src/libiff/prop.h b/src/libiff/prop.h
index bfd152c..8a6c2b0 100644
--- a/src/libiff/prop.h
+++ b/src/libiff/prop.h
@@ -72,8 +72,9 @@ IFF_Chunk *IFF_createUnparsedProp(const IFF_ID chunkId, const IFF_Long chunkSize
  *
  * @param prop An instance of a PROP chunk
  * @param chunk A data chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
  */
-void IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk);
+IFF_Bool IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk);
 
 /**
  * Reads a PROP chunk and its sub chunks from a file.
-- 
2.43.0


From 443f0d66b9ea0a8ce27f60c0c2b5f541c450b595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 10/28] fix: handle failing memory allocations while searching
 for forms and chunks

---
 src/libiff/form.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/libiff/form.c b/src/libiff/form.c
index 6ea1086..806296e 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -195,12 +195,21 @@ IFF_Form **IFF_mergeFormArray(IFF_Form **target, unsigned int *targetLength, IFF
 {
     unsigned int i;
     unsigned int newLength = *targetLength + sourceLength;
+    IFF_Form **newTarget;
 
     /* If there is nothing to merge, keep the target as it is. Reallocating to 0 bytes is not portable */
     if(sourceLength == 0)
         return target;
 
-    target = (IFF_Form**)realloc(target, newLength * sizeof(IFF_Form*));
+    newTarget = (IFF_Form**)realloc(target, newLength * sizeof(IFF_Form*));
+
+    if(newTarget == NULL)
+    {
+        IFF_error("Cannot allocate memory for the forms found!\n");
+        return target;
+    }
+
+    target = newTarget;
 
     for(i = 0; i < sourceLength; i++)
         target[i + *targetLength] = source[i];
@@ -222,6 +231,14 @@ IFF_Form **IFF_searchFormsInForm(IFF_Form *form, const IFF_ID *formTypes, const
         if(form->formType == formType)
         {
             IFF_Form **forms = (IFF_Form**)malloc(sizeof(IFF_Form*));
+
+            if(forms == NULL)
+            {
+                IFF_error("Cannot allocate memory for the forms found!\n");
+                *formsLength = 0;
+                return NULL;
+            }
+
             forms[0] = form;
             *formsLength = 1;
 
@@ -328,7 +345,17 @@ IFF_Chunk **IFF_getChunksFromForm(const IFF_Form *form, const IFF_ID chunkId, un
     {
         if(form->chunk[i]->chunkId == chunkId)
         {
-            result = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));
+            IFF_Chunk **newResult = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));
+
+            if(newResult == NULL)
+            {
+                IFF_error("Cannot allocate memory for the chunks found!\n");
+                free(result);
+                *chunksLength = 0;
+                return NULL;
+            }
+
+            result = newResult;
             result[*chunksLength] = form->chunk[i];
             *chunksLength = *chunksLength + 1;
         }
-- 
2.43.0


From 6025d9d20072963447287759fcbb3f3cacb8f005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:01 +0000
Subject: [PATCH 11/28] fix: report a failing memory allocation while writing
 zero filler bytes

---
 src/libiff/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index 7342da0..72b11e8 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -235,7 +235,7 @@ IFF_Bool IFF_writeZeroFillerBytes(FILE *file, const IFF_ID chunkId, const IFF_Lo
     {
         size_t bytesToSkip = chunkSize - bytesProcessed;
         IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
-        IFF_Bool status = fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
+        IFF_Bool status = emptyData != NULL && fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
 
         if(!status)
         {
-- 
2.43.0


From 5f2a3b1bebd90ad3a7327ba0c1ee8119abc659c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 12/28] fix: do not leak or dereference unavailable memory
 while setting text data

---
 src/libiff/rawchunk.c | 10 +++++++++-
 src/libiff/rawchunk.h |  5 +++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/libiff/rawchunk.c b/src/libiff/rawchunk.c
index b3d281a..105c21f 100644
--- a/src/libiff/rawchunk.c
+++ b/src/libiff/rawchunk.c
@@ -56,13 +56,21 @@ void IFF_setRawChunkData(IFF_RawChunk *rawChunk, IFF_UByte *chunkData, IFF_Long
     rawChunk->chunkSize = chunkSize;
 }
 
-void IFF_setTextData(IFF_RawChunk *rawChunk, const char *text)
+IFF_Bool IFF_setTextData(IFF_RawChunk *rawChunk, const char *text)
 {
     size_t textLength = strlen(text);
     IFF_UByte *chunkData = (IFF_UByte*)malloc(textLength * sizeof(IFF_UByte));
 
+    if(chunkData == NULL)
+    {
+        IFF_error("Cannot allocate memory for the text!\n");
+        return FALSE;
+    }
+
     memcpy(chunkData, text, textLength);
+    free(rawChunk->chunkData); /* Discard the data that gets replaced */
     IFF_setRawChunkData(rawChunk, chunkData, textLength);
+    return TRUE;
 }
 
 IFF_Bool IFF_readRawChunk(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
diff --git a/src/libiff/rawchunk.h b/src/libiff/rawchunk.h
index 9e9b8ab..19db09e 100644
--- a/src/libiff/rawchunk.h
+++ b/src/libiff/rawchunk.h
@@ -80,12 +80,13 @@ void IFF_setRawChunkData(IFF_RawChunk *rawChunk, IFF_UByte *chunkData, IFF_Long
 
 /**
  * Copies the given string into the data of the chunk. Additionally, it makes
- * the chunk size equal to the given string.
+ * the chunk size equal to the given string. The chunk's previous data is freed.
  *
  * @param rawChunk A raw chunk
  * @param text Text to store in the body
+ * @return TRUE if the text has been set, or FALSE if the memory can't be allocated. In the latter case, the chunk remains unchanged.
  */
-void IFF_setTextData(IFF_RawChunk *rawChunk, const char *text);
+IFF_Bool IFF_setTextData(IFF_RawChunk *rawChunk, const char *text);
 
 /**
  * Reads a raw chunk with the given chunk id and chunk size from a file.
-- 
2.43.0


From 26c08209df3ac7d5db476d62bbd8a168ef5ac069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 13/28] fix: free rejected inputs and handle failing memory
 allocations in iffjoin

---
 src/iffjoin/join.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/iffjoin/join.c b/src/iffjoin/join.c
index 5b89281..93669b1 100644
--- a/src/iffjoin/join.c
+++ b/src/iffjoin/join.c
@@ -34,19 +34,28 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
     unsigned int i;
     int status = 0;
 
+    if(cat == NULL)
+        return 1;
+
     for(i = 0; i < inputFilenamesLength; i++)
     {
         /* Open each input IFF file */
         IFF_Chunk *chunk = IFF_readFile(inputFilenames[i], NULL);
 
         /* Check whether the IFF file is valid */
-        if(chunk == NULL || !IFF_check(chunk, NULL))
+        if(chunk == NULL)
+        {
+            IFF_free((IFF_Chunk*)cat, NULL);
+            return 1;
+        }
+
+        /* Add the input IFF chunk to the concatenation */
+        if(!IFF_check(chunk, NULL) || !IFF_addToCATAndUpdateContentsType(cat, chunk))
         {
+            IFF_free(chunk, NULL);
             IFF_free((IFF_Chunk*)cat, NULL);
             return 1;
         }
-        else
-            IFF_addToCATAndUpdateContentsType(cat, chunk); /* Add the input IFF chunk to the concatenation */
     }
 
     /* Write the resulting CAT to the output file or standard output */
-- 
2.43.0


From 93d02fb71d3d0ade5e23905d2b3edd46dd474417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:31 +0000
Subject: [PATCH 14/28] fix: report write errors of the standard output in
 iffpp

---
 src/iffpp/pp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iffpp/pp.c b/src/iffpp/pp.c
index 643d28a..b8ea9be 100644
--- a/src/iffpp/pp.c
+++ b/src/iffpp/pp.c
@@ -20,6 +20,7 @@
  */
 
 #include "pp.h"
+#include <stdio.h>
 #include "iff.h"
 
 int IFF_prettyPrint(const char *filename, const int options)
@@ -42,7 +43,8 @@ int IFF_prettyPrint(const char *filename, const int options)
             /* Print the file */
             IFF_print(chunk, 0, NULL);
 
-            status = 0;
+            /* Check whether the output has been written */
+            status = fflush(stdout) != 0 || ferror(stdout) ? 1 : 0;
         }
         else
             status = 1;
-- 
2.43.0


From d465e9a32b253c2c155f2b51c8e7caafcc2f3787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:34 +0000
Subject: [PATCH 15/28] fix: accept filler chunks while checking conformance

---
 src/libiff/chunk.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libiff/chunk.c b/src/libiff/chunk.c
index e5f4ab9..bf05afc 100644
--- a/src/libiff/chunk.c
+++ b/src/libiff/chunk.c
@@ -105,7 +105,8 @@ IFF_Bool IFF_writeChunk(FILE *file, const IFF_Chunk *chunk, const IFF_ID formTyp
 
 IFF_Bool IFF_checkChunk(const IFF_Chunk *chunk, const IFF_ID formType, const IFF_ChunkRegistry *chunkRegistry)
 {
-    if(!IFF_checkId(chunk->chunkId))
+    /* The ID consisting of 4 spaces identifies a filler chunk */
+    if(chunk->chunkId != ID_EMPTY && !IFF_checkId(chunk->chunkId))
         return FALSE;
     else
     {
-- 
2.43.0


From 5e94b87d2fe9f42ad9d6cabe11cfa6dba78a86bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 16/28] fix: reject all punctuation marks in form types

---
 src/libiff/form.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/form.c b/src/libiff/form.c
index 806296e..fa51bde 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -104,7 +104,7 @@ IFF_Bool IFF_checkFormType(const IFF_ID formType)
     /* A form type is not allowed to have lowercase or puntuaction marks */
     for(i = 0; i < IFF_ID_SIZE; i++)
     {
-        if((formType2[i] >= 0x61 && formType2[i] <= 0x7a) || formType2[i] == '.')
+        if(!(formType2[i] >= 'A' && formType2[i] <= 'Z') && !(formType2[i] >= '0' && formType2[i] <= '9') && formType2[i] != ' ')
         {
             IFF_error("No lowercase characters or punctuation marks allowed in a form type ID!\n");
             return FALSE;
-- 
2.43.0


From 7402c5b8350a0df9a23353fc11e5d6fd7f8448e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 17/28] fix: accept PROP chunks that provide properties of a
 list

---
 src/libiff/prop.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libiff/prop.c b/src/libiff/prop.c
index ba964e8..b6cc6f1 100644
--- a/src/libiff/prop.c
+++ b/src/libiff/prop.c
@@ -78,9 +78,15 @@ static IFF_Bool subChunkCheck(const IFF_Group *group, const IFF_Chunk *subChunk)
         return TRUE;
 }
 
+static IFF_Bool checkPropFormType(const IFF_ID formType)
+{
+    /* A PROP with the fake form type: 'LIST' provides properties of the list itself */
+    return formType == IFF_ID_LIST || IFF_checkFormType(formType);
+}
+
 IFF_Bool IFF_checkProp(const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)
 {
-    return IFF_checkGroup((IFF_Group*)chunk, &IFF_checkFormType, &subChunkCheck, chunkRegistry);
+    return IFF_checkGroup((IFF_Group*)chunk, &checkPropFormType, &subChunkCheck, chunkRegistry);
 }
 
 void IFF_freeProp(IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)
-- 
2.43.0


From e7f900259ab2a87693a85204ddd0f832af4a2dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:43 +0000
Subject: [PATCH 18/28] fix: reject lists that have more than one PROP of the
 same form type

---
 src/libiff/list.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libiff/list.c b/src/libiff/list.c
index c05f3f0..33b43c5 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -185,6 +185,15 @@ static IFF_Long checkListPropChunks(const IFF_List *list, const IFF_ChunkRegistr
     {
         IFF_Chunk *propChunk = (IFF_Chunk*)list->prop[i];
 
+        /* A list may have at most one PROP of a form type */
+        if(IFF_getPropFromList(list, list->prop[i]->formType) != list->prop[i])
+        {
+            IFF_error("ERROR: LIST has more than one PROP with form type: '");
+            IFF_errorId(list->prop[i]->formType);
+            IFF_error("'\n");
+            return -1;
+        }
+
         if(!IFF_checkChunk(propChunk, list->contentsType, chunkRegistry))
             return -1;
 
-- 
2.43.0


From f9ffff864b3f5779a338aa18816f1c8628087521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 19/28] fix: avoid undefined shifts into the sign bit while
 byte swapping longs

---
 src/libiff/io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index 72b11e8..56ab679 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -177,7 +177,7 @@ IFF_Bool IFF_readLong(FILE *file, IFF_Long *value, const IFF_ID chunkId, const c
         *value = readValue;
 #else
         /* Byte swap it */
-        *value = (readValue & 0xff) << 24 | (readValue & 0xff00) << 8 | (readValue & 0xff0000) >> 8 | (readValue & 0xff000000) >> 24;
+        *value = ((IFF_ULong)readValue & 0xff) << 24 | (readValue & 0xff00) << 8 | (readValue & 0xff0000) >> 8 | (readValue & 0xff000000) >> 24;
 #endif
         return TRUE;
     }
@@ -194,7 +194,7 @@ IFF_Bool IFF_writeLong(FILE *file, const IFF_Long value, const IFF_ID chunkId, c
     IFF_Long writeValue = value;
 #else
     /* Byte swap it */
-    IFF_Long writeValue = (value & 0xff) << 24 | (value & 0xff00) << 8 | (value & 0xff0000) >> 8 | (value & 0xff000000) >> 24;
+    IFF_Long writeValue = ((IFF_ULong)value & 0xff) << 24 | (value & 0xff00) << 8 | (value & 0xff0000) >> 8 | (value & 0xff000000) >> 24;
 #endif
 
     if(fwrite(&writeValue, sizeof(IFF_Long), 1, file) == 1)
-- 
2.43.0


From ca785a585158be9f55a90c66cf4f320a59a2cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:52 +0000
Subject: [PATCH 20/28] fix: write PROP chunks in the same scope as the other
 operations on a list

---
 src/libiff/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/list.c b/src/libiff/list.c
index 33b43c5..c499ac8 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -146,7 +146,7 @@ static IFF_Bool writeListPropChunks(FILE *file, const IFF_List *list, const IFF_
 
     for(i = 0; i < list->propLength; i++)
     {
-        if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], 0, chunkRegistry))
+        if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], list->contentsType, chunkRegistry))
         {
             IFF_error("Error writing PROP!\n");
             return FALSE;
-- 
2.43.0


From 29452ee19cf8aafb05e3fc70333798b0c21c0075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 21/28] fix: refuse PROP chunks after other members of a list

---
 src/libiff/list.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libiff/list.c b/src/libiff/list.c
index c499ac8..c816458 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -103,6 +103,14 @@ static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkReg
         if(chunk == NULL)
             return FALSE;
 
+        /* PROP chunks must precede all other chunks. Otherwise, their position gets lost */
+        if(chunk->chunkId == IFF_ID_PROP && list->chunkLength > 0)
+        {
+            IFF_error("ERROR: PROP found after other chunks in a LIST!\n");
+            IFF_freeChunk(chunk, list->contentsType, chunkRegistry);
+            return FALSE;
+        }
+
         /* Add the PROP chunk or arbitrary sub chunk */
         if(!(chunk->chunkId == IFF_ID_PROP ? addPropToList(list, (IFF_Prop*)chunk) : IFF_attachToGroup((IFF_Group*)list, chunk)))
         {
-- 
2.43.0


From bf6afecfa7123731f51a3250ff0728e79f7fd1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:22 +0000
Subject: [PATCH 22/28] fix: do not pass empty arrays to bsearch

---
 src/libiff/chunkregistry.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libiff/chunkregistry.c b/src/libiff/chunkregistry.c
index 1134a5d..1628b1e 100644
--- a/src/libiff/chunkregistry.c
+++ b/src/libiff/chunkregistry.c
@@ -39,7 +39,7 @@ static int compareFormChunkTypes(const void *a, const void *b)
 
 const static IFF_FormChunkTypes *getFormChunkTypes(const IFF_ID formType, const IFF_ChunkRegistry *chunkRegistry)
 {
-    if(chunkRegistry == NULL)
+    if(chunkRegistry == NULL || chunkRegistry->formChunkTypesLength == 0) /* bsearch() does not accept a NULL array */
         return NULL;
     else
     {
@@ -73,7 +73,7 @@ static IFF_ChunkType *getChunkType(const IFF_ID chunkId, const IFF_ChunkTypesNod
         IFF_ChunkType key;
         key.chunkId = chunkId;
 
-        result = (IFF_ChunkType*)bsearch(&key, chunkTypesNode->chunkTypes, chunkTypesNode->chunkTypesLength, sizeof(IFF_ChunkType), &compareChunkTypes);
+        result = chunkTypesNode->chunkTypesLength == 0 ? NULL : (IFF_ChunkType*)bsearch(&key, chunkTypesNode->chunkTypes, chunkTypesNode->chunkTypesLength, sizeof(IFF_ChunkType), &compareChunkTypes);
 
         if(result == NULL)
             return getChunkType(chunkId, chunkTypesNode->parent);
-- 
2.43.0


From bb2428dd60f78f78dee26d4326f8c6568a39cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:28 +0000
Subject: [PATCH 23/28] fix: refuse sub chunks whose total size exceeds the
 maximum chunk size

---
 src/libiff/group.c | 19 +++++++++++++++----
 src/libiff/group.h |  2 +-
 src/libiff/list.c  |  6 ++++--
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index 6a6fe84..b0ae230 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -30,6 +30,8 @@
 #include "error.h"
 #include "util.h"
 
+#define IFF_LONG_MAX 0x7fffffff
+
 void IFF_initGroup(IFF_Group *group, const IFF_ID groupType)
 {
     group->groupType = groupType;
@@ -101,7 +103,8 @@ static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_Chunk
         }
 
         /* Increase the bytes processed counter */
-        *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);
+        if((*bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk)) < 0)
+            return FALSE;
     }
 
     if(*bytesProcessed > group->chunkSize)
@@ -139,7 +142,8 @@ IFF_Bool IFF_writeGroupSubChunks(FILE *file, const IFF_Group *group, const IFF_C
         }
 
         /* Increase the bytes processed counter */
-        *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, group->chunk[i]);
+        if((*bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, group->chunk[i])) < 0)
+            return FALSE;
     }
 
     return TRUE;
@@ -286,13 +290,20 @@ IFF_Form **IFF_searchFormsInGroup(IFF_Group *group, const IFF_ID *formTypes, con
 
 IFF_Long IFF_incrementChunkSize(const IFF_Long chunkSize, const IFF_Chunk *chunk)
 {
-    IFF_Long returnValue = chunkSize + IFF_ID_SIZE + sizeof(IFF_Long) + chunk->chunkSize;
+    IFF_ULong returnValue = (IFF_ULong)chunkSize + IFF_ID_SIZE + sizeof(IFF_Long);
 
     /* If the size of the nested chunk size is odd, we have to count the padding byte as well */
     if(chunk->chunkSize % 2 != 0)
         returnValue++;
 
-    return returnValue;
+    /* A chunk size is a signed 32-bit number. Without this check, it may overflow */
+    if(chunkSize < 0 || chunk->chunkSize < 0 || returnValue > (IFF_ULong)(IFF_LONG_MAX - chunk->chunkSize))
+    {
+        IFF_error("The total size of the sub chunks exceeds the maximum chunk size!\n");
+        return -1;
+    }
+
+    return returnValue + chunk->chunkSize;
 }
 
 void IFF_updateGroupChunkSizes(IFF_Group *group)
diff --git a/src/libiff/group.h b/src/libiff/group.h
index a605102..8c4a946 100644
--- a/src/libiff/group.h
+++ b/src/libiff/group.h
@@ -245,7 +245,7 @@ IFF_Form **IFF_searchFormsInGroup(IFF_Group *group, const IFF_ID *formTypes, con
  *
  * @param chunkSize Chunk size of a group chunk
  * @param chunk A sub chunk
- * @return The incremented chunk size with an optional padding byte
+ * @return The incremented chunk size with an optional padding byte, or -1 if it exceeds the maximum chunk size
  */
 IFF_Long IFF_incrementChunkSize(const IFF_Long chunkSize, const IFF_Chunk *chunk);
 
diff --git a/src/libiff/list.c b/src/libiff/list.c
index c816458..08c8153 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -119,7 +119,8 @@ static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkReg
         }
 
         /* Increase the bytes processed counter */
-        *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);
+        if((*bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk)) < 0)
+            return FALSE;
     }
 
     if(*bytesProcessed > list->chunkSize)
@@ -161,7 +162,8 @@ static IFF_Bool writeListPropChunks(FILE *file, const IFF_List *list, const IFF_
         }
 
         /* Increase the bytes processed counter */
-        *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, (IFF_Chunk*)list->prop[i]);
+        if((*bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, (IFF_Chunk*)list->prop[i])) < 0)
+            return FALSE;
     }
 
     return TRUE;
-- 
2.43.0


From 9963b20b94d9d917de324cca0754f02aa1e44c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:47 +0000
Subject: [PATCH 24/28] fix: do not let the size of a group body overflow in
 the conformance check

A built hierarchy whose sub chunks exceed the maximum chunk size made the sum
overflow, so that a group stating a negative size was accepted.
---
 src/libiff/group.c |  7 +++++++
 src/libiff/list.c  | 25 +++++++++++++++++++------
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index b0ae230..79252f5 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -208,6 +208,13 @@ IFF_Bool IFF_checkGroup(const IFF_Group *group, IFF_Bool (*groupTypeCheck) (cons
     if((chunkSize = IFF_checkGroupSubChunks(group, subChunkCheck, chunkRegistry)) == -1)
         return FALSE;
 
+    /* Without this check, the size of the body may overflow */
+    if(chunkSize > IFF_LONG_MAX - IFF_ID_SIZE)
+    {
+        IFF_error("The total size of the sub chunks exceeds the maximum chunk size!\n");
+        return FALSE;
+    }
+
     chunkSize += IFF_ID_SIZE;
 
     if(!IFF_checkGroupChunkSize(group, chunkSize))
diff --git a/src/libiff/list.c b/src/libiff/list.c
index 08c8153..7b8462c 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -27,6 +27,21 @@
 #include "cat.h"
 #include "error.h"
 
+#define IFF_LONG_MAX 0x7fffffff
+
+static IFF_Bool addSubChunkSize(IFF_Long *chunkSize, const IFF_Long subChunkSize)
+{
+    /* A chunk size is a signed 32-bit number. Without this check, it may overflow */
+    if(subChunkSize > IFF_LONG_MAX - *chunkSize)
+    {
+        IFF_error("The total size of the sub chunks exceeds the maximum chunk size!\n");
+        return FALSE;
+    }
+
+    *chunkSize = *chunkSize + subChunkSize;
+    return TRUE;
+}
+
 IFF_List *IFF_createList(const IFF_Long chunkSize, const IFF_ID contentsType)
 {
     IFF_List *list = (IFF_List*)IFF_createChunk(IFF_ID_LIST, chunkSize, sizeof(IFF_List));
@@ -224,17 +239,15 @@ IFF_Bool IFF_checkList(const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkReg
         return FALSE;
 
     /* Check validity of PROP chunks */
-    if((subChunkSize = checkListPropChunks(list, chunkRegistry)) == -1)
+    if((subChunkSize = checkListPropChunks(list, chunkRegistry)) == -1
+        || !addSubChunkSize(&chunkSize, subChunkSize))
         return FALSE;
 
-    chunkSize += subChunkSize;
-
     /* Check validity of other sub chunks */
-    if((subChunkSize = IFF_checkGroupSubChunks((IFF_Group*)list, &IFF_checkCATSubChunk, chunkRegistry)) == -1)
+    if((subChunkSize = IFF_checkGroupSubChunks((IFF_Group*)list, &IFF_checkCATSubChunk, chunkRegistry)) == -1
+        || !addSubChunkSize(&chunkSize, subChunkSize))
         return FALSE;
 
-    chunkSize += subChunkSize;
-
     /* Check whether the calculated chunk size matches the chunks' chunk size */
     if(!IFF_checkGroupChunkSize((IFF_Group*)list, chunkSize))
         return FALSE;
-- 
2.43.0


From dcc66276fa78c6a474a67ccd26474b748c6cf5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:26 +0000
Subject: [PATCH 25/28] fix: refuse texts that are too long for a chunk

IFF_setTextData() stored the length of a text in a signed 32-bit chunk size
without looking, so a text of 4 GB and 3 bytes became a chunk of 3 bytes, and
one of 2 GB a chunk with a negative size.
---
 src/libiff/rawchunk.c | 10 +++++++++-
 src/libiff/rawchunk.h |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libiff/rawchunk.c b/src/libiff/rawchunk.c
index 105c21f..850e79e 100644
--- a/src/libiff/rawchunk.c
+++ b/src/libiff/rawchunk.c
@@ -59,7 +59,15 @@ void IFF_setRawChunkData(IFF_RawChunk *rawChunk, IFF_UByte *chunkData, IFF_Long
 IFF_Bool IFF_setTextData(IFF_RawChunk *rawChunk, const char *text)
 {
     size_t textLength = strlen(text);
-    IFF_UByte *chunkData = (IFF_UByte*)malloc(textLength * sizeof(IFF_UByte));
+    IFF_UByte *chunkData;
+
+    if(textLength > 0x7fffffff) /* A chunk size is a signed 32-bit number */
+    {
+        IFF_error("The text is too long for a chunk!\n");
+        return FALSE;
+    }
+
+    chunkData = (IFF_UByte*)malloc(textLength * sizeof(IFF_UByte));
 
     if(chunkData == NULL)
     {
diff --git a/src/libiff/rawchunk.h b/src/libiff/rawchunk.h
index 19db09e..6f37bb5 100644
--- a/src/libiff/rawchunk.h
+++ b/src/libiff/rawchunk.h
@@ -84,7 +84,7 @@ void IFF_setRawChunkData(IFF_RawChunk *rawChunk, IFF_UByte *chunkData, IFF_Long
  *
  * @param rawChunk A raw chunk
  * @param text Text to store in the body
- * @return TRUE if the text has been set, or FALSE if the memory can't be allocated. In the latter case, the chunk remains unchanged.
+ * @return TRUE if the text has been set, or FALSE if the memory can't be allocated or the text is too long for a chunk. In the latter cases, the chunk remains unchanged.
  */
 IFF_Bool IFF_setTextData(IFF_RawChunk *rawChunk, const char *text);
 
-- 
2.43.0


From d8e17a5da37001c4199d75c1f25f0d0665c73942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:09 +0000
Subject: [PATCH 26/28] fix: refuse chunks that make a group too large

---
 src/libiff/cat.h   | 4 ++--
 src/libiff/form.h  | 2 +-
 src/libiff/group.c | 6 ++++--
 src/libiff/group.h | 2 +-
 src/libiff/list.c  | 6 ++++--
 src/libiff/list.h  | 6 +++---
 src/libiff/prop.h  | 2 +-
 7 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/libiff/cat.h b/src/libiff/cat.h
index 66b1d5c..095718a 100644
--- a/src/libiff/cat.h
+++ b/src/libiff/cat.h
@@ -110,7 +110,7 @@ IFF_Chunk *IFF_createUnparsedCAT(const IFF_ID chunkId, const IFF_Long chunkSize)
  *
  * @param cat An instance of a CAT struct
  * @param chunk A FORM, CAT or LIST chunk
- * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated or the group would get too large. In the latter cases, the group and chunk remain unchanged.
  */
 IFF_Bool IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk);
 
@@ -122,7 +122,7 @@ IFF_Bool IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk);
  *
  * @param cat An instance of a CAT struct
  * @param chunk A FORM, CAT or LIST chunk
- * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated or the group would get too large. In the latter cases, the group and chunk remain unchanged.
  */
 IFF_Bool IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk);
 
diff --git a/src/libiff/form.h b/src/libiff/form.h
index 5e40444..1c73545 100644
--- a/src/libiff/form.h
+++ b/src/libiff/form.h
@@ -98,7 +98,7 @@ IFF_Chunk *IFF_createUnparsedForm(const IFF_ID chunkId, const IFF_Long chunkSize
  *
  * @param form An instance of a FORM chunk
  * @param chunk An arbitrary group or data chunk
- * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated or the group would get too large. In the latter cases, the group and chunk remain unchanged.
  */
 IFF_Bool IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk);
 
diff --git a/src/libiff/group.c b/src/libiff/group.c
index 79252f5..4f3f383 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -78,10 +78,12 @@ IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
 
 IFF_Bool IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk)
 {
-    if(!IFF_attachToGroup(group, chunk))
+    const IFF_Long chunkSize = IFF_incrementChunkSize(group->chunkSize, chunk);
+
+    if(chunkSize < 0 || !IFF_attachToGroup(group, chunk))
         return FALSE;
 
-    group->chunkSize = IFF_incrementChunkSize(group->chunkSize, chunk);
+    group->chunkSize = chunkSize;
     return TRUE;
 }
 
diff --git a/src/libiff/group.h b/src/libiff/group.h
index 8c4a946..ec5e023 100644
--- a/src/libiff/group.h
+++ b/src/libiff/group.h
@@ -113,7 +113,7 @@ IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
  *
  * @param group An instance of a group chunk
  * @param chunk An arbitrary group or data chunk
- * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated or the group would get too large. In the latter cases, the group and chunk remain unchanged.
  */
 IFF_Bool IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk);
 
diff --git a/src/libiff/list.c b/src/libiff/list.c
index 7b8462c..2ea0af5 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -91,10 +91,12 @@ static IFF_Bool addPropToList(IFF_List *list, IFF_Prop *prop)
 
 IFF_Bool IFF_addPropToList(IFF_List *list, IFF_Prop *prop)
 {
-    if(!addPropToList(list, prop))
+    const IFF_Long chunkSize = IFF_incrementChunkSize(list->chunkSize, (IFF_Chunk*)prop);
+
+    if(chunkSize < 0 || !addPropToList(list, prop))
         return FALSE;
 
-    list->chunkSize = IFF_incrementChunkSize(list->chunkSize, (IFF_Chunk*)prop);
+    list->chunkSize = chunkSize;
     return TRUE;
 }
 
diff --git a/src/libiff/list.h b/src/libiff/list.h
index 5aedc54..e20fbc5 100644
--- a/src/libiff/list.h
+++ b/src/libiff/list.h
@@ -116,7 +116,7 @@ IFF_Chunk *IFF_createUnparsedList(const IFF_ID chunkId, const IFF_Long chunkSize
  *
  * @param list An instance of a list struct
  * @param prop A PROP chunk
- * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated or the group would get too large. In the latter cases, the group and chunk remain unchanged.
  */
 IFF_Bool IFF_addPropToList(IFF_List *list, IFF_Prop *prop);
 
@@ -126,7 +126,7 @@ IFF_Bool IFF_addPropToList(IFF_List *list, IFF_Prop *prop);
  *
  * @param list An instance of a list struct
  * @param chunk A FORM, CAT or LIST chunk
- * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated or the group would get too large. In the latter cases, the group and chunk remain unchanged.
  */
 IFF_Bool IFF_addToList(IFF_List *list, IFF_Chunk *chunk);
 
@@ -138,7 +138,7 @@ IFF_Bool IFF_addToList(IFF_List *list, IFF_Chunk *chunk);
  *
  * @param list An instance of a list struct
  * @param chunk A FORM, CAT or LIST chunk
- * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated or the group would get too large. In the latter cases, the group and chunk remain unchanged.
  */
 IFF_Bool IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk);
 
diff --git a/src/libiff/prop.h b/src/libiff/prop.h
index 8a6c2b0..e45f39a 100644
--- a/src/libiff/prop.h
+++ b/src/libiff/prop.h
@@ -72,7 +72,7 @@ IFF_Chunk *IFF_createUnparsedProp(const IFF_ID chunkId, const IFF_Long chunkSize
  *
  * @param prop An instance of a PROP chunk
  * @param chunk A data chunk
- * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In the latter case, the group and chunk remain unchanged.
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated or the group would get too large. In the latter cases, the group and chunk remain unchanged.
  */
 IFF_Bool IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk);
 
-- 
2.43.0


From 95b560d2068be8d60ae175ac07f79e5e2da5bb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:09 +0000
Subject: [PATCH 27/28] fix: refuse to write chunks with a negative size

---
 src/libiff/chunk.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libiff/chunk.c b/src/libiff/chunk.c
index bf05afc..397381c 100644
--- a/src/libiff/chunk.c
+++ b/src/libiff/chunk.c
@@ -98,6 +98,15 @@ static IFF_Bool writeChunkBody(FILE *file, const IFF_Chunk *chunk, const IFF_ID
 
 IFF_Bool IFF_writeChunk(FILE *file, const IFF_Chunk *chunk, const IFF_ID formType, const IFF_ChunkRegistry *chunkRegistry)
 {
+    /* A chunk cannot have a negative size */
+    if(chunk->chunkSize < 0)
+    {
+        IFF_error("Negative chunk size of '");
+        IFF_errorId(chunk->chunkId);
+        IFF_error("': %d\n", chunk->chunkSize);
+        return FALSE;
+    }
+
     return IFF_writeId(file, chunk->chunkId, chunk->chunkId, "chunkId")
         && IFF_writeLong(file, chunk->chunkSize, chunk->chunkId, "chunkSize")
         && writeChunkBody(file, chunk, formType, chunkRegistry);
-- 
2.43.0


From 3316aa85261a182f75e024bd2f1f9869b2846169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:03 +0000
Subject: [PATCH 28/28] fix: check for running out of memory in iffjoin's main
 function

---
 src/iffjoin/main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iffjoin/main.c b/src/iffjoin/main.c
index 63f44ae..cb02d6a 100644
--- a/src/iffjoin/main.c
+++ b/src/iffjoin/main.c
@@ -138,6 +138,12 @@ int main(int argc, char *argv[])
         unsigned int i;
         int status;
 
+        if(inputFilenames == NULL)
+        {
+            fprintf(stderr, "ERROR: Cannot allocate memory for the input file names!\n");
+            return 1;
+        }
+
         /* Create an array of input file names */
         for(i = 0; i < inputFilenamesLength; i++)
             inputFilenames[i] = argv[optind + i];
-- 
2.43.0

