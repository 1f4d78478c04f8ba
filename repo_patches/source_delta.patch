From 434c940917f624f1740817399e26a1673cbf989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 01/64] fix: lock wait interrupted by a signal is not a granted
 lock

---
 Db/dblock.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index 29ced95..1cf2d19 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1024,7 +1024,8 @@ gint db_tfqueue_wlock(void * db) {
 
   unlock_queue(db);
 
-  if(lockp->waiting) {
+  /* a wait may also end early (signal), it counts only if we were granted */
+  while(lockp->waiting) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
@@ -1142,6 +1143,8 @@ gint db_tfqueue_rlock(void * db) {
 
   if(lockp->waiting) {
     volatile gint *syn_addr = NULL;
+    /* a wait may also end early (signal), it counts only if we were granted */
+    do {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
@@ -1159,6 +1162,7 @@ gint db_tfqueue_rlock(void * db) {
 /* XXX: add support for other platforms */
 #error This code needs Linux SYS_futex service to function
 #endif
+    } while(lockp->waiting);
     lock_queue(db);
     if(lockp->next) {
       lock_queue_node *nextp = offsettoptr(db, lockp->next);
-- 
2.43.0


From ffb052e34252f921787bd474f080788dcc871d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 02/64] fix: lock granted at the moment of the timeout is not
 dropped

---
 Db/dblock.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Db/dblock.c b/Db/dblock.c
index 1cf2d19..f561cfd 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1031,6 +1031,11 @@ gint db_tfqueue_wlock(void * db) {
     INIT_QLOCK_TIMEOUT(timeout, ts)
     if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
       lock_queue(db);
+      if(!lockp->waiting) {
+        /* granted after all, between the timeout and here */
+        unlock_queue(db);
+        break;
+      }
       DEQUEUE_LOCK(db, dbh, lock, lockp)
       free_lock(db, lock);
       unlock_queue(db);
@@ -1150,6 +1155,11 @@ gint db_tfqueue_rlock(void * db) {
     INIT_QLOCK_TIMEOUT(timeout, ts)
     if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
       lock_queue(db);
+      if(!lockp->waiting) {
+        /* granted after all, between the timeout and here */
+        unlock_queue(db);
+        break;
+      }
       DEQUEUE_LOCK(db, dbh, lock, lockp)
       free_lock(db, lock);
       unlock_queue(db);
-- 
2.43.0


From 7e7ac7b3d31f9328354b8fb6efbbf6c7afbfe69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:49 +0000
Subject: [PATCH 03/64] fix: validate arguments before a change is journaled or
 indexed

---
 Db/dbdata.c | 59 +++++++++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 66c3c3a..15555cf 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -214,6 +214,15 @@ gint wg_delete_record(void* db, void *rec) {
   }
 #endif
 
+  offset = ptrtooffset(db, rec);
+#if defined(CHECK) && defined(USE_CHILD_DB)
+  /* Check if it's a local record */
+  if(!is_local_offset(db, offset)) {
+    show_data_error(db, "not deleting an external record");
+    return -2;
+  }
+#endif
+
 #ifdef USE_BACKLINKING
   if(*((gint *) rec + RECORD_BACKLINKS_POS))
     return -1;
@@ -233,15 +242,6 @@ gint wg_delete_record(void* db, void *rec) {
       return -3; /* index error */
   }
 
-  offset = ptrtooffset(db, rec);
-#if defined(CHECK) && defined(USE_CHILD_DB)
-  /* Check if it's a local record */
-  if(!is_local_offset(db, offset)) {
-    show_data_error(db, "not deleting an external record");
-    return -2;
-  }
-#endif
-
   /* Loop over fields, freeing them */
   dendptr = (gint *) (((char *) rec) + datarec_size_bytes(*((gint *)rec)));
   for(dptr=(gint *)rec+RECORD_HEADER_GINTS; dptr<dendptr; dptr++) {
@@ -627,6 +627,17 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   recordcheck(db,record,fieldnr,"wg_set_field");
 #endif
 
+#ifdef USE_CHILD_DB
+  /* Get the offset owner */
+  if(isptr(data)) {
+    offset_owner = get_ptr_owner(db, data);
+    if(!offset_owner) {
+      show_data_error(db, "External reference not recognized");
+      return -5;
+    }
+  }
+#endif
+
 #ifdef USE_DBLOG
   /* Do not proceed before we've logged the operation */
   if(dbh->logging.active) {
@@ -683,17 +694,6 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
-#ifdef USE_CHILD_DB
-  /* Get the offset owner */
-  if(isptr(data)) {
-    offset_owner = get_ptr_owner(db, data);
-    if(!offset_owner) {
-      show_data_error(db, "External reference not recognized");
-      return -5;
-    }
-  }
-#endif
-
 #ifdef USE_BACKLINKING
   /* Is the old field value a record pointer? If so, remove the backlink.
    * XXX: this can be optimized to use a custom macro instead of
@@ -834,14 +834,6 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   recordcheck(db,record,fieldnr,"wg_set_field");
 #endif
 
-#ifdef USE_DBLOG
-  /* Do not proceed before we've logged the operation */
-  if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
-      return -6; /* journal error, cannot write */
-  }
-#endif
-
 #ifdef USE_CHILD_DB
   /* Get the offset owner */
   if(isptr(data)) {
@@ -853,7 +845,6 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
-  /* Write new value */
   fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
 #ifdef CHECK
   if(*fieldadr) {
@@ -861,6 +852,16 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
     return -2;
   }
 #endif
+
+#ifdef USE_DBLOG
+  /* Do not proceed before we've logged the operation */
+  if(dbh->logging.active) {
+    if(wg_log_set_field(db,record,fieldnr,data))
+      return -6; /* journal error, cannot write */
+  }
+#endif
+
+  /* Write new value */
   (*fieldadr)=data;
 
 #ifdef USE_CHILD_DB
-- 
2.43.0


From 0bd138f304ebf33144fc54fd389bac1c900929e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:50 +0000
Subject: [PATCH 04/64] fix: a reference whose backlink cannot be allocated is
 refused

---
 Db/dbdata.c | 54 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 15555cf..319656d 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -616,6 +616,7 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   gint* strptr;
 #ifdef USE_BACKLINKING
   gint backlink_list;           /** start of backlinks for this record */
+  gint new_offset = 0;          /** list cell for the new backlink */
   gint rec_enc = WG_ILLEGAL;    /** this record as encoded value. */
 #endif
   db_memsegment_header *dbh = dbmemsegh(db);
@@ -655,6 +656,23 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
     return 0;
   }
 
+#ifdef USE_BACKLINKING
+  /* Reserve storage for the new backlink while nothing has changed yet */
+#ifdef USE_CHILD_DB
+  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
+    offset_owner == dbmemseg(db)) {
+#else
+  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
+#endif
+    new_offset = wg_alloc_fixlen_object(db,
+      &(dbmemsegh(db)->listcell_area_header));
+    if(!new_offset) {
+      show_data_error(db, "Failed to allocate a backlink");
+      return -4;
+    }
+  }
+#endif
+
   /* Update index(es) while the old value is still in the db */
 #ifdef USE_INDEX_TEMPLATE
   if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
@@ -758,16 +776,9 @@ setfld_backlink_removed:
 
 #ifdef USE_BACKLINKING
   /* Is the new field value a record pointer? If so, add a backlink */
-#ifdef USE_CHILD_DB
-  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
-    offset_owner == dbmemseg(db)) {
-#else
-  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
-#endif
+  if(new_offset) {
     gint *rec = (gint *) wg_decode_record(db, data);
     gint *next_offset = rec + RECORD_BACKLINKS_POS;
-    gint new_offset = wg_alloc_fixlen_object(db,
-      &(dbmemsegh(db)->listcell_area_header));
     gcell *new_cell = (gcell *) offsettoptr(db, new_offset);
 
     while(*next_offset)
@@ -824,6 +835,7 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   gint* strptr;
 #ifdef USE_BACKLINKING
   gint backlink_list;           /** start of backlinks for this record */
+  gint new_offset = 0;          /** list cell for the new backlink */
 #endif
   db_memsegment_header *dbh = dbmemsegh(db);
 #ifdef USE_CHILD_DB
@@ -861,6 +873,23 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+#ifdef USE_BACKLINKING
+  /* Reserve storage for the new backlink while nothing has changed yet */
+#ifdef USE_CHILD_DB
+  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
+    offset_owner == dbmemseg(db)) {
+#else
+  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
+#endif
+    new_offset = wg_alloc_fixlen_object(db,
+      &(dbmemsegh(db)->listcell_area_header));
+    if(!new_offset) {
+      show_data_error(db, "Failed to allocate a backlink");
+      return -4;
+    }
+  }
+#endif
+
   /* Write new value */
   (*fieldadr)=data;
 
@@ -889,16 +918,9 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 
 #ifdef USE_BACKLINKING
   /* Is the new field value a record pointer? If so, add a backlink */
-#ifdef USE_CHILD_DB
-  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
-    offset_owner == dbmemseg(db)) {
-#else
-  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
-#endif
+  if(new_offset) {
     gint *rec = (gint *) wg_decode_record(db, data);
     gint *next_offset = rec + RECORD_BACKLINKS_POS;
-    gint new_offset = wg_alloc_fixlen_object(db,
-      &(dbmemsegh(db)->listcell_area_header));
     gcell *new_cell = (gcell *) offsettoptr(db, new_offset);
 
     while(*next_offset)
-- 
2.43.0


From 7ffae45a29b37664d069d7f264d1ff0d0ad2a388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:50 +0000
Subject: [PATCH 05/64] fix: owner of the replaced value decides about its
 backlink

---
 Db/dbdata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 319656d..66c43aa 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -720,7 +720,7 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #ifdef USE_CHILD_DB
   /* Only touch local records */
   if(wg_get_encoded_type(db, fielddata) == WG_RECORDTYPE &&
-    offset_owner == dbmemseg(db)) {
+    is_local_offset(db, decode_datarec_offset(fielddata))) {
 #else
   if(wg_get_encoded_type(db, fielddata) == WG_RECORDTYPE) {
 #endif
-- 
2.43.0


From f09b39e9d4e174d5308abee4adb7aa1b2442c2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:18 +0000
Subject: [PATCH 06/64] fix: check the list cell allocation in wg_idxhash_store

---
 Db/dbhash.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 3051bc0..b601fe2 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -485,6 +485,9 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
   /* Add the record offset to the list. */
   rec_head = dbfetch(db, bucket + HASHIDX_RECLIST_POS*sizeof(gint));
   rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
+  if(!rec_offset) {
+    return -1;
+  }
   rec_cell = (gcell *) offsettoptr(db, rec_offset);
   rec_cell->car = offset;
   rec_cell->cdr = rec_head;
-- 
2.43.0


From 7b92118677e841749d5d5cbd3f158259a342a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:18 +0000
Subject: [PATCH 07/64] fix: index lists survive a failed insert

---
 Db/dbindex.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 65b9ddc..744e8ac 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1718,15 +1718,15 @@ gint wg_search_hash(void *db, gint index_id, gint *values, gint count) {
  */
 static gint insert_into_list(void *db, gint *head, gint value) {
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint old = *head;
+  gint cell = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
 
-  *head = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
-  if(*head) {
-    gcell *listelem = (gcell *) offsettoptr(db, *head);
+  if(cell) {
+    gcell *listelem = (gcell *) offsettoptr(db, cell);
     listelem->car = value;
-    listelem->cdr = old;
+    listelem->cdr = *head;
+    *head = cell;
   }
-  return *head;
+  return cell;
 }
 
 /** Delete from list
-- 
2.43.0


From 49274bd28175baeaf38482df18ffa913439e966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:35 +0000
Subject: [PATCH 08/64] fix: an index that cannot be allocated or built is not
 registered

---
 Db/dbindex.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 744e8ac..b737b98 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1380,6 +1380,8 @@ static gint create_ttree_index(void *db, gint index_id){
   /* allocate (+ init) root node for new index tree and save
    * the offset into index_array */
   node = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
+  if(!node)
+    return -1;
   nodest =(struct wg_tnode *)offsettoptr(db,node);
   nodest->parent_offset = 0;
   nodest->left_subtree_height = 0;
@@ -1835,6 +1837,8 @@ nextelem:
 
   /* Add new template header */
   template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
+  if(!template_offset)
+    return 0;
   tmpl = (wg_index_template *) offsettoptr(db, template_offset);
   tmpl->offset_matchrec = ptrtooffset(db, rec);
   tmpl->fixed_columns = fixed_columns;
@@ -2193,17 +2197,8 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 
   /* Add new index header */
   index_id = wg_alloc_fixlen_object(db, &dbh->indexhdr_area_header);
-
-  for(i=0; i<col_count; i++) {
-    if(!insert_into_list(db, ilist[i], index_id)) {
-      if(i) {
-        /* XXX: need to clean up the earlier inserts :-( */
-        return -1;
-      } else {
-        return -1;
-      }
-    }
-  }
+  if(!index_id)
+    return -1;
 
   /* Set up the header */
   hdr = (wg_index_header *) offsettoptr(db, index_id);
@@ -2217,7 +2212,8 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
   /* create the actual index */
   switch(hdr->type) {
     case WG_INDEX_TYPE_TTREE:
-      create_ttree_index(db, index_id);
+      if(create_ttree_index(db, index_id))
+        return -1;
       break;
     case WG_INDEX_TYPE_HASH:
     case WG_INDEX_TYPE_HASH_JSON:
@@ -2231,6 +2227,17 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
       return -1;
   }
 
+  for(i=0; i<col_count; i++) {
+    if(!insert_into_list(db, ilist[i], index_id)) {
+      if(i) {
+        /* XXX: need to clean up the earlier inserts :-( */
+        return -1;
+      } else {
+        return -1;
+      }
+    }
+  }
+
   /* Add to master list */
   if(!insert_into_list(db,
      &dbh->index_control_area_header.index_list ,index_id))
-- 
2.43.0


From 1b7d1018067e0479e1bf3b7cc670bb8f5f5148aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:24 +0000
Subject: [PATCH 09/64] fix: wg_find_record verifies the database pointer

---
 Db/dbquery.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index f533691..fc23be3 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -2044,6 +2044,13 @@ void *wg_find_record(void *db, gint fieldnr, gint cond, gint data,
     void* lastrecord) {
   gint index_id = -1;
 
+#ifdef CHECK
+  if (!dbcheck(db)) {
+    show_query_error(db, "Invalid database pointer in wg_find_record");
+    return NULL;
+  }
+#endif
+
   /* find index on colum */
   if(cond != WG_COND_NOT_EQUAL) {
     index_id = wg_multi_column_to_index_id(db, &fieldnr, 1,
-- 
2.43.0


From 5526b06bd30147f48166ccd9c485f000058a8e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:24 +0000
Subject: [PATCH 10/64] fix: wg_find_record does not treat an illegal value as
 no bound

---
 Db/dbquery.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index fc23be3..e2fb522 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -2051,6 +2051,10 @@ void *wg_find_record(void *db, gint fieldnr, gint cond, gint data,
   }
 #endif
 
+  /* A value that could not be encoded matches nothing */
+  if(data == WG_ILLEGAL)
+    return NULL;
+
   /* find index on colum */
   if(cond != WG_COND_NOT_EQUAL) {
     index_id = wg_multi_column_to_index_id(db, &fieldnr, 1,
-- 
2.43.0


From c1442c2f67c17e799d15c7e1df9ed01c03b11a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:58 +0000
Subject: [PATCH 11/64] fix: journal integers in their full width

---
 Db/dblog.c | 12 ++++++------
 Db/dblog.h |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index b9c5a47..c0759b9 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -532,12 +532,12 @@ gint recover_encode(void *db, FILE *f, gint type)
 {
   char *strbuf, *extbuf;
   gint length = 0, extlength = 0, enc;
-  int intval;
+  gint intval;
   double doubleval;
 
   switch(type) {
     case WG_INTTYPE:
-      if(fread((char *) &intval, sizeof(int), 1, f) != 1) {
+      if(fread((char *) &intval, sizeof(gint), 1, f) != 1) {
         show_log_error(db, "Failed to read log entry");
         return WG_ILLEGAL;
       }
@@ -1079,14 +1079,14 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       return 0;
       break;
     case WG_INTTYPE:
-      /* int argument */
-      if(fits_smallint(*((int *) data))) {
+      /* gint argument */
+      if(fits_smallint(*((gint *) data))) {
         return 0; /* self-contained, don't log */
       } else {
-        buflen = 1 + sizeof(int);
+        buflen = 1 + sizeof(gint);
         buf = (unsigned char *) malloc(buflen);
         optr = buf + 1;
-        *((int *) optr) = *((int *) data);
+        memcpy(optr, data, sizeof(gint));
       }
       break;
     case WG_DOUBLETYPE:
diff --git a/Db/dblog.h b/Db/dblog.h
index cf72c83..8a93b02 100644
--- a/Db/dblog.h
+++ b/Db/dblog.h
@@ -36,7 +36,7 @@
 #endif
 #define WG_JOURNAL_FN_BUFSIZE (sizeof(WG_JOURNAL_FILENAME) + 20)
 #define WG_JOURNAL_MAX_BACKUPS 10
-#define WG_JOURNAL_MAGIC "wgdb"
+#define WG_JOURNAL_MAGIC "wgj2" /* changes when the entry format does */
 #define WG_JOURNAL_MAGIC_BYTES 4
 
 #define WG_JOURNAL_ENTRY_ENC ((unsigned char) 0) /* top bits clear |= type */
-- 
2.43.0


From 1631de069c8581cff2cb8af3eb5180b3cf2fc365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:20 +0000
Subject: [PATCH 12/64] fix: the extra string of a value is not journaled as an
 entry of its own

---
 Db/dbdata.c | 62 ++++++++++++++++++++++++++---------------------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 66c43aa..b1ece8a 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -91,6 +91,7 @@ static void scalar_to_ymd (long scalar, unsigned *yr, unsigned *mo, unsigned *da
 
 static gint free_field_encoffset(void* db,gint encoffset);
 static gint find_create_longstr(void* db, const char* data, const char* extrastr, gint type, gint length);
+static gint encode_unistr_nolog(void* db, const char* str, const char* lang, gint type);
 
 #ifdef USE_CHILD_DB
 static void *get_ptr_owner(void *db, gint encoded);
@@ -2504,7 +2505,11 @@ Universal funs for string, xmlliteral, uri, blob
 ============================================== */
 
 
-gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
+/* Allocate and store a string. Journaling is up to the caller, as the
+ * string may also be a part (extrastr) of a value that is being journaled.
+ * Returns WG_ILLEGAL on failure.
+ */
+static gint encode_unistr_nolog(void* db, const char* str, const char* lang, gint type) {
   gint offset;
   gint len;
 #ifdef USETINYSTR
@@ -2515,15 +2520,6 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
   char* dendptr;
 
   len=(gint)(strlen(str));
-#ifdef USE_DBLOG
-  /* Log before allocating. */
-  if(dbmemsegh(db)->logging.active) {
-    gint extlen = 0;
-    if(lang) extlen = strlen(lang);
-    if(wg_log_encode(db, type, str, len, lang, extlen))
-      return WG_ILLEGAL;
-  }
-#endif
 #ifdef USETINYSTR
 /* XXX: add tinystr support to logging */
 #ifdef USE_DBLOG
@@ -2545,11 +2541,6 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
     offset=alloc_shortstr(db);
     if (!offset) {
       show_data_error_str(db,"cannot store a string in wg_encode_unistr",str);
-#ifdef USE_DBLOG
-      if(dbmemsegh(db)->logging.active) {
-        wg_log_encval(db, WG_ILLEGAL);
-      }
-#endif
       return WG_ILLEGAL;
     }
     // loop over bytes, storing them starting from offset
@@ -2562,33 +2553,38 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
     for(sptr=(char *) str; (*dptr=*sptr)!=0; sptr++, dptr++) {}; // copy string
     for(dptr++; dptr<dendptr; dptr++) { *dptr=0; }; // zero the rest
     // store offset to field
-#ifdef USE_DBLOG
-    if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_shortstr_offset(offset)))
-        return WG_ILLEGAL; /* journal error */
-    }
-#endif
     return encode_shortstr_offset(offset);
     //dbstore(db,ptrtoffset(record)+RECORD_HEADER_GINTS+fieldnr,encode_shortstr_offset(offset));
   } else {
     offset=find_create_longstr(db,str,lang,type,len+1);
     if (!offset) {
       show_data_error_nr(db,"cannot create a string of size ",len);
-#ifdef USE_DBLOG
-      if(dbmemsegh(db)->logging.active) {
-        wg_log_encval(db, WG_ILLEGAL);
-      }
-#endif
       return WG_ILLEGAL;
     }
+    return encode_longstr_offset(offset);
+  }
+}
+
+gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
+  gint enc;
+
 #ifdef USE_DBLOG
-    if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_longstr_offset(offset)))
-        return WG_ILLEGAL; /* journal error */
-    }
+  /* Log before allocating. */
+  if(dbmemsegh(db)->logging.active) {
+    gint extlen = 0;
+    if(lang) extlen = strlen(lang);
+    if(wg_log_encode(db, type, str, strlen(str), lang, extlen))
+      return WG_ILLEGAL;
+  }
 #endif
-    return encode_longstr_offset(offset);
+  enc = encode_unistr_nolog(db, str, lang, type);
+#ifdef USE_DBLOG
+  if(dbmemsegh(db)->logging.active) {
+    if(wg_log_encval(db, enc))
+      return WG_ILLEGAL; /* journal error */
   }
+#endif
+  return enc;
 }
 
 
@@ -2659,9 +2655,11 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
     }
     // if extrastr exists, encode extrastr and store ptr to longstr record field
     if (extrastr!=NULL) {
-      tmp=wg_encode_str(db,extrastr,NULL);
+      /* part of the value that is already being journaled */
+      tmp=encode_unistr_nolog(db,extrastr,NULL,WG_STRTYPE);
       if (tmp==WG_ILLEGAL) {
         //show_data_error_nr(db,"cannot create an (extra)string of size ",strlen(extrastr));
+        wg_free_object(db,&(dbmemsegh(db)->longstr_area_header),offset);
         return 0;
       }
       dbstore(db,offset+LONGSTR_EXTRASTR_POS*sizeof(gint),tmp);
-- 
2.43.0


From cc54b10c7d9a8f51c0c8ac518379ed32c960f55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:20 +0000
Subject: [PATCH 13/64] fix: a string and its extra string may share a hash
 bucket

---
 Db/dbdata.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index b1ece8a..ea20405 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2684,7 +2684,8 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
     dbstore(db,offset+LONGSTR_BACKLINKS_POS*sizeof(gint),0); // no backlinks yet
     // encode
     res=encode_longstr_offset(offset);
-    // store to hash and update hashchain
+    // store to hash and update hashchain (encoding the extrastr may have changed it)
+    hasharrel=dbfetch(db,((dbh->strhash_area_header).arraystart)+(sizeof(gint)*hash));
     dbstore(db,((dbh->strhash_area_header).arraystart)+(sizeof(gint)*hash),res);
     //printf("hasharrel 2 %d \n",hasharrel);
     dbstore(db,offset+LONGSTR_HASHCHAIN_POS*sizeof(gint),hasharrel); // store old hash array el
-- 
2.43.0


From e8739c8cff19de0c682f2519ae780cbcdc7377e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:20 +0000
Subject: [PATCH 14/64] fix: journal blobs

---
 Db/dbdata.c | 20 ++++++++++++++++++++
 Db/dblog.c  |  9 ++++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index ea20405..3afc65d 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2593,11 +2593,31 @@ gint wg_encode_uniblob(void* db, const char* str, const char* lang, gint type, g
 
   if (0) {
   } else {
+#ifdef USE_DBLOG
+    /* Log before allocating. */
+    if(dbmemsegh(db)->logging.active) {
+      gint extlen = 0;
+      if(lang) extlen = strlen(lang);
+      if(wg_log_encode(db, type, str, len, lang, extlen))
+        return WG_ILLEGAL;
+    }
+#endif
     offset=find_create_longstr(db,str,lang,type,len);
     if (!offset) {
       show_data_error_nr(db,"cannot create a blob of size ",len);
+#ifdef USE_DBLOG
+      if(dbmemsegh(db)->logging.active) {
+        wg_log_encval(db, WG_ILLEGAL);
+      }
+#endif
       return WG_ILLEGAL;
     }
+#ifdef USE_DBLOG
+    if(dbmemsegh(db)->logging.active) {
+      if(wg_log_encval(db, encode_longstr_offset(offset)))
+        return WG_ILLEGAL; /* journal error */
+    }
+#endif
     return encode_longstr_offset(offset);
   }
 }
diff --git a/Db/dblog.c b/Db/dblog.c
index c0759b9..9470ac7 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -552,7 +552,7 @@ gint recover_encode(void *db, FILE *f, gint type)
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
-    case WG_BLOBTYPE: /* XXX: no encode func for this yet */
+    case WG_BLOBTYPE:
       /* strings with extdata */
       GET_LOG_VARINT(db, f, length, WG_ILLEGAL)
       GET_LOG_VARINT(db, f, extlength, WG_ILLEGAL)
@@ -587,7 +587,10 @@ gint recover_encode(void *db, FILE *f, gint type)
         extbuf = NULL;
       }
 
-      enc = wg_encode_unistr(db, strbuf, extbuf, type);
+      if(type == WG_BLOBTYPE)
+        enc = wg_encode_uniblob(db, strbuf, extbuf, type, length);
+      else
+        enc = wg_encode_unistr(db, strbuf, extbuf, type);
       free(strbuf);
       if(extbuf)
         free(extbuf);
@@ -1100,7 +1103,7 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
-    case WG_BLOBTYPE: /* XXX: no encode func for this yet */
+    case WG_BLOBTYPE:
       /* strings with extdata */
       buflen = 1 + 2*VARINT_SIZE + length + extlength;
       buf = (unsigned char *) malloc(buflen);
-- 
2.43.0


From 4d240b3774b182a7183c7a494efc4fdde0b5e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:20 +0000
Subject: [PATCH 15/64] fix: an empty extra string is not replayed as none

---
 Db/dblog.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 9470ac7..3889da1 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -570,6 +570,7 @@ gint recover_encode(void *db, FILE *f, gint type)
       strbuf[length] = '\0';
 
       if(extlength) {
+        extlength--; /* 0 means no extdata, n+1 means n bytes */
         extbuf = (char *) malloc(extlength + 1);
         if(!extbuf) {
           free(strbuf);
@@ -1111,7 +1112,7 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       /* data and extdata length */
       optr = buf + 1;
       optr += enc_varint(optr, (wg_uint) length);
-      optr += enc_varint(optr, (wg_uint) extlength);
+      optr += enc_varint(optr, (wg_uint) (extdata ? extlength + 1 : 0));
       buflen -= 1 + 2*VARINT_SIZE - (optr - buf); /* actual size known */
 
       /* data */
-- 
2.43.0


From 8b48d26f53e779dea8133c628c177ebca466589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:20 +0000
Subject: [PATCH 16/64] fix: replay does not create records whose creation had
 failed

---
 Db/dblog.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 3889da1..e909653 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -619,9 +619,8 @@ static gint recover_journal(void *db, FILE *f, void *table)
       case WG_JOURNAL_ENTRY_CRE:
         GET_LOG_VARINT(db, f, length, -1)
         GET_LOG_VARINT(db, f, offset, -1)
-        rec = wg_create_record(db, length);
-        if(offset != 0) {
-          /* XXX: should we have even tried if this failed earlier? */
+        if(offset != 0) { /* otherwise creating the record failed */
+          rec = wg_create_record(db, length);
           if(!rec) {
             return show_log_error(db, "Failed to create a new record");
           }
-- 
2.43.0


From 75f6534abe271bff14967797be5a18f58006fbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:20 +0000
Subject: [PATCH 17/64] fix: replay rejects an encode entry of an unknown type

---
 Db/dblog.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index e909653..897fcef 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -600,7 +600,8 @@ gint recover_encode(void *db, FILE *f, gint type)
       break;
   }
 
-  return show_log_error(db, "Unsupported data type");
+  show_log_error(db, "Unsupported data type");
+  return WG_ILLEGAL;
 }
 
 /** Parse the journal file. Used internally only.
-- 
2.43.0


From 27c77d61670148a23c753560e7932afca6b32d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:20 +0000
Subject: [PATCH 18/64] fix: check the journal buffer allocation

---
 Db/dblog.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Db/dblog.c b/Db/dblog.c
index 897fcef..71c48b7 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -1089,6 +1089,8 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       } else {
         buflen = 1 + sizeof(gint);
         buf = (unsigned char *) malloc(buflen);
+        if(!buf)
+          return show_log_error(db, "Failed to allocate buffers");
         optr = buf + 1;
         memcpy(optr, data, sizeof(gint));
       }
@@ -1097,6 +1099,8 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       /* double precision argument */
       buflen = 1 + sizeof(double);
       buf = (unsigned char *) malloc(buflen);
+      if(!buf)
+        return show_log_error(db, "Failed to allocate buffers");
       optr = buf + 1;
       *((double *) optr) = *((double *) data);
       break;
@@ -1108,6 +1112,8 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       /* strings with extdata */
       buflen = 1 + 2*VARINT_SIZE + length + extlength;
       buf = (unsigned char *) malloc(buflen);
+      if(!buf)
+        return show_log_error(db, "Failed to allocate buffers");
 
       /* data and extdata length */
       optr = buf + 1;
-- 
2.43.0


From 204b7c87e7e6916eab8c63ca532839efa250e908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:20 +0000
Subject: [PATCH 19/64] fix: do not keep a closed journal descriptor

---
 Db/dblog.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 71c48b7..46387b1 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -986,8 +986,10 @@ static gint write_log_buffer(void *db, void *buf, int buflen)
 #else
   if(_write(ld->fd, (char *) buf, buflen) != buflen) {
 #endif
+    int fd = ld->fd;
     show_log_error(db, "Error writing to log file");
-    JOURNAL_FAIL(ld->fd, -5)
+    ld->fd = -1; /* about to be closed */
+    JOURNAL_FAIL(fd, -5)
   }
 
   return 0;
-- 
2.43.0


From 77965b92a4c7a723642e6af78afa1452f17f37a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:20 +0000
Subject: [PATCH 20/64] fix: check the truncation of the journal

---
 Db/dblog.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 46387b1..d35a2bd 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -802,12 +802,12 @@ gint wg_start_logging(void *db)
     /* logfile is clean, re-initialize */
     /* fseek(f, 0, SEEK_SET); */
 #ifndef _WIN32
-    ftruncate(fd, 0); /* XXX: this is a no-op with backups */
-    if(write(fd, WG_JOURNAL_MAGIC, WG_JOURNAL_MAGIC_BYTES) != \
+    if(ftruncate(fd, 0) || /* XXX: this is a no-op with backups */
+      write(fd, WG_JOURNAL_MAGIC, WG_JOURNAL_MAGIC_BYTES) != \
                                             WG_JOURNAL_MAGIC_BYTES) {
 #else
-    _chsize_s(fd, 0);
-    if(_write(fd, WG_JOURNAL_MAGIC, WG_JOURNAL_MAGIC_BYTES) != \
+    if(_chsize_s(fd, 0) ||
+      _write(fd, WG_JOURNAL_MAGIC, WG_JOURNAL_MAGIC_BYTES) != \
                                             WG_JOURNAL_MAGIC_BYTES) {
 #endif
       show_log_error(db, "Error initializing log file");
-- 
2.43.0


From 1287948a90173f26beedcaf2d12265c5c333fdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:20 +0000
Subject: [PATCH 21/64] fix: a replay that cannot start keeps logging active
 and closes the journal

---
 Db/dblog.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Db/dblog.c b/Db/dblog.c
index d35a2bd..9d3e4a7 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -903,11 +903,18 @@ gint wg_replay_log(void *db, char *filename)
 #else
   f = _fdopen(fd, "rb");
 #endif
+  if(!f) {
+    show_log_error(db, "Error opening log file");
+    dbh->logging.active = active;
+    err = -1;
+    goto abort2;
+  }
   /* XXX: may consider fcntl-locking here */
   /* restore the log contents */
   tran_tbl = wg_ginthash_init(db);
   if(!tran_tbl) {
     show_log_error(db, "Failed to create log translation table");
+    dbh->logging.active = active; /* nothing was changed */
     err = -1;
     goto abort1;
   }
@@ -923,8 +930,16 @@ abort0:
 
 abort1:
   fclose(f);
+  fd = -1; /* closed with the stream */
 
 abort2:
+  if(fd != -1) {
+#ifndef _WIN32
+    close(fd);
+#else
+    _close(fd);
+#endif
+  }
   if(!err && active) {
     if(wg_start_logging(db)) {
       show_log_error(db, "Log restored but failed to reactivate logging");
-- 
2.43.0


From 1a6698b436b38c8b1672c76bc4dd91f1b8abcda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 22/64] fix: replay translates an offset that was used again to
 its latest object

---
 Db/dbhash.c | 8 ++++++++
 Db/dblog.c  | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index b601fe2..ccff31e 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -605,6 +605,7 @@ gint wg_ginthash_addkey(void *db, void *tbl, gint key, gint val) {
   size_t dirsize = 1<<((ext_ginthash *)tbl)->level;
   size_t hash = GINTHASH_SCRAMBLE(key) & (dirsize - 1);
   ginthash_bucket *bucket = ((ext_ginthash *)tbl)->directory[hash];
+  int i;
   /*static gint keys = 0;*/
   /* printf("add: %d hash %d items %d\n", key, hash, ++keys); */
   if(!bucket) {
@@ -617,6 +618,13 @@ gint wg_ginthash_addkey(void *db, void *tbl, gint key, gint val) {
     ((ext_ginthash *)tbl)->directory[hash] = bucket;
   }
   else {
+    /* A key that is stored again gets the new value */
+    for(i=0; i<bucket->fill; i++) {
+      if(bucket->key[i] == key) {
+        bucket->value[i] = val;
+        return 0;
+      }
+    }
     add_to_bucket(bucket, key, val);
     while(bucket->fill > GINTHASH_BUCKETCAP) {
       ginthash_bucket *newb;
diff --git a/Db/dblog.c b/Db/dblog.c
index 9d3e4a7..9b688aa 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -626,7 +626,7 @@ static gint recover_journal(void *db, FILE *f, void *table)
             return show_log_error(db, "Failed to create a new record");
           }
           newoffset = ptrtooffset(db, rec);
-          if(newoffset != offset) {
+          if(newoffset != translate_offset(db, table, offset)) {
             if(add_tran_offset(db, table, offset, newoffset)) {
               return show_log_error(db, "Failed to parse log "\
                 "(out of translation memory)");
@@ -651,7 +651,7 @@ static gint recover_journal(void *db, FILE *f, void *table)
           if(newenc == WG_ILLEGAL) {
             return -1;
           }
-          if(newenc != enc) {
+          if(newenc != translate_encoded(db, table, enc)) {
             if(add_tran_enc(db, table, enc, newenc)) {
               return show_log_error(db, "Failed to parse log "\
                 "(out of translation memory)");
-- 
2.43.0


From 1b8bedc60e63e43a475848a693bb6eb2deb13977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 23/64] fix: a dump that could not be written completely is
 reported

---
 Db/dbdump.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index ecab351..23b48de 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -85,7 +85,7 @@ gint wg_dump(void * db,char fileName[]) {
 gint wg_dump_internal(void * db, char fileName[], int locking) {
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = dbh->free; /* first unused offset - 0 = db size */
+  gint dbsize;
 #ifdef USE_DBLOG
   gint active;
 #endif
@@ -115,6 +115,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     lock_id = db_rlock(db, DEFAULT_LOCK_TIMEOUT);
     if(!lock_id) {
       show_dump_error(db, "Failed to lock the database for dump");
+      fclose(f);
       return -1;
     }
   }
@@ -124,6 +125,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     lock_id = db_wlock(db, DEFAULT_LOCK_TIMEOUT);
     if(!lock_id) {
       show_dump_error(db, "Failed to lock the database for dump");
+      fclose(f);
       return -1;
     }
   }
@@ -134,18 +136,24 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
+  dbsize = dbh->free; /* first unused offset - 0 = db size */
+
   /* Compute the CRC32 of the used area */
   crc = update_crc32(dbmemsegbytes(db), dbsize, 0x0);
 
   /* Now, write the memory area to file */
   if(fwrite(dbmemseg(db), dbsize, 1, f) == 1) {
     /* Overwrite checksum field */
-    fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET);
-    if(fwrite(&crc, sizeof(gint32), 1, f) == 1) {
+    if(!fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET) &&
+      fwrite(&crc, sizeof(gint32), 1, f) == 1) {
       err = 0;
     }
   }
 
+  /* The dump is only complete when the buffers were written as well */
+  if(fclose(f))
+    err = -1;
+
   if(err)
     show_dump_error(db, "Error writing file");
 
@@ -174,9 +182,6 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  fflush(f);
-  fclose(f);
-
   return err;
 }
 
-- 
2.43.0


From bf3ab871be55a5b8f9156a2872d12b18028120ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 24/64] fix: an import keeps the key and the journal serial of
 the segment

---
 Db/dbdump.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 23b48de..a72976e 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -285,13 +285,13 @@ gint wg_import_dump(void * db,char fileName[]) {
   db_memsegment_header* dumph;
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = -1, newsize;
+  gint dbsize = -1, newsize, newkey;
   gint err = -1;
 #ifdef USE_DBLOG
   gint active = dbh->logging.active;
+  gint serial = dbh->logging.serial;
 #endif
 
-
   /* Attempt to open the dump file */
 #ifdef _WIN32
   if(fopen_s(&f, fileName, "rb")) {
@@ -317,6 +317,7 @@ gint wg_import_dump(void * db,char fileName[]) {
     dbsize = dumph->free;
     if(dumph->extdbs.count != 0) {
       show_dump_error(db, "Dump contains external references");
+      free(dumph);
       goto abort;
     }
   }
@@ -330,13 +331,18 @@ gint wg_import_dump(void * db,char fileName[]) {
   } else if(dbsize > 0) {
     /* We have a compatible dump file. */
     newsize = dbh->size;
-    fseek(f, 0, SEEK_SET);
+    newkey = dbh->key;
+    if(fseek(f, 0, SEEK_SET)) {
+      show_dump_error(db, "Error reading dump file");
+      goto abort;
+    }
     if(fread(dbmemseg(db), dbsize, 1, f) != 1) {
       show_dump_error(db, "Error reading dump file");
       err = -2; /* database is in undetermined state now */
     } else {
       err = 0;
       dbh->size = newsize;
+      dbh->key = newkey;
       dbh->checksum = 0;
     }
   }
@@ -350,6 +356,7 @@ abort:
   /* Initialize db state */
 #ifdef USE_DBLOG
   /* restart logging */
+  dbh->logging.serial = serial; /* open descriptors depend on it */
   dbh->logging.dirty = 0;
   dbh->logging.active = 0;
   if(active) { /* state inherited from memory */
-- 
2.43.0


From b0c55a0a93c2dd78dd9d7e60a5482fc0bcd48761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:23 +0000
Subject: [PATCH 25/64] fix: a failed dump does not supersede the journal

---
 Db/dbdump.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index a72976e..25e23cb 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -168,7 +168,8 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
 #else
   /* restart logging */
   if(active) {
-    dbh->logging.dirty = 0;
+    if(!err)
+      dbh->logging.dirty = 0; /* the dump supersedes the journal */
     if(wg_start_logging(db)) {
       err = -2; /* Failed to re-initialize log */
     }
-- 
2.43.0


From 7160b02924443d4783a0809721de5108bf5cbeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 26/64] fix: the metadata of a triple is journaled

---
 Db/dbschema.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Db/dbschema.c b/Db/dbschema.c
index 58575d8..9179c99 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -68,11 +68,19 @@ static gint show_schema_error(void *db, char *errmsg);
  */
 void *wg_create_triple(void *db, gint subj, gint prop, gint ob, gint isparam) {
   void *rec = wg_create_raw_record(db, WG_SCHEMA_TRIPLE_SIZE);
-  gint *meta;
+  gint *metap, meta;
   if(rec) {
-    meta = ((gint *) rec + RECORD_META_POS);
     if(isparam) {
-      *meta |= (RECORD_META_NOTDATA|RECORD_META_MATCH);
+      metap = ((gint *) rec + RECORD_META_POS);
+      meta = *metap;
+      meta |= (RECORD_META_NOTDATA|RECORD_META_MATCH);
+#ifdef USE_DBLOG
+      if(dbmemsegh(db)->logging.active) {
+        if(wg_log_set_meta(db, rec, meta))
+          return NULL;
+      }
+#endif
+      *metap = meta;
     } else if(wg_index_add_rec(db, rec) < -1) {
       return NULL; /* index error */
     }
-- 
2.43.0


From 5fcdf48f8f301fdff357259b3c248e2bb19b1012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 27/64] fix: the match record of an index template is journaled
 and never indexed

---
 Db/dbindex.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index b737b98..d2c19d4 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -46,6 +46,7 @@ extern "C" {
 #include "dbcompare.h"
 #include "dbhash.h"
 #include "dbutil.h"
+#include "dblog.h"
 
 
 /* ====== Private defs =========== */
@@ -1758,7 +1759,7 @@ static void delete_from_list(void *db, gint *head) {
  * Returns 0 on error.
  */
 static gint add_index_template(void *db, gint *matchrec, gint reclen) {
-  gint *ilist, *meta;
+  gint *ilist, *metap, meta;
   void *rec;
   db_memsegment_header* dbh = dbmemsegh(db);
   wg_index_template *tmpl;
@@ -1828,12 +1829,21 @@ nextelem:
   rec = wg_create_raw_record(db, reclen);
   if(!rec)
     return 0;
+  /* Mark the record before it gets any contents, so that it is
+   * never indexed as data. */
+  metap = ((gint *) rec + RECORD_META_POS);
+  meta = *metap | (RECORD_META_NOTDATA | RECORD_META_MATCH);
+#ifdef USE_DBLOG
+  if(dbh->logging.active) {
+    if(wg_log_set_meta(db, rec, meta))
+      return 0;
+  }
+#endif
+  *metap = meta;
   for(i=0; i<reclen; i++) {
     if(wg_set_new_field(db, rec, i, matchrec[i]) < 0)
       return 0;
   }
-  meta = ((gint *) rec + RECORD_META_POS);
-  *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
 
   /* Add new template header */
   template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
-- 
2.43.0


From c0fff080dfbe411eb2472ee7c7a741953f32ad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:12 +0000
Subject: [PATCH 28/64] fix: hash tables that cannot be set up release their
 parts

---
 Db/dbhash.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index ccff31e..6e90a8a 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -590,6 +590,8 @@ void *wg_ginthash_init(void *db) {
 
   memset(tbl, 0, sizeof(ext_ginthash));
   if(grow_ginthash(db, tbl)) { /* initial level is set to 1 */
+    if(tbl->directory)
+      free(tbl->directory);
     free(tbl);
     return NULL;
   }
@@ -918,6 +920,8 @@ void *wg_dhash_init(void *db, size_t entries) {
     tbl->dhash_size = dhash_size(entries);
     tbl->keys = calloc(tbl->dhash_size, sizeof(gint)); /* set to 0x0 */
     if(!tbl->keys || !tbl->dhash_size) {
+      if(tbl->keys)
+        free(tbl->keys);
       free(tbl);
       tbl = NULL;
     }
-- 
2.43.0


From 1989047e77374bb356b09dbfb6824c2333b1335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:01 +0000
Subject: [PATCH 29/64] fix: a query whose prefetch fails releases its result
 memory pool

---
 Db/dbquery.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index e2fb522..402077a 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -714,6 +714,12 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
     full_arglist = NULL; /* redundant/paranoia */
   }
 
+  /* initialize as empty, without a result memory pool */
+  query->curr_page = NULL;
+  query->curr_pidx = 0;
+  query->res_count = 0;
+  query->mpool = NULL;
+
   if(index_id > 0) {
     int start_inclusive = 0, end_inclusive = 0;
     gint start_bound = WG_ILLEGAL; /* encoded values */
@@ -897,10 +903,6 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
     query_result_page *currpage;
     void *rec;
 
-    query->curr_page = NULL; /* initialize as empty */
-    query->curr_pidx = 0;
-    query->res_count = 0;
-
     /* XXX: could move this inside the loop (speeds up empty
      * query, slows down other queries) */
     query->mpool = wg_create_mpool(db, sizeof(query_result_page));
@@ -1108,7 +1110,7 @@ void *wg_fetch(void *db, wg_query *query) {
 void wg_free_query(void *db, wg_query *query) {
   if(query->arglist)
     free(query->arglist);
-  if(query->qtype==WG_QTYPE_PREFETCH && query->mpool)
+  if(query->mpool)
     wg_free_mpool(db, query->mpool);
   free(query);
 }
-- 
2.43.0


From bc7bb2a443d4573a6efa1d88cfea7578e4e37449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:01 +0000
Subject: [PATCH 30/64] fix: a JSON query without memory for a result set
 releases its argument list

---
 Db/dbquery.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 402077a..9d2abef 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1882,6 +1882,7 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
     if(!next_set) {
       if(curr_res)
         free_resultset(db, curr_res);
+      ARGLIST_CLEANUP(sorted_arglist)
       return NULL;
     }
 
-- 
2.43.0


From 5ced89f2907da48a7ff163b01d81b28f0d270e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:01 +0000
Subject: [PATCH 31/64] fix: attaching that fails releases the mapping and the
 database handle

---
 Db/dbmem.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Db/dbmem.c b/Db/dbmem.c
index 453efe9..7615d3e 100644
--- a/Db/dbmem.c
+++ b/Db/dbmem.c
@@ -98,6 +98,7 @@ static gint show_memory_error_nr(char* errmsg, int nr);
         wg_print_code_version(); \
         wg_print_header_version(dbmemsegh(shmx), 1); \
       } \
+      wg_detach_database(shmx); \
       return NULL; \
     } \
   }
@@ -225,6 +226,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
      */
     if(!dbcheckh(shm)) {
       show_memory_error("Existing segment header is invalid");
+      detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
       free_dbhandle(dbhandle);
 #endif
@@ -238,6 +240,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
        */
       if(((db_memsegment_header *) shm)->size < minsize) {
         show_memory_error("Existing segment is too small");
+        detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
         free_dbhandle(dbhandle);
 #endif
@@ -253,6 +256,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
        */
       if(!((db_memsegment_header *) shm)->logging.active) {
         show_memory_error("Existing memory segment has no journal");
+        detach_shared_memory(shm);
         free_dbhandle(dbhandle);
         return NULL;
       }
@@ -264,6 +268,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
     omode = wg_memmode(dbhandle);
     if(omode == -1) {
       show_memory_error("Failed to get the access mode of the segment");
+      detach_shared_memory(shm);
       free_dbhandle(dbhandle);
       return NULL;
     }
@@ -321,6 +326,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
 #endif
       if(err) {
         show_memory_error("Database initialization failed");
+        detach_shared_memory(shm);
         free_shared_memory(key);
 #ifdef USE_DATABASE_HANDLE
         free_dbhandle(dbhandle);
@@ -386,6 +392,9 @@ void* wg_attach_local_database(gint size) {
   shm = (void *) malloc(size);
   if (shm==NULL) {
     show_memory_error("malloc failed");
+#ifdef USE_DATABASE_HANDLE
+    free_dbhandle(dbhandle);
+#endif
     return NULL;
   } else {
     /* key=0 - no shared memory associated */
-- 
2.43.0


From 6dd848657a853c9b0fbc333341d2444b1fa35fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:22 +0000
Subject: [PATCH 32/64] fix: creating an index reports that a row could not be
 indexed

---
 Db/dbindex.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index d2c19d4..6b6e93b 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1413,7 +1413,8 @@ static gint create_ttree_index(void *db, gint index_id){
       continue;
     }
     if(MATCH_TEMPLATE(db, hdr, rec)) {
-      ttree_add_row(db, index_id, rec);
+      if(ttree_add_row(db, index_id, rec))
+        return -1;
       rowsprocessed++;
     }
     rec=wg_get_next_record(db,rec);
@@ -1614,7 +1615,7 @@ static gint create_hash_index(void *db, gint index_id){
   void *rec;
   wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
   gint type = hdr->type;
-  gint firstcol = hdr->rec_field_index[0];
+  gint lastcol = hdr->rec_field_index[hdr->fields - 1];
   gint i;
 
   /* Initialize the hash table (0 - use default size) */
@@ -1626,7 +1627,7 @@ static gint create_hash_index(void *db, gint index_id){
   rowsprocessed = 0;
 
   while(rec != NULL) {
-    if(firstcol >= wg_get_record_len(db, rec)) {
+    if(lastcol >= wg_get_record_len(db, rec)) {
       rec=wg_get_next_record(db,rec);
       continue;
     }
@@ -1636,12 +1637,14 @@ static gint create_hash_index(void *db, gint index_id){
          * from the rows that point to them.
          */
         if(is_plain_record(rec)) {
-          hash_add_row(db, index_id, rec);
+          if(hash_add_row(db, index_id, rec))
+            return -1;
           rowsprocessed++;
         }
       } else {
         /* Add all rows normally */
-        hash_add_row(db, index_id, rec);
+        if(hash_add_row(db, index_id, rec))
+          return -1;
         rowsprocessed++;
       }
     }
-- 
2.43.0


From 3d8b6f6556d18a9a37f8899824aefd11c3cebd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:22 +0000
Subject: [PATCH 33/64] fix: creating an index reports that the template table
 could not be updated

---
 Db/dbindex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 6b6e93b..23344e1 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2268,7 +2268,7 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
         if(!insert_into_list(db,
           &(dbh->index_control_area_header.index_template_table[i]),
           index_id))
-          return 0;
+          return -1;
       }
     }
   }
-- 
2.43.0


From a0f4446f4a5b2d06a3e631fc3a538a4050413cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:22 +0000
Subject: [PATCH 34/64] fix: dropping an index reports that its template could
 not be deleted

---
 Db/dbindex.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 23344e1..97c6c1d 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1949,7 +1949,8 @@ static gint remove_index_template(void *db, gint template_offset) {
 
   /* Delete the database record */
   rec = offsettoptr(db, tmpl->offset_matchrec);
-  wg_delete_record(db, rec);
+  if(wg_delete_record(db, rec))
+    return -1;
 
   /* Remove from template list */
   ilist = &dbh->index_control_area_header.index_template_list;
@@ -2293,6 +2294,7 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 */
 gint wg_drop_index(void *db, gint index_id){
   int i;
+  gint err = 0;
   wg_index_header *hdr = NULL;
   gint *ilist;
   gcell *ilistelem;
@@ -2377,8 +2379,10 @@ gint wg_drop_index(void *db, gint index_id){
   if(hdr->template_offset) {
     wg_index_template *tmpl = \
       (wg_index_template *) offsettoptr(db, hdr->template_offset);
-    if(!(--(tmpl->refcount)))
-      remove_index_template(db, hdr->template_offset);
+    if(!(--(tmpl->refcount))) {
+      if(remove_index_template(db, hdr->template_offset))
+        err = -1;
+    }
   }
 #endif
 
@@ -2388,7 +2392,7 @@ gint wg_drop_index(void *db, gint index_id){
   /* decrement index counter */
   dbh->index_control_area_header.number_of_indexes--;
 
-  return 0;
+  return err;
 }
 
 /** Find index id (index header) by column.
-- 
2.43.0


From 1c6ffa8d048cde01225823f7215415fb67546975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:54 +0000
Subject: [PATCH 35/64] fix: releasing a field value that fails is reported by
 set_field and delete_record

---
 Db/dbdata.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 3afc65d..2a3420a 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -276,7 +276,10 @@ gint wg_delete_record(void* db, void *rec) {
 recdel_backlink_removed:
 #endif
 
-    if(isptr(data)) free_field_encoffset(db,data);
+    if(isptr(data)) {
+      if(free_field_encoffset(db,data))
+        return -3; /* field data not released */
+    }
   }
 
   /* Free the record storage */
@@ -612,6 +615,7 @@ wg_int* wg_get_record_dataarray(void* db, void* record) {
  *  returns -6 for journal error
  */
 wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
+  gint free_err = 0;            /** set if the old value was not released */
   gint* fieldadr;
   gint fielddata;
   gint* strptr;
@@ -758,7 +762,7 @@ setfld_backlink_removed:
   //printf("wg_set_field adr %d offset %d\n",fieldadr,ptrtooffset(db,fieldadr));
   if (isptr(fielddata)) {
     //printf("wg_set_field freeing old data\n");
-    free_field_encoffset(db,fielddata);
+    free_err = free_field_encoffset(db,fielddata);
   }
   (*fieldadr)=data; // store data to field
 
@@ -809,7 +813,7 @@ setfld_backlink_removed:
   }
 #endif
 
-  return 0;
+  return (free_err ? -3 : 0);
 }
 
 /** Write contents of one field.
@@ -1259,6 +1263,7 @@ static gint free_field_encoffset(void* db,gint encoffset) {
   gint i;
 #endif
   gint tmp;
+  gint err=0;
   gint* objptr;
   gint* extrastr;
 
@@ -1305,12 +1310,15 @@ static gint free_field_encoffset(void* db,gint encoffset) {
         extrastr=(gint*)(((char*)(objptr))+(sizeof(gint)*LONGSTR_EXTRASTR_POS));
         tmp=*extrastr;
         // remove from hash
-        wg_remove_from_strhash(db,encoffset);
+        if (wg_remove_from_strhash(db,encoffset))
+          return -1;
         // remove extrastr
-        if (tmp!=0) free_field_encoffset(db,tmp);
+        if (tmp!=0) err=free_field_encoffset(db,tmp);
         *extrastr=0;
         // really free object from area
-        return wg_free_object(db,&(dbmemsegh(db)->longstr_area_header),offset);
+        if (wg_free_object(db,&(dbmemsegh(db)->longstr_area_header),offset))
+          err=-1;
+        return err;
       }
       break;
     case SHORTSTRBITS:
-- 
2.43.0


From f0119c5c074bb091fbdc5c0cd1eaefd1e2e59ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:55 +0000
Subject: [PATCH 36/64] fix: removing a row from a hash index reports lost
 storage and memory exhaustion

---
 Db/dbhash.c  | 4 +++-
 Db/dbindex.c | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 6e90a8a..5ee0435 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -501,6 +501,7 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
  *
  * Returns 0 on success
  * Returns -1 on error.
+ * Returns -3 if the bucket storage was not released.
  */
 gint wg_idxhash_remove(void* db, db_hash_area_header *ha,
   char* data, gint length, gint offset)
@@ -537,7 +538,8 @@ is_bucket_empty:
   if(!(*reclist_offset)) {
     gint nextchain = dbfetch(db, bucket + HASHIDX_HASHCHAIN_POS*sizeof(gint));
     dbstore(db, bucket_offset, nextchain);
-    wg_free_object(db, &(dbmemsegh(db)->indexhash_area_header), bucket);
+    if(wg_free_object(db, &(dbmemsegh(db)->indexhash_area_header), bucket))
+      return -3; /* storage not released */
   }
 
   return 0;
diff --git a/Db/dbindex.c b/Db/dbindex.c
index 97c6c1d..f2c6af6 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1515,6 +1515,7 @@ static gint hash_remove_row(void *db, gint index_id, void *rec) {
  * returns:
  * 0 - on success
  * -1 - on error
+ * -3 - on an error that the caller may not ignore
  */
 static gint hash_recurse(void *db, wg_index_header *hdr, char *prefix,
   gint prefixlen, gint *values, gint count, void *rec, gint op, gint expand) {
@@ -1590,7 +1591,7 @@ static gint hash_extend_prefix(void *db, wg_index_header *hdr, char *prefix,
   if(!newprefix) {
     free(fldbytes);
     show_index_error(db, "Failed to allocate memory");
-    return -1;
+    return -3; /* never ignored, unlike a value that cannot be hashed */
   }
   if(prefix) {
     memcpy(newprefix, prefix, prefixlen);
-- 
2.43.0


From 125342222430a62b24e68a4d432bda3aa7aea09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:55 +0000
Subject: [PATCH 37/64] fix: listing the indexes counts a multi-column index
 once

---
 Db/dbindex.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index f2c6af6..71be332 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2624,7 +2624,11 @@ void * wg_get_all_indexes(void *db, gint *count) {
     while(*ilist) {
       gcell *ilistelem = (gcell *) offsettoptr(db, *ilist);
       if(ilistelem->car) {
-        res[(*count)++] = ilistelem->car;
+        wg_index_header *hdr = \
+          (wg_index_header *) offsettoptr(db, ilistelem->car);
+        /* a multi-column index is listed once, on its last column */
+        if(hdr->rec_field_index[hdr->fields - 1] == column)
+          res[(*count)++] = ilistelem->car;
       }
       ilist = &ilistelem->cdr;
     }
-- 
2.43.0


From e4fa350d92f446234ae27416b6211fcc45c48357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:57 +0000
Subject: [PATCH 38/64] fix: import of a dump reports failing lock
 initialisation as fatal

---
 Db/dbdump.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 25e23cb..31ef474 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -366,7 +366,9 @@ abort:
     }
   }
 #endif
-  return wg_init_locks(db);
+  if(wg_init_locks(db))
+    return -2; /* the memory image was already replaced */
+  return 0;
 }
 
 /* ------------ error handling ---------------- */
-- 
2.43.0


From c3b23a03e3f5b33b1860671f1d1ebcb3011aefe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:57 +0000
Subject: [PATCH 39/64] fix: import of a dump verifies the file before it
 overwrites the database

---
 Db/dbdump.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 31ef474..a033832 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -287,12 +287,17 @@ gint wg_import_dump(void * db,char fileName[]) {
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
   gint dbsize = -1, newsize, newkey;
+  gint minsize, maxsize;
   gint err = -1;
 #ifdef USE_DBLOG
   gint active = dbh->logging.active;
   gint serial = dbh->logging.serial;
 #endif
 
+  /* Verify the integrity and compatibility before anything is changed */
+  if(wg_check_dump(db, fileName, &minsize, &maxsize))
+    return -1;
+
   /* Attempt to open the dump file */
 #ifdef _WIN32
   if(fopen_s(&f, fileName, "rb")) {
@@ -303,9 +308,8 @@ gint wg_import_dump(void * db,char fileName[]) {
     return -1;
   }
 
-  /* Examine the dump header. We only read the size, it is
-   * implied that the integrity and compatibility were verified
-   * earlier.
+  /* Examine the dump header. The integrity and compatibility
+   * were verified above.
    */
   dumph = (db_memsegment_header *) malloc(sizeof(db_memsegment_header));
   if(!dumph) {
-- 
2.43.0


From f83bf843261c5a4e4660c16e97c1fb642345df66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:09 +0000
Subject: [PATCH 40/64] fix: server searches that delete or update records hold
 a write lock

---
 Server/dserve.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index aa5ee37..a809cb1 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -677,9 +677,15 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
   handlecount=0; // actual nr of records handled
   // get lock
   if (tdata->realthread && tdata->common->shutdown) return NULL; // for multithreading only
-  lock_id = wg_start_read(db); // get read lock
-  tdata->lock_id=lock_id;
-  tdata->lock_type=READ_LOCK_TYPE;
+  if (opcode==UPDATE_CODE || opcode==DELETE_CODE) {
+    lock_id = wg_start_write(db); // records are changed: get write lock
+    tdata->lock_id=lock_id;
+    tdata->lock_type=WRITE_LOCK_TYPE;
+  } else {
+    lock_id = wg_start_read(db); // get read lock
+    tdata->lock_id=lock_id;
+    tdata->lock_type=READ_LOCK_TYPE;
+  }
   if (!lock_id) return err_clear_detach_halt(LOCK_ERR,tdata);
   // handle one of the cases
   if (searchtype==0) {
@@ -803,7 +809,12 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     tdata->bufptr+=itmp;
   }
   // release locks and detach
-  if (!wg_end_read(db, lock_id)) {  // release read lock
+  if (opcode==UPDATE_CODE || opcode==DELETE_CODE) {
+    itmp=wg_end_write(db, lock_id);  // release write lock
+  } else {
+    itmp=wg_end_read(db, lock_id);  // release read lock
+  }
+  if (!itmp) {
     return err_clear_detach_halt(LOCK_RELEASE_ERR,tdata);
   }
   tdata->lock_id=0;
-- 
2.43.0


From 161ae02011b5da7a0ec20b895b046a41be29e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:09 +0000
Subject: [PATCH 41/64] fix: server insert into a new database releases its
 lock on errors

---
 Server/dserve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Server/dserve.c b/Server/dserve.c
index a809cb1..d4fd346 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -889,6 +889,7 @@ static char* insert(thread_data_p tdata, char* inparams[], char* invalues[], int
       if (tdata->realthread && tdata->common->shutdown) return NULL; // for multithreading only     
       db=op_create_database(tdata,database,0);
       if (!db) return err_clear_detach_halt(DB_CREATE_ERR,tdata);   
+      tdata->db=db; // error handling releases the lock through it
     }  
   }  
   // database attached OK
-- 
2.43.0


From 86a4c01945c8dc9da33dc8b3c597f5614beb6599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:09 +0000
Subject: [PATCH 42/64] fix: dropping a database through the server releases
 the lock it takes

---
 Server/dserve.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index d4fd346..813ac55 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -1096,10 +1096,14 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[], int i
     tdata->lock_id=lock_id;
     tdata->lock_type=WRITE_LOCK_TYPE;
     if (!lock_id) return err_clear_detach_halt(LOCK_ERR,tdata); 
-    tmp=wg_detach_database(db); // detaches a database: returns 0 if OK
+    tmp=wg_delete_database(database); // removed once everybody has detached
     if (tmp) return err_clear_detach_halt(DB_DROP_ERR,tdata);
-    tmp=wg_delete_database(database);    
-    if (tmp) return errhalt(DB_DROP_ERR,tdata);
+    // processes still attached must not wait for the lock forever
+    if (!wg_end_write(db, lock_id)) {
+      return err_clear_detach_halt(LOCK_RELEASE_ERR,tdata);
+    }
+    tdata->lock_id=0;
+    op_detach_database(tdata,db);
   }  
   // deleted successfully 
   tdata->db=NULL;
-- 
2.43.0


From ffccf95f831cb0d6bc5a368844a349a90c23b7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:19 +0000
Subject: [PATCH 43/64] fix: updating a record that is referenced twice by the
 same record duplicated index rows

---
 Db/dbdata.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 2a3420a..f9a2bc1 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -550,6 +550,11 @@ static gint restore_backlink_index_entries(void *db, gint *record,
     for(col=0; col<length; col++) {
       if(*(record + RECORD_HEADER_GINTS + col) == value) {
         if(dbh->index_control_area_header.index_table[col]) {
+          /* The row may have been restored already, if there are several
+           * references or another column belongs to the same index.
+           */
+          if(wg_index_del_field(db, record, col) < -1)
+            return -1;
           if(wg_index_add_field(db, record, col) < -1)
             return -1;
         }
-- 
2.43.0


From 74c1d0b9d721d0081eae9faf7674c132cf805e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:19 +0000
Subject: [PATCH 44/64] fix: wg_set_new_field removes existing multi-column
 index rows before the value changes

---
 Db/dbdata.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index f9a2bc1..28a6d93 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -900,6 +900,22 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+  /* The record may be present in a multi-column index or an index with
+   * a template already, because of its other fields. Remove such entries
+   * while the old value is still in the db.
+   */
+#ifdef USE_INDEX_TEMPLATE
+  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
+    (dbh->index_control_area_header.index_table[fieldnr] ||\
+     dbh->index_control_area_header.index_template_table[fieldnr])) {
+#else
+  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
+    dbh->index_control_area_header.index_table[fieldnr]) {
+#endif
+    if(wg_index_del_field(db, record, fieldnr) < -1)
+      return -3; /* index error */
+  }
+
   /* Write new value */
   (*fieldadr)=data;
 
-- 
2.43.0


From 11ea72ad4d93ffdb4e725e4300c21d403f3ad427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:25 +0000
Subject: [PATCH 45/64] fix: removing a row that is not in a T-tree index is
 not an index error

---
 Db/dbhash.c  | 4 ++--
 Db/dbindex.c | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 5ee0435..e5e42ee 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -516,7 +516,7 @@ gint wg_idxhash_remove(void* db, db_hash_area_header *ha,
   /* Find the correct bucket. */
   bucket = find_idxhash_bucket(db, data, length, &bucket_offset);
   if(!bucket) {
-    return show_hash_error(db, "wg_idxhash_remove: Hash value not found.");
+    return -1; /* value not in the index */
   }
 
   /* Remove the record offset from the list. */
@@ -532,7 +532,7 @@ gint wg_idxhash_remove(void* db, db_hash_area_header *ha,
     }
     next_offset = &(rec_cell->cdr);
   }
-  return show_hash_error(db, "wg_idxhash_remove: Offset not found");
+  return -1; /* row not in the index */
 
 is_bucket_empty:
   if(!(*reclist_offset)) {
diff --git a/Db/dbindex.c b/Db/dbindex.c
index 71be332..e1f4be9 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2669,15 +2669,16 @@ void * wg_get_all_indexes(void *db, gint *count) {
       break; \
   }
 
+/* A row that is not present in the index is not an error. */
 #define INDEX_REMOVE_ROW(d, h, i, r) \
   switch(h->type) { \
     case WG_INDEX_TYPE_TTREE: \
-      if(ttree_remove_row(d, i, r) < -2) \
+      if(ttree_remove_row(d, i, r) < -3) \
         return -2; \
       break; \
     case WG_INDEX_TYPE_TTREE_JSON: \
       if(is_plain_record(r)) { \
-        if(ttree_remove_row(d, i, r) < -2) \
+        if(ttree_remove_row(d, i, r) < -3) \
           return -2; \
       } \
       break; \
-- 
2.43.0


From 9880b58be24c2a246042f144abb58edbfb48fcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:30 +0000
Subject: [PATCH 46/64] fix: wg_set_new_field removes index rows of referring
 records before the value changes

---
 Db/dbdata.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 28a6d93..0e462df 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -846,6 +846,7 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #ifdef USE_BACKLINKING
   gint backlink_list;           /** start of backlinks for this record */
   gint new_offset = 0;          /** list cell for the new backlink */
+  gint rec_enc = WG_ILLEGAL;    /** this record as encoded value. */
 #endif
   db_memsegment_header *dbh = dbmemsegh(db);
 #ifdef USE_CHILD_DB
@@ -916,6 +917,31 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
       return -3; /* index error */
   }
 
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  /* The value of the record changes for the records that refer to it, so
+   * their index entries have to be removed as well. Normal usage scenario
+   * would be that the record is also new, so that there are no backlinks,
+   * however this is not guaranteed.
+   */
+  backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
+  if(backlink_list) {
+    gint err;
+    gcell *next = (gcell *) offsettoptr(db, backlink_list);
+    rec_enc = wg_encode_record(db, record);
+    for(;;) {
+      err = remove_backlink_index_entries(db,
+        (gint *) offsettoptr(db, next->car),
+        rec_enc, WG_COMPARE_REC_DEPTH-1);
+      if(err) {
+        return -4;
+      }
+      if(!next->cdr)
+        break;
+      next = (gcell *) offsettoptr(db, next->cdr);
+    }
+  }
+#endif
+
   /* Write new value */
   (*fieldadr)=data;
 
@@ -958,15 +984,10 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #endif
 
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
-  /* Create new entries in indexes in all referring records. Normal
-   * usage scenario would be that the record is also new, so that
-   * there are no backlinks, however this is not guaranteed.
-   */
-  backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
+  /* Create new entries in indexes in all referring records */
   if(backlink_list) {
     gint err;
     gcell *next = (gcell *) offsettoptr(db, backlink_list);
-    gint rec_enc = wg_encode_record(db, record);
     for(;;) {
       err = restore_backlink_index_entries(db,
         (gint *) offsettoptr(db, next->car),
-- 
2.43.0


From cfd8f9ae296dec54839df9eb620faa3d59cdf1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:11 +0000
Subject: [PATCH 47/64] fix: wg_add_int_atomic_field cut a sum beyond 32 bits

---
 Db/dbdata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 0e462df..d097f57 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1176,8 +1176,8 @@ wg_int wg_set_atomic_field(void* db, void* record, wg_int fieldnr, wg_int data)
 
 wg_int wg_add_int_atomic_field(void* db, void* record, wg_int fieldnr, int data) {
   gint* fieldadr;
-  gint old,nxt,r;
-  int i,sum;
+  gint old,nxt,r,sum;
+  int i;
 #ifdef _WIN32
   int ts=1;
 #else
-- 
2.43.0


From 52e07415a924a173881076fb5f75f7d6fa4412d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:33 +0000
Subject: [PATCH 48/64] fix: queries with an undefined condition code are
 rejected instead of matching every row

---
 Db/dbquery.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 9d2abef..dad401b 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -325,7 +325,7 @@ static gint check_arglist(void *db, void *rec, wg_query_arg *arglist,
           return 0;
         break;
       default:
-        break;
+        return 0; /* not a condition, nothing satisfies it */
     }
   }
 
@@ -378,6 +378,20 @@ static gint prepare_params(void *db, void *matchrec, gint reclen,
     show_query_error(db, "Invalid argument list (NULL)");
     return -1;
   }
+  for(i=0; i<argc; i++) {
+    switch(arglist[i].cond) {
+      case WG_COND_EQUAL:
+      case WG_COND_NOT_EQUAL:
+      case WG_COND_LESSTHAN:
+      case WG_COND_GREATER:
+      case WG_COND_LTEQUAL:
+      case WG_COND_GTEQUAL:
+        break;
+      default:
+        show_query_error(db, "Invalid condition in argument list");
+        return -1;
+    }
+  }
 #endif
 
   /* Determine total number of query parameters (number of arguments
-- 
2.43.0


From 6929910d0a280cdf0b7529e92f88092c6b746450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:46 +0000
Subject: [PATCH 49/64] fix: a query value that could not be encoded is
 rejected instead of being taken for a missing bound

---
 Db/dbquery.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index dad401b..3230da7 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -391,6 +391,10 @@ static gint prepare_params(void *db, void *matchrec, gint reclen,
         show_query_error(db, "Invalid condition in argument list");
         return -1;
     }
+    if(arglist[i].value == WG_ILLEGAL) {
+      show_query_error(db, "Invalid value in argument list");
+      return -1;
+    }
   }
 #endif
 
-- 
2.43.0


From e73742bc6275c4c571d6c63999e35372ff388344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:06 +0000
Subject: [PATCH 50/64] fix: Python record objects are returned with one
 reference too many

---
 Python/wgdbmodule.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index a80d6c9..8da37f4 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -710,7 +710,6 @@ static PyObject * wgdb_get_first_record(PyObject *self, PyObject *args) {
     return NULL;
   }
 
-  Py_INCREF(rec);
   return (PyObject *) rec;
 }
 
@@ -738,7 +737,6 @@ static PyObject * wgdb_get_next_record(PyObject *self, PyObject *args) {
     return NULL;
   }
 
-  Py_INCREF(rec);
   return (PyObject *) rec;
 }
 
@@ -1413,7 +1411,6 @@ static PyObject *wgdb_get_field(PyObject *self, PyObject *args) {
       wg_record_type.tp_free(ddata);
       return NULL;
     }
-    Py_INCREF(ddata);
     return (PyObject *) ddata;
   }
   else if(ftype==WG_INTTYPE) {
@@ -1795,7 +1792,6 @@ static PyObject * wgdb_fetch(PyObject *self, PyObject *args) {
     return NULL;
   }
 
-  Py_INCREF(rec);
   return (PyObject *) rec;
 }
 
-- 
2.43.0


From 3f6dd6296e71612295f44f0a82ec9568ac02c2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:06 +0000
Subject: [PATCH 51/64] fix: Python res_count returns None without taking a
 reference

---
 Python/wgdbmodule.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 8da37f4..a31e79a 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -1942,6 +1942,7 @@ static PyObject *wg_query_get_res_count(wg_query_ob *obj, void *closure) {
     if(obj->query->qtype == WG_QTYPE_PREFETCH) {
       return Py_BuildValue("K", (unsigned PY_LONG_LONG) obj->query->res_count);
     } else {
+      Py_INCREF(Py_None);
       return Py_None;
     }
   } else {
-- 
2.43.0


From 006949c7610534605b8013429c1a592b9b91b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:06 +0000
Subject: [PATCH 52/64] fix: Python string conversion leaks the bytes object
 and crashes when encoding fails

---
 Python/wgdbmodule.c | 111 +++++++++++++++++++++-----------------------
 1 file changed, 54 insertions(+), 57 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index a31e79a..9317b45 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -939,6 +939,26 @@ static wg_int encode_pyobject_double(wg_database *db, PyObject *data,
   }
 }
 
+/** Get the contents of a Python string as a C string.
+ * The C string is valid until the object stored in *bytes (which may
+ * be NULL) is released. Returns NULL and sets an exception on failure.
+ */
+static char *pystr_as_string(PyObject *data, PyObject **bytes) {
+  *bytes = NULL;
+#ifndef PYTHON3
+  return PyString_AsString(data);
+#else
+#if defined(HAVE_LOCALEENC)
+  *bytes = PyUnicode_EncodeLocale(data, ENCODEERR);
+#else
+  *bytes = PyUnicode_AsEncodedString(data, NULL, ENCODEERR);
+#endif
+  if(!*bytes)
+    return NULL;
+  return PyBytes_AsString(*bytes);
+#endif
+}
+
 /** Encode an atomic value of type WG_STRTYPE
  *  returns WG_ILLEGAL on failure
  *  if param is 1, the storage will be allocated in local memory (intended
@@ -946,24 +966,19 @@ static wg_int encode_pyobject_double(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_str(wg_database *db, PyObject *data,
   char *ext_str, int param) {
-  char *s;
-#ifndef PYTHON3
-  s = PyString_AsString(data);
-#elif defined(HAVE_LOCALEENC)
-  s = PyBytes_AsString(PyUnicode_EncodeLocale(data, ENCODEERR));
-#else
-  s = PyBytes_AsString(PyUnicode_AsEncodedString(data, NULL, ENCODEERR));
-#endif
+  PyObject *bytes = NULL;
+  wg_int enc = WG_ILLEGAL;
+  char *s = pystr_as_string(data, &bytes);
   /* wg_encode_str is not guaranteed to check for NULL pointer */
   if(s) {
     if(!param) {
-      return wg_encode_str(db->db, s, ext_str);
+      enc = wg_encode_str(db->db, s, ext_str);
     } else {
-      return wg_encode_query_param_str(db->db, s, ext_str);
+      enc = wg_encode_query_param_str(db->db, s, ext_str);
     }
-  } else {
-    return WG_ILLEGAL;
   }
+  Py_XDECREF(bytes);
+  return enc;
 }
 
 /** Encode an atomic value of type WG_URITYPE
@@ -973,24 +988,19 @@ static wg_int encode_pyobject_str(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_uri(wg_database *db, PyObject *data,
   char *ext_str, int param) {
-  char *s;
-#ifndef PYTHON3
-  s = PyString_AsString(data);
-#elif defined(HAVE_LOCALEENC)
-  s = PyBytes_AsString(PyUnicode_EncodeLocale(data, ENCODEERR));
-#else
-  s = PyBytes_AsString(PyUnicode_AsEncodedString(data, NULL, ENCODEERR));
-#endif
+  PyObject *bytes = NULL;
+  wg_int enc = WG_ILLEGAL;
+  char *s = pystr_as_string(data, &bytes);
   /* wg_encode_str is not guaranteed to check for NULL pointer */
   if(s) {
     if(!param) {
-      return wg_encode_uri(db->db, s, ext_str);
+      enc = wg_encode_uri(db->db, s, ext_str);
     } else {
-      return wg_encode_query_param_uri(db->db, s, ext_str);
+      enc = wg_encode_query_param_uri(db->db, s, ext_str);
     }
-  } else {
-    return WG_ILLEGAL;
   }
+  Py_XDECREF(bytes);
+  return enc;
 }
 
 /** Encode an atomic value of type WG_XMLLITERALTYPE
@@ -1000,24 +1010,19 @@ static wg_int encode_pyobject_uri(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_xmlliteral(wg_database *db, PyObject *data,
   char *ext_str, int param) {
-  char *s;
-#ifndef PYTHON3
-  s = PyString_AsString(data);
-#elif defined(HAVE_LOCALEENC)
-  s = PyBytes_AsString(PyUnicode_EncodeLocale(data, ENCODEERR));
-#else
-  s = PyBytes_AsString(PyUnicode_AsEncodedString(data, NULL, ENCODEERR));
-#endif
+  PyObject *bytes = NULL;
+  wg_int enc = WG_ILLEGAL;
+  char *s = pystr_as_string(data, &bytes);
   /* wg_encode_str is not guaranteed to check for NULL pointer */
   if(s) {
     if(!param) {
-      return wg_encode_xmlliteral(db->db, s, ext_str);
+      enc = wg_encode_xmlliteral(db->db, s, ext_str);
     } else {
-      return wg_encode_query_param_xmlliteral(db->db, s, ext_str);
+      enc = wg_encode_query_param_xmlliteral(db->db, s, ext_str);
     }
-  } else {
-    return WG_ILLEGAL;
   }
+  Py_XDECREF(bytes);
+  return enc;
 }
 
 /** Encode an atomic value of type WG_CHARTYPE
@@ -1026,24 +1031,19 @@ static wg_int encode_pyobject_xmlliteral(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_char(wg_database *db, PyObject *data,
   int param) {
-  char *s;
-#ifndef PYTHON3
-  s = PyString_AsString(data);
-#elif defined(HAVE_LOCALEENC)
-  s = PyBytes_AsString(PyUnicode_EncodeLocale(data, ENCODEERR));
-#else
-  s = PyBytes_AsString(PyUnicode_AsEncodedString(data, NULL, ENCODEERR));
-#endif
+  PyObject *bytes = NULL;
+  wg_int enc = WG_ILLEGAL;
+  char *s = pystr_as_string(data, &bytes);
   /* wg_encode_str is not guaranteed to check for NULL pointer */
   if(s) {
     if(!param) {
-      return wg_encode_char(db->db, s[0]);
+      enc = wg_encode_char(db->db, s[0]);
     } else {
-      return wg_encode_query_param_char(db->db, s[0]);
+      enc = wg_encode_query_param_char(db->db, s[0]);
     }
-  } else {
-    return WG_ILLEGAL;
   }
+  Py_XDECREF(bytes);
+  return enc;
 }
 
 /** Encode an atomic value of type WG_FIXPOINTTYPE
@@ -1177,6 +1177,7 @@ static wg_int encode_pyobject_ext(PyObject *self,
   PyObject *data;
   wg_int enc, ftype = 0;
   char *ext_str = NULL;
+  PyObject *ext_bytes = NULL;
 
   if(PyTuple_Check(obj)) {
     /* Extended value. */
@@ -1203,17 +1204,10 @@ static wg_int encode_pyobject_ext(PyObject *self,
     }
 
     if(extargs > 2) {
-#ifndef PYTHON3
-      ext_str = PyString_AsString(PyTuple_GetItem(obj, 2));
-#elif defined(HAVE_LOCALEENC)
-      ext_str = PyBytes_AsString(
-        PyUnicode_EncodeLocale(PyTuple_GetItem(obj, 2), ENCODEERR));
-#else
-      ext_str = PyBytes_AsString(
-        PyUnicode_AsEncodedString(PyTuple_GetItem(obj, 2), NULL, ENCODEERR));
-#endif
+      ext_str = pystr_as_string(PyTuple_GetItem(obj, 2), &ext_bytes);
       if(!ext_str) {
         /* Error has been set in conversion */
+        Py_XDECREF(ext_bytes);
         return WG_ILLEGAL;
       }
     }
@@ -1226,16 +1220,19 @@ static wg_int encode_pyobject_ext(PyObject *self,
   if(ftype == -1) {
     PyErr_SetString(PyExc_TypeError,
       "Requested encoding is not supported.");
+    Py_XDECREF(ext_bytes);
     return WG_ILLEGAL;
   }
   else if(ftype == -2) {
     PyErr_SetString(PyExc_TypeError,
       "Value is of unsupported type.");
+    Py_XDECREF(ext_bytes);
     return WG_ILLEGAL;
   }
 
   /* Now encode the given obj using the selected type */
   enc = encode_pyobject(db, data, ftype, ext_str, param);
+  Py_XDECREF(ext_bytes);
   if(enc==WG_ILLEGAL)
     wgdb_error_setstring(self, "Value encoding error.");
 
-- 
2.43.0


From be8b906916d733ad7b88545614454d3c1341a721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:06 +0000
Subject: [PATCH 53/64] fix: Python replay_log reports a journal that could not
 be replayed as success

---
 Python/wgdbmodule.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 9317b45..24b2384 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -527,7 +527,7 @@ static PyObject * wgdb_replay_log(PyObject *self, PyObject *args) {
   if(!PyArg_ParseTuple(args, "O!s", &wg_database_type, &db, &fname))
     return NULL;
   res = wg_replay_log(((wg_database*)db)->db, fname);
-  if (res == 0 || res == -1) {
+  if (res == 0) {
     Py_INCREF(Py_None);
     return Py_None;
   } else {
-- 
2.43.0


From 63f59a1cf36b7fbe88b09878a9159ec83a462d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:06 +0000
Subject: [PATCH 54/64] fix: Python integers that do not fit are stored as a
 wrong value with an exception pending

---
 Python/wgdbmodule.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 24b2384..f581e53 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -916,6 +916,8 @@ static wg_int encode_pyobject_int(wg_database *db, PyObject *data, int param) {
 #else
   intdata = (wg_int) PyLong_AsLong(data);
 #endif
+  if(intdata == -1 && PyErr_Occurred())
+    return WG_ILLEGAL;
 
   if(!param) {
     return wg_encode_int(db->db, intdata);
@@ -1109,12 +1111,14 @@ static wg_int encode_pyobject_time(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_var(wg_database *db, PyObject *data,
   int param) {
-  int intdata;
+  wg_int intdata;
 #ifndef PYTHON3
-  intdata = (int) PyInt_AsLong(data);
+  intdata = (wg_int) PyInt_AsLong(data);
 #else
-  intdata = (int) PyLong_AsLong(data);
+  intdata = (wg_int) PyLong_AsLong(data);
 #endif
+  if(intdata == -1 && PyErr_Occurred())
+    return WG_ILLEGAL;
 
   if(!param) {
     return wg_encode_var(db->db, intdata);
-- 
2.43.0


From e984d842d265d9eb33b0cc610f359fa1af26da52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:06 +0000
Subject: [PATCH 55/64] fix: Python lock identifiers lose their high bits

---
 Python/wgdbmodule.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index f581e53..b5511eb 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -1517,7 +1517,7 @@ static PyObject * wgdb_start_write(PyObject *self, PyObject *args) {
     return NULL;
   }
 
-  return Py_BuildValue("i", (int) lock_id);
+  return Py_BuildValue("n", lock_id);
 }
 
 /** Finish a writing transaction
@@ -1559,7 +1559,7 @@ static PyObject * wgdb_start_read(PyObject *self, PyObject *args) {
     return NULL;
   }
 
-  return Py_BuildValue("i", (int) lock_id);
+  return Py_BuildValue("n", lock_id);
 }
 
 /** Finish a reading transaction
-- 
2.43.0


From eac9ed4cd1cd8adddd31b51faee6fc44e7a23fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:06 +0000
Subject: [PATCH 56/64] fix: Python query parameters crash on a sequence that
 fails

---
 Python/wgdbmodule.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index b5511eb..483a6b5 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -1617,6 +1617,8 @@ static int parse_query_params(PyObject *self, PyObject *args,
       return 0;
     }
     len = (int) PySequence_Size(arglist);
+    if(len < 0)
+      return 0; /* Error has been set */
 
     /* Argument list was present. Extract the individual arguments. */
     if(len > 0) {
@@ -1632,6 +1634,8 @@ static int parse_query_params(PyObject *self, PyObject *args,
         int col, cond;
         wg_int enc;
         PyObject *t = PySequence_GetItem(arglist, (Py_ssize_t) i);
+        if(!t)
+          return 0; /* Error has been set */
 
         if(!PyTuple_Check(t) || PyTuple_Size(t) != 3) {
           PyErr_SetString(PyExc_ValueError,
@@ -1696,6 +1700,8 @@ static int parse_query_params(PyObject *self, PyObject *args,
     }
     else if(PySequence_Check(matchrec)) {
       int len = (int) PySequence_Size(matchrec);
+      if(len < 0)
+        return 0; /* Error has been set */
       if(len) {
         int i;
 
@@ -1709,7 +1715,10 @@ static int parse_query_params(PyObject *self, PyObject *args,
 
         for(i=0; i<len; i++) {
           PyObject *sg_t = PySequence_GetItem(matchrec, i);
-          wg_int enc = encode_pyobject_ext(self, query->db, sg_t, 1);
+          wg_int enc;
+          if(!sg_t)
+            return 0; /* Error has been set */
+          enc = encode_pyobject_ext(self, query->db, sg_t, 1);
           Py_DECREF(sg_t);
           if(enc==WG_ILLEGAL) {
             /* Error set by encode function */
-- 
2.43.0


From 724dfda4737c69a7cabbc4c1a8324ae18916b2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:06 +0000
Subject: [PATCH 57/64] fix: a freed Python query still refers to the released
 query

---
 Python/wgdbmodule.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 483a6b5..154a74e 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -1846,6 +1846,7 @@ static void free_query(wg_query_ob *obj) {
      */
     if(obj->query)
       wg_free_query(obj->db->db, obj->query);
+    obj->query = NULL;
 
     if(obj->arglist) {
       if(obj->db->db) {
@@ -1854,6 +1855,7 @@ static void free_query(wg_query_ob *obj) {
           wg_free_query_param(obj->db->db, obj->arglist[i].value);
       }
       free(obj->arglist);
+      obj->arglist = NULL;
     }
     if(obj->matchrec && obj->reclen) {
       if(obj->db->db) {
@@ -1862,6 +1864,7 @@ static void free_query(wg_query_ob *obj) {
           wg_free_query_param(obj->db->db, ((wg_int *) obj->matchrec)[i]);
       }
       free(obj->matchrec);
+      obj->matchrec = NULL;
     }
 
     Py_DECREF(obj->db);
-- 
2.43.0


From d68de25c0c30e25c815e8b56f26504d3a73e25c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:26 +0000
Subject: [PATCH 58/64] fix: Python functions crash when given a detached
 database

---
 Python/wgdbmodule.c | 71 ++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 27 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 154a74e..84d31cb 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -366,6 +366,23 @@ static struct PyModuleDef wgdb_def = {
  * would cause segfaults), only by calling wgdb_attach_database().
  */
 
+/** Argument converter: accepts a wgdb.Database object that is attached
+ *  to a database (the library functions expect a valid pointer).
+ */
+
+static int attached_database(PyObject *obj, void *result) {
+  if(!PyObject_TypeCheck(obj, &wg_database_type)) {
+    PyErr_SetString(PyExc_TypeError, "argument must be wgdb.Database");
+    return 0;
+  }
+  if(!((wg_database *) obj)->db) {
+    PyErr_SetString(PyExc_ValueError, "Database is not attached.");
+    return 0;
+  }
+  *((PyObject **) result) = obj;
+  return 1;
+}
+
 /* Functions for attaching and deleting */
 
 /** Attach to memory database.
@@ -493,7 +510,7 @@ static PyObject * wgdb_detach_database(PyObject *self, PyObject *args) {
 static PyObject * wgdb_dump(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   char * fname = NULL;
-  if(!PyArg_ParseTuple(args, "O!s", &wg_database_type, &db, &fname))
+  if(!PyArg_ParseTuple(args, "O&s", attached_database, &db, &fname))
     return NULL;
   if (wg_dump(((wg_database*)db)->db, fname) == 0) {
     Py_INCREF(Py_None);
@@ -508,7 +525,7 @@ static PyObject * wgdb_load(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   char * fname = NULL;
 
-  if(!PyArg_ParseTuple(args, "O!s", &wg_database_type, &db, &fname))
+  if(!PyArg_ParseTuple(args, "O&s", attached_database, &db, &fname))
     return NULL;
   if (wg_import_dump(((wg_database*)db)->db, fname) == 0) {
     Py_INCREF(Py_None);
@@ -524,7 +541,7 @@ static PyObject * wgdb_replay_log(PyObject *self, PyObject *args) {
   char * fname = NULL;
   int res;
 
-  if(!PyArg_ParseTuple(args, "O!s", &wg_database_type, &db, &fname))
+  if(!PyArg_ParseTuple(args, "O&s", attached_database, &db, &fname))
     return NULL;
   res = wg_replay_log(((wg_database*)db)->db, fname);
   if (res == 0) {
@@ -540,7 +557,7 @@ static PyObject * wgdb_start_logging(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   int res;
 
-  if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
+  if(!PyArg_ParseTuple(args, "O&", attached_database, &db))
     return NULL;
   res = wg_start_logging(((wg_database*)db)->db);
   if (res == 0 || res == -1) {
@@ -556,7 +573,7 @@ static PyObject * wgdb_stop_logging(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   int res;
 
-  if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
+  if(!PyArg_ParseTuple(args, "O&", attached_database, &db))
     return NULL;
   res = wg_stop_logging(((wg_database*)db)->db);
   if (res == 0 || res == -1) {
@@ -574,7 +591,7 @@ static PyObject * wgdb_size(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   wg_int res;
 
-  if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
+  if(!PyArg_ParseTuple(args, "O&", attached_database, &db))
     return NULL;
   res = wg_database_size(((wg_database*)db)->db);
   return PyLong_FromUnsignedLong((unsigned long)res);
@@ -584,7 +601,7 @@ static PyObject * wgdb_freesize(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   wg_int res;
 
-  if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
+  if(!PyArg_ParseTuple(args, "O&", attached_database, &db))
     return NULL;
   res = wg_database_freesize(((wg_database*)db)->db);
   return PyLong_FromUnsignedLong((unsigned long)res);
@@ -596,7 +613,7 @@ static PyObject * wgdb_createindex(PyObject *self, PyObject *args) {
   wg_int fld = 0;
   int res;
 
-  if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &fld))
+  if(!PyArg_ParseTuple(args, "O&n", attached_database, &db, &fld))
     return NULL;
   res = wg_create_index(((wg_database*)db)->db,
     fld, WG_INDEX_TYPE_TTREE, NULL, 0);
@@ -617,7 +634,7 @@ static PyObject * wgdb_indexid(PyObject *self, PyObject *args) {
   wg_int fld = 0;
   wg_int res;
 
-  if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &fld))
+  if(!PyArg_ParseTuple(args, "O&n", attached_database, &db, &fld))
     return NULL;
   res = wg_column_to_index_id(((wg_database*)db)->db,
     fld, WG_INDEX_TYPE_TTREE, NULL, 0);
@@ -645,7 +662,7 @@ static PyObject * wgdb_create_record(PyObject *self, PyObject *args) {
   wg_int length = 0;
   wg_record *rec;
 
-  if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &length))
+  if(!PyArg_ParseTuple(args, "O&n", attached_database, &db, &length))
     return NULL;
 
   /* Build a new record object */
@@ -672,7 +689,7 @@ static PyObject * wgdb_create_raw_record(PyObject *self, PyObject *args) {
   wg_int length = 0;
   wg_record *rec;
 
-  if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &length))
+  if(!PyArg_ParseTuple(args, "O&n", attached_database, &db, &length))
     return NULL;
 
   /* Build a new record object */
@@ -696,7 +713,7 @@ static PyObject * wgdb_get_first_record(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   wg_record *rec;
 
-  if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
+  if(!PyArg_ParseTuple(args, "O&", attached_database, &db))
     return NULL;
 
   /* Build a new record object */
@@ -721,7 +738,7 @@ static PyObject * wgdb_get_next_record(PyObject *self, PyObject *args) {
   PyObject *db = NULL, *prev = NULL;
   wg_record *rec;
 
-  if(!PyArg_ParseTuple(args, "O!O!", &wg_database_type, &db,
+  if(!PyArg_ParseTuple(args, "O&O!", attached_database, &db,
       &wg_record_type, &prev))
     return NULL;
 
@@ -748,7 +765,7 @@ static PyObject * wgdb_get_record_len(PyObject *self, PyObject *args) {
   PyObject *db = NULL, *rec = NULL;
   wg_int len = 0;
 
-  if(!PyArg_ParseTuple(args, "O!O!", &wg_database_type, &db,
+  if(!PyArg_ParseTuple(args, "O&O!", attached_database, &db,
       &wg_record_type, &rec))
     return NULL;
 
@@ -788,7 +805,7 @@ static PyObject * wgdb_delete_record(PyObject *self, PyObject *args) {
   PyObject *db = NULL, *rec = NULL;
   wg_int err = 0;
 
-  if(!PyArg_ParseTuple(args, "O!O!", &wg_database_type, &db,
+  if(!PyArg_ParseTuple(args, "O&O!", attached_database, &db,
       &wg_record_type, &rec))
     return NULL;
 
@@ -1266,8 +1283,8 @@ static PyObject *wgdb_set_field(PyObject *self, PyObject *args,
   static char *kwlist[] = {"db", "rec", "fieldnr", "data",
     "encoding", "ext_str", NULL};
 
-  if(!PyArg_ParseTupleAndKeywords(args, kwds, "O!O!nO|ns", kwlist,
-      &wg_database_type, &db, &wg_record_type, &rec,
+  if(!PyArg_ParseTupleAndKeywords(args, kwds, "O&O!nO|ns", kwlist,
+      attached_database, &db, &wg_record_type, &rec,
       &fieldnr, &data, &ftype, &ext_str))
     return NULL;
 
@@ -1324,8 +1341,8 @@ static PyObject *wgdb_set_new_field(PyObject *self, PyObject *args,
   static char *kwlist[] = {"db", "rec", "fieldnr", "data",
     "encoding", "ext_str", NULL};
 
-  if(!PyArg_ParseTupleAndKeywords(args, kwds, "O!O!nO|ns", kwlist,
-      &wg_database_type, &db, &wg_record_type, &rec,
+  if(!PyArg_ParseTupleAndKeywords(args, kwds, "O&O!nO|ns", kwlist,
+      attached_database, &db, &wg_record_type, &rec,
       &fieldnr, &data, &ftype, &ext_str))
     return NULL;
 
@@ -1375,7 +1392,7 @@ static PyObject *wgdb_get_field(PyObject *self, PyObject *args) {
   PyObject *db = NULL, *rec = NULL;
   wg_int fieldnr, fdata, ftype;
 
-  if(!PyArg_ParseTuple(args, "O!O!n", &wg_database_type, &db,
+  if(!PyArg_ParseTuple(args, "O&O!n", attached_database, &db,
       &wg_record_type, &rec, &fieldnr))
     return NULL;
 
@@ -1508,7 +1525,7 @@ static PyObject * wgdb_start_write(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   wg_int lock_id = 0;
 
-  if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
+  if(!PyArg_ParseTuple(args, "O&", attached_database, &db))
     return NULL;
 
   lock_id = wg_start_write(((wg_database *) db)->db);
@@ -1529,7 +1546,7 @@ static PyObject * wgdb_end_write(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   wg_int lock_id = 0;
 
-  if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &lock_id))
+  if(!PyArg_ParseTuple(args, "O&n", attached_database, &db, &lock_id))
     return NULL;
 
   if(!wg_end_write(((wg_database *) db)->db, lock_id)) {
@@ -1550,7 +1567,7 @@ static PyObject * wgdb_start_read(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   wg_int lock_id = 0;
 
-  if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
+  if(!PyArg_ParseTuple(args, "O&", attached_database, &db))
     return NULL;
 
   lock_id = wg_start_read(((wg_database *) db)->db);
@@ -1571,7 +1588,7 @@ static PyObject * wgdb_end_read(PyObject *self, PyObject *args) {
   PyObject *db = NULL;
   wg_int lock_id = 0;
 
-  if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &lock_id))
+  if(!PyArg_ParseTuple(args, "O&n", attached_database, &db, &lock_id))
     return NULL;
 
   if(!wg_end_read(((wg_database *) db)->db, lock_id)) {
@@ -1601,8 +1618,8 @@ static int parse_query_params(PyObject *self, PyObject *args,
   PyObject *matchrec = NULL;
   static char *kwlist[] = {"db", "matchrec", "arglist", NULL};
 
-  if(!PyArg_ParseTupleAndKeywords(args, kwds, "O!|OO", kwlist,
-      &wg_database_type, &db, &matchrec, &arglist))
+  if(!PyArg_ParseTupleAndKeywords(args, kwds, "O&|OO", kwlist,
+      attached_database, &db, &matchrec, &arglist))
     return 0;
 
   Py_INCREF(db);  /* Make sure we don't lose database connection */
@@ -1786,7 +1803,7 @@ static PyObject * wgdb_fetch(PyObject *self, PyObject *args) {
   PyObject *db = NULL, *query = NULL;
   wg_record *rec;
 
-  if(!PyArg_ParseTuple(args, "O!O!", &wg_database_type, &db,
+  if(!PyArg_ParseTuple(args, "O&O!", attached_database, &db,
       &wg_query_type, &query))
     return NULL;
 
-- 
2.43.0


From f07f1150552c6a0bb0eacf98540848173a7ddc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:51 +0000
Subject: [PATCH 59/64] fix: Python query parameters leak the match record when
 its first field cannot be encoded

---
 Python/wgdbmodule.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 84d31cb..8cea417 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -1729,6 +1729,9 @@ static int parse_query_params(PyObject *self, PyObject *args,
           return 0;
         }
         memset(query->matchrec, 0, len * sizeof(wg_int));
+        /* Fields that are not encoded yet are NULL values, so the entire
+         * record can be freed from now on. */
+        query->reclen = len;
 
         for(i=0; i<len; i++) {
           PyObject *sg_t = PySequence_GetItem(matchrec, i);
@@ -1743,7 +1746,6 @@ static int parse_query_params(PyObject *self, PyObject *args,
           }
 
           ((wg_int *) query->matchrec)[i] = enc;
-          query->reclen++; /* Count the successfully encoded fields. */
         }
       }
     }
-- 
2.43.0


From 0b052a89ca8c6ce08bb33b5dec757f4e2caddde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:59 +0000
Subject: [PATCH 60/64] fix: JSON file is not imported when its size is a
 multiple of the read buffer

---
 Db/dbjson.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index b80c020..7a86c7a 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -220,8 +220,9 @@ gint wg_parse_json_file(void *db, const char *filename) {
       if(!feof(f)) {
         show_json_error_byte(db, "Read error", count);
         result = -1;
+        goto done;
       }
-      goto done;
+      break; /* nothing left after the last full chunk */
     }
     if(yajl_parse(hand, (unsigned char *) &buf[count], rd) != yajl_status_ok) {
       unsigned char *errtxt = yajl_get_error(hand, 1,
-- 
2.43.0


From 05bb456dedaaf8dc58bf7c02cd8dd547e2c032de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:59 +0000
Subject: [PATCH 61/64] fix: JSON parsing crashes when the parser cannot be
 allocated

---
 Db/dbjson.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 7a86c7a..95dc3b6 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -212,6 +212,11 @@ gint wg_parse_json_file(void *db, const char *filename) {
 
   /* setup parser */
   hand = yajl_alloc(&validate_cb, NULL, (void *) &depth);
+  if(!hand) {
+    show_json_error(db, "Failed to allocate memory");
+    result = -1;
+    goto done;
+  }
   yajl_config(hand, yajl_allow_comments, 1);
 
   while(!feof(f)) {
@@ -288,6 +293,11 @@ gint wg_check_json(void *db, const char *buf) {
 
   /* setup parser */
   hand = yajl_alloc(&validate_cb, NULL, (void *) &depth);
+  if(!hand) {
+    show_json_error(db, "Failed to allocate memory");
+    result = -1;
+    goto done;
+  }
   yajl_config(hand, yajl_allow_comments, 1);
 
   while((count = strnlen(iptr, WG_JSON_INPUT_CHUNK)) > 0) {
@@ -401,6 +411,8 @@ static gint run_json_parser(void *db, const char *buf,
 
   /* setup parser */
   hand = yajl_alloc(cb, NULL, (void *) &ctx);
+  if(!hand)
+    return show_json_error(db, "Failed to allocate memory");
   yajl_config(hand, yajl_allow_comments, 1);
 
   while((count = strnlen(iptr, WG_JSON_INPUT_CHUNK)) > 0) {
-- 
2.43.0


From 35f5c39853c86a958cc10bfc6aa961f9bd3910d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:31 +0000
Subject: [PATCH 62/64] fix: large integers that differ only in the upper half
 are the same hash index key

---
 Db/dbhash.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index e5e42ee..7dfc308 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -312,9 +312,15 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &ptrdata;
       break;
     case WG_INTTYPE:
-      len = sizeof(int);
-      intdata = wg_decode_int(db, enc);
-      bytedata = (char *) &intdata;
+      ptrdata = wg_decode_int(db, enc);
+      intdata = (int) ptrdata;
+      if(intdata == ptrdata) {
+        len = sizeof(int);
+        bytedata = (char *) &intdata;
+      } else {
+        len = sizeof(gint); /* does not fit, use the full value */
+        bytedata = (char *) &ptrdata;
+      }
       break;
     case WG_DOUBLETYPE:
       len = sizeof(double);
-- 
2.43.0


From 9632490138cb197ea1dc27535264ea8ecf9ad809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:31 +0000
Subject: [PATCH 63/64] fix: large integers are truncated in printed and CSV
 output

---
 Db/dbutil.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 5716487..bf74dc0 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -246,8 +246,7 @@ void wg_snprint_value(void *db, gint enc, char *buf, int buflen) {
         snprint_record(db, (wg_int*)ptrdata, buf+len, buflen-len);
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      snprintf(buf, buflen, "%d", intdata);
+      snprintf(buf, buflen, "%lld", (long long) wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
@@ -354,8 +353,7 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
       snprintf(buf, buflen, "\"<record offset %d>\"", intdata);
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      snprintf(buf, buflen, "%d", intdata);
+      snprintf(buf, buflen, "%lld", (long long) wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
-- 
2.43.0


From 428e0558b5eb85b47e24cf5468ef708670b4e43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:55 +0000
Subject: [PATCH 64/64] fix: a number is parsed as a string after an unrelated
 error has set errno

---
 Db/dbutil.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index bf74dc0..ccfa95d 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -609,6 +609,7 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
       if(decsep==1) {
         char tmp = *decptr;
         *decptr = '.'; /* ignore locale, force conversion by plain atof() */
+        errno = 0; /* may be left over from an earlier call */
         *doubledata = atof(numbuf);
         if(errno!=ERANGE && errno!=EINVAL) {
           type = WG_DOUBLETYPE;
@@ -617,6 +618,7 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
         }
         *decptr = tmp; /* conversion might have failed, restore string */
       } else if(!decsep) {
+        errno = 0; /* may be left over from an earlier call */
         *intdata = atol(numbuf);
         if(errno!=ERANGE && errno!=EINVAL) {
           type = WG_INTTYPE;
-- 
2.43.0

