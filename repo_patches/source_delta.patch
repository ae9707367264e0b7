From 1b7d346bd77a52b749f009bed0a20fe6a218b519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:10 +0000
Subject: [PATCH 01/43] fix: do not dereference the NULL answer of an empty
 clause when a second contradiction is registered

---
 Reasoner/history.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 28ebc46..8e578e9 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -2548,6 +2548,8 @@ int wr_same_answers(glb* g, gptr cl1, gptr cl2, int uniquestrflag) {
   wg_print_record(db,cl2);
   wr_printf("\n");
 #endif
+  // an empty clause (contradiction) is registered as a NULL answer
+  if (cl1==NULL || cl2==NULL) return (cl1==cl2);
   // check fact clause cases first
   if (!wg_rec_is_rule_clause(db,cl1)) {
     if (!wg_rec_is_rule_clause(db,cl2)) {
-- 
2.43.0


From d751a4de93576a69e26995cd59db802eaa91ca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:30 +0000
Subject: [PATCH 02/43] fix: restore the buffer the discarded resolvent was
 built in, not the current build buffer

---
 Reasoner/derive.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Reasoner/derive.c b/Reasoner/derive.c
index 503af69..dae4c63 100644
--- a/Reasoner/derive.c
+++ b/Reasoner/derive.c
@@ -100,6 +100,7 @@ void wr_process_resolve_result
   gint resmeta,history, hash;
   int ruleflag;
   gint initial_queue_termbuf_next=0;
+  cvec initial_build_buffer=NULL;
   int weight;
   double avg;
   gint cl_metablock[CLMETABLOCK_ELS];
@@ -253,7 +254,8 @@ void wr_process_resolve_result
     //partialresflag=0;
     wr_process_resolve_result_setupquecopy(g); // use g->queue_termbuf as g->build_buffer
     initial_queue_termbuf_next=CVEC_NEXT(g->build_buffer); // to be restored if not actually used
-  }  
+  }
+  initial_build_buffer=g->build_buffer; // wr_simplify_doublecut_cl may switch g->build_buffer
 
   history=wr_build_resolve_history(g,xcl_as_active,ycl,cutpos1,cutpos2,g->cut_clvec);
   res=wr_derived_build_cl_from_initial_cl(g,rptr,rpos,ruleflag,history);
@@ -358,7 +360,7 @@ void wr_process_resolve_result
     //printf(" weight %d average %f count %d \n",weight,(g->avg_kept_weight),(g->stat_kept_cl));
     if (!wr_derived_weight_check(g,avg,weight,size,depth,length,xatomnr,yatomnr)) {
       (g->stat_weight_discarded_cl)++;
-      CVEC_NEXT(g->build_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
+      CVEC_NEXT(initial_build_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
       if (g->print_derived_cl) wr_printf("\nw discarded overweight");
       return;
     }
-- 
2.43.0


From ad762fb3409949fb386188eb171851960297add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:22 +0000
Subject: [PATCH 03/43] fix: index the active copy of a shortened given clause
 for double cuts, not the reused given buffer

---
 Reasoner/rgenloop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/rgenloop.c b/Reasoner/rgenloop.c
index 858e380..9408a62 100644
--- a/Reasoner/rgenloop.c
+++ b/Reasoner/rgenloop.c
@@ -452,7 +452,7 @@ int wr_genloop(glb* g) {
       continue; 
     }    
     if (simplen!=origlen && simplen==2) {
-      wr_add_cl_to_doublehash(g,given_cl);
+      wr_add_cl_to_doublehash(g,given_cl_as_active);
     }  
      
     // do factorizations with the given clause
-- 
2.43.0


From 297fc1a5e5285ca178b1dab3c6cab63efc00a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 04/43] fix: order of the literal positions in the proof line
 of a paramodulation into the given clause

---
 Reasoner/derive.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Reasoner/derive.c b/Reasoner/derive.c
index dae4c63..61359ee 100644
--- a/Reasoner/derive.c
+++ b/Reasoner/derive.c
@@ -944,7 +944,7 @@ void wr_process_paramodulate_result
       g->proof_history=wr_build_para_history(g,xcl_as_active,ycl,cutpos1,cutpos2,NULL,path,leftflag,fromflag);
     } else {
       //printf("\n fromflag %d cutpos1 %d cutpos2 %d leftflag %d\n",fromflag,cutpos1,cutpos2,leftflag);
-      g->proof_history=wr_build_para_history(g,xcl,xcl_as_active,cutpos2,cutpos1,NULL,path,leftflag,fromflag);  
+      g->proof_history=wr_build_para_history(g,xcl,xcl_as_active,cutpos1,cutpos2,NULL,path,leftflag,fromflag);  
     }   
     wr_register_answer(g,NULL,g->proof_history);
     //g->proof_history=wr_build_para_history(g,xcl_as_active,ycl,cutpos1,cutpos2,NULL,path,leftflag,fromflag);
@@ -1023,7 +1023,7 @@ void wr_process_paramodulate_result
           g->proof_history=wr_build_para_history(g,xcl_as_active,ycl,cutpos1,cutpos2,g->cut_clvec,path,leftflag,fromflag);
         } else {
           //printf("\n fromflag %d cutpos1 %d cutpos2 %d leftflag %d\n",fromflag,cutpos1,cutpos2,leftflag);
-          g->proof_history=wr_build_para_history(g,xcl,xcl_as_active,cutpos2,cutpos1,g->cut_clvec,path,leftflag,fromflag);  
+          g->proof_history=wr_build_para_history(g,xcl,xcl_as_active,cutpos1,cutpos2,g->cut_clvec,path,leftflag,fromflag);  
         }
         wr_register_answer(g,NULL,g->proof_history);
         //g->proof_history=wr_build_para_history(g,xcl_as_active,ycl,cutpos1,cutpos2,g->cut_clvec,path,leftflag,fromflag); 
@@ -1063,7 +1063,7 @@ void wr_process_paramodulate_result
     history=wr_build_para_history(g,xcl_as_active,ycl,cutpos1,cutpos2,g->cut_clvec,path,leftflag,fromflag);
   } else {
     //printf("\n fromflag %d cutpos1 %d cutpos2 %d leftflag %d\n",fromflag,cutpos1,cutpos2,leftflag);
-    history=wr_build_para_history(g,xcl,xcl_as_active,cutpos2,cutpos1,g->cut_clvec,path,leftflag,fromflag);  
+    history=wr_build_para_history(g,xcl,xcl_as_active,cutpos1,cutpos2,g->cut_clvec,path,leftflag,fromflag);  
   }
   res=wr_derived_build_cl_from_initial_cl(g,rptr,rpos,ruleflag,history);
   if (!history || !res) {
-- 
2.43.0


From 7ec3ee364caf1e4d4bac58a43979915de54ba8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 05/43] fix: clear the renaming bindings when rebuilding a
 clause gives true, false or nothing

---
 Reasoner/rgenloop.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Reasoner/rgenloop.c b/Reasoner/rgenloop.c
index 9408a62..910f96e 100644
--- a/Reasoner/rgenloop.c
+++ b/Reasoner/rgenloop.c
@@ -595,6 +595,8 @@ gptr wr_process_given_cl(glb* g, gptr given_cl_cand, gptr buf) {
 #endif   
   if (g->endgame_mode) (g->build_rewrite)=0; 
   given_cl=wr_build_calc_cl(g,given_cl_cand);
+  // clear the renaming bindings also when no clause was built
+  wr_process_given_cl_cleanupsubst(g);
   if (!given_cl) return NULL;
 #ifdef DEBUG
   wr_printf("\nwr_process_given_cl got a given_cl \n");
@@ -621,8 +623,6 @@ gptr wr_process_given_cl(glb* g, gptr given_cl_cand, gptr buf) {
   
   // -- check 3 ends --
 
-  wr_process_given_cl_cleanupsubst(g);
-  if (given_cl==NULL) return NULL; // could be memory err  
   //wr_print_varbank(g,g->varbanks);
 #ifdef DEBUG
   wr_printf("\nrebuilt as \n");
-- 
2.43.0


From 4ba7aacd6655c6d11c84c999f0da81ec88a6bb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:56 +0000
Subject: [PATCH 06/43] fix: do not read a constant as a record when matching
 it against a compound term

A constant that differs from the compared term fell through to the code comparing
two records, which dereferences it: p(X,1000000000) against p(X,f(a)) crashed.
---
 Reasoner/unify.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Reasoner/unify.c b/Reasoner/unify.c
index 20783ef..c4540e2 100644
--- a/Reasoner/unify.c
+++ b/Reasoner/unify.c
@@ -303,6 +303,7 @@ gint wr_match_term_aux(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 1;  
+    return 0; // a constant is equal only to itself
   } 
   if (!isdatarec(y)) return 0; // x is datarec but y is not    
   // now x and y are different datarecs
@@ -378,6 +379,7 @@ gint wr_eqmodvars_term_aux(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 1;  
+    return 0; // a constant is equal only to itself
   } 
   if (!isdatarec(y)) return 0; // x is datarec but y is not    
   // now x and y are different datarecs
@@ -484,6 +486,7 @@ gint wr_nomatch_term_uniquevars(glb* g, gint x, gint y, int uniquestrflag) {
   }   
   if (isvar(y)) return 1; // x is not var, y is var
   // x and y cannot be vars
+  if (!isdatarec(x)) return 2; // x is a const, y is a different const or a datarec
   if (!isdatarec(y)) return 2; // x is datarec but y is a const    
   // now x and y are different datarecs
   if (1) {  
-- 
2.43.0


From 9245678e3a855d698aa6354124193998b0c6cd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:54 +0000
Subject: [PATCH 07/43] fix: merge a freed object with the free object before
 it instead of reporting corruption

---
 Db/dballoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 546e8db..dca9ccb 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1263,7 +1263,7 @@ gint wg_free_object(void* db, void* area_header, gint object) {
     prevobjectsize=getfreeobjectsize(dbfetch(db,(object-sizeof(gint))));
     prevobject=object-prevobjectsize;
     prevobjecthead=dbfetch(db,prevobject);
-    if (!isfreeobject(prevobjecthead) || getfreeobjectsize(prevobject)!=prevobjectsize) {
+    if (!isfreeobject(prevobjecthead) || getfreeobjectsize(prevobjecthead)!=prevobjectsize) {
       show_dballoc_error(db,"wg_free_object notices corruption: previous object is not ok free object");
       return -4; // corruption noticed
     }
-- 
2.43.0


From cbfef9407b7d86ff38089123a639f9d7bd381403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:54 +0000
Subject: [PATCH 08/43] fix: clear the previous-is-free mark of the next object
 when a large free object is reused whole

---
 Db/dballoc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index dca9ccb..796ae1c 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1015,6 +1015,10 @@ gint wg_alloc_gints(void* db, void* area_header, gint nr) {
         if (nextel!=0) dbstore(db,nextel+2*sizeof(gint),dbaddr(db,&freebuckets[i]));
         // prev elem cannot be free (no consecutive free elems)
         dbstore(db,res,makeusedobjectsizeprevused(wantedbytes)); // store wanted size to the returned object
+        /* next object should be marked as "prev used" */
+        nextobject=res+usedbytes;
+        tmp=dbfetch(db,nextobject);
+        if (isnormalusedobject(tmp)) dbstore(db,nextobject,makeusedobjectsizeprevused(tmp));
         return res;
       } else if (size>=usedbytes+MIN_VARLENOBJ_SIZE) {
         // found one somewhat larger: now split and store the rest
-- 
2.43.0


From d174904dafd2aee16d10ccc81c6442984c52962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:48 +0000
Subject: [PATCH 09/43] fix: hash whole integers, not their low 32 bits, in
 hash index keys

---
 Db/dbhash.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index c044953..ac1aca9 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -332,9 +332,9 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &ptrdata;
       break;
     case WG_INTTYPE:
-      len = sizeof(int);
-      intdata = wg_decode_int(db, enc);
-      bytedata = (char *) &intdata;
+      len = sizeof(gint);
+      ptrdata = wg_decode_int(db, enc);
+      bytedata = (char *) &ptrdata;
       break;
     case WG_DOUBLETYPE:
       len = sizeof(double);
@@ -378,9 +378,9 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &intdata;
       break;
     case WG_VARTYPE:
-      len = sizeof(int);
-      intdata = wg_decode_var(db, enc);
-      bytedata = (char *) &intdata;
+      len = sizeof(gint);
+      ptrdata = wg_decode_var(db, enc);
+      bytedata = (char *) &ptrdata;
       break;
     case WG_ANONCONSTTYPE:
       /* Ignore anonconst */
-- 
2.43.0


From a3c58bd4a6a1c6c1469cd21ba13b7e2962a2e6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:42 +0000
Subject: [PATCH 10/43] fix: enter a record only once into an index that has a
 template

---
 Db/dbindex.c | 90 ++--------------------------------------------------
 1 file changed, 2 insertions(+), 88 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 70fd716..e589912 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2772,6 +2772,8 @@ gint wg_index_add_rec(void *db, void *rec) {
            * For a single-column index, the indexed column is
            * also the last column, therefore the above is valid,
            * altough the check is unnecessary.
+           * Indexes that have a template are in the lists of their
+           * columns too, so this covers them as well.
            */
           if(MATCH_TEMPLATE(db, hdr, rec)) {
             INDEX_ADD_ROW(db, hdr, ilistelem->car, rec)
@@ -2780,52 +2782,6 @@ gint wg_index_add_rec(void *db, void *rec) {
       }
       ilist = &ilistelem->cdr;
     }
-
-#ifdef USE_INDEX_TEMPLATE
-    ilist = &dbh->index_control_area_header.index_template_table[i];
-    while(*ilist) {
-      ilistelem = (gcell *) offsettoptr(db, *ilist);
-      if(ilistelem->car) {
-        wg_index_header *hdr = \
-          (wg_index_header *) offsettoptr(db, ilistelem->car);
-        wg_index_template *tmpl = \
-          (wg_index_template *) offsettoptr(db, hdr->template_offset);
-        void *matchrec;
-        gint mreclen;
-        int j, firstmatch = -1;
-
-        /* Here the check for a match is slightly more complicated.
-         * If there is a match *but* the current column is not the
-         * first fixed one in the template, the match has
-         * already occurred earlier.
-         */
-        matchrec = offsettoptr(db, tmpl->offset_matchrec);
-        mreclen = wg_get_record_len(db, matchrec);
-        if(mreclen > reclen) {
-          goto nexttmpl1;
-        }
-        for(j=0; j<mreclen; j++) {
-          gint enc = wg_get_field(db, matchrec, j);
-          if(wg_get_encoded_type(db, enc) != WG_VARTYPE) {
-            if(WG_COMPARE(db, enc, wg_get_field(db, rec, j)) != WG_EQUAL)
-              goto nexttmpl1;
-            if(firstmatch < 0)
-              firstmatch = j;
-          }
-        }
-        if(firstmatch==i &&\
-          reclen > hdr->rec_field_index[hdr->fields - 1]) {
-          /* The record matches AND this is the first time we
-           * see this index. Update it.
-           */
-          INDEX_ADD_ROW(db, hdr, ilistelem->car, rec)
-        }
-      }
-nexttmpl1:
-      ilist = &ilistelem->cdr;
-    }
-#endif
-
   }
   return 0;
 }
@@ -2936,48 +2892,6 @@ gint wg_index_del_rec(void *db, void *rec) {
       }
       ilist = &ilistelem->cdr;
     }
-
-#ifdef USE_INDEX_TEMPLATE
-    ilist = &dbh->index_control_area_header.index_template_table[i];
-    while(*ilist) {
-      ilistelem = (gcell *) offsettoptr(db, *ilist);
-      if(ilistelem->car) {
-        wg_index_header *hdr = \
-          (wg_index_header *) offsettoptr(db, ilistelem->car);
-        wg_index_template *tmpl = \
-          (wg_index_template *) offsettoptr(db, hdr->template_offset);
-        void *matchrec;
-        gint mreclen;
-        int j, firstmatch = -1;
-
-        /* Similar check as in wg_index_add_rec() */
-        matchrec = offsettoptr(db, tmpl->offset_matchrec);
-        mreclen = wg_get_record_len(db, matchrec);
-        if(mreclen > reclen) {
-          goto nexttmpl2; /* no match */
-        }
-        for(j=0; j<mreclen; j++) {
-          gint enc = wg_get_field(db, matchrec, j);
-          if(wg_get_encoded_type(db, enc) != WG_VARTYPE) {
-            if(WG_COMPARE(db, enc, wg_get_field(db, rec, j)) != WG_EQUAL)
-              goto nexttmpl2;
-            if(firstmatch < 0)
-              firstmatch = j;
-          }
-        }
-        if(firstmatch==i &&\
-          reclen > hdr->rec_field_index[hdr->fields - 1]) {
-          /* The record matches AND this is the first time we
-           * see this index. Update it.
-           */
-          INDEX_REMOVE_ROW(db, hdr, ilistelem->car, rec)
-        }
-      }
-nexttmpl2:
-      ilist = &ilistelem->cdr;
-    }
-#endif
-
   }
   return 0;
 }
-- 
2.43.0


From 97a9cc292dcf0123af18ce8136b7eb3123490ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:21 +0000
Subject: [PATCH 11/43] fix: a query for values both above and below the same
 bound through an index has no rows

---
 Db/dbquery.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 9135abf..8f70341 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -812,9 +812,13 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
       }
     }
 
-    /* Simple sanity check. Is start_bound greater than end_bound? */
+    /* Simple sanity check. Is start_bound greater than end_bound? Or are
+     * they equal and the value itself is excluded from the range?
+     */
     if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL &&\
-      WG_COMPARE(db, start_bound, end_bound) == WG_GREATER) {
+      (WG_COMPARE(db, start_bound, end_bound) == WG_GREATER ||\
+       (!(start_inclusive && end_inclusive) &&\
+        WG_COMPARE(db, start_bound, end_bound) == WG_EQUAL))) {
       /* return empty query */
       query->argc = 0;
       query->arglist = NULL;
-- 
2.43.0


From a7958cbc103919c9da1f849fc9a0ae1b8efd3d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:21 +0000
Subject: [PATCH 12/43] fix: do not enter records without all the indexed
 columns into a new hash index

---
 Db/dbindex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index e589912..934a841 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1611,7 +1611,7 @@ static gint create_hash_index(void *db, gint index_id){
   void *rec;
   wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
   gint type = hdr->type;
-  gint firstcol = hdr->rec_field_index[0];
+  gint lastcol = hdr->rec_field_index[hdr->fields - 1];
   gint i;
 
   /* Initialize the hash table (0 - use default size) */
@@ -1623,7 +1623,7 @@ static gint create_hash_index(void *db, gint index_id){
   rowsprocessed = 0;
 
   while(rec != NULL) {
-    if(firstcol >= wg_get_record_len(db, rec)) {
+    if(lastcol >= wg_get_record_len(db, rec)) {
       rec=wg_get_next_record(db,rec);
       continue;
     }
-- 
2.43.0


From ff34774e289a1ba9fa4a7b2ba14931d4c3fce132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:46 +0000
Subject: [PATCH 13/43] fix: keep a queued lock that was granted while its
 request timed out

The timed out request removed itself from the queue without looking whether
the lock had been passed to it in the meantime; nobody then passed it on and
the requests behind it waited for nothing.
---
 Db/dblock.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index b2b574d..a0806e8 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1032,10 +1032,14 @@ gint db_tfqueue_wlock(void * db) {
     INIT_QLOCK_TIMEOUT(timeout, ts)
     if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
       lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
+      if(lockp->waiting) {
+        DEQUEUE_LOCK(db, dbh, lock, lockp)
+        free_lock(db, lock);
+        unlock_queue(db);
+        return 0;
+      }
+      /* the lock was granted while we were timing out */
       unlock_queue(db);
-      return 0;
     }
 #else
     futex_wait(&lockp->waiting, 1);
@@ -1151,10 +1155,14 @@ gint db_tfqueue_rlock(void * db) {
     INIT_QLOCK_TIMEOUT(timeout, ts)
     if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
       lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
+      if(lockp->waiting) {
+        DEQUEUE_LOCK(db, dbh, lock, lockp)
+        free_lock(db, lock);
+        unlock_queue(db);
+        return 0;
+      }
+      /* the lock was granted while we were timing out */
       unlock_queue(db);
-      return 0;
     }
 #else
     futex_wait(&lockp->waiting, 1);
-- 
2.43.0


From da2b78b171190fbb3cbe99d65c873afd0fb0ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:02 +0000
Subject: [PATCH 14/43] fix: a queued lock request waits until it is granted

The futex wait also ends on a signal, or by a wakeup meant for an earlier
request that used the same queue node; the lock was then taken although
somebody else held it.
---
 Db/dblock.c | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index a0806e8..1b3a551 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1030,19 +1030,23 @@ gint db_tfqueue_wlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      if(lockp->waiting) {
-        DEQUEUE_LOCK(db, dbh, lock, lockp)
-        free_lock(db, lock);
+    /* a signal or a late wakeup may end the wait, too */
+    while(lockp->waiting) {
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+        lock_queue(db);
+        if(lockp->waiting) {
+          DEQUEUE_LOCK(db, dbh, lock, lockp)
+          free_lock(db, lock);
+          unlock_queue(db);
+          return 0;
+        }
+        /* the lock was granted while we were timing out */
         unlock_queue(db);
-        return 0;
       }
-      /* the lock was granted while we were timing out */
-      unlock_queue(db);
     }
 #else
-    futex_wait(&lockp->waiting, 1);
+    while(lockp->waiting)
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
@@ -1153,19 +1157,23 @@ gint db_tfqueue_rlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      if(lockp->waiting) {
-        DEQUEUE_LOCK(db, dbh, lock, lockp)
-        free_lock(db, lock);
+    /* a signal or a late wakeup may end the wait, too */
+    while(lockp->waiting) {
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+        lock_queue(db);
+        if(lockp->waiting) {
+          DEQUEUE_LOCK(db, dbh, lock, lockp)
+          free_lock(db, lock);
+          unlock_queue(db);
+          return 0;
+        }
+        /* the lock was granted while we were timing out */
         unlock_queue(db);
-        return 0;
       }
-      /* the lock was granted while we were timing out */
-      unlock_queue(db);
     }
 #else
-    futex_wait(&lockp->waiting, 1);
+    while(lockp->waiting)
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
-- 
2.43.0


From b7876344716a7ec33a449bc4b6504ba373a44c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:02 +0000
Subject: [PATCH 15/43] fix: milliseconds in the timeout of a queued lock

---
 Db/dblock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index 1b3a551..27bf2d5 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -144,7 +144,7 @@ typedef int (kernel_cmpxchg_t) (int oldval, int newval, int *ptr);
 
 #define INIT_QLOCK_TIMEOUT(t, ts) \
   ts.tv_sec = t / 1000; \
-  ts.tv_nsec = t % 1000;
+  ts.tv_nsec = (t % 1000) * 1000000;
 
 #define ALLOC_LOCK(d, l) \
   l = alloc_lock(d); \
-- 
2.43.0


From b87d4a5554721ac6c94b37486dedbed8ec8e3646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:16 +0000
Subject: [PATCH 16/43] fix: -convert -json printed leftovers of the previous
 formula after a bare proposition

---
 Printer/dbotterprint.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 664986f..a505ec6 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -2065,6 +2065,11 @@ int wg_print_frm_json(void* db, void* mpool, void* ptr, char** buf, int *len, in
   void* boundvars=NULL;
   p=wg_print_subfrm_json(db,mpool,ptr,0,0,0,buf,len,pos,0,boundvars);
   //printf("\nwg_print_frm_json calcs p: %d\n",p);
+  // strings are printed without a terminating zero
+  if (p>=0) {
+    if (!wg_str_guarantee_space(db,buf,len,p+1)) return -1;
+    *((*buf)+p)=0;
+  }
   return p;
 }
 
-- 
2.43.0


From fa3c5a2c219e82f594fb3344106b8ba8c7973cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:16 +0000
Subject: [PATCH 17/43] fix: JSON input rejected the roles definition, lemma
 and theorem that -convert -json writes

---
 Builtparser/jsparse.c | 3 ++-
 Parser/jsparse.c      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 7aa3619..7284f9b 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -1149,7 +1149,8 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
           pp->formularole=rolestr;                         
         }  
         if (role && strcmp(rolestr,"axiom") && strcmp(rolestr,"assumption") &&
-            strcmp(rolestr,"hypothesis") &&
+            strcmp(rolestr,"hypothesis") && strcmp(rolestr,"definition") &&
+            strcmp(rolestr,"lemma") && strcmp(rolestr,"theorem") &&
             strcmp(rolestr,"conjecture") && strcmp(rolestr,"negated_conjecture")  &&
             strcmp(rolestr,"question")) {
             //strcmp(rolestr,"ask")) {
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 7aa3619..7284f9b 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -1149,7 +1149,8 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
           pp->formularole=rolestr;                         
         }  
         if (role && strcmp(rolestr,"axiom") && strcmp(rolestr,"assumption") &&
-            strcmp(rolestr,"hypothesis") &&
+            strcmp(rolestr,"hypothesis") && strcmp(rolestr,"definition") &&
+            strcmp(rolestr,"lemma") && strcmp(rolestr,"theorem") &&
             strcmp(rolestr,"conjecture") && strcmp(rolestr,"negated_conjecture")  &&
             strcmp(rolestr,"question")) {
             //strcmp(rolestr,"ask")) {
-- 
2.43.0


From 95a1b0b74473ace3fd54460c1c4e5b2f38ef3c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:16 +0000
Subject: [PATCH 18/43] fix: predicates of negated JSON atoms were not expanded
 by @context nor kept apart from variables

---
 Builtparser/jsparse.c | 4 +++-
 Parser/jsparse.c      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 7284f9b..a35d4b8 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -2317,7 +2317,9 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
         *((gint*)part)=(gint)tmp;
         //tmpres=wg_mkpair(db,mpool,tmp,tmpres);
       }                          
-      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,head)+1),NULL);      
+      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,head)+1),NULL);
+      // the predicate must come out as it does in a positive atom
+      if (tmp!=NULL && (wg_atomstr1(db,tmp))[0]) tmp=wr_process_json_term(g,pp,tmp,0,0);
       *((gint*)cl)=(gint)tmp;
       preres=wg_mklist2(db,mpool,pp->logneg,cl);
       if (!tmp || !preres) {
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 7284f9b..a35d4b8 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -2317,7 +2317,9 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
         *((gint*)part)=(gint)tmp;
         //tmpres=wg_mkpair(db,mpool,tmp,tmpres);
       }                          
-      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,head)+1),NULL);      
+      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,head)+1),NULL);
+      // the predicate must come out as it does in a positive atom
+      if (tmp!=NULL && (wg_atomstr1(db,tmp))[0]) tmp=wr_process_json_term(g,pp,tmp,0,0);
       *((gint*)cl)=(gint)tmp;
       preres=wg_mklist2(db,mpool,pp->logneg,cl);
       if (!tmp || !preres) {
-- 
2.43.0


From 72d5f1727352d551920a943a34283f562306cf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:16 +0000
Subject: [PATCH 19/43] fix: -convert -tptp printed propositions of JSON lists
 with empty parentheses, which is no TPTP

---
 Printer/dbotterprint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index a505ec6..ff9da88 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -1712,6 +1712,7 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
         if (pos<0) return pos;
         if (!wg_str_guarantee_space(db,buf,len,pos+1000)) return -1;
         //printf ("(");
+        if (lstlen<2) return pos; // no arguments: no parentheses
         pos+=snprintf((*buf)+pos,(*len)-pos,"(");
       }      
     }
-- 
2.43.0


From f19e2eb99afc52809f42f12536b74a48bd519fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:16 +0000
Subject: [PATCH 20/43] fix: JSON output printed arithmetic functions without
 quotes

---
 Printer/dbotterprint.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index ff9da88..b877978 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -758,6 +758,7 @@ int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len
   gptr recptr;
   gint  enc;
   int i, clen;
+  char* jq=((g->print_clauses_json) ? "\"" : ""); // names are quoted in json
 
 #ifdef DEBUG  
   printf("print_term called with enc %d and type %d \n",(int)rec,wg_get_encoded_type(db,rec)); 
@@ -768,13 +769,13 @@ int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len
   }
   recptr=wg_decode_record(db, rec);
   clen = wg_get_record_len(db, recptr);
-  if (!wr_str_guarantee_space(g,buf,len,pos+10)) return -1;
+  if (!wr_str_guarantee_space(g,buf,len,pos+20)) return -1;
   if (g->print_clauses_json) { 
     pos+=snprintf((*buf)+pos,(*len)-pos,"[");
   }  
   for(i=0; i<clen; i++) {
     if (i<(g->unify_firstuseterm)) continue;
-    if (!wr_str_guarantee_space(g,buf,len,pos+10)) return -1;
+    if (!wr_str_guarantee_space(g,buf,len,pos+20)) return -1;
     if(i>((g->unify_firstuseterm)+1)) pos+=snprintf((*buf)+pos,(*len)-pos,",");
     enc = wg_get_field(db, recptr, i);    
     if (wg_get_encoded_type(db, enc)==WG_RECORDTYPE) {
@@ -785,15 +786,15 @@ int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len
           wg_get_encoded_type(db,enc)==WG_URITYPE &&
           wg_decode_str(db,enc) && strlen(wg_decode_str(db,enc))==1) {
         if (!strcmp(wg_decode_str(db,enc),"+")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$sum");
+          pos+=snprintf((*buf)+pos,(*len)-pos,"%s$sum%s",jq,jq);
         } else if (!strcmp(wg_decode_str(db,enc),"*")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$product");
+          pos+=snprintf((*buf)+pos,(*len)-pos,"%s$product%s",jq,jq);
         } else if (!strcmp(wg_decode_str(db,enc),"-")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$difference");
+          pos+=snprintf((*buf)+pos,(*len)-pos,"%s$difference%s",jq,jq);
         } else if (!strcmp(wg_decode_str(db,enc),"/")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$quotient");
+          pos+=snprintf((*buf)+pos,(*len)-pos,"%s$quotient%s",jq,jq);
         } else if (!strcmp(wg_decode_str(db,enc),"<")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$less");  
+          pos+=snprintf((*buf)+pos,(*len)-pos,"%s$less%s",jq,jq);  
         } else {
           pos=wr_strprint_simpleterm_otter(g, enc,printlevel,buf,len,pos,0);
         }
@@ -802,14 +803,14 @@ int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len
       }      
       if (pos<0) return pos;
     }           
-    if (!wr_str_guarantee_space(g,buf,len,pos+10)) return -1;
+    if (!wr_str_guarantee_space(g,buf,len,pos+20)) return -1;
     if (g->print_clauses_json) {
       if (i==(g->unify_firstuseterm))  pos+=snprintf((*buf)+pos,(*len)-pos,",");
     } else {
       if (i==(g->unify_firstuseterm))  pos+=snprintf((*buf)+pos,(*len)-pos,"(");
     }  
   } 
-  if (!wr_str_guarantee_space(g,buf,len,pos+10)) return -1;
+  if (!wr_str_guarantee_space(g,buf,len,pos+20)) return -1;
   if (g->print_clauses_json) { 
     pos+=snprintf((*buf)+pos,(*len)-pos,"]");
   } else {
-- 
2.43.0


From c37e67b60e0b61443a2daf66ad27c75e121a23c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:44 +0000
Subject: [PATCH 21/43] fix: JSON output did not escape backslashes and control
 characters, and overflowed its buffer on long names

---
 Builtparser/dbparse.c  |  4 ++--
 Parser/dbparse.c       |  4 ++--
 Printer/dbotterprint.c | 44 +++++++++++++++++++++++++++++++++++-------
 Printer/dbotterprint.h |  1 +
 Reasoner/history.c     |  7 +++++--
 Reasoner/rmain.c       |  4 ++++
 6 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 91d05ea..a6d3cb8 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -475,7 +475,7 @@ void* wr_preprocess_clauselist
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              6*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
@@ -542,7 +542,7 @@ void* wr_preprocess_clauselist
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              6*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 91d05ea..a6d3cb8 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -475,7 +475,7 @@ void* wr_preprocess_clauselist
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              6*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
@@ -542,7 +542,7 @@ void* wr_preprocess_clauselist
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              6*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index b877978..a61438e 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -874,7 +874,7 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
       if (strdata) len1=strlen(strdata);
       if (exdata) len2=strlen(exdata);
       //printf("\nstrdata %s exdata %s\n",strdata,exdata);
-      if (!wr_str_guarantee_space(g,buf,len,pos+len1+len2+100)) return -1;
+      if (!wr_str_guarantee_space(g,buf,len,pos+6*(len1+len2)+100)) return -1;
       if (exdata==NULL) {        
         if (g->print_clauses_json) {
           if (isneg) {          
@@ -1100,9 +1100,10 @@ int wg_contains_quote(char* s) {
 }
 
 int wg_contains_dquote(char* s) {
+  // is there a character to be escaped in a json string?
   if (!s) return 0;  
   for(; *s!=0; s++) {
-    if ((*s)=='"') return 1;   
+    if ((*s)=='"' || (*s)=='\\' || ((unsigned char)*s)<32) return 1;   
   }
   return 0;
 }
@@ -1186,7 +1187,36 @@ int wg_print_quoted2(char** buf, int len, int pos, char* es, char* s) {
 }
 
 
+/* A json string: quotes, backslashes and control characters are escaped.
+   The caller guarantees 6*strlen(s)+10 bytes. */
+
 int wg_print_dquoted(char** buf, int len, int pos, char* s, int negflag, int uniqueflag) {
+  int start=pos;
+  unsigned char c;
+
+  if (!s || !buf || !len || len<2) return 0;
+  *((*buf)+pos++)='"';
+  if (negflag) *((*buf)+pos++)='-';
+  if (uniqueflag) {
+    *((*buf)+pos++)='#';
+    *((*buf)+pos++)=':';
+  }
+  for(; *s!=0 && pos+8<len; s++) {
+    c=(unsigned char)*s;
+    if (c=='"' || c=='\\') {
+      *((*buf)+pos++)='\\';
+      *((*buf)+pos++)=c;
+    } else if (c<32) {
+      pos+=snprintf((*buf)+pos,len-pos,"\\u%04x",c);
+    } else {
+      *((*buf)+pos++)=c;
+    }
+  }
+  *((*buf)+pos++)='"';
+  return pos-start;
+}
+
+int wg_print_tptp_dquoted(char** buf, int len, int pos, char* s, int negflag, int uniqueflag) {
   char c;
   int i;
 
@@ -1535,7 +1565,7 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
         p2=wg_atomstr2(db,ptr);
         //printf("\n type==WG_ANONCONSTTYPE %d p %s p2 %s\n",type==WG_ANONCONSTTYPE,p,p2);
         if (p && *p=='#' && *(p+1)==':') {            
-            pos+=wg_print_dquoted(buf,*len,pos,p+2,0,0);   
+            pos+=wg_print_tptp_dquoted(buf,*len,pos,p+2,0,0);   
 
         } else if (p && *p=='+' && *(p+1)=='\0') {
           pos+=snprintf((*buf)+pos,(*len)-pos,"$sum"); 
@@ -1546,7 +1576,7 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
         } else if (p && *p=='/' && *(p+1)=='\0') {
           pos+=snprintf((*buf)+pos,(*len)-pos,"$quotient");    
         } else if (p && *p=='#' && *(p+1)==':') {
-          pos+=wg_print_dquoted(buf,*len,pos,p+2,0,1);
+          pos+=wg_print_tptp_dquoted(buf,*len,pos,p+2,0,1);
         } else if (!strcmp(p,EMPTYSTRING)) {
           pos+=snprintf((*buf)+pos,(*len)-pos,"''");            
         } else if (p!=NULL && *p && (*p >= 'A') && (*p <= 'Z')) {
@@ -1584,7 +1614,7 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
             }  
           } 
           if ((p2 && *p2=='#' && *(p2+1)=='\0')) {            
-            pos+=wg_print_dquoted(buf,*len,pos,p,0,0);            
+            pos+=wg_print_tptp_dquoted(buf,*len,pos,p,0,0);            
           } else if (wg_contains_quote(p)) {                       
             pos+=wg_print_quoted(buf,*len,pos,p); 
           } else if ((p2 && *p2=='c' && *(p2+1)=='\0') || wg_should_quote(p)) {            
@@ -1824,7 +1854,7 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
             }  
           }           
           if ((p2 && *p2=='#' && *(p2+1)=='\0')) {          
-            pos+=wg_print_dquoted(buf,*len,pos,p,0,0);         
+            pos+=wg_print_tptp_dquoted(buf,*len,pos,p,0,0);         
           } else if (wg_contains_quote(p)) {                        
             pos+=wg_print_quoted(buf,*len,pos,p); 
           } else if ((p2 && *p2=='c' && *(p2+1)=='\0') || wg_should_quote(p)) {           
@@ -2124,7 +2154,7 @@ int wg_print_subfrm_json(void* db, void* mpool, void* ptr,int depth,int pflag,
     type=wg_atomtype(db,ptr); 
     p=wg_atomstr1(db,ptr); 
     //p2=wg_atomstr2(db,ptr);  
-    if (!wg_str_guarantee_space(db,buf,len,pos+strlen(p)+1000)) return -1; 
+    if (!wg_str_guarantee_space(db,buf,len,pos+6*strlen(p)+1000)) return -1; 
     switch (type) {
       /*
       case 0: printf("_:"); break;
diff --git a/Printer/dbotterprint.h b/Printer/dbotterprint.h
index 729edb8..1cb19bb 100644
--- a/Printer/dbotterprint.h
+++ b/Printer/dbotterprint.h
@@ -70,6 +70,7 @@ int wg_contains_dquote(char* s);
 int wg_print_quoted(char** buf, int len, int pos, char* s);
 int wg_print_quoted2(char** buf, int len, int pos, char* es, char* s);
 int wg_print_dquoted(char** buf, int len, int pos, char* s, int negflag, int uniqueflag);
+int wg_print_tptp_dquoted(char** buf, int len, int pos, char* s, int negflag, int uniqueflag);
 int wg_nice_strprint_var(glb* g, gint i, char** buf, int *len, int pos);
 
 void wg_tptp_print(void* db, void* ptr);
diff --git a/Reasoner/history.c b/Reasoner/history.c
index 8e578e9..0c8c7fa 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1875,8 +1875,11 @@ int wr_strprint_one_history
         if (bpos<0) return bpos;
       }
       namestr=wg_decode_str(db,name);
-      if (!wr_str_guarantee_space(g,buf,blen,bpos+100+strlen(namestr))) return -1;
-      if (g->print_json) bpos+=snprintf((*buf)+bpos,(*blen)-bpos,", \"%s\"",namestr);
+      if (!wr_str_guarantee_space(g,buf,blen,bpos+100+6*strlen(namestr))) return -1;
+      if (g->print_json && wg_contains_dquote(namestr)) {
+        bpos+=snprintf((*buf)+bpos,(*blen)-bpos,", ");
+        bpos+=wg_print_dquoted(buf,*blen,bpos,namestr,0,0);
+      } else if (g->print_json) bpos+=snprintf((*buf)+bpos,(*blen)-bpos,", \"%s\"",namestr);
       else {
         if ((g->print_fof_conversion_proof) && (g->store_fof_skolem_steps) &&
             namestr) {
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 23f4c0e..61f2e60 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -1722,6 +1722,10 @@ int wr_print_all_clauses(glb* g, void* child_db) {
       namestr=namebuf;
     }  
     //printf("\nnamebuf %s namestr %s nameflag %d enctype %ld\n",namebuf,namestr,nameflag,enctype);
+    if (!wr_str_guarantee_space(g,&buf,&blen,bpos+6*strlen(namestr)+200)) {
+      if (buf) wr_free(g,buf);
+      return -1;
+    }
     objflag=0;
     if (g->print_json) {
       if ((nameflag && namestr[0]) && (decprior && decprior!=WR_HISTORY_AXIOM_ROLENR)) {        
-- 
2.43.0


From d26d80062a8ca031bd7de674f022b808c65cfeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:16 +0000
Subject: [PATCH 22/43] fix: quoted symbols of more than a thousand characters
 overran a fixed buffer of the lexer

---
 Builtparser/dbotter.yy.c | 45 ++++++++++++++++++++++++++--------------
 Parser/dbotter.l         | 45 ++++++++++++++++++++++++++--------------
 2 files changed, 58 insertions(+), 32 deletions(-)

diff --git a/Builtparser/dbotter.yy.c b/Builtparser/dbotter.yy.c
index b69708c..bffe4f1 100644
--- a/Builtparser/dbotter.yy.c
+++ b/Builtparser/dbotter.yy.c
@@ -834,8 +834,21 @@ lex_parsestr(const char *s)
 /* static: dbprolog.l used to declare identical copies, which linked only via
    pre-gcc-10 common-symbol merging; keep these lexer-local */
 static char linebuf[1024];
-static char elmparsestrbuf[1024];
-static char *s;
+static char* elmparsestrbuf=NULL; /* current quoted symbol, grows when needed */
+static size_t elmparsestrlen=0;
+static size_t elmparsestrpos=0;
+
+static void elm_putchar(char c) {
+  if (elmparsestrpos>=elmparsestrlen) {
+    elmparsestrlen=(elmparsestrlen ? elmparsestrlen*2 : 1024);
+    elmparsestrbuf=(char*)realloc(elmparsestrbuf,elmparsestrlen);
+    if (elmparsestrbuf==NULL) {
+      printf("{\"error\": \"cannot allocate memory for a quoted symbol\"}\n");
+      exit(1);
+    }
+  }
+  elmparsestrbuf[elmparsestrpos++]=c;
+}
 
 #line 841 "Parser/dbotter.yy.c"
 #define YY_NO_INPUT 1
@@ -1329,27 +1342,27 @@ YY_RULE_SETUP
 case 16:
 YY_RULE_SETUP
 #line 218 "Parser/dbotter.l"
-{ BEGIN STRSTATE; s = elmparsestrbuf; } 
+{ BEGIN STRSTATE; elmparsestrpos=0; } 
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
 #line 219 "Parser/dbotter.l"
-{ *s++ = '\n'; } 
+{ elm_putchar('\n'); } 
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
 #line 220 "Parser/dbotter.l"
-{ *s++ = '\t'; } 
+{ elm_putchar('\t'); } 
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
 #line 221 "Parser/dbotter.l"
-{ *s++ = '\"'; } 
+{ elm_putchar('\"'); } 
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
 #line 222 "Parser/dbotter.l"
-{ *s = 0; BEGIN 0; 
+{ elm_putchar(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return UNIQUEURI;
@@ -1359,7 +1372,7 @@ case 21:
 /* rule 21 can match eol */
 YY_RULE_SETUP
 #line 227 "Parser/dbotter.l"
-{ *s++ = '\n'; 
+{ elm_putchar('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
 		             */   
@@ -1368,32 +1381,32 @@ YY_RULE_SETUP
 case 22:
 YY_RULE_SETUP
 #line 232 "Parser/dbotter.l"
-{ *s++ = *yytext; }
+{ elm_putchar(*yytext); }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
 #line 235 "Parser/dbotter.l"
-{ BEGIN QUOTESTATE; s = elmparsestrbuf; } /* *s++ = '#';}  */
+{ BEGIN QUOTESTATE; elmparsestrpos=0; } /* elm_putchar('#');}  */
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
 #line 236 "Parser/dbotter.l"
-{ *s++ = '\n'; } 
+{ elm_putchar('\n'); } 
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
 #line 237 "Parser/dbotter.l"
-{ *s++ = '\t'; } 
+{ elm_putchar('\t'); } 
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
 #line 238 "Parser/dbotter.l"
-{ *s++ = '\''; } 
+{ elm_putchar('\''); } 
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
 #line 239 "Parser/dbotter.l"
-{ *s = 0; BEGIN 0; 
+{ elm_putchar(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return CONSTURI;
@@ -1403,7 +1416,7 @@ case 28:
 /* rule 28 can match eol */
 YY_RULE_SETUP
 #line 244 "Parser/dbotter.l"
-{ *s++ = '\n'; 
+{ elm_putchar('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
 		             */   
@@ -1412,7 +1425,7 @@ YY_RULE_SETUP
 case 29:
 YY_RULE_SETUP
 #line 249 "Parser/dbotter.l"
-{ *s++ = *yytext; }
+{ elm_putchar(*yytext); }
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index e78046b..f1038ea 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -97,8 +97,21 @@ lex_parsestr(const char *s)
 /* static: dbprolog.l used to declare identical copies, which linked only via
    pre-gcc-10 common-symbol merging; keep these lexer-local */
 static char linebuf[1024];
-static char elmparsestrbuf[1024];
-static char *s;
+static char* elmparsestrbuf=NULL; /* current quoted symbol, grows when needed */
+static size_t elmparsestrlen=0;
+static size_t elmparsestrpos=0;
+
+static void elm_putchar(char c) {
+  if (elmparsestrpos>=elmparsestrlen) {
+    elmparsestrlen=(elmparsestrlen ? elmparsestrlen*2 : 1024);
+    elmparsestrbuf=(char*)realloc(elmparsestrbuf,elmparsestrlen);
+    if (elmparsestrbuf==NULL) {
+      printf("{\"error\": \"cannot allocate memory for a quoted symbol\"}\n");
+      exit(1);
+    }
+  }
+  elmparsestrbuf[elmparsestrpos++]=c;
+}
 
 %}
 
@@ -215,38 +228,38 @@ ID       [a-zA-Z\x80-\xff][a-zA-Z0-9_:+\-*/<>\x80-\xff]*
               return TIME; 
 	    }  	    
 
-\"              { BEGIN STRSTATE; s = elmparsestrbuf; } 
-<STRSTATE>\\n   { *s++ = '\n'; } 
-<STRSTATE>\\t   { *s++ = '\t'; } 
-<STRSTATE>\\\"  { *s++ = '\"'; } 
-<STRSTATE>\"    { *s = 0; BEGIN 0; 
+\"              { BEGIN STRSTATE; elmparsestrpos=0; } 
+<STRSTATE>\\n   { elm_putchar('\n'); } 
+<STRSTATE>\\t   { elm_putchar('\t'); } 
+<STRSTATE>\\\"  { elm_putchar('\"'); } 
+<STRSTATE>\"    { elm_putchar(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return UNIQUEURI;
                 } 
-<STRSTATE>\n    { *s++ = '\n'; 
+<STRSTATE>\n    { elm_putchar('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
 		             */   
 	        } 
-<STRSTATE>.     { *s++ = *yytext; }
+<STRSTATE>.     { elm_putchar(*yytext); }
 
 
-\'              { BEGIN QUOTESTATE; s = elmparsestrbuf; } /* *s++ = '#';}  */
-<QUOTESTATE>\\n   { *s++ = '\n'; } 
-<QUOTESTATE>\\t   { *s++ = '\t'; } 
-<QUOTESTATE>\\\'  { *s++ = '\''; } 
-<QUOTESTATE>\'    { *s = 0; BEGIN 0; 
+\'              { BEGIN QUOTESTATE; elmparsestrpos=0; } /* elm_putchar('#');}  */
+<QUOTESTATE>\\n   { elm_putchar('\n'); } 
+<QUOTESTATE>\\t   { elm_putchar('\t'); } 
+<QUOTESTATE>\\\'  { elm_putchar('\''); } 
+<QUOTESTATE>\'    { elm_putchar(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return CONSTURI;
                 } 
-<QUOTESTATE>\n    { *s++ = '\n'; 
+<QUOTESTATE>\n    { elm_putchar('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
 		             */   
 	        } 
-<QUOTESTATE>.     { *s++ = *yytext; }
+<QUOTESTATE>.     { elm_putchar(*yytext); }
 
 
 "/*"         BEGIN(COMMENT);  
-- 
2.43.0


From bab2e84d7e7bad7fea1d23d73ab8ef79ef85d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:10 +0000
Subject: [PATCH 23/43] fix: integers of more than 32 bits were truncated when
 read and when printed

---
 Builtparser/dbparse.c  | 2 +-
 Parser/dbparse.c       | 2 +-
 Printer/dbotterprint.c | 6 ++----
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index a6d3cb8..4aa13fd 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1650,7 +1650,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
   int type;
   char* str1;
   char* str2;
-  int intdata;
+  gint intdata;
   double doubledata;
   int i; 
 
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index a6d3cb8..4aa13fd 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1650,7 +1650,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
   int type;
   char* str1;
   char* str2;
-  int intdata;
+  gint intdata;
   double doubledata;
   int i; 
 
diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index a61438e..250614a 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -328,8 +328,7 @@ void wr_print_simpleterm_otter(glb* g, gint enc,int printlevel) {
     //  wg_print_subrecord_otter(db,(gint*)ptrdata);
     //  break;    
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      printf("%d", intdata);
+      printf("%ld", (long)wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
@@ -846,8 +845,7 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
     //  wg_print_subrecord_otter(db,(gint*)ptrdata);
     //  break;    
     case WG_INTTYPE:            
-      intdata = wg_decode_int(db, enc);     
-      return pos+snprintf((*buf)+pos,(*len)-pos,"%d", intdata);
+      return pos+snprintf((*buf)+pos,(*len)-pos,"%ld", (long)wg_decode_int(db, enc));
     case WG_DOUBLETYPE:     
       doubledata = wg_decode_double(db, enc);
       return pos+snprintf((*buf)+pos,(*len)-pos,"%f", doubledata);
-- 
2.43.0


From a87473d2f9edc50d23869f75e6dd3eeb418655c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:50 +0000
Subject: [PATCH 24/43] fix: small and precise real numbers were rounded to six
 decimals when read from JSON and when printed

---
 Db/dbmpool.c           | 17 +++++++++++++++--
 Db/dbmpool.h           |  4 ++++
 Printer/dbotterprint.c |  9 +++++++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index 57ce946..f410258 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -719,16 +719,29 @@ void* wg_mkatom_int(void* db, void* mpool, gint num) {
 }
 
 
+/* Write a double in the decimal notation: with six decimals, or with more if
+   it would otherwise be read back as a different number. Returns the length. */
+
+int wg_sprint_double(double num, char* buf) {
+  int len, prec;
+
+  for(prec=6;;prec++) {
+    len=snprintf(buf,WG_DOUBLE_STRLEN,"%.*f",prec,num);
+    if (num-num!=0.0 || prec>=WG_DOUBLE_MAXPREC || strtod(buf,NULL)==num) break;
+  }
+  return len;
+}
+
 void* wg_mkatom_double(void* db, void* mpool, double num) {
   char* ptr;
   char* curptr;
   int size=2;
-  char buf[40];
+  char buf[WG_DOUBLE_STRLEN];
   int len1;
   char* str1;
 
   //printf("\ndouble2c %lf\n",num);  
-  len1=snprintf(buf,38,"%f",num)+1;
+  len1=wg_sprint_double(num,buf)+1;
   str1=buf;
   size=size+len1;
   size++;  
diff --git a/Db/dbmpool.h b/Db/dbmpool.h
index e21781f..d766136 100644
--- a/Db/dbmpool.h
+++ b/Db/dbmpool.h
@@ -112,6 +112,10 @@ void* wg_mkatom_int(void* db, void* mpool, gint num);
 void* wg_mkatom_int2(void* db, void* mpool, double num);
 void* wg_mkatom_double(void* db, void* mpool, double num);
 
+#define WG_DOUBLE_MAXPREC 340 // enough decimals for the smallest normal double
+#define WG_DOUBLE_STRLEN 700 // room for any double printed by wg_sprint_double
+int wg_sprint_double(double num, char* buf);
+
 void* wg_mkrecatom(void* db, void* mpool, wg_int rec);
 int wg_atomtype(void* db, void* ptr);
 char* wg_atomstr1(void* db, void* ptr);
diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 250614a..aceb04b 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -314,6 +314,7 @@ void wr_print_simpleterm_otter(glb* g, gint enc,int printlevel) {
   int intdata;
   char *strdata, *exdata;
   double doubledata;
+  char dblbuf[WG_DOUBLE_STRLEN];
   char strbuf[80];
 
 #ifdef DEBUG  
@@ -332,7 +333,8 @@ void wr_print_simpleterm_otter(glb* g, gint enc,int printlevel) {
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
-      printf("%f", doubledata);
+      wg_sprint_double(doubledata,dblbuf);
+      printf("%s", dblbuf);
       break;
     case WG_STRTYPE:
       strdata = wg_decode_str(db, enc);
@@ -828,6 +830,7 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
   int intdata;
   char *strdata, *exdata;
   double doubledata;
+  char dblbuf[WG_DOUBLE_STRLEN];
   char strbuf[80];
   int len1=0,len2=0;
   int uniqueflag;
@@ -848,7 +851,9 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
       return pos+snprintf((*buf)+pos,(*len)-pos,"%ld", (long)wg_decode_int(db, enc));
     case WG_DOUBLETYPE:     
       doubledata = wg_decode_double(db, enc);
-      return pos+snprintf((*buf)+pos,(*len)-pos,"%f", doubledata);
+      len1=wg_sprint_double(doubledata,dblbuf);
+      if (!wr_str_guarantee_space(g,buf,len,pos+len1+50)) return -1;
+      return pos+snprintf((*buf)+pos,(*len)-pos,"%s", dblbuf);
     case WG_STRTYPE:
       strdata = wg_decode_str(db, enc);
       if (!wr_str_guarantee_space(g,buf,len,pos+strlen(strdata)+50)) return -1;
-- 
2.43.0


From eb42d301c345d8a4874ee8de268ef648cfceb699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:14 +0000
Subject: [PATCH 25/43] fix: negative numbers in terms were read as logical
 negations of positive ones

---
 Builtparser/dbgenparse.h  |  2 ++
 Builtparser/dbotter.tab.c |  2 +-
 Builtparser/dbparse.c     | 20 ++++++++++++++++++++
 Builtparser/dbparse.h     |  1 +
 Parser/dbgenparse.h       |  2 ++
 Parser/dbotter.y          |  2 +-
 Parser/dbparse.c          | 20 ++++++++++++++++++++
 Parser/dbparse.h          |  1 +
 8 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/Builtparser/dbgenparse.h b/Builtparser/dbgenparse.h
index 7e5eeb4..1ebc496 100644
--- a/Builtparser/dbgenparse.h
+++ b/Builtparser/dbgenparse.h
@@ -49,6 +49,8 @@
 #define MKWGSTRING(pp,x)  (wg_mkatom(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_STRTYPE,x,NULL))
 #define MKWGCONST(pp,x)  (wg_mkatom(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_ANONCONSTTYPE,x,NULL))
 #define MKWGVAR(pp,x)     (wg_mkatom(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_VARTYPE,x,NULL))
+// minus before a number makes a negative number, minus before anything else negates it
+#define MKWGMINUS(pp,x)   (wr_mkminus(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,x))
 #define MKWGNIL NULL
 
 #define MKWGURILEN(pp,x,l)  (wg_mkatom_len(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_URITYPE,x,NULL,l,0))
diff --git a/Builtparser/dbotter.tab.c b/Builtparser/dbotter.tab.c
index 6b0c382..2137f70 100644
--- a/Builtparser/dbotter.tab.c
+++ b/Builtparser/dbotter.tab.c
@@ -1562,7 +1562,7 @@ yyreduce:
 
   case 21:
 #line 137 "Parser/dbotter.y"
-                                  { yyval = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,yyvsp[0],MKWGNIL)); }
+                                  { yyval = MKWGMINUS(PP,yyvsp[0]); }
 #line 1567 "Parser/dbotter.tab.c"
     break;
 
diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 4aa13fd..3c40a5e 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1644,6 +1644,26 @@ void* wr_parse_preprocess_list(glb* g,void* mpool,void* term) {
 }
 
 
+void* wr_mkminus(void* db, void* mpool, void* x) {
+  char *str, *res;
+  int type;
+
+  if (x!=NULL && wg_isatom(db,x)) {
+    type=wg_atomtype(db,x);
+    str=wg_atomstr1(db,x);
+    if ((type==WG_INTTYPE || type==WG_DOUBLETYPE) && str!=NULL && *str!='-') {
+      res=(char*)(wg_alloc_mpool(db,mpool,strlen(str)+2));
+      if (res==NULL) return NULL;
+      *res='-';
+      strcpy(res+1,str);
+      return wg_mkatom(db,mpool,type,res,NULL);
+    }
+  }
+  return wg_mkpair(db,mpool,
+                   wg_mkatom(db,mpool,WG_ANONCONSTTYPE,"not",NULL),
+                   wg_mkpair(db,mpool,x,NULL));
+}
+
 gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int pos) {
   void *db=g->db;
   gint ret; 
diff --git a/Builtparser/dbparse.h b/Builtparser/dbparse.h
index 5df14aa..7603098 100644
--- a/Builtparser/dbparse.h
+++ b/Builtparser/dbparse.h
@@ -68,6 +68,7 @@ void* wr_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
 void* wr_parse_atom(glb* g,void* mpool,void* term, int isneg, int issimple, char** vardata);
 void* wr_parse_term(glb* g,void* mpool,void* term, char** vardata, gint* primitiveres);
 void* wr_parse_preprocess_list(glb* g,void* mpool,void* term);
+void* wr_mkminus(void* db, void* mpool, void* x);
 gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int pos);
 
 void wg_expand_frm_for_print(void* db, void* mpool, void* frm);
diff --git a/Parser/dbgenparse.h b/Parser/dbgenparse.h
index 7e5eeb4..1ebc496 100644
--- a/Parser/dbgenparse.h
+++ b/Parser/dbgenparse.h
@@ -49,6 +49,8 @@
 #define MKWGSTRING(pp,x)  (wg_mkatom(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_STRTYPE,x,NULL))
 #define MKWGCONST(pp,x)  (wg_mkatom(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_ANONCONSTTYPE,x,NULL))
 #define MKWGVAR(pp,x)     (wg_mkatom(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_VARTYPE,x,NULL))
+// minus before a number makes a negative number, minus before anything else negates it
+#define MKWGMINUS(pp,x)   (wr_mkminus(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,x))
 #define MKWGNIL NULL
 
 #define MKWGURILEN(pp,x,l)  (wg_mkatom_len(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_URITYPE,x,NULL,l,0))
diff --git a/Parser/dbotter.y b/Parser/dbotter.y
index f5d443f..10e1705 100644
--- a/Parser/dbotter.y
+++ b/Parser/dbotter.y
@@ -134,7 +134,7 @@ term:      prim                   { $$ = $1; }
          | term '+' term          { $$ = MKWGPAIR(PP,MKWGCONST(PP,"+"),MKWGPAIR(PP,$1,MKWGPAIR(PP,$3,MKWGNIL))); }
          | term '-' term          { $$ = MKWGPAIR(PP,MKWGCONST(PP,"-"),MKWGPAIR(PP,$1,MKWGPAIR(PP,$3,MKWGNIL))); }
          | term '*' term          { $$ = MKWGPAIR(PP,MKWGCONST(PP,"*"),MKWGPAIR(PP,$1,MKWGPAIR(PP,$3,MKWGNIL))); }
-         | '-' term               { $$ = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,$2,MKWGNIL)); }	 
+         | '-' term               { $$ = MKWGMINUS(PP,$2); }	 
          | '~' term               { $$ = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,$2,MKWGNIL)); }
          | '(' loglist')'         { $$ = $2; }
          | '[' termlist ']'       { $$ = MKWGPAIR(PP,MKWGCONST(PP,"$$lst"),MKWGPAIR(PP,$2,MKWGNIL)); }
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 4aa13fd..3c40a5e 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1644,6 +1644,26 @@ void* wr_parse_preprocess_list(glb* g,void* mpool,void* term) {
 }
 
 
+void* wr_mkminus(void* db, void* mpool, void* x) {
+  char *str, *res;
+  int type;
+
+  if (x!=NULL && wg_isatom(db,x)) {
+    type=wg_atomtype(db,x);
+    str=wg_atomstr1(db,x);
+    if ((type==WG_INTTYPE || type==WG_DOUBLETYPE) && str!=NULL && *str!='-') {
+      res=(char*)(wg_alloc_mpool(db,mpool,strlen(str)+2));
+      if (res==NULL) return NULL;
+      *res='-';
+      strcpy(res+1,str);
+      return wg_mkatom(db,mpool,type,res,NULL);
+    }
+  }
+  return wg_mkpair(db,mpool,
+                   wg_mkatom(db,mpool,WG_ANONCONSTTYPE,"not",NULL),
+                   wg_mkpair(db,mpool,x,NULL));
+}
+
 gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int pos) {
   void *db=g->db;
   gint ret; 
diff --git a/Parser/dbparse.h b/Parser/dbparse.h
index 5df14aa..7603098 100644
--- a/Parser/dbparse.h
+++ b/Parser/dbparse.h
@@ -68,6 +68,7 @@ void* wr_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
 void* wr_parse_atom(glb* g,void* mpool,void* term, int isneg, int issimple, char** vardata);
 void* wr_parse_term(glb* g,void* mpool,void* term, char** vardata, gint* primitiveres);
 void* wr_parse_preprocess_list(glb* g,void* mpool,void* term);
+void* wr_mkminus(void* db, void* mpool, void* x);
 gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int pos);
 
 void wg_expand_frm_for_print(void* db, void* mpool, void* frm);
-- 
2.43.0


From 3ed12a879351ed0bc5c0ebe7a21fbf7db9384bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 26/43] fix: integer and real quotients and remainders of
 negative numbers did not follow their definitions

---
 Reasoner/build.c | 59 ++++++++++++++++--------------------------------
 1 file changed, 19 insertions(+), 40 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 0c1bdce..0c16e02 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1338,33 +1338,25 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         if (ai==(gint)INTPTR_MIN && bi==-1) return encode_record(db,tptr);
         ri=ai / bi;
         break;  
-      case COMP_FUN_QUOTIENT_E:
-        if (!bi) return encode_record(db,tptr);
-        if (bi<0) rd=floor((double)ai / (double)bi);
-        else rd=ceil((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
-        break;  
+      case COMP_FUN_QUOTIENT_E: // floor for a positive divisor, ceiling for a negative one
       case COMP_FUN_QUOTIENT_T:
-        if (!bi) return encode_record(db,tptr);
-        rd=trunc((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
-        break;   
       case COMP_FUN_QUOTIENT_F:
         if (!bi) return encode_record(db,tptr);
-        rd=floor((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
-        break;   
-      case COMP_FUN_REMAINDER_E:
-        if (!bi) return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        if (ai==(gint)INTPTR_MIN && bi==-1) return encode_record(db,tptr);
+        ri=ai / bi;
+        if (comp!=COMP_FUN_QUOTIENT_T && (ai % bi)!=0) {
+          if ((ai<0)!=(bi<0)) {
+            if (comp==COMP_FUN_QUOTIENT_F || bi>0) ri--;
+          } else if (comp==COMP_FUN_QUOTIENT_E && bi<0) ri++;
+        }
         break;  
-      case COMP_FUN_REMAINDER_T:
-        if (!bi) return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        break;   
-      case COMP_FUN_REMAINDER_F:
+      case COMP_FUN_REMAINDER_E: // never negative
+      case COMP_FUN_REMAINDER_T: // sign of the dividend
+      case COMP_FUN_REMAINDER_F: // sign of the divisor
         if (!bi) return encode_record(db,tptr);
         ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        if (comp==COMP_FUN_REMAINDER_E && ri<0) ri=(bi<0) ? ri-bi : ri+bi;
+        else if (comp==COMP_FUN_REMAINDER_F && ri!=0 && (ri<0)!=(bi<0)) ri=ri+bi;
         break;      
       default:
         return encode_record(db,tptr);
@@ -1393,8 +1385,8 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         break; 
       case COMP_FUN_QUOTIENT_E:       
         if (bd==0.0) return encode_record(db,tptr);        
-        if (bd<0) rd=floor(ad/bd);
-        else rd=ceil(ad/bd);
+        if (bd<0) rd=ceil(ad/bd);
+        else rd=floor(ad/bd);
         if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
         return wg_encode_int(g->local_db,ri);        
         break;  
@@ -1411,25 +1403,12 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         return wg_encode_int(g->local_db,ri);
         break;  
       case COMP_FUN_REMAINDER_E:       
-        if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
-          return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        return wg_encode_int(g->local_db,ri);        
-        break;  
       case COMP_FUN_REMAINDER_T:        
-        if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
-          return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        return wg_encode_int(g->local_db,ri);
-        break;   
       case COMP_FUN_REMAINDER_F:
-        if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
-          return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        return wg_encode_int(g->local_db,ri);
+        if (bd==0.0) return encode_record(db,tptr);
+        rd=fmod(ad,bd);
+        if (comp==COMP_FUN_REMAINDER_E && rd<0.0) rd=rd+fabs(bd);
+        else if (comp==COMP_FUN_REMAINDER_F && rd!=0.0 && (rd<0.0)!=(bd<0.0)) rd=rd+bd;
         break;      
       default: 
         return encode_record(db,tptr);
-- 
2.43.0


From 50f59040dd2cce96110b1ed5edb1558b4f10b514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 27/43] fix: $lesseq and $greatereq of an integer and the equal
 real number were false

---
 Reasoner/build.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 0c16e02..7ff1ce5 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1292,6 +1292,7 @@ gint wr_compute_fun_lesseq_core(glb* g, gptr tptr, gint ifequal, int isless) {
     if (btype==WG_INTTYPE) bd=(double)(wg_decode_int(db,b));
     else bd=wg_decode_double(db,b);
     if (!isfinite(ad) || !isfinite(bd)) return encode_record(db,tptr);
+    if (ad == bd) return ifequal; // an integer and a real, 1 and 1.0
     if (isless) {
       if (ad < bd) return ACONST_TRUE;
       else return ACONST_FALSE; 
-- 
2.43.0


From 3cacee7d7c44389ede980f82327c1d8ce028fb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:46 +0000
Subject: [PATCH 28/43] fix: $is_list and $is_distinct were never evaluated

---
 Reasoner/build.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 7ff1ce5..8faf78b 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1107,6 +1107,8 @@ gint wr_compute_from_termptr(glb* g, gptr tptr, int comp) {
     case COMP_FUN_IS_MAP:
     case COMP_FUN_IS_ATOM:
     case COMP_FUN_IS_UNIQUE:
+      res=wr_compute_fun_arith1(g,tptr,comp);
+      break;
     case COMP_FUN_FIRST:  
       res=wr_compute_fun_list(g,tptr,1);
       break;
@@ -1681,11 +1683,12 @@ gint wr_compute_fun_arith1(glb* g, gptr tptr, int comp) {
           return ACONST_TRUE; 
           break;
         case COMP_FUN_IS_LIST:
+        case COMP_FUN_IS_UNIQUE:
           str=wg_decode_uri(db,a);  
           if (str && 
               str[0]=='$' && str[1]=='n' && str[2]=='i' && str[3]=='l' &&
               str[4]=='\0')         
-            return ACONST_TRUE; 
+            return (comp==COMP_FUN_IS_LIST) ? ACONST_TRUE : ACONST_FALSE;
           break;                
       }  
     }  
-- 
2.43.0


From 7f961739f91f210e1c6201dee7dc67c95067f9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:46 +0000
Subject: [PATCH 29/43] fix: $substrat compared one character only, and $substr
 and $substrat treated constants as strings

---
 Reasoner/build.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 8faf78b..453a87b 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1439,6 +1439,8 @@ gint wr_compute_fun_str(glb* g, gptr tptr, int comp) {
   b=tptr[RECORD_HEADER_GINTS+(g->unify_funarg2pos)];
   btype=wg_get_encoded_type(db,b);
   if (btype!=WG_URITYPE) return encode_record(db,tptr);
+  // ordinary constants are not strings: different ones may be equal
+  if (!wr_uri_is_unique(g,a) || !wr_uri_is_unique(g,b)) return encode_record(db,tptr);
   as=wg_decode_uri(db,a);
   bs=wg_decode_uri(db,b);
   if(!as || !bs) return encode_record(db,tptr);
@@ -1449,16 +1451,17 @@ gint wr_compute_fun_str(glb* g, gptr tptr, int comp) {
       else return ACONST_TRUE;
       break;
     case COMP_FUN_IS_SUBSTRAT: 
+      if (len<(g->unify_firstuseterm)+4) return encode_record(db,tptr);
       c=tptr[RECORD_HEADER_GINTS+(g->unify_funarg2pos)+1];
       ctype=wg_get_encoded_type(db,c);
       if (ctype!=WG_INTTYPE) return encode_record(db,tptr);
       ci=wg_decode_int(db,c);
-      if (ci<0) return encode_record(db,tptr);
+      if (ci<0) return ACONST_FALSE;
       len=strlen(bs);
-      if (ci>len) return encode_record(db,tptr);      
+      if (ci>len) return ACONST_FALSE;
       len2=strlen(as);
-      if (len2+ci>len) return encode_record(db,tptr);
-      itmp=memcmp(bs+ci,as,1);
+      if (len2>len-ci) return ACONST_FALSE;
+      itmp=memcmp(bs+ci,as,len2);
       if (!itmp) return ACONST_TRUE;  
       else return ACONST_FALSE;     
       break;
-- 
2.43.0


From c56cc39d483373dbc905473747fccda8bdf11240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:13 +0000
Subject: [PATCH 30/43] fix: numeric instantiation used the clause hash of the
 propositional strategies where there is none

---
 Reasoner/arithinst.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Reasoner/arithinst.c b/Reasoner/arithinst.c
index d7b9cee..a05656f 100644
--- a/Reasoner/arithinst.c
+++ b/Reasoner/arithinst.c
@@ -716,7 +716,8 @@ static int wr_arith_store_result(glb* g,gptr parent,gptr rptr,int rpos,
     ++(g->stat_arithinst_proofs);
     return 1;
   }
-  tmp=wr_derived_cl_cut_and_subsume(g,rptr,rpos,&clhash);
+  // the hash of derived clauses exists for instgen and propgen strategies only
+  tmp=wr_derived_cl_cut_and_subsume(g,rptr,rpos,(g->prop_hash_clauses) ? &clhash : NULL);
   if (tmp<0) return 0;
   if (tmp>0) {
     cuts=g->cut_clvec;
@@ -764,7 +765,7 @@ static int wr_arith_store_result(glb* g,gptr parent,gptr rptr,int rpos,
   g->avg_kept_weight=avg;
   resmeta=wr_calc_clause_meta(g,res,cl_metablock);
   hash=wr_add_cl_to_unithash(g,res,resmeta);
-  if (hash<0) wr_push_prop_clausehash(g,rotp(g,g->prop_hash_clauses),clhash,res);
+  if (hash<0 && g->prop_hash_clauses) wr_push_prop_clausehash(g,rotp(g,g->prop_hash_clauses),clhash,res);
   if (g->propagate) {
     if (hash>=0) {
       wr_propagate_unit(g,res,resmeta,hash,parent);
-- 
2.43.0


From 5970b7c07c4fa0a956a0e6335ada50664cbdee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:37 +0000
Subject: [PATCH 31/43] fix: long strategy texts and file names were not
 terminated and could overrun the output buffer

---
 Reasoner/glb.c     |  1 +
 Reasoner/history.c | 11 +++++++----
 Reasoner/rmain.c   | 13 ++++++++-----
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/Reasoner/glb.c b/Reasoner/glb.c
index 68dda1b..1322b8e 100644
--- a/Reasoner/glb.c
+++ b/Reasoner/glb.c
@@ -118,6 +118,7 @@ int wr_glb_init_simple(glb* g) {
   //printf("\nwr_glb_init_simple called\n");
   (g->filename)=NULL;
   (g->outfilename)=NULL;
+  (g->guidetext)[0]=0;
   (g->proof_found)=0; // becomes 1 if proof found
   (g->proof_answer)=NULL; // becomes a ptr to pure answer clause
   (g->proof_history)=wg_encode_null(g->db,NULL); // becomes a gint encoding of the constructed history
diff --git a/Reasoner/history.c b/Reasoner/history.c
index 0c8c7fa..51c5201 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1267,7 +1267,7 @@ int wr_show_result(glb* g, gint history) {
   char namebuf[20];
   gptr ans;
   char* buf;
-  int ansnr, blen, bpos;
+  int ansnr, blen, bpos, headlen;
   FILE* outfile; 
   int sleepi;
   gint sleept, coeff, limit_low, limit_high, usecs;
@@ -1308,7 +1308,10 @@ int wr_show_result(glb* g, gint history) {
   if (buf==NULL) {   
     return -1;
   }   
-  if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100)) {
+  // headings may contain the strategy text and the file name
+  headlen=200+MAX_GUIDETEXT_LEN;
+  if (g->filename) headlen+=2*strlen(g->filename);
+  if (!wr_str_guarantee_space(g,&buf,&blen,bpos+headlen)) {
     if (buf) wr_free(g,buf);
     return -1;
   }  
@@ -1456,7 +1459,7 @@ int wr_show_result(glb* g, gint history) {
     }  
     assoc=wg_reverselist(db,mpool,assoc); 
     if (!(g->print_json)) {
-      if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100)) return -1;
+      if (!wr_str_guarantee_space(g,&buf,&blen,bpos+headlen)) return -1;
 #ifdef TPTP  
       if (!(g->print_tptp)) {
         bpos+=snprintf(buf+bpos,blen-bpos,"proof:");
@@ -1492,7 +1495,7 @@ int wr_show_result(glb* g, gint history) {
       }
       return bpos;
     }  
-    if (!wr_str_guarantee_space(g,&buf,&blen,bpos+10)) {
+    if (!wr_str_guarantee_space(g,&buf,&blen,bpos+headlen)) {
       if (buf) { 
         wr_free(g,buf);
         if (mpool) wg_free_mpool(db,mpool);
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 61f2e60..c7ea650 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -536,8 +536,9 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
       return -1;
     } else if (guidetext) {
       tmp=strlen(guidetext);
-      if (tmp>=MAX_GUIDETEXT_LEN) tmp=MAX_GUIDETEXT_LEN-2;
-      memcpy(g->guidetext,guidetext,tmp+1);
+      if (tmp>=MAX_GUIDETEXT_LEN) tmp=MAX_GUIDETEXT_LEN-1;
+      memcpy(g->guidetext,guidetext,tmp);
+      (g->guidetext)[tmp]=0;
     }
     if (!(g->print_flag)) (g->print_level_flag)=0;
     if ((g->print_level_flag)<0) (g->print_level_flag)=default_print_level;
@@ -593,7 +594,8 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
       return -1; 
     }   
     if (filename) {
-      strncpy((g->filename),filename,MAX_FILENAME_LEN);
+      strncpy((g->filename),filename,MAX_FILENAME_LEN-1);
+      (g->filename)[MAX_FILENAME_LEN-1]=0;
     } else {
       strcpy((g->filename),"input_text");
     }  
@@ -1064,9 +1066,10 @@ int wg_run_converter(void *db, char* inputname, char* stratfile, int informat,
     return -1; 
   }   
   if (filename)
-    strncpy((g->filename),filename,MAX_FILENAME_LEN);
+    strncpy((g->filename),filename,MAX_FILENAME_LEN-1);
   else
-    strncpy((g->filename),"input_text",MAX_FILENAME_LEN); 
+    strncpy((g->filename),"input_text",MAX_FILENAME_LEN-1); 
+  (g->filename)[MAX_FILENAME_LEN-1]=0;
   if (outfilename) (g->outfilename)=outfilename;    
   (g->print_fof_conversion_proof)=0;
   (g->store_fof_skolem_steps)=0;   
-- 
2.43.0


From 2d9ba13c870d82be7457fe421eaacadaf5d3b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 32/43] fix: histories of input clauses were read past their
 end, adding bogus steps to printed proofs

---
 Reasoner/history.c | 1 +
 Reasoner/resolve.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 51c5201..53afe09 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -787,6 +787,7 @@ gptr wr_flatten_history(glb* g, void* mpool, gint history, gptr cl, int depth, i
   */
   if (!history) return NULL;
   len=wg_get_record_len(db,otp(db,history));   
+  if (len<=HISTORY_PREFIX_LEN) return NULL; // input clause: no derivation tag, no parents
   head=wr_get_history_record_field(db,otp(db,history),HISTORY_DERIVATION_TAG_POS);
   htype=wg_get_encoded_type(db,head);
   if (htype!=WG_INTTYPE) return NULL;
diff --git a/Reasoner/resolve.c b/Reasoner/resolve.c
index 2533c05..d60d1c7 100644
--- a/Reasoner/resolve.c
+++ b/Reasoner/resolve.c
@@ -1339,6 +1339,7 @@ int wr_get_cl_history_tag(glb* g, gptr cl) {
   
   history=wr_get_history(g,cl);
   if (!history) return 0;
+  if (wg_get_record_len(db,otp(db,history))<=HISTORY_PREFIX_LEN) return 0; // input clause
   head=wr_get_history_record_field(db,otp(db,history),HISTORY_DERIVATION_TAG_POS);
   htype=wg_get_encoded_type(db,head);
   if (htype!=WG_INTTYPE) return 0;
-- 
2.43.0


From f9840497c63044d08a1089320ad95d8479dbd9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:35 +0000
Subject: [PATCH 33/43] fix: -convert -tptp printed a negated disjunction as a
 clause, negating only its first literal

---
 Builtparser/dbparse.c | 8 ++++++++
 Parser/dbparse.c      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 3c40a5e..d11c5a8 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -867,6 +867,14 @@ void *wr_parse_freeoccs(glb* g, void* mpool, void* vars, void* frm, int* clausef
     if (wg_islogconnective(db,op)) {
       if (!(wg_islogor(db,op) || wg_islogneg(db,op))) *clauseflag=0;
       termpart=wg_rest(db,frm);
+      if (wg_islogneg(db,op) && termpart!=NULL) {
+        // only a negated atom is a literal of a clause
+        term=wg_first(db,termpart);
+        while (term!=NULL && wg_ispair(db,term) && wg_ispair(db,wg_first(db,term)) && wg_list_len(db,term)<2) {
+          term=wg_first(db,term);
+        }
+        if (term!=NULL && wg_ispair(db,term) && wg_islogconnective(db,wg_first(db,term))) *clauseflag=0;
+      }
     } else {
       termpart=wg_rest(db,frm); //frm;
     }  
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 3c40a5e..d11c5a8 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -867,6 +867,14 @@ void *wr_parse_freeoccs(glb* g, void* mpool, void* vars, void* frm, int* clausef
     if (wg_islogconnective(db,op)) {
       if (!(wg_islogor(db,op) || wg_islogneg(db,op))) *clauseflag=0;
       termpart=wg_rest(db,frm);
+      if (wg_islogneg(db,op) && termpart!=NULL) {
+        // only a negated atom is a literal of a clause
+        term=wg_first(db,termpart);
+        while (term!=NULL && wg_ispair(db,term) && wg_ispair(db,wg_first(db,term)) && wg_list_len(db,term)<2) {
+          term=wg_first(db,term);
+        }
+        if (term!=NULL && wg_ispair(db,term) && wg_islogconnective(db,wg_first(db,term))) *clauseflag=0;
+      }
     } else {
       termpart=wg_rest(db,frm); //frm;
     }  
-- 
2.43.0


From 6471a084eb53eb1aa35ec1727a034cc0c49a056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:32 +0000
Subject: [PATCH 34/43] fix: -convert crashed on the distinct symbol "" with
 -json and printed it as a blank with -tptp

---
 Printer/dbotterprint.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index aceb04b..b3a45ff 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -1529,6 +1529,7 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
   } else if (wg_isatom(db,ptr)) {
     type=wg_atomtype(db,ptr);    
     p=wg_atomstr1(db,ptr);   
+    if (p==NULL && type==WG_URITYPE) p=""; // distinct symbol ""
     //p2=wg_atomstr2(db,ptr); 
     if (!wg_str_guarantee_space(db,buf,len,pos+1000)) return -1; 
     switch (type) {
@@ -1804,6 +1805,7 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
   } else if (wg_isatom(db,ptr)) {
     type=wg_atomtype(db,ptr);    
     p=wg_atomstr1(db,ptr);        
+    if (p==NULL && type==WG_URITYPE) p=""; // distinct symbol ""
     switch (type) {    
       case WG_INTTYPE: pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p); break;
       case WG_DOUBLETYPE: pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p); break;
@@ -2156,6 +2158,7 @@ int wg_print_subfrm_json(void* db, void* mpool, void* ptr,int depth,int pflag,
   } else if (wg_isatom(db,ptr)) {
     type=wg_atomtype(db,ptr); 
     p=wg_atomstr1(db,ptr); 
+    if (p==NULL && type==WG_URITYPE) p=""; // distinct symbol ""
     //p2=wg_atomstr2(db,ptr);  
     if (!wg_str_guarantee_space(db,buf,len,pos+6*strlen(p)+1000)) return -1; 
     switch (type) {
-- 
2.43.0


From 8f260613584dd88b0fa767ffe9a3001c22a18ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:32 +0000
Subject: [PATCH 35/43] fix: lists with an undecided element and different
 later elements were not found unequal

---
 Reasoner/build.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 453a87b..c65bd3b 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1195,7 +1195,7 @@ gint wr_compute_fun_equal_terms(glb* g, gint a, gint b, gptr tptr) {
   if (btype==WG_VARTYPE) return encode_record(db,tptr);
   // here we have not equal a and b with non-var types
 #ifdef LISTPROCESSING
-  gint tmp, ael, bel;
+  gint tmp, tmp2, ael, bel;
   gptr aptr, bptr;  
   aptr=rotp(g,a);
   bptr=rotp(g,b);
@@ -1228,13 +1228,13 @@ gint wr_compute_fun_equal_terms(glb* g, gint a, gint b, gptr tptr) {
     bel=wg_get_field(db,bptr,2);    
     tmp=wr_compute_fun_equal_terms(g,ael,bel,tptr);
     if (tmp==ACONST_FALSE) return ACONST_FALSE;
-    if (tmp!=ACONST_TRUE) return tmp;
+    // an undecided first element: the lists still differ if the rests differ
     ael=wg_get_field(db,aptr,3);
     bel=wg_get_field(db,bptr,3);     
-    tmp=wr_compute_fun_equal_terms(g,ael,bel,tptr);
-    if (tmp==ACONST_FALSE) return ACONST_FALSE;
+    tmp2=wr_compute_fun_equal_terms(g,ael,bel,tptr);
+    if (tmp2==ACONST_FALSE) return ACONST_FALSE;
     if (tmp!=ACONST_TRUE) return tmp;
-    return ACONST_TRUE;
+    return tmp2;
   } else if (atype==WG_URITYPE && btype==WG_URITYPE &&
             (wr_uri_is_unique(g,a) || wr_uri_is_list(g,a)) && 
             (wr_uri_is_unique(g,b) || wr_uri_is_list(g,b)) ) { 
-- 
2.43.0


From 545c3865478b3c9838935264fba3b25a545a8577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:43 +0000
Subject: [PATCH 36/43] fix: list terms in formulas: nested ones stopped
 clausification, a variable first in a list was not bound, -convert printed
 $$lst

---
 Builtparser/dbparse.c | 20 ++++++++++----------
 Parser/dbparse.c      | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index d11c5a8..48cd67d 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -419,6 +419,8 @@ void* wr_preprocess_clauselist
     }  
 */    
 #endif 
+    // list terms as $list terms before any processing of formulas
+    wg_expand_frm_for_print(db,mpool,cl);
     if (wr_is_tptp_import_clause(db,cl)) {
       // tptp import clause 
       wr_process_tptp_import_clause(g,mpool,cl);
@@ -753,16 +755,14 @@ void wg_expand_frm_for_print(void* db, void* mpool, void* frm) {
   for(part=frm; part!=NULL; part=wg_rest(db,part)) {
     term=wg_first(db,part);
     if (wg_ispair(db,term) && wg_isatom(db,wg_first(db,term)) &&
-       wg_atomstr1(db,wg_first(db,term)) ) {
-       
-      if (!strcmp("$$lst",wg_atomstr1(db,wg_first(db,term)))) {
-        if (!wg_ispair(db,wg_rest(db,term))) {
-          expanded=wg_mkatom(db,mpool,WG_URITYPE,"$nil",NULL);
-        } else {  
-          expanded=wg_expand_frm_for_print_aux(db,mpool,wg_first(db,wg_rest(db,term)));
-        }
-        *((gint*)part)=(gint)expanded;
+        wg_atomstr1(db,wg_first(db,term)) &&
+        !strcmp("$$lst",wg_atomstr1(db,wg_first(db,term)))) {
+      if (!wg_ispair(db,wg_rest(db,term))) {
+        expanded=wg_mkatom(db,mpool,WG_URITYPE,"$nil",NULL);
+      } else {  
+        expanded=wg_expand_frm_for_print_aux(db,mpool,wg_first(db,wg_rest(db,term)));
       }
+      *((gint*)part)=(gint)expanded;
     } else {
       wg_expand_frm_for_print(db,mpool,term);
     }  
@@ -795,9 +795,9 @@ void* wg_expand_frm_for_print_aux(void* db, void* mpool, void* cl) {
     }     
   } 
   term=NULL;
+  wg_expand_frm_for_print(db,mpool,cl); 
   termpart=wg_inplace_reverselist(db,mpool,cl);  
   for(;wg_ispair(db,termpart);termpart=wg_rest(db,termpart)) {        
-    wg_expand_frm_for_print(db,mpool,termpart); 
     term=wg_first(db,termpart);     
     res=wg_mklist3(db,mpool,fun,term,res);
     if (!res) return NULL;
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index d11c5a8..48cd67d 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -419,6 +419,8 @@ void* wr_preprocess_clauselist
     }  
 */    
 #endif 
+    // list terms as $list terms before any processing of formulas
+    wg_expand_frm_for_print(db,mpool,cl);
     if (wr_is_tptp_import_clause(db,cl)) {
       // tptp import clause 
       wr_process_tptp_import_clause(g,mpool,cl);
@@ -753,16 +755,14 @@ void wg_expand_frm_for_print(void* db, void* mpool, void* frm) {
   for(part=frm; part!=NULL; part=wg_rest(db,part)) {
     term=wg_first(db,part);
     if (wg_ispair(db,term) && wg_isatom(db,wg_first(db,term)) &&
-       wg_atomstr1(db,wg_first(db,term)) ) {
-       
-      if (!strcmp("$$lst",wg_atomstr1(db,wg_first(db,term)))) {
-        if (!wg_ispair(db,wg_rest(db,term))) {
-          expanded=wg_mkatom(db,mpool,WG_URITYPE,"$nil",NULL);
-        } else {  
-          expanded=wg_expand_frm_for_print_aux(db,mpool,wg_first(db,wg_rest(db,term)));
-        }
-        *((gint*)part)=(gint)expanded;
+        wg_atomstr1(db,wg_first(db,term)) &&
+        !strcmp("$$lst",wg_atomstr1(db,wg_first(db,term)))) {
+      if (!wg_ispair(db,wg_rest(db,term))) {
+        expanded=wg_mkatom(db,mpool,WG_URITYPE,"$nil",NULL);
+      } else {  
+        expanded=wg_expand_frm_for_print_aux(db,mpool,wg_first(db,wg_rest(db,term)));
       }
+      *((gint*)part)=(gint)expanded;
     } else {
       wg_expand_frm_for_print(db,mpool,term);
     }  
@@ -795,9 +795,9 @@ void* wg_expand_frm_for_print_aux(void* db, void* mpool, void* cl) {
     }     
   } 
   term=NULL;
+  wg_expand_frm_for_print(db,mpool,cl); 
   termpart=wg_inplace_reverselist(db,mpool,cl);  
   for(;wg_ispair(db,termpart);termpart=wg_rest(db,termpart)) {        
-    wg_expand_frm_for_print(db,mpool,termpart); 
     term=wg_first(db,termpart);     
     res=wg_mklist3(db,mpool,fun,term,res);
     if (!res) return NULL;
-- 
2.43.0


From 381904224164f28c977f55aef16e65841970d73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:43 +0000
Subject: [PATCH 37/43] fix: the distinct symbol "" in a formula with variables
 crashed clausification

---
 Builtparser/dbclausify.c | 2 ++
 Parser/dbclausify.c      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Builtparser/dbclausify.c b/Builtparser/dbclausify.c
index 66d71ad..6e2409e 100644
--- a/Builtparser/dbclausify.c
+++ b/Builtparser/dbclausify.c
@@ -566,6 +566,7 @@ int wr_freeoccs_invars(glb* g, void* mpool, void* vars, void* frm) {
   if (vars==NULL) return 0;
   db=g->db;
   str=wg_atomstr1(db,frm);
+  if (str==NULL) return 0; // the distinct symbol ""
   for(boundpart=vars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
     boundvar=wg_first(db,boundpart); 
     if (!strcmp(str,wg_atomstr1(db,boundvar))) {
@@ -1608,6 +1609,7 @@ int wr_is_logconst(glb* g, void* arg) {
   */
   if (!wg_isatom(db,arg)) return 0;
   if (wg_atomtype(db,arg)!=WG_URITYPE) return 0;
+  if (wg_atomstr1(db,arg)==NULL) return 0; // the distinct symbol ""
   if (!strcmp(wg_atomstr1(db,arg),"$true")) return 1;
   if (!strcmp(wg_atomstr1(db,arg),"$false")) return -1;
   return 0;    
diff --git a/Parser/dbclausify.c b/Parser/dbclausify.c
index 66d71ad..6e2409e 100644
--- a/Parser/dbclausify.c
+++ b/Parser/dbclausify.c
@@ -566,6 +566,7 @@ int wr_freeoccs_invars(glb* g, void* mpool, void* vars, void* frm) {
   if (vars==NULL) return 0;
   db=g->db;
   str=wg_atomstr1(db,frm);
+  if (str==NULL) return 0; // the distinct symbol ""
   for(boundpart=vars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
     boundvar=wg_first(db,boundpart); 
     if (!strcmp(str,wg_atomstr1(db,boundvar))) {
@@ -1608,6 +1609,7 @@ int wr_is_logconst(glb* g, void* arg) {
   */
   if (!wg_isatom(db,arg)) return 0;
   if (wg_atomtype(db,arg)!=WG_URITYPE) return 0;
+  if (wg_atomstr1(db,arg)==NULL) return 0; // the distinct symbol ""
   if (!strcmp(wg_atomstr1(db,arg),"$true")) return 1;
   if (!strcmp(wg_atomstr1(db,arg),"$false")) return -1;
   return 0;    
-- 
2.43.0


From 3bb431e0152200ea453d2d6363ed77e0cde2e96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:12 +0000
Subject: [PATCH 38/43] fix: occurrences of the distinct symbol "" were
 different symbols

---
 Builtparser/dbparse.c | 1 +
 Parser/dbparse.c      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 48cd67d..0b86caf 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1743,6 +1743,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
         break; 
       case WG_URITYPE: 
         str2=wg_atomstr2(db,atomptr);
+        if (!str1 && str2) str1=""; // the distinct symbol "": one string for all occurrences
         if (!pos || !str1 || str2) {         
           ret=wg_encode_uri(db,str1,str2); 
         } else if ((g->parse_caps_as_var && isupper((unsigned char)(str1[0]))) ||
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 48cd67d..0b86caf 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1743,6 +1743,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
         break; 
       case WG_URITYPE: 
         str2=wg_atomstr2(db,atomptr);
+        if (!str1 && str2) str1=""; // the distinct symbol "": one string for all occurrences
         if (!pos || !str1 || str2) {         
           ret=wg_encode_uri(db,str1,str2); 
         } else if ((g->parse_caps_as_var && isupper((unsigned char)(str1[0]))) ||
-- 
2.43.0


From b43d104cdf1e06626beada47a828bc3d4db71eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:53 +0000
Subject: [PATCH 39/43] fix: the distinct symbols "+", "-", "*", "/" and "<"
 were printed as arithmetic functions

---
 Printer/dbotterprint.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index b3a45ff..5f1f695 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -785,7 +785,8 @@ int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len
     } else {  
       if (//(g->print_clauses_tptp) && 
           wg_get_encoded_type(db,enc)==WG_URITYPE &&
-          wg_decode_str(db,enc) && strlen(wg_decode_str(db,enc))==1) {
+          wg_decode_str(db,enc) && strlen(wg_decode_str(db,enc))==1 &&
+          wg_decode_uri_prefix(db,enc)==NULL) { // a distinct symbol is no operator
         if (!strcmp(wg_decode_str(db,enc),"+")) {
           pos+=snprintf((*buf)+pos,(*len)-pos,"%s$sum%s",jq,jq);
         } else if (!strcmp(wg_decode_str(db,enc),"*")) {
-- 
2.43.0


From a9fc1e9f879c7ab0e9d43c6f6965499eb8680f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:37 +0000
Subject: [PATCH 40/43] fix: a distinct symbol with the name of a bound
 variable ("X") stopped clausification

---
 Builtparser/dbclausify.c | 2 +-
 Parser/dbclausify.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Builtparser/dbclausify.c b/Builtparser/dbclausify.c
index 6e2409e..8437eb6 100644
--- a/Builtparser/dbclausify.c
+++ b/Builtparser/dbclausify.c
@@ -566,7 +566,7 @@ int wr_freeoccs_invars(glb* g, void* mpool, void* vars, void* frm) {
   if (vars==NULL) return 0;
   db=g->db;
   str=wg_atomstr1(db,frm);
-  if (str==NULL) return 0; // the distinct symbol ""
+  if (str==NULL || wg_atomstr2(db,frm)!=NULL) return 0; // a distinct symbol is no variable
   for(boundpart=vars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
     boundvar=wg_first(db,boundpart); 
     if (!strcmp(str,wg_atomstr1(db,boundvar))) {
diff --git a/Parser/dbclausify.c b/Parser/dbclausify.c
index 6e2409e..8437eb6 100644
--- a/Parser/dbclausify.c
+++ b/Parser/dbclausify.c
@@ -566,7 +566,7 @@ int wr_freeoccs_invars(glb* g, void* mpool, void* vars, void* frm) {
   if (vars==NULL) return 0;
   db=g->db;
   str=wg_atomstr1(db,frm);
-  if (str==NULL) return 0; // the distinct symbol ""
+  if (str==NULL || wg_atomstr2(db,frm)!=NULL) return 0; // a distinct symbol is no variable
   for(boundpart=vars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
     boundvar=wg_first(db,boundpart); 
     if (!strcmp(str,wg_atomstr1(db,boundvar))) {
-- 
2.43.0


From f72f3cbf3f620e92e4cc5bdc234564cd2846da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:56 +0000
Subject: [PATCH 41/43] fix: -json output of merge and instantiation steps
 lacked a comma (invalid JSON)

---
 Reasoner/history.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 53afe09..29d41fc 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -2166,7 +2166,11 @@ int wr_strprint_one_history
       bpos=wr_strprint_history_extra(g,buf,blen,bpos,history);
       if (bpos<0) return bpos;
     } else {
-      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");  
+      if (g->print_json) {
+        bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"], ");
+      } else {
+        bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");
+      }
     } 
     bpos=wr_strprint_clause(g,cl,buf,blen,bpos);        
     if (bpos<0) return bpos;
@@ -2205,7 +2209,11 @@ int wr_strprint_one_history
       bpos=wr_strprint_history_extra(g,buf,blen,bpos,history);
       if (bpos<0) return bpos;
     } else {
-      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");  
+      if (g->print_json) {
+        bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"], ");
+      } else {
+        bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");
+      }
     } 
     bpos=wr_strprint_clause(g,cl,buf,blen,bpos);        
     if (bpos<0) return bpos;
-- 
2.43.0


From f226468f73979c4e0337ec22a5c78c4691500bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:54 +0000
Subject: [PATCH 42/43] fix: propositional clauses lacked the opening bracket
 in -json proofs

---
 Printer/dbotterprint.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 5f1f695..3dc710c 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -658,6 +658,9 @@ int wr_strprint_prop_clause_otter(glb* g, gint* rec,int printlevel, char** buf,
     }
   } 
   clen = wg_count_prop_clause_atoms(db, rec);
+  if (g->print_clauses_json) {    
+    pos+=snprintf((*buf)+pos,(*len)-pos,"[");
+  }
   for(i=0; i<clen; i++) {
     if (!wr_str_guarantee_space(g,buf,len,pos+20)) return -1;
     if (i>0 && i<clen) {      
-- 
2.43.0


From df9650d4a00873e603bda6373758bacd968c3af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:42 +0000
Subject: [PATCH 43/43] fix: -writekb crashed taking a lock in the read-only
 attached kb

---
 Main/gkc.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/Main/gkc.c b/Main/gkc.c
index b33b20c..4473d03 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -730,7 +730,6 @@ int gkc_main(int argc, char **argv) {
 
   if (!(strncmp(cmdstr,"-writekb",15))) {
      wg_int err;
-     int flags = 0;
 
     if (cmdfileslen<2) {
       err_printf(json,"-writekb needs a file as an argument");
@@ -742,11 +741,9 @@ int gkc_main(int argc, char **argv) {
       return(1);
     }
 
-    /* Locking is handled internally by the dbdump.c functions */
-    if(flags & FLAGS_FORCE)
-      err = wg_dump_internal(shmptr,cmdfiles[1], 0);
-    else
-      err = wg_dump(shmptr,cmdfiles[1]);
+    /* An existing kb is attached read-only: no lock can be taken in it,
+       and none is needed, since no process can change it */
+    err = wg_dump_internal(shmptr,cmdfiles[1], 0);
 
     if(err<-1) {
       err_printf(json,"cannot write to file, kb may have"\
-- 
2.43.0

