From 0c5508b1d2a605f33b884451318b5ca4db8b64e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:43 +0000
Subject: [PATCH 01/39] fix: clean up the placeholder record when an insert or
 upsert aborts on phantom avoidance

The new record was put into the index but not into the write set when the
node set check failed, so the abort never released it. The key then stayed
in the inserting state and every later reader got WARN_CONCURRENT_INSERT.
---
 src/concurrency_control/interface/insert.cpp | 3 ++-
 src/concurrency_control/interface/upsert.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/insert.cpp b/src/concurrency_control/interface/insert.cpp
index 719fc38..dc3d86a 100644
--- a/src/concurrency_control/interface/insert.cpp
+++ b/src/concurrency_control/interface/insert.cpp
@@ -41,6 +41,8 @@ static inline Status insert_process(session* const ti, Storage st,
     yakushima::inserted_node_info ii{};
     if (yakushima::status::OK ==
         put<Record>(ti->get_yakushima_token(), st, key, rec_ptr, ii)) {
+        // register it first so that the abort below cleans up the placeholder
+        ti->push_to_write_set({st, OP_TYPE::INSERT, rec_ptr, val, true, std::move(lobs)});
         if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
             // detail info
             if (logging::get_enable_logging_detail_info()) {
@@ -67,7 +69,6 @@ static inline Status insert_process(session* const ti, Storage st,
                 ti->push_to_read_set_for_stx({st, rec_ptr, tid});
             }
         }
-        ti->push_to_write_set({st, OP_TYPE::INSERT, rec_ptr, val, true, std::move(lobs)});
         out_rec_ptr = rec_ptr;
         return Status::OK;
     }
diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index ca86e04..9358f5c 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -42,6 +42,8 @@ static inline Status insert_process(session* const ti, Storage st,
     // create tombstone
     if (yakushima::status::OK ==
         put<Record>(ti->get_yakushima_token(), st, key, rec_ptr, ii)) {
+        // register it first so that the abort below cleans up the placeholder
+        ti->push_to_write_set({st, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
         if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
             // detail info
             if (logging::get_enable_logging_detail_info()) {
@@ -68,7 +70,6 @@ static inline Status insert_process(session* const ti, Storage st,
                 ti->push_to_read_set_for_stx({st, rec_ptr, tid});
             }
         }
-        ti->push_to_write_set({st, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
         return Status::OK;
     }
     // fail insert rec_ptr
-- 
2.43.0


From ddd61f513c3b72a9c35b56201e4ab5a0c8748aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:44 +0000
Subject: [PATCH 02/39] fix: protect the not-found answer of update and delete
 in short transactions

An update or delete that answers WARN_NOT_FOUND observed that the key is
absent. The observation was not registered, so the transaction could commit
although another transaction had inserted the key.
---
 src/concurrency_control/interface/delete.cpp | 79 ++++++++++++--------
 src/concurrency_control/interface/update.cpp | 71 +++++++++++-------
 2 files changed, 92 insertions(+), 58 deletions(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index 783e75e..0b75cd2 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -8,6 +8,7 @@
 #include "concurrency_control/include/wp.h"
 #include "concurrency_control/interface/include/helper.h"
 #include "concurrency_control/interface/long_tx/include/long_tx.h"
+#include "concurrency_control/interface/short_tx/include/short_tx.h"
 #include "database/include/logging.h"
 #include "index/yakushima/include/interface.h"
 
@@ -92,9 +93,24 @@ static inline Status process_after_write(session* ti, write_set_obj* wso) {
     return Status::ERR_FATAL;
 }
 
-static void process_before_return_not_found(session* const ti,
-                                            Storage const storage,
-                                            std::string_view const key) {
+/**
+ * @brief register the observation that the key does not exist.
+ * @return Status::OK the key appeared meanwhile, retry from index access.
+ * @return Status::WARN_NOT_FOUND the observation was registered.
+ * @return Status::ERR_CC the transaction was aborted.
+ */
+static Status process_before_return_not_found(session* const ti,
+                                              Storage const storage,
+                                              std::string_view const key) {
+    if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
+        std::string dummy{};
+        auto rc = short_tx::search_key(ti, storage, key, dummy, false);
+        if (rc == Status::WARN_CONCURRENT_UPDATE) { return Status::OK; }
+        if (rc == Status::WARN_CONCURRENT_INSERT) {
+            return Status::WARN_NOT_FOUND;
+        }
+        return rc;
+    }
     if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
         /**
          * Normally, read information is stored at page, but the page is not
@@ -109,7 +125,7 @@ static void process_before_return_not_found(session* const ti,
                        << "unexpected error. library programming error or "
                           "usage error (mixed ddl and dml?)"
                        << " rc:" << rc;
-            return;
+            return Status::WARN_NOT_FOUND;
         }
         // get range read  by info
         range_read_by_long* rrbp{psm->get_range_read_by_long_ptr()};
@@ -117,6 +133,7 @@ static void process_before_return_not_found(session* const ti,
                 rrbp, std::string(key), scan_endpoint::INCLUSIVE,
                 std::string(key), scan_endpoint::INCLUSIVE));
     }
+    return Status::WARN_NOT_FOUND;
 }
 
 static Status delete_record_body(Token token, Storage storage,
@@ -135,34 +152,36 @@ static Status delete_record_body(Token token, Storage storage,
     auto rc{check_before_write_ops(ti, storage, key, OP_TYPE::DELETE)};
     if (rc != Status::OK) { return rc; }
 
-    // index access to check local write set
-    Record* rec_ptr{};
-    rc = get<Record>(storage, key, rec_ptr);
-    if (Status::OK == rc) {
-        // check local write
-        write_set_obj* in_ws{ti->get_write_set().search(rec_ptr)}; // NOLINT
-        if (in_ws != nullptr) { return process_after_write(ti, in_ws); }
-        // check absent
-        tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
-        if (ctid.get_absent()) {
-            process_before_return_not_found(ti, storage, key);
-            return Status::WARN_NOT_FOUND;
+    for (;;) {
+        // index access to check local write set
+        Record* rec_ptr{};
+        rc = get<Record>(storage, key, rec_ptr);
+        if (Status::OK == rc) {
+            // check local write
+            write_set_obj* in_ws{ti->get_write_set().search(rec_ptr)}; // NOLINT
+            if (in_ws != nullptr) { return process_after_write(ti, in_ws); }
+            // check absent
+            tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
+            if (!ctid.get_absent()) {
+                // prepare write
+                ti->push_to_write_set({storage, OP_TYPE::DELETE, rec_ptr}); // NOLINT
+                register_read_if_ltx(ti, rec_ptr);
+                return Status::OK;
+            }
+            rc = Status::WARN_NOT_FOUND;
         }
-        // prepare write
-        ti->push_to_write_set({storage, OP_TYPE::DELETE, rec_ptr}); // NOLINT
-        register_read_if_ltx(ti, rec_ptr);
-        return Status::OK;
-    }
-    if (rc == Status::WARN_NOT_FOUND) {
-        process_before_return_not_found(ti, storage, key);
-        return Status::WARN_NOT_FOUND;
-    }
-    if (rc == Status::WARN_STORAGE_NOT_FOUND) {
-        return Status::WARN_STORAGE_NOT_FOUND;
+        if (rc == Status::WARN_NOT_FOUND) {
+            rc = process_before_return_not_found(ti, storage, key);
+            if (rc == Status::OK) { continue; }
+            return rc;
+        }
+        if (rc == Status::WARN_STORAGE_NOT_FOUND) {
+            return Status::WARN_STORAGE_NOT_FOUND;
+        }
+        LOG_FIRST_N(ERROR, 1) << log_location_prefix
+                              << "library programming error: " << rc;
+        return Status::ERR_FATAL;
     }
-    LOG_FIRST_N(ERROR, 1) << log_location_prefix
-                          << "library programming error: " << rc;
-    return Status::ERR_FATAL;
 }
 
 Status delete_record(Token token, Storage storage, const std::string_view key) {
diff --git a/src/concurrency_control/interface/update.cpp b/src/concurrency_control/interface/update.cpp
index cb4c6b7..6ed7c29 100644
--- a/src/concurrency_control/interface/update.cpp
+++ b/src/concurrency_control/interface/update.cpp
@@ -18,9 +18,24 @@ static void register_read_if_ltx(session* const ti, Record* const rec_ptr) {
     }
 }
 
-static void process_before_return_not_found(session* const ti,
-                                            Storage const storage,
-                                            std::string_view const key) {
+/**
+ * @brief register the observation that the key does not exist.
+ * @return Status::OK the key appeared meanwhile, retry from index access.
+ * @return Status::WARN_NOT_FOUND the observation was registered.
+ * @return Status::ERR_CC the transaction was aborted.
+ */
+static Status process_before_return_not_found(session* const ti,
+                                              Storage const storage,
+                                              std::string_view const key) {
+    if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
+        std::string dummy{};
+        auto rc = short_tx::search_key(ti, storage, key, dummy, false);
+        if (rc == Status::WARN_CONCURRENT_UPDATE) { return Status::OK; }
+        if (rc == Status::WARN_CONCURRENT_INSERT) {
+            return Status::WARN_NOT_FOUND;
+        }
+        return rc;
+    }
     if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
         /**
          * Normally, read information is stored at page, but the page is not
@@ -35,7 +50,7 @@ static void process_before_return_not_found(session* const ti,
                        << "library programming error or "
                           "usage error (mixed dml and ddl?)"
                        << " rc:" << rc;
-            return;
+            return Status::WARN_NOT_FOUND;
         }
         // get range read  by info
         range_read_by_long* rrbp{psm->get_range_read_by_long_ptr()};
@@ -43,6 +58,7 @@ static void process_before_return_not_found(session* const ti,
                 rrbp, std::string(key), scan_endpoint::INCLUSIVE,
                 std::string(key), scan_endpoint::INCLUSIVE));
     }
+    return Status::WARN_NOT_FOUND;
 }
 
 static Status update_body(
@@ -68,34 +84,33 @@ static Status update_body(
         lobs.assign(blobs_data, blobs_data + blobs_size); // NOLINT
     }
 
-    // index access to check local write set
-    Record* rec_ptr{};
-    if (Status::OK == get<Record>(storage, key, rec_ptr)) {
-        // check local write
-        write_set_obj* in_ws{ti->get_write_set().search(rec_ptr)}; // NOLINT
-        if (in_ws != nullptr) {
-            if (in_ws->get_op() == OP_TYPE::DELETE) {
-                return Status::WARN_NOT_FOUND;
+    for (;;) {
+        // index access to check local write set
+        Record* rec_ptr{};
+        if (Status::OK == get<Record>(storage, key, rec_ptr)) {
+            // check local write
+            write_set_obj* in_ws{ti->get_write_set().search(rec_ptr)}; // NOLINT
+            if (in_ws != nullptr) {
+                if (in_ws->get_op() == OP_TYPE::DELETE) {
+                    return Status::WARN_NOT_FOUND;
+                }
+                in_ws->set_val(val);
+                in_ws->set_lobs(std::move(lobs));
+                return Status::OK;
             }
-            in_ws->set_val(val);
-            in_ws->set_lobs(std::move(lobs));
-            return Status::OK;
-        }
 
-        // check absent
-        tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
-        if (ctid.get_absent()) {
-            process_before_return_not_found(ti, storage, key);
-            return Status::WARN_NOT_FOUND;
+            // check absent
+            tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
+            if (!ctid.get_absent()) {
+                // prepare write
+                ti->push_to_write_set({storage, OP_TYPE::UPDATE, rec_ptr, val, false, std::move(lobs)});
+                register_read_if_ltx(ti, rec_ptr);
+                return Status::OK;
+            }
         }
-
-        // prepare write
-        ti->push_to_write_set({storage, OP_TYPE::UPDATE, rec_ptr, val, false, std::move(lobs)});
-        register_read_if_ltx(ti, rec_ptr);
-        return Status::OK;
+        rc = process_before_return_not_found(ti, storage, key);
+        if (rc != Status::OK) { return rc; }
     }
-    process_before_return_not_found(ti, storage, key);
-    return Status::WARN_NOT_FOUND;
 }
 
 Status update(Token token, Storage storage,
-- 
2.43.0


From fa7220b3c68aac4f1d317474d9825a484eef165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:44 +0000
Subject: [PATCH 03/39] fix: keep a deleted version marked absent when a long
 transaction writes over it

Long transactions with an older snapshot saw the deleted key again, with an
empty value.
---
 src/concurrency_control/interface/long_tx/termination.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index a2bd6ce..524c925 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -172,8 +172,7 @@ static inline void expose_local_write(
                     if (wso.get_op() != OP_TYPE::DELETE) { wso.get_value(vb); }
                     version* new_v{new version( // NOLINT
                             vb, rec_ptr->get_latest())};
-                    // prepare tid for old version
-                    pre_tid.set_absent(false);
+                    // prepare tid for old version, a deleted one stays absent
                     pre_tid.set_latest(false);
                     pre_tid.set_lock(false);
                     // set old version tid
-- 
2.43.0


From ea7df01672a3e5111df9df0cfe6de6a8ca88b54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:44 +0000
Subject: [PATCH 04/39] fix: verify write preserves for range reads and for
 existence checks of writes at short commit

Storages where a short transaction only read a range or an absent key, and
storages where its insert, update or delete depends on the existence of the
key, were not checked against write preserves at commit.
---
 src/concurrency_control/include/session.h     | 15 ++++++++++++++-
 .../interface/scan/open_scan.cpp              |  2 +-
 .../interface/short_tx/search.cpp             |  2 +-
 .../interface/short_tx/termination.cpp        | 19 +++++++++++++++++++
 4 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 4bc46ed..9991eb5 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -300,6 +300,10 @@ public:
         return range_read_by_short_set_;
     }
 
+    std::set<Storage>& get_range_read_storages_for_stx() {
+        return range_read_storages_for_stx_;
+    }
+
     std::shared_mutex& get_mtx_read_area() { return mtx_read_area_; }
 
     [[nodiscard]] transaction_options::read_area get_read_area() {
@@ -439,13 +443,16 @@ public:
         std::lock_guard<std::shared_mutex> lk{
                 get_mtx_range_read_by_short_set()};
         get_range_read_by_short_set().clear();
+        range_read_storages_for_stx_.clear();
     }
 
-    void push_to_range_read_by_short_set(range_read_by_short* rrbs) {
+    void push_to_range_read_by_short_set(Storage st,
+                                         range_read_by_short* rrbs) {
         // take write lock
         std::lock_guard<std::shared_mutex> lk{
                 get_mtx_range_read_by_short_set()};
         get_range_read_by_short_set().insert(rrbs);
+        range_read_storages_for_stx_.insert(st);
     }
 
     void clear_read_set_for_stx() {
@@ -774,6 +781,12 @@ private:
 
     range_read_by_short_set_type range_read_by_short_set_{};
 
+    /**
+     * @brief storages where stx did range reads or observed absence. They need
+     * wp verify even if no record was read there.
+     */
+    std::set<Storage> range_read_storages_for_stx_{};
+
     std::shared_mutex mtx_read_area_{};
 
     /**
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 8f4363a..aacf923 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -273,7 +273,7 @@ static Status open_scan_precheck(
             return Status::ERR_FATAL;
         }
         range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
-        ti->push_to_range_read_by_short_set(rrbs);
+        ti->push_to_range_read_by_short_set(storage, rrbs);
     } else if (ti->get_tx_type() !=
                transaction_options::transaction_type::READ_ONLY) {
         LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
diff --git a/src/concurrency_control/interface/short_tx/search.cpp b/src/concurrency_control/interface/short_tx/search.cpp
index 04018d6..33829e3 100644
--- a/src/concurrency_control/interface/short_tx/search.cpp
+++ b/src/concurrency_control/interface/short_tx/search.cpp
@@ -63,7 +63,7 @@ Status search_key(session* ti, Storage const storage,
             return Status::ERR_FATAL;
         }
         range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
-        ti->push_to_range_read_by_short_set(rrbs);
+        ti->push_to_range_read_by_short_set(storage, rrbs);
         return rc;
     }
 
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index b033e04..b2ec021 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -266,6 +266,25 @@ static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
         commit_tid = std::max(check, commit_tid);
     }
 
+    // range read may leave no record in the read set
+    {
+        std::shared_lock<std::shared_mutex> lk{
+                ti->get_mtx_range_read_by_short_set()};
+        for (auto&& st : ti->get_range_read_storages_for_stx()) {
+            accessed_st.emplace_back(st);
+        }
+    }
+
+    // insert, update and delete observed whether the record exists
+    {
+        std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
+        for (auto&& wso : ti->get_write_set().get_ref_cont_for_occ()) {
+            if (wso.get_op() != OP_TYPE::UPSERT) {
+                accessed_st.emplace_back(wso.get_storage());
+            }
+        }
+    }
+
     // wp verify
     // reduce redundat
     std::sort(accessed_st.begin(), accessed_st.end());
-- 
2.43.0


From 34120bd9064e9b2bfe9f42c89940ee254658c974 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:39:26 +0000
Subject: [PATCH 05/39] fix: check all registered readers when a long
 transaction writes behind them

The point and range read-by lists were searched only up to the first entry of
lower priority, and a range reader of the same epoch was not counted. A
forwarded write could overwrite what a committed reader had seen.
---
 src/concurrency_control/read_by.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/concurrency_control/read_by.cpp b/src/concurrency_control/read_by.cpp
index ddac1f5..c20f7d7 100644
--- a/src/concurrency_control/read_by.cpp
+++ b/src/concurrency_control/read_by.cpp
@@ -25,10 +25,9 @@ bool point_read_by_long::is_exist(Token token) {
         } else if (elem.second == ltx_id) {
             LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
             return true;
-        } else {
-            // elem is low priori than this.
-            break;
         }
+        // else, elem is low priori than this. elements are in commit order, so
+        // high priori elements may follow.
     }
 
     return false;
@@ -89,7 +88,7 @@ bool range_read_by_long::is_exist(epoch::epoch_t const ep,
     for (auto&& elem : body_) {
         if (ltx_id > std::get<range_read_by_long::index_tx_id>(elem)) {
             // check against higher priori ltxs
-            if (std::get<range_read_by_long::index_epoch>(elem) == ep) {
+            if (std::get<range_read_by_long::index_epoch>(elem) >= ep) {
                 // check the key is right from left point
                 if (std::get<range_read_by_long::index_l_ep>(elem) ==
                             scan_endpoint::INF || // inf
@@ -113,10 +112,6 @@ bool range_read_by_long::is_exist(epoch::epoch_t const ep,
                     }
                 }
             }
-            if (std::get<range_read_by_long::index_epoch>(elem) > ep) {
-                // no more due to invariant
-                break;
-            }
         }
     }
 
-- 
2.43.0


From 6bd25b3d1e135de8fe29146257feb262a62ae190 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:39:26 +0000
Subject: [PATCH 06/39] fix: keep the read range of a long transaction covering
 every key it read

A point read left of a range that had only its left end recorded did not set
the right end, so the overlap test with an overtaken transaction missed it.
Range reads also missed overtaken transactions which had already committed.
---
 .../interface/long_tx/helper.cpp                    | 13 ++++---------
 src/concurrency_control/wp.cpp                      |  3 ++-
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index 7eb5ea8..1e024d6 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -241,15 +241,9 @@ void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr,
 }
 
 void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr) {
+    // the high priority ltx may be already committed, so check wp result too
     auto wps = wp_meta_ptr->get_wped();
-    if (!wp::wp_meta::empty(wps)) {
-        // exist wp
-        auto ep_id{wp::wp_meta::find_min_ep_id(wps)};
-        if (ep_id.second < ti->get_long_tx_id()) {
-            // the wp is higher priority long tx than this.
-            wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
-        }
-    }
+    wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
 }
 
 void update_local_read_range(session* ti, wp::wp_meta* wp_meta_ptr,
@@ -272,7 +266,8 @@ void update_local_read_range(session* ti, wp::wp_meta* wp_meta_ptr,
                 std::get<1>(read_range) = scan_endpoint::INCLUSIVE;
             }
             std::get<0>(read_range) = key;
-        } else if (key > std::get<2>(read_range)) {
+        }
+        if (key > std::get<2>(read_range)) {
             if (std::get<3>(read_range) == scan_endpoint::EXCLUSIVE) {
                 std::get<3>(read_range) = scan_endpoint::INCLUSIVE;
             }
diff --git a/src/concurrency_control/wp.cpp b/src/concurrency_control/wp.cpp
index 37c8c05..fb655b7 100644
--- a/src/concurrency_control/wp.cpp
+++ b/src/concurrency_control/wp.cpp
@@ -47,7 +47,8 @@ void extract_higher_priori_ltx_info(session* const ti,
             // already initialize, update read range
             if (key < std::get<0>(read_range)) {
                 std::get<0>(read_range) = key;
-            } else if (key > std::get<2>(read_range)) {
+            }
+            if (key > std::get<2>(read_range)) {
                 std::get<2>(read_range) = key;
             }
         }
-- 
2.43.0


From db474d3d1f9f7e3c2186d0a541e4ab884b9981d5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:39:26 +0000
Subject: [PATCH 07/39] fix: protect everything a scan observed, not only the
 returned records

Nodes of skipped tombstones and of own writes are verified at commit. Deleted
versions skipped by a long transaction count for its read upper bound. An own
write at the head of the range no longer makes the scan look empty.
---
 src/concurrency_control/include/local_set.h   | 14 ++++++
 .../interface/scan/next.cpp                   | 16 +++++-
 .../interface/scan/open_scan.cpp              | 49 ++++++++++++++-----
 .../interface/scan/read_kv_from_scan.cpp      | 24 +++++----
 4 files changed, 79 insertions(+), 24 deletions(-)

diff --git a/src/concurrency_control/include/local_set.h b/src/concurrency_control/include/local_set.h
index 4f166af..c74b8f6 100644
--- a/src/concurrency_control/include/local_set.h
+++ b/src/concurrency_control/include/local_set.h
@@ -396,6 +396,20 @@ public:
         return Status::OK;
     }
 
+    /**
+     * @brief register the node even if it looks like phantom.
+     * @details This is for the caller which can't abort the transaction here.
+     * If it is phantom, node verify at commit fails.
+     */
+    void emplace_back_without_abort(
+            std::pair<yakushima::node_version64_body,
+                      yakushima::node_version64*> const& elem) {
+        if (emplace_back(elem) == Status::ERR_CC) {
+            std::lock_guard<std::shared_mutex> lk{get_mtx_set()};
+            get_set().emplace_back(elem);
+        }
+    }
+
     Status update_node_set(const yakushima::inserted_node_info& ii) {
         yakushima::node_version64_body modified_nvb{};
         Status check_node_set_res = update_node_set(ii.modified_nvp, modified_nvb);
diff --git a/src/concurrency_control/interface/scan/next.cpp b/src/concurrency_control/interface/scan/next.cpp
index 66b17ff..3aaea7c 100644
--- a/src/concurrency_control/interface/scan/next.cpp
+++ b/src/concurrency_control/interface/scan/next.cpp
@@ -57,7 +57,14 @@ static Status next_body(Token const token, ScanHandle const handle) { // NOLINT
 
         auto rc = next_check_not_found(ti, st, rec_ptr);
         if (rc == Status::OK) { break; }
-        if (rc == Status::INTERNAL_WARN_NOT_FOUND) { continue; }
+        if (rc == Status::INTERNAL_WARN_NOT_FOUND) {
+            if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
+                // the skipped node was scanned too, so it must be verified.
+                ti->get_node_set().emplace_back_without_abort(
+                        {std::get<1>(*itr), std::get<2>(*itr)});
+            }
+            continue;
+        }
         return rc;
     }
 
@@ -210,7 +217,12 @@ static Status next_check_not_found(session* ti, Storage st, Record* rec_ptr) {
         }
         if (ti->get_tx_type() == transaction_options::transaction_type::LONG ||
             ti->get_tx_type() == transaction_options::transaction_type::READ_ONLY) {
-            if (tid.get_epoch() >= ti->get_valid_epoch()) {
+            if (tid.get_epoch() < ti->get_valid_epoch()) {
+                // this tx reads that the record was deleted
+                if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+                    ti->set_read_version_max_epoch_if_need(tid.get_epoch());
+                }
+            } else {
                 // there may be readable rec
                 version* ver = rec_ptr->get_latest();
                 for (;;) {
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index aacf923..d725aeb 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -68,6 +68,21 @@ static Status fin_process(session* const ti, Status const this_result) {
 }
 
 static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
+    if (ti->get_tx_type() != transaction_options::transaction_type::READ_ONLY) {
+        // check read own write
+        write_set_obj* inws = ti->get_write_set().search(rec_ptr);
+        if (inws != nullptr && inws->get_op() != OP_TYPE::DELETE) {
+            return Status::OK;
+        }
+    }
+
+    // the skipped version is read too
+    auto read_deleted_version = [ti](tid_word const& read_tid) {
+        if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+            ti->set_read_version_max_epoch_if_need(read_tid.get_epoch());
+        }
+    };
+
     tid_word tid{loadAcquire(rec_ptr->get_tidw().get_obj())};
     if (!tid.get_absent()) {
         // normal page.
@@ -85,7 +100,10 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
                 ver = ver->get_next();
                 if (ver == nullptr) { break; }
                 if (ver->get_tid().get_epoch() < ti->get_valid_epoch()) {
-                    if (ver->get_tid().get_absent()) { break; }
+                    if (ver->get_tid().get_absent()) {
+                        read_deleted_version(ver->get_tid());
+                        break;
+                    }
                     return Status::OK;
                 }
             }
@@ -100,15 +118,6 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
             return Status::OK;
         }
 
-        // check read own write
-        write_set_obj* inws = ti->get_write_set().search(rec_ptr);
-        if (inws != nullptr) {
-            if (inws->get_op() == OP_TYPE::INSERT ||
-                inws->get_op() == OP_TYPE::UPSERT) {
-                return Status::OK;
-            }
-        }
-
         /**
          * first version must be inserting page or deleted page
          */
@@ -117,7 +126,10 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
             ver = ver->get_next();
             if (ver == nullptr) { break; }
             if (ver->get_tid().get_epoch() < ti->get_valid_epoch()) {
-                if (ver->get_tid().get_absent()) { break; }
+                if (ver->get_tid().get_absent()) {
+                    read_deleted_version(ver->get_tid());
+                    break;
+                }
                 return Status::OK;
             }
         }
@@ -131,7 +143,10 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
         }
         if (ti->get_tx_type() == transaction_options::transaction_type::LONG ||
             ti->get_tx_type() == transaction_options::transaction_type::READ_ONLY) {
-            if (tid.get_epoch() >= ti->get_valid_epoch()) {
+            if (tid.get_epoch() < ti->get_valid_epoch()) {
+                // this tx reads that the record was deleted
+                read_deleted_version(tid);
+            } else {
                 // there may be readable rec
                 version* ver = rec_ptr->get_latest();
                 for (;;) {
@@ -139,7 +154,10 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
                     if (ver == nullptr) { break; }
                     if (ver->get_tid().get_epoch() <
                         ti->get_valid_epoch()) {
-                        if (ver->get_tid().get_absent()) { break; }
+                        if (ver->get_tid().get_absent()) {
+                            read_deleted_version(ver->get_tid());
+                            break;
+                        }
                         return Status::OK;
                     }
                 }
@@ -387,6 +405,11 @@ static Status open_scan_body(
                 if (rc == Status::ERR_CC) { return rc; }
             }
         }
+        // the head skipped nodes were scanned too, so they must be verified.
+        for (std::size_t i = 0; i < head_skip_rec_n; ++i) {
+            ti->get_node_set().emplace_back_without_abort(
+                    nvec.at(i + nvec_delta));
+        }
     }
 
     // for hit, register left end point info as already read
diff --git a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
index 156fda2..5157a7c 100644
--- a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
+++ b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
@@ -89,6 +89,21 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
         long_tx::update_local_read_range(ti, wp_meta_ptr, key_buf);
     }
 
+    /**
+     * create node set info, maybe phantom (Status::ERR_CC). Scanning own write
+     * is range read too.
+     */
+    if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
+        auto rc = node_check();
+        if (rc == Status::ERR_CC) {
+            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+            ti->get_result_info().set_storage_name(st);
+            ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+            short_tx::abort(ti);
+            return Status::ERR_CC;
+        }
+    }
+
     /**
      * Check read-own-write
      */
@@ -128,15 +143,6 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
         // optimization: set for re-read
         ti->push_to_read_set_for_stx({st, rec_ptr, tidb});
 
-        // create node set info, maybe phantom (Status::ERR_CC)
-        auto rc = node_check();
-        if (rc == Status::ERR_CC) {
-            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
-            ti->get_result_info().set_storage_name(st);
-            ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
-            short_tx::abort(ti);
-            return Status::ERR_CC;
-        } // else: return result about read (rr: read result)
         return rr;
     }
     if (ti->get_tx_type() == transaction_options::transaction_type::LONG ||
-- 
2.43.0


From 7a3fe119000b4ce78b09e404ad4f415f9dca9b6d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:39:26 +0000
Subject: [PATCH 08/39] fix: verify existence and preserve checks of short
 transactions at commit

- registers the records whose existence was observed by insert, update, delete
- write preserve is verified before the read set
- the commit id always exceeds the id of an overwritten tombstone
- a record unhooked between write and commit is unlocked and reported
- the abort reason is stored before the write set is released
---
 .../interface/short_tx/termination.cpp        | 141 +++++++++++-------
 1 file changed, 88 insertions(+), 53 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index b2ec021..982944e 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -233,37 +233,11 @@ static Status wp_verify(Storage const st, epoch::epoch_t const commit_epoch) {
 
 static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
                              tid_word& commit_tid) {
-    tid_word check{};
+    // the wp of ltx is removed after its writes were exposed, so wp verify must
+    // precede read verify
     std::vector<Storage> accessed_st{};
-    // read verify
     for (auto&& itr : ti->get_read_set_for_stx()) {
-        auto* rec_ptr = itr.get_rec_ptr();
-        check.get_obj() = loadAcquire(rec_ptr->get_tidw_ref().get_obj());
-
-        while (check.get_lock_by_gc()) {
-            // gc takes locks equal or less than one lock.
-            _mm_pause();
-            check.get_obj() = loadAcquire(rec_ptr->get_tidw_ref().get_obj());
-        }
-
-        // verify
-        // ==============================
-        if (read_verify(ti, itr.get_tid(), check, rec_ptr, itr.get_storage()) != Status::OK) {
-            unlock_write_set(ti);
-            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
-            ti->get_result_info().set_key_storage_name(rec_ptr->get_key_view(),
-                                                       itr.get_storage());
-            ti->set_result(reason_code::CC_OCC_READ_VERIFY);
-            short_tx::abort(ti);
-            return Status::ERR_CC;
-        }
-        // ==============================
-
-        // log accessed storage
         accessed_st.emplace_back(itr.get_storage());
-
-        // compute timestamp
-        commit_tid = std::max(check, commit_tid);
     }
 
     // range read may leave no record in the read set
@@ -277,11 +251,17 @@ static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
 
     // insert, update and delete observed whether the record exists
     {
-        std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
-        for (auto&& wso : ti->get_write_set().get_ref_cont_for_occ()) {
+        auto process = [&accessed_st](write_set_obj const& wso) {
             if (wso.get_op() != OP_TYPE::UPSERT) {
                 accessed_st.emplace_back(wso.get_storage());
             }
+        };
+        std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
+        for (auto&& itr : ti->get_write_set().get_ref_cont_for_bt()) {
+            process(itr.second);
+        }
+        for (auto&& itr : ti->get_write_set().get_ref_cont_for_occ()) {
+            process(itr);
         }
     }
 
@@ -299,6 +279,35 @@ static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
         }
     }
 
+    tid_word check{};
+    // read verify
+    for (auto&& itr : ti->get_read_set_for_stx()) {
+        auto* rec_ptr = itr.get_rec_ptr();
+        check.get_obj() = loadAcquire(rec_ptr->get_tidw_ref().get_obj());
+
+        while (check.get_lock_by_gc()) {
+            // gc takes locks equal or less than one lock.
+            _mm_pause();
+            check.get_obj() = loadAcquire(rec_ptr->get_tidw_ref().get_obj());
+        }
+
+        // verify
+        // ==============================
+        if (read_verify(ti, itr.get_tid(), check, rec_ptr, itr.get_storage()) != Status::OK) {
+            unlock_write_set(ti);
+            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+            ti->get_result_info().set_key_storage_name(rec_ptr->get_key_view(),
+                                                       itr.get_storage());
+            ti->set_result(reason_code::CC_OCC_READ_VERIFY);
+            short_tx::abort(ti);
+            return Status::ERR_CC;
+        }
+        // ==============================
+
+        // compute timestamp
+        commit_tid = std::max(check, commit_tid);
+    }
+
     return Status::OK;
 }
 
@@ -349,8 +358,8 @@ static Status sert_process_at_write_lock(write_set_obj* wso) {
             }
         } else {
             // already unhooked
-            LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
-            return Status::ERR_CC; // for fail safe
+            wso->get_rec_ptr()->get_tidw_ref().unlock();
+            return Status::ERR_CC;
         }
 
         // locked and it is hooked yet
@@ -375,8 +384,8 @@ static Status sert_process_at_write_lock(write_set_obj* wso) {
 
         return Status::OK;
     }
-    LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
-    return Status::ERR_CC; // for fail safe
+    // the record which upsert saw was deleted by ltx and unhooked
+    return Status::ERR_CC;
 }
 
 static Status write_lock(session* ti, tid_word& commit_tid) {
@@ -394,11 +403,10 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
             wso_ptr->get_op() == OP_TYPE::UPSERT) {
             // about sert common process
             auto rc = sert_process_at_write_lock(wso_ptr);
-            ++num_locked;
-            /**
-             * NOTE: sert_process_at_write_lock must have locked the record
-             */
             if (rc == Status::OK) {
+                // sert_process_at_write_lock must have locked the record
+                ++num_locked;
+                rec_ptr = wso_ptr->get_rec_ptr();
                 // may change op type, so should do continue explicitly.
 
                 // about insert process
@@ -406,24 +414,31 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
                     tid_word tid{rec_ptr->get_tidw_ref()};
                     if (tid.get_latest() && !tid.get_absent()) {
                         // the record is existing record (not inserting, deleted)
+                        {
+                            std::unique_lock<std::mutex> lk{
+                                    ti->get_mtx_result_info()};
+                            ti->get_result_info().set_reason_code(
+                                    reason_code::KVS_INSERT);
+                            ti->get_result_info().set_key_storage_name(
+                                    rec_ptr->get_key_view(),
+                                    wso_ptr->get_storage());
+                        }
+                        // this releases the write set
                         abort_process();
-                        std::unique_lock<std::mutex> lk{
-                                ti->get_mtx_result_info()};
-                        ti->get_result_info().set_reason_code(
-                                reason_code::KVS_INSERT);
-                        ti->get_result_info().set_key_storage_name(
-                                rec_ptr->get_key_view(),
-                                wso_ptr->get_storage());
                         return Status::ERR_KVS;
                     }
                 }
-                // check Record version to update
-                if (!rec_ptr->get_tidw_ref().get_absent()) {
-                    commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
-                }
+                // check Record version to update, the version may be tombstone
+                commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
                 return Status::OK;
             }
             if (rc == Status::ERR_CC) {
+                {
+                    std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+                    ti->set_result(reason_code::CC_OCC_WP_VERIFY);
+                    ti->get_result_info().set_key_storage_name(
+                            rec_ptr->get_key_view(), wso_ptr->get_storage());
+                }
                 abort_process();
                 return Status::ERR_CC;
             }
@@ -449,15 +464,18 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
             commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
             ++num_locked;
             if (rec_ptr->get_tidw_ref().get_absent()) {
-                abort_process();
                 if (wso_ptr->get_op() == OP_TYPE::UPDATE) {
                     ti->set_result(reason_code::KVS_UPDATE);
                 } else if (wso_ptr->get_op() == OP_TYPE::DELETE) {
                     ti->set_result(reason_code::KVS_DELETE);
                 }
-                std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
-                ti->get_result_info().set_key_storage_name(
-                        rec_ptr->get_key_view(), wso_ptr->get_storage());
+                {
+                    std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+                    ti->get_result_info().set_key_storage_name(
+                            rec_ptr->get_key_view(), wso_ptr->get_storage());
+                }
+                // this releases the write set
+                abort_process();
                 return Status::ERR_KVS;
             }
         } else {
@@ -705,6 +723,23 @@ static void register_point_read_by_short(session* const ti) {
         recs.insert(itr.get_rec_ptr());
     }
 
+    // write operations other than upsert read the existence of the record
+    auto process = [&recs](write_set_obj& wso) {
+        if (wso.get_op() != OP_TYPE::UPSERT) { recs.insert(wso.get_rec_ptr()); }
+    };
+    {
+        std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
+        if (ti->get_write_set().get_for_batch()) {
+            for (auto&& itr : ti->get_write_set().get_ref_cont_for_bt()) {
+                process(itr.second);
+            }
+        } else {
+            for (auto&& itr : ti->get_write_set().get_ref_cont_for_occ()) {
+                process(itr);
+            }
+        }
+    }
+
     for (auto&& itr : recs) {
         auto& ro{itr->get_read_by()};
         ro.push(ce);
-- 
2.43.0


From ab334ea9bb1b6d8547acdc4aae83e5848cad0ace Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:39:26 +0000
Subject: [PATCH 09/39] fix: decide existence by the snapshot and keep records
 with pending upserts

Insert, update and delete of a long transaction used the newest version to
decide whether the key exists. A record with a pending upsert could be deleted
by another transaction and unhooked, which lost the upsert at commit.
---
 src/concurrency_control/interface/delete.cpp  |  3 +-
 src/concurrency_control/interface/helper.cpp  | 32 ++++++++++++++++++
 .../interface/include/helper.h                | 17 ++++++++++
 src/concurrency_control/interface/insert.cpp  | 15 +++++++--
 .../interface/long_tx/termination.cpp         | 33 +++++++++++++++----
 src/concurrency_control/interface/update.cpp  |  3 +-
 src/concurrency_control/interface/upsert.cpp  |  5 +--
 7 files changed, 93 insertions(+), 15 deletions(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index 0b75cd2..d7723a8 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -161,8 +161,7 @@ static Status delete_record_body(Token token, Storage storage,
             write_set_obj* in_ws{ti->get_write_set().search(rec_ptr)}; // NOLINT
             if (in_ws != nullptr) { return process_after_write(ti, in_ws); }
             // check absent
-            tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
-            if (!ctid.get_absent()) {
+            if (check_existence_for_write(ti, rec_ptr)) {
                 // prepare write
                 ti->push_to_write_set({storage, OP_TYPE::DELETE, rec_ptr}); // NOLINT
                 register_read_if_ltx(ti, rec_ptr);
diff --git a/src/concurrency_control/interface/helper.cpp b/src/concurrency_control/interface/helper.cpp
index e10881f..5820ccc 100644
--- a/src/concurrency_control/interface/helper.cpp
+++ b/src/concurrency_control/interface/helper.cpp
@@ -1,5 +1,7 @@
 
 
+#include <xmmintrin.h>
+
 #include <string_view>
 
 #include "atomic_wrapper.h"
@@ -60,6 +62,10 @@ Status check_before_write_ops(session* const ti, Storage const st,
             return Status::WARN_WRITE_WITHOUT_WP;
         }
         if (op != OP_TYPE::UPSERT) {
+            // it reads existence, so wait for high priority short tx
+            if (ti->find_high_priority_short(false) == Status::WARN_PREMATURE) {
+                return Status::WARN_PREMATURE;
+            }
             // check for read area invalidation
             auto rs = long_tx::check_read_area(ti, st);
             if (rs == Status::ERR_READ_AREA_VIOLATION) {
@@ -91,6 +97,17 @@ Status check_before_write_ops(session* const ti, Storage const st,
     return Status::OK;
 }
 
+bool check_existence_for_write(session* const ti, Record* const rec_ptr) {
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+        // long tx must decide it by the snapshot which it reads from
+        std::string dummy{};
+        return long_tx::version_traverse_and_read(ti, rec_ptr, dummy, false) ==
+               Status::OK;
+    }
+    tid_word tid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
+    return !tid.get_absent();
+}
+
 Status read_record(Record* const rec_ptr, tid_word& tid, std::string& val,
                    bool read_value) {
     tid_word f_check{};
@@ -235,6 +252,21 @@ Status try_deleted_to_inserting(Storage st, std::string_view key,
     return Status::OK;
 }
 
+bool try_block_unhook(Record* const rec_ptr) {
+    ++rec_ptr->get_shared_tombstone_count();
+    // wait for the operation which may have looked at the count before this
+    tid_word check{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
+    while (check.get_lock()) {
+        _mm_pause();
+        check = loadAcquire(rec_ptr->get_tidw_ref().get_obj());
+    }
+    if (check.get_absent() && !check.get_latest()) {
+        --rec_ptr->get_shared_tombstone_count();
+        return false;
+    }
+    return true;
+}
+
 #ifndef PWAL
 void* get_datastore() { return nullptr; }
 #endif
diff --git a/src/concurrency_control/interface/include/helper.h b/src/concurrency_control/interface/include/helper.h
index 5d7e937..e7ea990 100644
--- a/src/concurrency_control/interface/include/helper.h
+++ b/src/concurrency_control/interface/include/helper.h
@@ -30,6 +30,15 @@ check_constraint_key_length(std::string_view key);
                                                       std::string_view key,
                                                       OP_TYPE op);
 
+/**
+ * @brief check whether the record exists for update / delete / insert.
+ * @param[in] ti the transaction.
+ * @param[in] rec_ptr the record which is not in the local write set.
+ * @return true the transaction should see the record.
+ */
+[[maybe_unused]] extern bool check_existence_for_write(session* ti,
+                                                       Record* rec_ptr);
+
 /**
  * @brief getter of @a intialized_.
  */
@@ -49,4 +58,12 @@ check_constraint_key_length(std::string_view key);
                                                         Record* rec_ptr,
                                                         tid_word& found_tid);
 
+/**
+ * @brief count up the shared tombstone count of the record so that a concurrent
+ * delete does not lead to unhooking it.
+ * @return true the record is kept until the count is counted down.
+ * @return false the record is already deleted. The count is not changed.
+ */
+[[maybe_unused]] extern bool try_block_unhook(Record* rec_ptr);
+
 } // namespace shirakami
diff --git a/src/concurrency_control/interface/insert.cpp b/src/concurrency_control/interface/insert.cpp
index dc3d86a..b373a74 100644
--- a/src/concurrency_control/interface/insert.cpp
+++ b/src/concurrency_control/interface/insert.cpp
@@ -125,6 +125,13 @@ static Status insert_body(
                 }
             }
 
+            bool is_long{ti->get_tx_type() ==
+                         transaction_options::transaction_type::LONG};
+            if (is_long && check_existence_for_write(ti, rec_ptr)) {
+                register_read_if_ltx(ti, rec_ptr);
+                return Status::WARN_ALREADY_EXISTS;
+            }
+
             tid_word found_tid{};
             rc = try_deleted_to_inserting(storage, key, rec_ptr, found_tid);
             if (rc == Status::OK) { // ok already count up tombstone count
@@ -143,10 +150,12 @@ static Status insert_body(
                 if (ti->get_tx_type() ==
                     transaction_options::transaction_type::SHORT) {
                     ti->push_to_read_set_for_stx({storage, rec_ptr, found_tid});
-                } else if (ti->get_tx_type() ==
-                           transaction_options::transaction_type::LONG) {
-                    // register read_by_set
+                } else if (is_long) {
+                    // the living version is not in the snapshot of this tx
+                    if (!try_block_unhook(rec_ptr)) { continue; }
+                    ti->push_to_write_set({storage, OP_TYPE::INSERT, rec_ptr, val, true, std::move(lobs)});
                     register_read_if_ltx(ti, rec_ptr);
+                    return Status::OK;
                 } else {
                     LOG_FIRST_N(ERROR, 1) << log_location_prefix
                                           << "library programming error";
diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 524c925..9d7b9e7 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -65,6 +65,7 @@ static inline void cancel_flag_inserted_records(session* const ti) {
                     tid.set_latest(false);
                     tid.set_lock(false);
                     tid.set_epoch(check.get_epoch());
+                    tid.set_tid(check.get_tid());
                     rec_ptr->set_tid(tid); // and unlock
                     dirty.insert(wso.get_storage());
                 } else {
@@ -150,6 +151,12 @@ static inline void expose_local_write(
                 [[fallthrough]]; // upsert is update
             }
             case OP_TYPE::DELETE: {
+                [[fallthrough]];
+            }
+            case OP_TYPE::UPDATE: {
+                // lock record
+                rec_ptr->get_tidw_ref().lock();
+                tid_word pre_tid{rec_ptr->get_tidw_ref().get_obj()};
                 if (wso.get_op() == OP_TYPE::DELETE) { // for fallthrough
                     if (rec_ptr->get_shared_tombstone_count() == 0) {
                         ctid.set_latest(false);
@@ -159,12 +166,6 @@ static inline void expose_local_write(
                         ctid.set_absent(true);
                     }
                 }
-                [[fallthrough]];
-            }
-            case OP_TYPE::UPDATE: {
-                // lock record
-                rec_ptr->get_tidw_ref().lock();
-                tid_word pre_tid{rec_ptr->get_tidw_ref().get_obj()};
 
                 if (ti->get_valid_epoch() > pre_tid.get_epoch()) {
                     // case: first of list
@@ -261,6 +262,26 @@ static inline void expose_local_write(
                 break;
             }
         }
+        if (wso.get_inc_tombstone()) {
+            // this write may be older than the deletion which left the record
+            // in inserting state for this tx
+            auto check_cd = [rec_ptr](tid_word tid) {
+                return tid.get_latest() && tid.get_absent() &&
+                       tid.get_epoch() != 0 &&
+                       rec_ptr->get_shared_tombstone_count() == 0;
+            };
+            if (check_cd(loadAcquire(rec_ptr->get_tidw_ref().get_obj()))) {
+                rec_ptr->get_tidw_ref().lock();
+                tid_word tid{rec_ptr->get_tidw_ref().get_obj()};
+                if (check_cd(tid)) {
+                    tid.set_latest(false);
+                    tid.set_lock(false);
+                    rec_ptr->set_tid(tid); // and unlock
+                } else {
+                    rec_ptr->get_tidw_ref().unlock();
+                }
+            }
+        }
 #ifdef PWAL
         if (should_log) {
             // add log records to local wal buffer
diff --git a/src/concurrency_control/interface/update.cpp b/src/concurrency_control/interface/update.cpp
index 6ed7c29..f4d0409 100644
--- a/src/concurrency_control/interface/update.cpp
+++ b/src/concurrency_control/interface/update.cpp
@@ -100,8 +100,7 @@ static Status update_body(
             }
 
             // check absent
-            tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
-            if (!ctid.get_absent()) {
+            if (check_existence_for_write(ti, rec_ptr)) {
                 // prepare write
                 ti->push_to_write_set({storage, OP_TYPE::UPDATE, rec_ptr, val, false, std::move(lobs)});
                 register_read_if_ltx(ti, rec_ptr);
diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index 9358f5c..515d29f 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -135,8 +135,9 @@ static Status upsert_body(
                 return Status::OK;
             }
             if (rc == Status::WARN_ALREADY_EXISTS) {
-                // prepare update
-                ti->push_to_write_set({storage, OP_TYPE::UPSERT, rec_ptr, val, false, std::move(lobs)});
+                // prepare update, deleting the record must not unhook it
+                if (!try_block_unhook(rec_ptr)) { continue; }
+                ti->push_to_write_set({storage, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
                 return Status::OK;
             }
             if (rc == Status::WARN_CONCURRENT_INSERT) { continue; } // else
-- 
2.43.0


From 54bd9236a02cd02afa783052a5dbc61ef15edaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:03 +0000
Subject: [PATCH 10/39] fix: keep the callback and the result of a pending
 commit request

A second commit or an abort while a long transaction waits for its commit
replaced the callback of the first request and its result.
---
 .../interface/termination.cpp                 | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/concurrency_control/interface/termination.cpp b/src/concurrency_control/interface/termination.cpp
index 8681ae0..b8cc93b 100644
--- a/src/concurrency_control/interface/termination.cpp
+++ b/src/concurrency_control/interface/termination.cpp
@@ -17,6 +17,15 @@ static Status abort_body(Token token) { // NOLINT
     // check whether it already began.
     if (!ti->get_tx_began()) { return Status::WARN_NOT_BEGIN; }
 
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG &&
+        ti->get_requested_commit()) {
+        /**
+         * It was already requested.
+         * So user must use check_commit function to check result.
+         */
+        return Status::WARN_ILLEGAL_OPERATION;
+    }
+
     // set result info
     ti->set_result(reason_code::USER_ABORT);
 
@@ -25,13 +34,6 @@ static Status abort_body(Token token) { // NOLINT
         rc = short_tx::abort(ti);
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::LONG) {
-        if (ti->get_requested_commit()) {
-            /**
-             * It was already requested.
-             * So user must use check_commit function to check result.
-             */
-            return Status::WARN_ILLEGAL_OPERATION;
-        }
         rc = long_tx::abort(ti);
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::READ_ONLY) {
@@ -69,6 +71,15 @@ static Status commit_body(Token const token,                    // NOLINT
         return Status::WARN_NOT_BEGIN;
     }
 
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG &&
+        ti->get_requested_commit()) {
+        /**
+         * It was already requested, and the callback of that request must be
+         * kept. So user must use check_commit function to check result.
+         */
+        return Status::WARN_WAITING_FOR_OTHER_TX;
+    }
+
     // log callback
     ti->set_commit_callback(std::move(callback)); // NOLINT
 
@@ -86,13 +97,6 @@ static Status commit_body(Token const token,                    // NOLINT
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::LONG) {
         // for long tx
-        if (ti->get_requested_commit()) {
-            /**
-             * It was already requested.
-             * So user must use check_commit function to check result.
-             */
-            return Status::WARN_WAITING_FOR_OTHER_TX;
-        }
         rc = long_tx::commit(ti);
 
         // set about diagnostics
-- 
2.43.0


From 488ea99ab51615eff399012a6fb72c32deff219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:04 +0000
Subject: [PATCH 11/39] fix: do not treat a committing insert as absent in read
 verify of short tx

A short transaction which read a deleted record passed the verify while
another transaction was committing a new record with the same key.
---
 .../interface/short_tx/termination.cpp           | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 982944e..ca313b5 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -202,10 +202,18 @@ static Status read_verify(session* ti, tid_word read_tid, tid_word check,
             // another record is inserted at the same location (key) on yakushima
 
             // allow if rec_ptr2 is inserting record
-            tid_word check2{};
-            std::string unused{};
-            auto rr = read_record(rec_ptr2, check2, unused, false);
-            if (rr == Status::WARN_CONCURRENT_INSERT) { return Status::OK; }
+            tid_word check2{loadAcquire(rec_ptr2->get_tidw_ref().get_obj())};
+            while (check2.get_lock_by_gc()) {
+                _mm_pause();
+                check2.get_obj() =
+                        loadAcquire(rec_ptr2->get_tidw_ref().get_obj());
+            }
+            if (check2.get_latest() && check2.get_absent() &&
+                // locked means that the insert is being committed
+                (!check2.get_lock() ||
+                 ti->get_write_set().search(rec_ptr2) != nullptr)) {
+                return Status::OK;
+            }
 
             // the record is modified
             return Status::ERR_CC;
-- 
2.43.0


From dd16ff817f330c45c85358ef0e2c366d46e93c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:04 +0000
Subject: [PATCH 12/39] fix: decide by the snapshot when a long tx deletes a
 key it upserted

The deletion became an update of a record which is newer than the snapshot,
and the phantom check for readers of the absence was skipped. It also used the
write set element after erasing it.
---
 src/concurrency_control/interface/delete.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index d7723a8..0f47390 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -53,6 +53,9 @@ static void register_read_if_ltx(session* const ti, Record* const rec_ptr) {
     }
 }
 
+static Status process_before_return_not_found(session* ti, Storage storage,
+                                              std::string_view key);
+
 static inline Status process_after_write(session* ti, write_set_obj* wso) {
     if (wso->get_op() == OP_TYPE::INSERT) {
         cancel_insert_if_tomb_stone(wso);
@@ -83,8 +86,16 @@ static inline Status process_after_write(session* ti, write_set_obj* wso) {
         }
         if (!rc) {
             // if this was update
-            ti->push_to_write_set({st, OP_TYPE::DELETE, rec_ptr}); // NOLINT
-            register_read_if_ltx(ti, wso->get_rec_ptr());
+            if (ti->get_tx_type() ==
+                        transaction_options::transaction_type::LONG &&
+                !check_existence_for_write(ti, rec_ptr)) {
+                // the record is newer than the snapshot of this tx
+                process_before_return_not_found(ti, st,
+                                                rec_ptr->get_key_view());
+            } else {
+                ti->push_to_write_set({st, OP_TYPE::DELETE, rec_ptr}); // NOLINT
+                register_read_if_ltx(ti, rec_ptr);
+            }
         }
         garbage::set_dirty(st);
         return Status::WARN_CANCEL_PREVIOUS_UPSERT;
-- 
2.43.0


From e358890c4c46e0f09d4dcd009e59759650ceba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:04 +0000
Subject: [PATCH 13/39] fix: do not touch the session after the commit callback
 of a long tx

The resolver cleared the callback and set the result after the callback was
called, when the session may already run its next transaction. That lost the
callback of the next commit or gave it the result of the previous one.
---
 src/concurrency_control/bg_work/bg_commit.cpp |  2 +-
 src/concurrency_control/include/session.h     | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/concurrency_control/bg_work/bg_commit.cpp b/src/concurrency_control/bg_work/bg_commit.cpp
index fb6c86d..4f4818e 100644
--- a/src/concurrency_control/bg_work/bg_commit.cpp
+++ b/src/concurrency_control/bg_work/bg_commit.cpp
@@ -155,7 +155,7 @@ void bg_commit::worker() {
             }
             goto REFIND; // NOLINT
         }                // termination was successed
-        ti->set_result_requested_commit(rc);
+        // the session may be already used for the next transaction
 
         // erase the tx from cont
         {
diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 9991eb5..1dc5e49 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -103,14 +103,16 @@ public:
      */
     void call_commit_callback(Status sc, reason_code rc,
                               durability_marker_type dm) {
-        // get callback
+        // take callback, the user may request the next commit as soon as the
+        // result is visible
         auto cb = get_commit_callback();
+        set_commit_callback({});
+
+        // for check_commit
+        set_result_requested_commit(sc);
 
         // call callback if it can
         if (cb) { cb(sc, rc, dm); }
-
-        // clear callback
-        set_commit_callback({});
     }
 
     /**
-- 
2.43.0


From 1e23cb5da18b42c0642235e795bb61658526cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:04 +0000
Subject: [PATCH 14/39] fix: begin the log session of a transaction before its
 writes are visible

Writes were exposed before the log session began, buffered logs of a session
could take in later transactions, sequence logs could get into another log
session, and writes of a long transaction behind newer ones were not logged.
After a crash a transaction could be there without what it read, or partly.
---
 src/concurrency_control/include/lpwal.h       | 15 +++++++--
 src/concurrency_control/include/session.h     |  1 +
 .../interface/long_tx/termination.cpp         | 32 +++++++++++++------
 .../interface/short_tx/termination.cpp        | 22 +++++++++----
 src/concurrency_control/session.cpp           |  4 +--
 .../limestone/include/limestone_api_helper.h  |  5 +++
 .../limestone/limestone_api_helper.cpp        |  8 +++++
 src/datastore/limestone/lpwal.cpp             | 10 ++++++
 8 files changed, 75 insertions(+), 22 deletions(-)

diff --git a/src/concurrency_control/include/lpwal.h b/src/concurrency_control/include/lpwal.h
index 067eae5..7ebc8d5 100644
--- a/src/concurrency_control/include/lpwal.h
+++ b/src/concurrency_control/include/lpwal.h
@@ -188,8 +188,8 @@ public:
     void push_log(log_record const& log) {
         if (logs_.empty()) {
             set_min_log_epoch(log.get_wv().get_major_write_version());
-            begin_session();
         }
+        if (!begun_session_) { begin_session(); }
         logs_.emplace_back(log);
     }
 
@@ -212,6 +212,14 @@ public:
 
     void set_worker_number(std::size_t wn) { worker_number_ = wn; }
 
+    /**
+     * @brief prepare the session for the logs of a transaction.
+     * @details The transaction must do this before others can see its writes,
+     * otherwise a transaction depending on it may become durable earlier.
+     * @pre take mtx of logs
+     */
+    void prepare_session();
+
     /**
      * @pre take mtx of logs
      */
@@ -243,9 +251,12 @@ private:
      */
     logs_type logs_{};
 
-    // invariant: logs_.empty() == !begun_session_
+    // invariant: logs_.empty() == !begun_session_, except for the transaction
+    // which called prepare_session() and has not pushed its logs yet
     bool begun_session_{false};
     epoch::epoch_t durable_epoch_{};
+    // the datastore's epoch is not smaller than this when the session began
+    epoch::epoch_t session_epoch_{};
 
     /**
      * @brief log channel
diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 1dc5e49..4688783 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -170,6 +170,7 @@ public:
 
     /**
      * @brief commit process for sequence.
+     * @pre take mtx of logs
      */
     void commit_sequence(tid_word ctid);
 
diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 9d7b9e7..d28f562 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -196,7 +196,10 @@ static inline void expose_local_write(
                         rec_ptr->get_latest()->set_value(vb);
                     } else {
                         // invisible write
-                        should_log = false;
+                        // the overwriting tx may become durable later than
+                        // this, but the write version does not express the
+                        // order of forwarding
+                        should_log = should_backward;
                         // keep tx id and by_short bit for successor invisible write
 
                         ctid.set_tid(pre_tid.get_tid());
@@ -219,7 +222,7 @@ static inline void expose_local_write(
                         version* new_v{new version(ctid, vb, ver)}; // NOLINT
                         pre_ver->set_next(new_v);
                     };
-                    should_log = false;
+                    // log too, the newer versions may become durable later
                     version* pre_ver{rec_ptr->get_latest()};
                     version* ver{rec_ptr->get_latest()->get_next()};
                     for (;;) {
@@ -245,8 +248,10 @@ static inline void expose_local_write(
                                 // set value
                                 ver->set_value(vb);
                                 ver->set_tid(ctid);
+                            } else {
+                                // omit due to forwarding
+                                should_log = should_backward;
                             }
-                            // else: omit due to forwarding
                             break;
                         }
                         pre_ver = ver;
@@ -324,9 +329,6 @@ static inline void expose_local_write(
     };
 
     {
-#ifdef PWAL
-        std::unique_lock<std::mutex> lk0{ti->get_lpwal_handle().get_mtx_logs()};
-#endif
         std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
         for (auto&& wso : ti->get_write_set().get_ref_cont_for_bt()) {
             std::string_view pkey_view =
@@ -814,6 +816,16 @@ extern Status commit(session* const ti) {
                 << log_location_prefix_timing_event
                 << "start_expose_local_write : " << str_tx_id;
 
+#if defined(PWAL)
+        // The logs of this tx must get into one log session which begins before
+        // others see the writes.
+        auto& handle = ti->get_lpwal_handle();
+        std::unique_lock<std::mutex> lk_logs{handle.get_mtx_logs()};
+        bool const may_log{!ti->get_write_set().get_ref_cont_for_bt().empty() ||
+                           !ti->sequence_set().set().empty()};
+        if (may_log) { handle.prepare_session(); }
+#endif
+
         tid_word ctid{};
         /**
          * For registering write preserve result.
@@ -841,11 +853,11 @@ extern Status commit(session* const ti) {
 
         auto this_dm = epoch::get_global_epoch();
 #if defined(PWAL)
-        {
-            auto& handle = ti->get_lpwal_handle();
-            std::unique_lock lk{handle.get_mtx_logs()};
-            if (handle.get_begun_session()) { this_dm = handle.get_durable_epoch(); }
+        if (may_log) {
+            this_dm = handle.get_durable_epoch();
+            if (handle.get_logs().empty()) { handle.end_session(); }
         }
+        lk_logs.unlock();
 #endif
 
         // about transaction state
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index ca313b5..8f5232f 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -672,9 +672,6 @@ static Status write_phase(session* ti, epoch::epoch_t ce) {
     };
 
     {
-#ifdef PWAL
-        std::unique_lock<std::mutex> lk0{ti->get_lpwal_handle().get_mtx_logs()};
-#endif
         std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
         if (ti->get_write_set().get_for_batch()) {
             for (auto&& itr : ti->get_write_set().get_ref_cont_for_bt()) {
@@ -820,6 +817,17 @@ extern Status commit(session* const ti) {
 
     compute_commit_tid(ti, ce, commit_tid);
 
+#if defined(PWAL)
+    // The logs of this tx must get into one log session which begins before
+    // others see the writes.
+    auto& handle = ti->get_lpwal_handle();
+    std::unique_lock<std::mutex> lk_logs{handle.get_mtx_logs()};
+    bool const may_log{!ti->get_write_set().get_ref_cont_for_occ().empty() ||
+                       !ti->get_write_set().get_ref_cont_for_bt().empty() ||
+                       !ti->sequence_set().set().empty()};
+    if (may_log) { handle.prepare_session(); }
+#endif
+
     // write phase
     rc = write_phase(ti, ce);
     if (rc != Status::OK) {
@@ -840,11 +848,11 @@ extern Status commit(session* const ti) {
 
     auto this_dm = epoch::get_global_epoch();
 #if defined(PWAL)
-    {
-        auto& handle = ti->get_lpwal_handle();
-        std::unique_lock lk{handle.get_mtx_logs()};
-        if (handle.get_begun_session()) { this_dm = handle.get_durable_epoch(); }
+    if (may_log) {
+        this_dm = handle.get_durable_epoch();
+        if (handle.get_logs().empty()) { handle.end_session(); }
     }
+    lk_logs.unlock();
 #endif
 
     // about tx state
diff --git a/src/concurrency_control/session.cpp b/src/concurrency_control/session.cpp
index dba69d4..a2a076c 100644
--- a/src/concurrency_control/session.cpp
+++ b/src/concurrency_control/session.cpp
@@ -102,9 +102,7 @@ void session::commit_sequence(tid_word ctid) {
     }
 
 #ifdef PWAL
-    // push log to pwal buffer
-    std::unique_lock<std::mutex> lk_for_pwal_buf{
-            get_lpwal_handle().get_mtx_logs()};
+    // push log to pwal buffer, the caller took the mutex of it
     for (auto& elem : log_recs) { get_lpwal_handle().push_log(elem); }
 #endif
 }
diff --git a/src/datastore/limestone/include/limestone_api_helper.h b/src/datastore/limestone/include/limestone_api_helper.h
index 06ea5ba..17d652e 100644
--- a/src/datastore/limestone/include/limestone_api_helper.h
+++ b/src/datastore/limestone/include/limestone_api_helper.h
@@ -34,6 +34,11 @@ void recover(limestone::api::datastore* ds);
 
 void switch_epoch(limestone::api::datastore* ds, epoch::epoch_t ep);
 
+/**
+ * @brief get the epoch which the last finished switch_epoch() told.
+ */
+epoch::epoch_t get_switched_epoch();
+
 void switch_available_boundary_version(limestone::api::datastore* ds, epoch::epoch_t ep);
 
 // log_channel
diff --git a/src/datastore/limestone/limestone_api_helper.cpp b/src/datastore/limestone/limestone_api_helper.cpp
index 629bc40..87a3f3e 100644
--- a/src/datastore/limestone/limestone_api_helper.cpp
+++ b/src/datastore/limestone/limestone_api_helper.cpp
@@ -6,6 +6,7 @@
 #include <limestone/api/snapshot.h>
 #include <limestone/api/storage_id_type.h>
 #include <limestone/api/write_version_type.h>
+#include <atomic>
 #include <cstdint>
 #include <ostream>
 #include <memory>
@@ -79,6 +80,12 @@ void recover(limestone::api::datastore* ds) {
     shirakami_log_exit << "datastore::recover()";
 }
 
+static std::atomic<epoch::epoch_t> switched_epoch{0}; // NOLINT
+
+epoch::epoch_t get_switched_epoch() {
+    return switched_epoch.load(std::memory_order_acquire);
+}
+
 void switch_epoch(limestone::api::datastore* ds, epoch::epoch_t ep) {
     if (ds == nullptr) {
         LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
@@ -86,6 +93,7 @@ void switch_epoch(limestone::api::datastore* ds, epoch::epoch_t ep) {
     }
     shirakami_ex_log_entry << "datastore::switch_epoch()";
     ds->switch_epoch(ep);
+    switched_epoch.store(ep, std::memory_order_release);
     shirakami_ex_log_exit << "datastore::switch_epoch()";
 }
 
diff --git a/src/datastore/limestone/lpwal.cpp b/src/datastore/limestone/lpwal.cpp
index 22d5a74..648b2ac 100644
--- a/src/datastore/limestone/lpwal.cpp
+++ b/src/datastore/limestone/lpwal.cpp
@@ -119,6 +119,7 @@ void fin() {
 
 void handler::begin_session() {
     // assert begun_session_ = false
+    session_epoch_ = get_switched_epoch();
     shirakami::begin_session(log_channel_ptr_);
     // TODO: global epoch is approximate value for durable epoch, but is guaranteed to be >= real durable epoch.
     // if the exact value becomes available, change this to use that.
@@ -152,6 +153,15 @@ static void flush_log_and_end_session_if_exists(lpwal::handler& handle) {
     }
 }
 
+void handler::prepare_session() {
+    if (begun_session_ && session_epoch_ != epoch::get_global_epoch()) {
+        // The logs of the session may become durable earlier than those of
+        // transactions which the current one depends on.
+        flush_log_and_end_session_if_exists(*this);
+    }
+    if (!begun_session_) { begin_session(); }
+}
+
 void flush_log(Token token) {
     auto* ti = static_cast<session*>(token);
     auto& handle = ti->get_lpwal_handle();
-- 
2.43.0


From c7e17d3b3f6d3bd77994068747fbf38f125e43a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:52 +0000
Subject: [PATCH 15/39] fix: let several recovery threads meet a storage at the
 same time

With index_restore_threads > 1 one thread can register a storage between the
existence check and the registration done by another one, and recovery ended
in LOG(FATAL). The map of sequences was filled by all threads without a lock.
---
 src/datastore/limestone/datastore.cpp | 51 ++++++++-------------------
 1 file changed, 14 insertions(+), 37 deletions(-)

diff --git a/src/datastore/limestone/datastore.cpp b/src/datastore/limestone/datastore.cpp
index 8e6b7c4..08b6245 100644
--- a/src/datastore/limestone/datastore.cpp
+++ b/src/datastore/limestone/datastore.cpp
@@ -121,43 +121,19 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
             new_value.append(reinterpret_cast<const char*>(&id), // NOLINT
                              sizeof(id));
             new_value.append(payload);
-            // check st2 existence
-            auto ret = shirakami::storage::exist_storage(st2);
-            if (ret == Status::OK) {
-                /**
-                 * There must be normal entry for st2 and it was already
-                 * processed.
-                 * Try to create in-memory entry about storage info and update
-                 * key_handle_map.
-                 */
-                put_data(storage::meta_storage, key, new_value);
-                if (storage::key_handle_map_push_storage(key, st2) !=
-                    Status::OK) {
-                    // Does DML create key handle map entry?
-                    LOG(FATAL) << log_location_prefix << "library programming error.";
-                }
-            } else {
-                // not exist, so create.
-                auto ret = shirakami::storage::register_storage(st2,
-                                                                {id, payload});
-                if (ret != Status::OK) {
-                    /**
-                     * This process was done because
-                     * shirakami::storage::exist_storage(st2) said not exist,
-                     * but it can't register_storage.
-                     */
-                    LOG(FATAL) << log_location_prefix << "library programming error.";
-                }
-                if (storage::key_handle_map_push_storage(key, st2) !=
-                    Status::OK) {
-                    /**
-                     * This process was done because
-                     * shirakami::register_storage(st2, {id, payload}) was
-                     * succeeded but it can't create entry of this map.
-                     */
-                    LOG(FATAL) << log_location_prefix << "library programming error.";
-                }
-                put_data(storage::meta_storage, key, new_value);
+            /**
+             * Create st2 unless a normal entry for st2 was already processed.
+             * Another recovery thread may be doing that at the same time.
+             */
+            auto ret = shirakami::storage::register_storage(st2, {id, payload});
+            if (ret != Status::OK && ret != Status::WARN_ALREADY_EXISTS) {
+                LOG(FATAL) << log_location_prefix << "library programming error.";
+            }
+            // create in-memory entry about storage info and update key_handle_map.
+            put_data(storage::meta_storage, key, new_value);
+            if (storage::key_handle_map_push_storage(key, st2) != Status::OK) {
+                // Does DML create key handle map entry?
+                LOG(FATAL) << log_location_prefix << "library programming error.";
             }
             st_list.emplace_back(st2);
         } else if (st == storage::sequence_storage) {
@@ -170,6 +146,7 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
             SequenceValue value{};
             memcpy(&value, val.data() + sizeof(version), // NOLINT
                    sizeof(version));
+            std::lock_guard<std::shared_mutex> lk{sequence::sequence_map_smtx()};
             auto ret = sequence::sequence_map_push(id, 0, version, value);
             if (ret != Status::OK) {
                 LOG(FATAL) << log_location_prefix << "library programming error.";
-- 
2.43.0


From dc3d8e790ebcaba255e049ee9dfdbba909d908ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:12 +0000
Subject: [PATCH 16/39] fix: refuse a read of an unknown storage in a read only
 transaction

Only WARN_NOT_FOUND of the index was handled, so search_key and exist_key of
a read only transaction dereferenced a null record if there was no storage.
---
 src/concurrency_control/interface/read_only_tx/search.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/read_only_tx/search.cpp b/src/concurrency_control/interface/read_only_tx/search.cpp
index 95e93f8..6cf2ddd 100644
--- a/src/concurrency_control/interface/read_only_tx/search.cpp
+++ b/src/concurrency_control/interface/read_only_tx/search.cpp
@@ -18,9 +18,8 @@ Status search_key(session* const ti, Storage const storage,
 
     // index access
     Record* rec_ptr{};
-    if (Status::WARN_NOT_FOUND == get<Record>(storage, key, rec_ptr)) {
-        return Status::WARN_NOT_FOUND;
-    }
+    auto rc{get<Record>(storage, key, rec_ptr)};
+    if (rc != Status::OK) { return rc; }
 
     return long_tx::version_traverse_and_read(ti, rec_ptr, value, read_value);
 }
-- 
2.43.0


From f045c1818472a161443113dfa317a54bc75cabea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:54 +0000
Subject: [PATCH 17/39] fix: leave nothing of a removed storage behind at
 restart

---
 src/concurrency_control/interface/storage.cpp | 54 ++++++++++++++++---
 src/datastore/limestone/datastore.cpp         | 32 ++++++++++-
 src/include/storage.h                         | 28 +++++++++-
 3 files changed, 104 insertions(+), 10 deletions(-)

diff --git a/src/concurrency_control/interface/storage.cpp b/src/concurrency_control/interface/storage.cpp
index 7858f2d..05677a8 100644
--- a/src/concurrency_control/interface/storage.cpp
+++ b/src/concurrency_control/interface/storage.cpp
@@ -4,6 +4,8 @@
 
 #include <cstdlib>
 
+#include "atomic_wrapper.h"
+#include "clock.h"
 #include "storage.h"
 
 #include "concurrency_control/include/garbage.h"
@@ -63,7 +65,11 @@ static void write_storage_metadata(std::string_view key, Storage st,
     LOG_FIRST_N(ERROR, 1) << log_location_prefix << "library programming error";
 }
 
-static void remove_storage_metadata(std::string_view key, [[maybe_unused]] Storage st) {
+/**
+ * @param[in] max_tid The largest tid of the records which the storage held.
+ */
+static void remove_storage_metadata(std::string_view key, [[maybe_unused]] Storage st,
+                                    [[maybe_unused]] tid_word const max_tid) {
     Token s{};
     while (enter(s) != Status::OK) { _mm_pause(); }
     auto ret = tx_begin({s, transaction_options::transaction_type::SHORT});
@@ -84,9 +90,15 @@ static void remove_storage_metadata(std::string_view key, [[maybe_unused]] Stora
 #ifdef PWAL
         auto* ti = static_cast<session*>(s);
         // reuse mrc_tid of previous commit to calculate the write-version
-        lpwal::write_version_type wv{ti->get_mrc_tid().get_epoch(), ti->get_mrc_tid().get_tid() | (1UL << 63)};  // NOLINT
-        // note: this write-version is calculated without reading any Records in this storage,
-        // so it may be smaller than that of concurrent transactions writing this storage.
+        // and exceed that of all records of this storage, but it may be smaller
+        // than that of concurrent transactions writing this storage.
+        auto ctid{ti->get_mrc_tid()};
+        auto minor{static_cast<std::uint64_t>(ctid.get_tid())};
+        if (max_tid.get_epoch() == ctid.get_epoch() && max_tid.get_tid() >= minor) {
+            minor = max_tid.get_tid() + 1;
+        }
+        lpwal::write_version_type wv{ctid.get_epoch(), minor | (1UL << 63)};  // NOLINT
+        storage::set_removed_epoch(st, ctid.get_epoch());
         {
             std::unique_lock<std::mutex> lk{ti->get_lpwal_handle().get_mtx_logs()};
             ti->get_lpwal_handle().push_log(lpwal::log_record(log_operation::REMOVE_STORAGE, wv, st, {}, {}, {}));
@@ -112,6 +124,14 @@ static Status create_storage_body(std::string_view const key, Storage& storage,
     }
     // point (*1)
 
+    /**
+     * If a storage of that id was removed in this epoch, the log of the removal
+     * must be older than that of records of the new one.
+     */
+    while (epoch::get_global_epoch() <= storage::get_removed_epoch(options.id())) {
+        sleepUs(100); // NOLINT
+    }
+
     ret = storage::create_storage(storage, options);
     if (ret != Status::OK) { return ret; }
     // success create_storage
@@ -136,7 +156,8 @@ Status create_storage(std::string_view key, Storage& storage,
 
 static Status delete_storage_body(Storage const storage) {
     std::lock_guard<std::shared_mutex> lk{storage::get_mtx_key_handle_map()};
-    auto ret = storage::delete_storage(storage);
+    tid_word max_tid{};
+    auto ret = storage::delete_storage(storage, &max_tid);
     if (ret != Status::OK) { return ret; }
     // delete_storage was succeeded
 
@@ -149,7 +170,7 @@ static Status delete_storage_body(Storage const storage) {
             return Status::ERR_FATAL;
         }
 
-        if (!get_is_shutdowning()) { remove_storage_metadata(key, storage); }
+        if (!get_is_shutdowning()) { remove_storage_metadata(key, storage, max_tid); }
     }
     return Status::OK;
 }
@@ -376,7 +397,7 @@ Status storage::exist_storage(Storage storage) {
     return Status::WARN_NOT_FOUND;
 }
 
-Status storage::delete_storage(Storage storage) {
+Status storage::delete_storage(Storage storage, tid_word* const max_tid) {
     // NOLINT
     std::unique_lock lk{garbage::get_mtx_cleaner()};
 
@@ -395,6 +416,20 @@ Status storage::delete_storage(Storage storage) {
     yakushima::scan(storage_view, "", yakushima::scan_endpoint::INF, "",
                     yakushima::scan_endpoint::INF, scan_res);
 
+    if (max_tid != nullptr && !wp::get_finalizing()) {
+        for (auto&& itr : scan_res) {
+            tid_word tid{loadAcquire(reinterpret_cast<Record*>( // NOLINT
+                                             std::get<v_index>(itr))
+                                             ->get_tidw_ref()
+                                             .get_obj())};
+            if (tid.get_epoch() > max_tid->get_epoch() ||
+                (tid.get_epoch() == max_tid->get_epoch() &&
+                 tid.get_tid() > max_tid->get_tid())) {
+                *max_tid = tid;
+            }
+        }
+    }
+
     if (scan_res.size() < std::thread::hardware_concurrency() * 10) { // NOLINT
         // single thread clean up
         for (auto&& itr : scan_res) {
@@ -507,7 +542,10 @@ void storage::get_new_storage_num(Storage& storage) {
     storage = strg_ctr_.fetch_add(1);
 }
 
-void storage::init() { storage::set_strg_ctr(storage::initial_strg_ctr); }
+void storage::init() {
+    storage::set_strg_ctr(storage::initial_strg_ctr);
+    removed_epoch_.clear();
+}
 
 void storage::init_meta_storage() {
     auto ret = storage::register_storage(storage::meta_storage);
diff --git a/src/datastore/limestone/datastore.cpp b/src/datastore/limestone/datastore.cpp
index 08b6245..40a14ad 100644
--- a/src/datastore/limestone/datastore.cpp
+++ b/src/datastore/limestone/datastore.cpp
@@ -169,6 +169,33 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
     return std::make_pair(max_id, std::move(st_list));
 }
 
+/**
+ * @brief Drop what is left of removed storages.
+ * @details The metadata of a storage is logged before its records, so a storage
+ * without metadata was being removed when the database stopped.
+ */
+static void drop_removed_storages(std::vector<Storage> const& st_list) {
+    for (auto&& st : st_list) {
+        std::string key{};
+        if (storage::key_handle_map_get_key(st, key) == Status::OK) { continue; }
+        if (storage::delete_storage(st) != Status::OK) {
+            LOG(FATAL) << log_location_prefix << "library programming error.";
+        }
+        // all writes from now on get larger versions
+        Token token{};
+        while (enter(token) != Status::OK) { _mm_pause(); }
+        auto& handle = static_cast<session*>(token)->get_lpwal_handle();
+        {
+            std::unique_lock<std::mutex> lk{handle.get_mtx_logs()};
+            handle.push_log(lpwal::log_record(
+                    log_operation::REMOVE_STORAGE,
+                    lpwal::write_version_type(epoch::get_global_epoch(), 0), st,
+                    {}, {}, {}));
+        }
+        leave(token);
+    }
+}
+
 void recovery_from_datastore(std::size_t thread_num) {
     auto ss = get_snapshot(get_datastore());
 
@@ -204,7 +231,10 @@ void recovery_from_datastore(std::size_t thread_num) {
                                            std::memory_order_release);
     }
     // recovery storage meta
-    if (!st_list.empty()) { recovery_storage_meta(st_list); }
+    if (!st_list.empty()) {
+        recovery_storage_meta(st_list);
+        drop_removed_storages(st_list);
+    }
 }
 
 void scan_all_and_logging() {
diff --git a/src/include/storage.h b/src/include/storage.h
index 857c458..22c1919 100644
--- a/src/include/storage.h
+++ b/src/include/storage.h
@@ -15,6 +15,8 @@
 
 namespace shirakami {
 
+class tid_word;
+
 class storage {
 public:
     static constexpr Storage initial_strg_ctr{1};
@@ -173,8 +175,29 @@ public:
     /**
      * @brief delete storage
      * @param[in] storage
+     * @param[out] max_tid If this is not nullptr, the largest tid of the
+     * records which @a storage held is set.
+     */
+    static Status delete_storage(Storage storage, tid_word* max_tid = nullptr);
+
+    /**
+     * @brief The epoch in which the storage of the id was removed lastly.
+     * @pre The caller of this func already got lock about mtx_key_handle_map_.
+     * @return 0 It was not removed.
+     */
+    static std::uint64_t get_removed_epoch(Storage st) {
+        auto itr = removed_epoch_.find(st);
+        return itr == removed_epoch_.end() ? 0 : itr->second;
+    }
+
+    /**
+     * @pre The caller of this func already got write lock about
+     * mtx_key_handle_map_.
      */
-    static Status delete_storage(Storage storage);
+    static void set_removed_epoch(Storage st, std::uint64_t ep) {
+        // only ids specified by user are used again
+        if ((st >> 32) == 0) { removed_epoch_[st] = ep; } // NOLINT
+    }
 
     static std::shared_mutex& get_mtx_key_handle_map() {
         return mtx_key_handle_map_;
@@ -219,6 +242,9 @@ private:
     static inline std::unordered_map<std::string, Storage> // NOLINT
             key_handle_map_;                               // NOLINT
 
+    static inline std::unordered_map<Storage, std::uint64_t> // NOLINT
+            removed_epoch_;                                  // NOLINT
+
     /**
      * @brief Mutex for key handle map.
      */
-- 
2.43.0


From dcb1dbc0c6270656c823a91d31c8ed69ea583574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:51:00 +0000
Subject: [PATCH 18/39] fix: let the largest version of a sequence win at read
 and at restart

---
 src/concurrency_control/include/session.h         |  3 ++-
 .../interface/long_tx/termination.cpp             |  5 +++++
 .../interface/short_tx/termination.cpp            |  5 +++++
 src/concurrency_control/sequence.cpp              | 15 ++++++++-------
 src/concurrency_control/session.cpp               | 11 ++++-------
 src/include/sequence.h                            |  7 ++++++-
 6 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 4688783..3d42478 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -170,7 +170,8 @@ public:
 
     /**
      * @brief commit process for sequence.
-     * @pre take mtx of logs
+     * @pre take mtx of logs and write lock of the sequence map before the log
+     * session began
      */
     void commit_sequence(tid_word ctid);
 
diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index d28f562..e112d46 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -5,6 +5,7 @@
 #include <vector>
 
 #include "atomic_wrapper.h"
+#include "sequence.h"
 #include "storage.h"
 
 #include "concurrency_control/bg_work/include/bg_commit.h"
@@ -816,6 +817,9 @@ extern Status commit(session* const ti) {
                 << log_location_prefix_timing_event
                 << "start_expose_local_write : " << str_tx_id;
 
+        std::unique_lock<std::shared_mutex> lk_for_sm{
+                sequence::sequence_map_smtx(), std::defer_lock};
+        if (!ti->sequence_set().set().empty()) { lk_for_sm.lock(); }
 #if defined(PWAL)
         // The logs of this tx must get into one log session which begins before
         // others see the writes.
@@ -844,6 +848,7 @@ extern Status commit(session* const ti) {
         // sequence process
         // This must be after cc commit and before log process
         ti->commit_sequence(ctid);
+        if (lk_for_sm.owns_lock()) { lk_for_sm.unlock(); }
 
         // todo enhancement
         /**
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 8f5232f..fde0755 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -1,5 +1,6 @@
 
 #include "atomic_wrapper.h"
+#include "sequence.h"
 #include "storage.h"
 
 #include "concurrency_control/interface/short_tx/include/short_tx.h"
@@ -817,6 +818,9 @@ extern Status commit(session* const ti) {
 
     compute_commit_tid(ti, ce, commit_tid);
 
+    std::unique_lock<std::shared_mutex> lk_for_sm{
+            sequence::sequence_map_smtx(), std::defer_lock};
+    if (!ti->sequence_set().set().empty()) { lk_for_sm.lock(); }
 #if defined(PWAL)
     // The logs of this tx must get into one log session which begins before
     // others see the writes.
@@ -844,6 +848,7 @@ extern Status commit(session* const ti) {
     // sequence process
     // This must be after cc commit and before log process
     ti->commit_sequence(ti->get_mrc_tid());
+    if (lk_for_sm.owns_lock()) { lk_for_sm.unlock(); }
     ti->unlock_short_expose_ongoing_and_refresh_epoch();
 
     auto this_dm = epoch::get_global_epoch();
diff --git a/src/concurrency_control/sequence.cpp b/src/concurrency_control/sequence.cpp
index ab3bc82..7abd928 100644
--- a/src/concurrency_control/sequence.cpp
+++ b/src/concurrency_control/sequence.cpp
@@ -187,7 +187,7 @@ sequence::sequence_map_find(SequenceId const id,
 }
 
 // for update sequence function
-Status sequence::sequence_map_find_and_verify(epoch::epoch_t epoch,
+Status sequence::sequence_map_find_and_verify(epoch::epoch_t& epoch,
                                               SequenceId const id,
                                               SequenceVersion const version) {
     // check the sequence object whose id is the arguments of this function.
@@ -208,12 +208,8 @@ Status sequence::sequence_map_find_and_verify(epoch::epoch_t epoch,
     }
 
     if (std::get<0>(last_itr->second) < version) {
-        if (last_itr->first > epoch) {
-            // fix sequence map
-            auto erased_itr = found_id_itr->second.end();
-            erased_itr--;
-            found_id_itr->second.erase(erased_itr);
-        }
+        // the larger version must be the newer one for reading and recovery
+        if (last_itr->first > epoch) { epoch = last_itr->first; }
         return Status::OK;
     }
     return Status::WARN_ILLEGAL_OPERATION;
@@ -315,6 +311,11 @@ Status sequence::create_sequence(SequenceId* id) {
         return Status::ERR_FATAL;
     }
 
+    // the object belongs to the epoch of the log
+    sequence::sequence_map()[*id] = {
+            {static_cast<session*>(token)->get_mrc_tid().get_epoch(),
+             sequence::initial_value}};
+
     // cleanup transaction handle
     ret = leave(token);
     if (ret != Status::OK) {
diff --git a/src/concurrency_control/session.cpp b/src/concurrency_control/session.cpp
index a2a076c..cdf56fd 100644
--- a/src/concurrency_control/session.cpp
+++ b/src/concurrency_control/session.cpp
@@ -45,9 +45,7 @@ void session::commit_sequence(tid_word ctid) {
     // ss is sequence set
     if (ss.empty()) { return; }
 
-    std::lock_guard<std::shared_mutex> lk_for_sm{sequence::sequence_map_smtx()};
-
-    // gc after write lock
+    // gc, the caller took write lock
     sequence::gc_sequence_map();
 
 #ifdef PWAL
@@ -58,8 +56,8 @@ void session::commit_sequence(tid_word ctid) {
         SequenceVersion version = std::get<0>(itr->second);
         SequenceValue value = std::get<1>(itr->second);
         // check update sequence object
-        auto ret = sequence::sequence_map_find_and_verify(ctid.get_epoch(), id,
-                                                          version);
+        epoch::epoch_t epoch{ctid.get_epoch()};
+        auto ret = sequence::sequence_map_find_and_verify(epoch, id, version);
         if (ret == Status::WARN_ILLEGAL_OPERATION ||
             ret == Status::WARN_NOT_FOUND) {
             // fail
@@ -87,12 +85,11 @@ void session::commit_sequence(tid_word ctid) {
         log_operation lo{log_operation::UPSERT};
         // log to local to reduce contention for locks
         log_recs.emplace_back(shirakami::lpwal::log_record(
-                lo, lpwal::write_version_type(ctid.get_epoch(), version),
+                lo, lpwal::write_version_type(epoch, version),
                 storage::sequence_storage, key, new_value, {}));
 #endif
 
         // update sequence object
-        auto epoch = ctid.get_epoch();
         ret = sequence::sequence_map_update(id, epoch, version, value);
         if (ret != Status::OK) {
             LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
diff --git a/src/include/sequence.h b/src/include/sequence.h
index 196a260..a93a79a 100644
--- a/src/include/sequence.h
+++ b/src/include/sequence.h
@@ -55,7 +55,12 @@ public:
     sequence_map_find(SequenceId id,
                       std::tuple<SequenceVersion, SequenceValue>& out);
 
-    static Status sequence_map_find_and_verify(epoch::epoch_t epoch,
+    /**
+     * @brief check whether the version can be the latest one.
+     * @param[in,out] epoch the epoch of the update. If the latest version
+     * belongs to a later epoch, it is set.
+     */
+    static Status sequence_map_find_and_verify(epoch::epoch_t& epoch,
                                                SequenceId id,
                                                SequenceVersion version);
 
-- 
2.43.0


From 9ee0b4c23bbcc383d17da15cc4048d60f5e4844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:34 +0000
Subject: [PATCH 19/39] fix: keep the order of a deleted record when an insert
 to it is aborted

---
 src/concurrency_control/interface/long_tx/termination.cpp  | 2 ++
 src/concurrency_control/interface/short_tx/termination.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index e112d46..ce16fdb 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -66,6 +66,8 @@ static inline void cancel_flag_inserted_records(session* const ti) {
                     tid.set_latest(false);
                     tid.set_lock(false);
                     tid.set_epoch(check.get_epoch());
+                    // the next commit must get a larger tid than this
+                    tid.set_by_short(check.get_by_short());
                     tid.set_tid(check.get_tid());
                     rec_ptr->set_tid(tid); // and unlock
                     dirty.insert(wso.get_storage());
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index fde0755..db24703 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -139,6 +139,8 @@ static void change_inserting_records_state(session* const ti) {
                     tid.set_latest(false);
                     tid.set_lock(false);
                     tid.set_epoch(check.get_epoch());
+                    // the next commit must get a larger tid than this
+                    tid.set_by_short(check.get_by_short());
                     tid.set_tid(check.get_tid());
                     rec_ptr->set_tid(tid); // and unlock
                     dirty.insert(wso_ptr->get_storage());
-- 
2.43.0


From 72d6b058a41b198107b5dde6a14ae7ebfbb677c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:51 +0000
Subject: [PATCH 20/39] fix: read the version word of a record atomically

---
 src/concurrency_control/include/record.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/include/record.h b/src/concurrency_control/include/record.h
index 5073931..f3bddde 100644
--- a/src/concurrency_control/include/record.h
+++ b/src/concurrency_control/include/record.h
@@ -55,7 +55,9 @@ public:
 
     [[nodiscard]] tid_word get_stable_tidw();
 
-    [[nodiscard]] tid_word get_tidw() const { return tidw_; }
+    [[nodiscard]] tid_word get_tidw() const {
+        return tid_word{loadAcquire(tidw_.get_obj())};
+    }
 
     tid_word& get_tidw_ref() { return tidw_; }
 
-- 
2.43.0


From 5c18adc90ccedc99f1a6b044b4b08dfaaa32d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:51 +0000
Subject: [PATCH 21/39] fix: make the stop flag of the background commit
 workers atomic

---
 src/concurrency_control/bg_work/include/bg_commit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrency_control/bg_work/include/bg_commit.h b/src/concurrency_control/bg_work/include/bg_commit.h
index 856eb92..f470433 100644
--- a/src/concurrency_control/bg_work/include/bg_commit.h
+++ b/src/concurrency_control/bg_work/include/bg_commit.h
@@ -109,7 +109,7 @@ private:
      * @brief Flag used for signal to start or stop worker thread.
      *
      */
-    static inline bool worker_thread_end_; // NOLINT
+    static inline std::atomic<bool> worker_thread_end_{false}; // NOLINT
 
     /**
      * @brief mutex for cont_wait_tx
-- 
2.43.0


From a1cd95e3afb2ccd82457c7fda3a0f53a62e66d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:51 +0000
Subject: [PATCH 22/39] fix: read the write preserve entries of a storage
 atomically

---
 src/concurrency_control/include/wp_meta.h | 6 +++++-
 src/concurrency_control/wp_meta.cpp       | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/include/wp_meta.h b/src/concurrency_control/include/wp_meta.h
index 4b2cf0b..080a2b3 100644
--- a/src/concurrency_control/include/wp_meta.h
+++ b/src/concurrency_control/include/wp_meta.h
@@ -11,6 +11,7 @@
 #include <utility>
 #include <vector>
 
+#include "atomic_wrapper.h"
 #include "cpu.h"
 
 #include "concurrency_control/include/epoch.h"
@@ -121,7 +122,10 @@ public:
     }
 
     void set_wped(std::size_t const pos, wped_elem_type const val) {
-        wped_.at(pos) = val;
+        auto& elem = wped_.at(pos);
+        // it may be read optimistically by get_wped
+        storeRelaxed(elem.first, val.first);
+        storeRelaxed(elem.second, val.second);
     }
 
     void set_wped_used(std::size_t pos, bool val = true) { // NOLINT
diff --git a/src/concurrency_control/wp_meta.cpp b/src/concurrency_control/wp_meta.cpp
index 682fb09..898a6b0 100644
--- a/src/concurrency_control/wp_meta.cpp
+++ b/src/concurrency_control/wp_meta.cpp
@@ -52,7 +52,10 @@ wp_meta::wped_type wp_meta::get_wped() {
             _mm_pause();
             continue;
         }
-        r_obj = wped_;
+        for (std::size_t i = 0; i < wped_.size(); ++i) {
+            r_obj[i] = {loadAcquire(wped_[i].first),
+                        loadAcquire(wped_[i].second)};
+        }
         auto ts_s{wp_lock_.load_obj()};
         if (wp_lock::is_locked(ts_s) || ts_f != ts_s) { continue; }
         break;
-- 
2.43.0


From 37a3358774f581b2db5a4ed06fb82684270eda59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:51 +0000
Subject: [PATCH 23/39] fix: do not dereference a scan handle before it is
 known to be open

---
 src/concurrency_control/interface/scan/close_scan.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/scan/close_scan.cpp b/src/concurrency_control/interface/scan/close_scan.cpp
index 569ae31..26f6d15 100644
--- a/src/concurrency_control/interface/scan/close_scan.cpp
+++ b/src/concurrency_control/interface/scan/close_scan.cpp
@@ -28,9 +28,8 @@ static Status close_scan_body(Token const token, ScanHandle const handle) { // N
 static Status close_scan_body_iscan(Token const token, ScanHandle const handle) { // NOLINT
     auto* ti = static_cast<session*>(token);
     if (!ti->get_tx_began()) { return Status::WARN_NOT_BEGIN; }
-    auto* sc = static_cast<scan_context*>(handle);
-    if (sc->get_ycontext_ref()) { yakushima::iscan_close(sc->get_ycontext_ref()); }
-    return ti->get_scan_handle().delete_scan_context(sc);
+    // the index context is closed when the scan context is destroyed
+    return ti->get_scan_handle().delete_scan_context(static_cast<scan_context*>(handle));
 }
 
 Status close_scan(Token const token, ScanHandle const handle) { // NOLINT
@@ -40,7 +39,7 @@ Status close_scan(Token const token, ScanHandle const handle) { // NOLINT
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term(), std::defer_lock};
+        std::unique_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term(), std::defer_lock};
         if (ti->get_mutex_flags().do_readaccess_daterm()) { lock.lock(); }
         if (get_scan_mode_iterator_based()) {
             ret = close_scan_body_iscan(token, handle);
-- 
2.43.0


From cc2373060e4a8bed0ceaad71135ce0132cf8fa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:04 +0000
Subject: [PATCH 24/39] fix: keep the final state of a transaction which ended
 before its epoch

---
 src/concurrency_control/transaction_state.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/concurrency_control/transaction_state.cpp b/src/concurrency_control/transaction_state.cpp
index f4097cb..edb8ee4 100644
--- a/src/concurrency_control/transaction_state.cpp
+++ b/src/concurrency_control/transaction_state.cpp
@@ -138,10 +138,7 @@ static Status check_tx_state_body(TxStateHandle handle, TxState& out) {
             return Status::ERR_FATAL;
 #endif
         }
-    } else {
-        ts.set_kind(TxState::StateKind::WAITING_START);  // for internal
-        out.set_kind(TxState::StateKind::WAITING_START); // for external
-    }
+    } // else: before own epoch, the state was set at begin or by termination
 
 
     return Status::OK;
-- 
2.43.0


From ea171f0889e89bd321c36d503979b2f88e780796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:04 +0000
Subject: [PATCH 25/39] fix: ignore read only transactions at the question for
 the highest priority

---
 src/concurrency_control/transaction_state.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/transaction_state.cpp b/src/concurrency_control/transaction_state.cpp
index edb8ee4..6442fb4 100644
--- a/src/concurrency_control/transaction_state.cpp
+++ b/src/concurrency_control/transaction_state.cpp
@@ -165,10 +165,16 @@ static Status check_ltx_is_highest_priority_body(Token token, bool& out) {
     {
         // take shared lock for ongoing tx info
         std::lock_guard<std::shared_mutex> lk{ongoing_tx::get_mtx()};
-        // check highest tx id
-        std::size_t highest_tx_id{std::get<ongoing_tx::index_id>(
-                (*ongoing_tx::get_tx_info().begin()))};
-        out = highest_tx_id == ti->get_long_tx_id();
+        // check highest tx id, read only tx has no priority
+        out = true;
+        for (auto&& elem : ongoing_tx::get_tx_info()) {
+            if (std::get<ongoing_tx::index_session>(elem)->get_tx_type() ==
+                transaction_options::transaction_type::LONG) {
+                out = std::get<ongoing_tx::index_id>(elem) ==
+                      ti->get_long_tx_id();
+                break;
+            }
+        }
     }
 
     return Status::OK;
-- 
2.43.0


From 43a26650ded3cc54f13eadccd5f025ce75461100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:04 +0000
Subject: [PATCH 26/39] fix: forget the transactions left open at shutdown

---
 src/concurrency_control/include/ongoing_tx.h    | 8 ++++++++
 src/concurrency_control/interface/shut_down.cpp | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/concurrency_control/include/ongoing_tx.h b/src/concurrency_control/include/ongoing_tx.h
index 83af7f1..fbfedcd 100644
--- a/src/concurrency_control/include/ongoing_tx.h
+++ b/src/concurrency_control/include/ongoing_tx.h
@@ -30,6 +30,14 @@ public:
     static constexpr std::size_t index_session = 2;
     using tx_info_type = std::vector<tx_info_elem_type>;
 
+    /**
+     * @brief forget all transactions, for shutdown.
+     */
+    static void clear() {
+        std::lock_guard<std::shared_mutex> lk{mtx_};
+        tx_info_.clear();
+    }
+
     static bool exist_id(std::size_t id);
 
     /**
diff --git a/src/concurrency_control/interface/shut_down.cpp b/src/concurrency_control/interface/shut_down.cpp
index 7b95edf..7d6e321 100644
--- a/src/concurrency_control/interface/shut_down.cpp
+++ b/src/concurrency_control/interface/shut_down.cpp
@@ -12,6 +12,7 @@
 
 #include "concurrency_control/bg_work/include/bg_commit.h"
 #include "concurrency_control/include/epoch_internal.h"
+#include "concurrency_control/include/ongoing_tx.h"
 #include "concurrency_control/include/read_plan.h"
 #include "concurrency_control/include/session.h"
 #include "concurrency_control/include/wp.h"
@@ -139,6 +140,9 @@ static void fin_body([[maybe_unused]] bool force_shut_down_logging) try {
     // about read area
     read_plan::fin();
 
+    // transactions left open must not affect the next startup
+    ongoing_tx::clear();
+
     // set flag
     set_is_shutdowning(false);
 
-- 
2.43.0


From ec078756ae5e65ec9ab0748c441aee35be00f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:10 +0000
Subject: [PATCH 27/39] fix: keep calls of several threads within one
 transaction apart

Writes and failing reads change the local sets of the transaction, so
other calls of the same transaction must not run at the same time.
---
 src/concurrency_control/interface/delete.cpp              | 4 ++--
 src/concurrency_control/interface/insert.cpp              | 4 ++--
 src/concurrency_control/interface/scan/next.cpp           | 2 +-
 src/concurrency_control/interface/scan/open_scan.cpp      | 2 +-
 .../interface/scan/read_kv_from_scan.cpp                  | 4 ++--
 .../interface/scan/scannable_total_index_size.cpp         | 2 +-
 src/concurrency_control/interface/search.cpp              | 4 ++--
 src/concurrency_control/interface/update.cpp              | 4 ++--
 src/concurrency_control/interface/upsert.cpp              | 8 +++++++-
 9 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index 0f47390..8970ed6 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -200,8 +200,8 @@ Status delete_record(Token token, Storage storage, const std::string_view key) {
     auto* ti = static_cast<session*>(token);
     ti->process_before_start_step();
     Status ret{};
-    { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+    { // for strand, a write must not overlap other data access of this tx
+        std::lock_guard<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
 
         // delete record body check warn not begin for strand
         ret = delete_record_body(token, storage, key);
diff --git a/src/concurrency_control/interface/insert.cpp b/src/concurrency_control/interface/insert.cpp
index b373a74..39a88ce 100644
--- a/src/concurrency_control/interface/insert.cpp
+++ b/src/concurrency_control/interface/insert.cpp
@@ -189,8 +189,8 @@ Status insert(Token const token, Storage const storage, // NOLINT
     auto* ti = static_cast<session*>(token);
     ti->process_before_start_step();
     Status ret{};
-    { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+    { // for strand, a write must not overlap other data access of this tx
+        std::lock_guard<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
 
         // insert_body check warn not begin
         ret = insert_body(token, storage, key, val, blobs_data, blobs_size);
diff --git a/src/concurrency_control/interface/scan/next.cpp b/src/concurrency_control/interface/scan/next.cpp
index 3aaea7c..789097b 100644
--- a/src/concurrency_control/interface/scan/next.cpp
+++ b/src/concurrency_control/interface/scan/next.cpp
@@ -274,7 +274,7 @@ Status next(Token const token, ScanHandle const handle) { // NOLINT
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term(), std::defer_lock};
+        std::unique_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term(), std::defer_lock};
         if (ti->get_mutex_flags().do_readaccess_daterm()) { lock.lock(); }
         if (get_scan_mode_iterator_based()) {
             ret = next_body_iscan(token, handle);
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index d725aeb..350f484 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -581,7 +581,7 @@ Status open_scan(Token const token, Storage storage, // NOLINT
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term(), std::defer_lock};
+        std::unique_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term(), std::defer_lock};
         if (ti->get_mutex_flags().do_readaccess_daterm()) { lock.lock(); }
         if (get_scan_mode_iterator_based()) {
             ret = open_scan_body_iscan(token, storage, l_key, l_end, r_key, r_end, handle, max_size, right_to_left);
diff --git a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
index 5157a7c..2ed05ab 100644
--- a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
+++ b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
@@ -239,7 +239,7 @@ Status read_key_from_scan(Token const token, ScanHandle const handle, // NOLINT
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term(), std::defer_lock};
+        std::unique_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term(), std::defer_lock};
         if (ti->get_mutex_flags().do_readaccess_daterm()) { lock.lock(); }
         ret = read_from_scan(token, handle, true, key);
     }
@@ -256,7 +256,7 @@ Status read_value_from_scan(Token const token, ScanHandle const handle, // NOLIN
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term(), std::defer_lock};
+        std::unique_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term(), std::defer_lock};
         if (ti->get_mutex_flags().do_readaccess_daterm()) { lock.lock(); }
         ret = read_from_scan(token, handle, false, value);
     }
diff --git a/src/concurrency_control/interface/scan/scannable_total_index_size.cpp b/src/concurrency_control/interface/scan/scannable_total_index_size.cpp
index c26d19c..8261d22 100644
--- a/src/concurrency_control/interface/scan/scannable_total_index_size.cpp
+++ b/src/concurrency_control/interface/scan/scannable_total_index_size.cpp
@@ -57,7 +57,7 @@ Status scannable_total_index_size(Token const token, ScanHandle const handle, //
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term(), std::defer_lock};
+        std::unique_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term(), std::defer_lock};
         if (ti->get_mutex_flags().do_readaccess_daterm()) { lock.lock(); }
         ret = scannable_total_index_size_body(token, handle, size);
     }
diff --git a/src/concurrency_control/interface/search.cpp b/src/concurrency_control/interface/search.cpp
index 064b8a4..6f38a24 100644
--- a/src/concurrency_control/interface/search.cpp
+++ b/src/concurrency_control/interface/search.cpp
@@ -67,7 +67,7 @@ Status exist_key(Token const token, Storage const storage, // NOLINT
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term(), std::defer_lock};
+        std::unique_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term(), std::defer_lock};
         if (ti->get_mutex_flags().do_readaccess_daterm()) { lock.lock(); }
         ret = exist_key_body(token, storage, key);
     }
@@ -124,7 +124,7 @@ Status search_key(Token const token, Storage const storage, // NOLINT
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term(), std::defer_lock};
+        std::unique_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term(), std::defer_lock};
         if (ti->get_mutex_flags().do_readaccess_daterm()) { lock.lock(); }
 
         // search_key_body check warn not begin by concurrent strand
diff --git a/src/concurrency_control/interface/update.cpp b/src/concurrency_control/interface/update.cpp
index f4d0409..dd96be9 100644
--- a/src/concurrency_control/interface/update.cpp
+++ b/src/concurrency_control/interface/update.cpp
@@ -124,8 +124,8 @@ Status update(Token token, Storage storage,
     auto* ti = static_cast<session*>(token);
     ti->process_before_start_step();
     Status ret{};
-    { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+    { // for strand, a write must not overlap other data access of this tx
+        std::lock_guard<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
 
         // update_body check termation by concurrent strand
         ret = update_body(token, storage, key, val, blobs_data, blobs_size);
diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index 515d29f..d8f1d34 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -161,7 +161,13 @@ Status upsert(Token token, Storage storage, std::string_view const key,
                         << " " << span_printer(blobs_data, blobs_size);
     auto* ti = static_cast<session*>(token);
     ti->process_before_start_step();
-    auto ret = upsert_body(token, storage, key, val, blobs_data, blobs_size);
+    Status ret{};
+    { // for strand, a write must not overlap other data access of this tx
+        std::lock_guard<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+
+        // upsert_body check warn not begin by concurrent strand
+        ret = upsert_body(token, storage, key, val, blobs_data, blobs_size);
+    }
     ti->process_before_finish_step();
     shirakami_log_exit << "upsert, Status: " << ret;
     return ret;
-- 
2.43.0


From 6b15ba1dfc63e668191a161494beb7e608b4c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:13:00 +0000
Subject: [PATCH 28/39] fix: drop results and write ranges of finished long
 transactions

Every long transaction that committed writes left its result and its write
range in the metadata of each storage it wrote. Nothing removed them. Results
older than the safe snapshot epoch are not needed by anyone and are now
dropped when the next one is registered. The write range of a transaction is
now removed together with its write preserve.
---
 src/concurrency_control/wp_meta.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/wp_meta.cpp b/src/concurrency_control/wp_meta.cpp
index 898a6b0..cd8d606 100644
--- a/src/concurrency_control/wp_meta.cpp
+++ b/src/concurrency_control/wp_meta.cpp
@@ -142,16 +142,27 @@ Status wp_meta::register_wp(epoch::epoch_t ep, std::size_t id) {
 [[nodiscard]] Status
 wp_meta::register_wp_result_and_remove_wp(wp_result_elem_type const& elem) {
     {
+        // no running or future ltx is ordered before this epoch
+        auto gc_threshold = epoch::get_cc_safe_ss_epoch();
         std::lock_guard<std::shared_mutex> lk{mtx_wp_result_set_};
+        wp_result_set_.erase(
+                std::remove_if(wp_result_set_.begin(), wp_result_set_.end(),
+                               [gc_threshold](auto& e) {
+                                   return wp_result_elem_extract_epoch(e) <
+                                          gc_threshold;
+                               }),
+                wp_result_set_.end());
         wp_result_set_.emplace_back(elem);
     }
     wp_lock_.lock();
     auto ret = remove_wp_without_lock(wp_result_elem_extract_id(elem));
-    if (ret == Status::OK) { return ret; }
-    wp_lock_.unlock();
+    if (ret != Status::OK) { wp_lock_.unlock(); }
 
-    // clear wp write range info
-    remove_write_range(std::get<1>(elem));
+    // clear wp write range info, it exists only if commit was requested
+    {
+        std::lock_guard<std::shared_mutex> lk{get_mtx_write_range()};
+        get_write_range().erase(wp_result_elem_extract_id(elem));
+    }
     return ret;
 }
 
-- 
2.43.0


From 62c1acf56886515b072fcfc38d2e654b3fddc91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:13:00 +0000
Subject: [PATCH 29/39] fix: collect versions of storage metadata and sequences

The list of storages given to the garbage collector does not contain the
internal storages for storage metadata and sequences. Their old versions were
never released.
---
 src/concurrency_control/garbage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/concurrency_control/garbage.cpp b/src/concurrency_control/garbage.cpp
index ccb7e6b..d7c88a0 100644
--- a/src/concurrency_control/garbage.cpp
+++ b/src/concurrency_control/garbage.cpp
@@ -393,6 +393,9 @@ static inline void unhooking_keys_and_pruning_versions_at_the_storage(
 static inline void unhooking_keys_and_pruning_versions(stats_info_type& stats_info) {
     std::vector<Storage> st_list;
     storage::list_storage(st_list);
+    // the storages of the system are not listed, but they grow too
+    st_list.emplace_back(storage::meta_storage);
+    st_list.emplace_back(storage::sequence_storage);
     for (auto&& st : st_list) {
         if (envflag_reduce_gc_) {
             wp::page_set_meta* psm{};
-- 
2.43.0


From afbf577219192f546df01aeffbfca002c5bc9b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:29 +0000
Subject: [PATCH 30/39] fix: change transaction states under their lock

The state of a transaction was written by the thread which commits it and by
every thread which asks for it, without any lock. A state could go back to
STARTED when it was asked for during the commit. Releasing a handle could take
away the handle of the next transaction of the session when the number of the
handle was used again at once.
---
 include/shirakami/transaction_state.h         | 45 ++++++++++-
 src/concurrency_control/include/session.h     | 49 +++++++-----
 .../interface/long_tx/termination.cpp         | 13 +---
 .../interface/read_only_tx/read_only_tx.cpp   | 13 +---
 .../interface/short_tx/termination.cpp        | 13 +---
 src/concurrency_control/transaction_state.cpp | 75 +++++++------------
 6 files changed, 103 insertions(+), 105 deletions(-)

diff --git a/include/shirakami/transaction_state.h b/include/shirakami/transaction_state.h
index d481604..aea0ec1 100644
--- a/include/shirakami/transaction_state.h
+++ b/include/shirakami/transaction_state.h
@@ -123,13 +123,17 @@ public:
                 return Status::WARN_INVALID_HANDLE;
             }
         }
-        {
-            std::unique_lock<std::mutex> lk{mtx_reuse_ctr_container_};
-            reuse_ctr_container_.emplace_back(hd);
-        }
         return Status::OK;
     }
 
+    /**
+     * @brief allow to use the number of an erased handle again.
+     */
+    static void reuse_handle_ctr(TxStateHandle hd) {
+        std::unique_lock<std::mutex> lk{mtx_reuse_ctr_container_};
+        reuse_ctr_container_.emplace_back(hd);
+    }
+
     static Status find_and_get_tx_state(TxStateHandle hd, TxState& out) {
         std::shared_lock<std::shared_mutex> lk{mtx_hc_};
         if (handle_container_.find(hd) != handle_container_.end()) {
@@ -139,6 +143,39 @@ public:
         return Status::WARN_INVALID_HANDLE;
     }
 
+    /**
+     * @brief change the state if it is still @a from, and get the current one.
+     * @return Status::OK success.
+     * @return Status::WARN_INVALID_HANDLE the handle was released.
+     */
+    static Status find_and_proceed_tx_state(TxStateHandle hd, StateKind from,
+                                            StateKind to, TxState& out) {
+        std::lock_guard<std::shared_mutex> lk{mtx_hc_};
+        auto itr = handle_container_.find(hd);
+        if (itr == handle_container_.end()) {
+            return Status::WARN_INVALID_HANDLE;
+        }
+        if (itr->second.kind_ == from) { itr->second.kind_ = to; }
+        out = itr->second;
+        return Status::OK;
+    }
+
+    /**
+     * @brief set the state of the transaction running on @a token.
+     * @param[in] durable_epoch the epoch to wait for. 0 if it is not known yet.
+     */
+    static void find_and_set_tx_state(TxStateHandle hd, void const* token,
+                                      StateKind kd, epoch_t durable_epoch = 0) {
+        std::lock_guard<std::shared_mutex> lk{mtx_hc_};
+        auto itr = handle_container_.find(hd);
+        // the handle may be released concurrently
+        if (itr == handle_container_.end() || itr->second.token_ != token) {
+            return;
+        }
+        if (durable_epoch != 0) { itr->second.durable_epoch_ = durable_epoch; }
+        itr->second.kind_ = kd;
+    }
+
     /**
      * @brief Initialization needed at shirakami initialization.
      */
diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 3d42478..2a8017a 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -140,10 +140,16 @@ public:
     }
 
     void clear_about_tx_state() {
-        if (get_has_current_tx_state_handle()) {
-            // valid
-            set_has_current_tx_state_handle(false);
-            set_current_tx_state_handle(undefined_handle);
+        set_current_tx_state_handle(undefined_handle);
+        set_current_tx_state_ptr(nullptr);
+    }
+
+    /**
+     * @brief forget the handle if it is still the one of the current tx.
+     */
+    void clear_about_tx_state(TxStateHandle hd) {
+        if (current_tx_state_handle_.compare_exchange_strong(
+                    hd, undefined_handle)) {
             set_current_tx_state_ptr(nullptr);
         }
     }
@@ -249,7 +255,7 @@ public:
 
     // ========== start: tx state
     [[nodiscard]] bool get_has_current_tx_state_handle() const {
-        return has_current_tx_state_handle_;
+        return get_current_tx_state_handle() != undefined_handle;
     }
 
     [[nodiscard]] TxStateHandle get_current_tx_state_handle() const {
@@ -551,17 +557,26 @@ public:
         current_tx_state_handle_.store(hd, std::memory_order_release);
     }
 
-    void set_has_current_tx_state_handle(bool tf) {
-        has_current_tx_state_handle_ = tf;
-    }
-
     void set_current_tx_state_ptr(TxState* ptr) { current_tx_state_ptr_ = ptr; }
 
     void set_tx_state_if_valid(TxState::StateKind st) const {
         if (get_has_current_tx_state_handle()) {
-            if (get_current_tx_state_ptr()->state_kind() != st) {
-                get_current_tx_state_ptr()->set_kind(st);
-            }
+            TxState::find_and_set_tx_state(get_current_tx_state_handle(),
+                                           this, st);
+        }
+    }
+
+    void set_tx_state_committed([[maybe_unused]] epoch::epoch_t durable_epoch) const {
+        if (get_has_current_tx_state_handle()) {
+#ifdef PWAL
+            TxState::find_and_set_tx_state(
+                    get_current_tx_state_handle(), this,
+                    TxState::StateKind::WAITING_DURABLE, durable_epoch);
+#else
+            TxState::find_and_set_tx_state(get_current_tx_state_handle(),
+                                           this,
+                                           TxState::StateKind::DURABLE);
+#endif
         }
     }
 
@@ -870,14 +885,12 @@ private:
     // ========== start: tx state
 
     /**
-     * @brief whether acquire_tx_state_handle api is called for current tx.
-     * @details If this is true, @a current_tx_status_handle_ is valid object.
+     * @brief the handle acquired by acquire_tx_state_handle api for current tx.
+     * @details undefined_handle if that api is not called.
      */
-    bool has_current_tx_state_handle_{false};
-
-    std::atomic<TxStateHandle> current_tx_state_handle_{};
+    std::atomic<TxStateHandle> current_tx_state_handle_{undefined_handle};
 
-    TxState* current_tx_state_ptr_{};
+    std::atomic<TxState*> current_tx_state_ptr_{};
     // ========== end: tx state
 
     // ========== start: diagnostics
diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index ce16fdb..2d08157 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -674,17 +674,8 @@ Status check_wait_for_preceding_bt(session* const ti) {
 }
 
 static void process_tx_state(session* ti,
-                             [[maybe_unused]] epoch::epoch_t durable_epoch) {
-    if (ti->get_has_current_tx_state_handle()) {
-#ifdef PWAL
-        // this tx state is checked
-        ti->get_current_tx_state_ptr()->set_durable_epoch(durable_epoch);
-        ti->get_current_tx_state_ptr()->set_kind(
-                TxState::StateKind::WAITING_DURABLE);
-#else
-        ti->get_current_tx_state_ptr()->set_kind(TxState::StateKind::DURABLE);
-#endif
-    }
+                             epoch::epoch_t durable_epoch) {
+    ti->set_tx_state_committed(durable_epoch);
 }
 
 static void update_read_area(session* const ti) {
diff --git a/src/concurrency_control/interface/read_only_tx/read_only_tx.cpp b/src/concurrency_control/interface/read_only_tx/read_only_tx.cpp
index 6b6483a..4c60815 100644
--- a/src/concurrency_control/interface/read_only_tx/read_only_tx.cpp
+++ b/src/concurrency_control/interface/read_only_tx/read_only_tx.cpp
@@ -29,17 +29,8 @@ Status abort(session* const ti) {
 }
 
 static void process_tx_state(session* const ti,
-                             [[maybe_unused]] epoch::epoch_t const durable_epoch) {
-    if (ti->get_has_current_tx_state_handle()) {
-#ifdef PWAL
-        // this tx state is checked
-        ti->get_current_tx_state_ptr()->set_durable_epoch(durable_epoch);
-        ti->get_current_tx_state_ptr()->set_kind(
-                TxState::StateKind::WAITING_DURABLE);
-#else
-        ti->get_current_tx_state_ptr()->set_kind(TxState::StateKind::DURABLE);
-#endif
-    }
+                             epoch::epoch_t const durable_epoch) {
+    ti->set_tx_state_committed(durable_epoch);
 }
 
 Status commit(session* const ti) {
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index db24703..d02574d 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -766,17 +766,8 @@ static void register_range_read_by_short(session* const ti) {
 }
 
 static void process_tx_state(session* ti,
-                             [[maybe_unused]] epoch::epoch_t durable_epoch) {
-    if (ti->get_has_current_tx_state_handle()) {
-// this tx state is checked
-#ifdef PWAL
-        ti->get_current_tx_state_ptr()->set_durable_epoch(durable_epoch);
-        ti->get_current_tx_state_ptr()->set_kind(
-                TxState::StateKind::WAITING_DURABLE);
-#else
-        ti->get_current_tx_state_ptr()->set_kind(TxState::StateKind::DURABLE);
-#endif
-    }
+                             epoch::epoch_t durable_epoch) {
+    ti->set_tx_state_committed(durable_epoch);
 }
 
 extern Status commit(session* const ti) {
diff --git a/src/concurrency_control/transaction_state.cpp b/src/concurrency_control/transaction_state.cpp
index 6442fb4..77836d6 100644
--- a/src/concurrency_control/transaction_state.cpp
+++ b/src/concurrency_control/transaction_state.cpp
@@ -24,12 +24,11 @@ static Status acquire_tx_state_handle_body(Token const token, // NOLINT
     }
 
     // generate tx state handle
-    ti->set_has_current_tx_state_handle(true);
     TxStateHandle hd{TxState::get_new_handle_ctr()};
-    ti->set_current_tx_state_handle(hd);
     handle = hd;
     TxState::insert_tx_state(hd);
     TxState& ts{TxState::get_tx_state(hd)};
+    ti->set_current_tx_state_handle(hd);
     ti->set_current_tx_state_ptr(&ts);
     ts.set_token(token);
     if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
@@ -71,10 +70,10 @@ static Status release_tx_state_handle_body(TxStateHandle handle) {
     auto rc{TxState::find_and_erase_tx_state(handle, token)};
     if (rc == Status::OK) {
         auto* ti{static_cast<session*>(token)};
-        if (handle == ti->get_current_tx_state_handle()) {
-            // the tx is running.
-            ti->clear_about_tx_state();
-        }
+        // if the tx is running, it must not use the handle anymore.
+        ti->clear_about_tx_state(handle);
+        // after this, another tx may get the same number.
+        TxState::reuse_handle_ctr(handle);
         return Status::OK;
     }
     return rc;
@@ -92,54 +91,30 @@ static Status check_tx_state_body(TxStateHandle handle, TxState& out) {
     auto rc{TxState::find_and_get_tx_state(handle, out)};
     if (rc == Status::WARN_INVALID_HANDLE) { return rc; }
     // handle is valid
-    auto& ts{TxState::get_tx_state(handle)};
-    // short tx
-    if (out.get_serial_epoch() == 0) {
-        if (ts.state_kind() == TxState::StateKind::WAITING_DURABLE) {
+    if (out.state_kind() == TxState::StateKind::WAITING_DURABLE) {
 #ifdef PWAL
-            if (ts.get_durable_epoch() <=
-                epoch::get_datastore_durable_epoch()) {
-                ts.set_kind(TxState::StateKind::DURABLE);  // for internal
-                out.set_kind(TxState::StateKind::DURABLE); // for external
-            }
-#else
-            LOG_FIRST_N(ERROR, 1)
-                    << log_location_prefix
-                    << "if no logging, it must not be waiting_durabule status";
-            return Status::ERR_FATAL;
-#endif
+        if (out.get_durable_epoch() <= epoch::get_datastore_durable_epoch()) {
+            return TxState::find_and_proceed_tx_state(
+                    handle, TxState::StateKind::WAITING_DURABLE,
+                    TxState::StateKind::DURABLE, out);
         }
-        return Status::OK;
-    }
-
-    // long tx
-    if (out.get_serial_epoch() <= epoch::get_global_epoch()) {
-        if (ts.state_kind() == TxState::StateKind::WAITING_START) {
-            // check high priori stx
-            auto* ti = static_cast<session*>(ts.get_token());
-            if (ti->find_high_priority_short(true) != Status::WARN_PREMATURE) {
-                ts.set_kind(TxState::StateKind::STARTED);  // for internal
-                out.set_kind(TxState::StateKind::STARTED); // for external
-            }                                              // else : premature
-        } else if (ts.state_kind() == TxState::StateKind::WAITING_CC_COMMIT) {
-            // waiting for commit by background worker.
-            out.set_kind(TxState::StateKind::WAITING_CC_COMMIT); // for external
-        } else if (ts.state_kind() == TxState::StateKind::WAITING_DURABLE) {
-#ifdef PWAL
-            if (ts.get_durable_epoch() <=
-                epoch::get_datastore_durable_epoch()) {
-                ts.set_kind(TxState::StateKind::DURABLE);  // for internal
-                out.set_kind(TxState::StateKind::DURABLE); // for external
-            }
 #else
-            LOG_FIRST_N(ERROR, 1)
-                    << log_location_prefix
-                    << "if no logging, it must not be waiting_durable status";
-            return Status::ERR_FATAL;
+        LOG_FIRST_N(ERROR, 1)
+                << log_location_prefix
+                << "if no logging, it must not be waiting_durable status";
+        return Status::ERR_FATAL;
 #endif
-        }
-    } // else: before own epoch, the state was set at begin or by termination
-
+    } else if (out.state_kind() == TxState::StateKind::WAITING_START &&
+               // long tx
+               out.get_serial_epoch() <= epoch::get_global_epoch()) {
+        // check high priori stx
+        auto* ti = static_cast<session*>(out.get_token());
+        if (ti->find_high_priority_short(true) != Status::WARN_PREMATURE) {
+            return TxState::find_and_proceed_tx_state(
+                    handle, TxState::StateKind::WAITING_START,
+                    TxState::StateKind::STARTED, out);
+        } // else : premature
+    } // else: the state was set at begin or by termination
 
     return Status::OK;
 }
-- 
2.43.0


From a29e984526ea091bb4947f07384bd86a39af06af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:09:39 +0000
Subject: [PATCH 31/39] fix: count transactions which just begin when
 collecting versions

The garbage collection manager looked for running long and read-only
transactions first and read the epoch of the safe snapshot afterwards.
A read-only transaction which began in between took an older snapshot and
was not counted, so that versions it needs were collected.

Read the safe snapshot epoch first and count the registered transactions,
too: a session is marked as begun only at the end of tx_begin.
---
 src/concurrency_control/garbage.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/garbage.cpp b/src/concurrency_control/garbage.cpp
index d7c88a0..391aba9 100644
--- a/src/concurrency_control/garbage.cpp
+++ b/src/concurrency_control/garbage.cpp
@@ -7,6 +7,7 @@
 
 #include "concurrency_control/include/epoch.h"
 #include "concurrency_control/include/garbage.h"
+#include "concurrency_control/include/ongoing_tx.h"
 #include "concurrency_control/include/session.h"
 #include "concurrency_control/include/wp.h"
 
@@ -88,7 +89,20 @@ void work_manager() {
         epoch::epoch_t min_begin_epoch{epoch::max_epoch}; // for occ
         // computing about short
         epoch::epoch_t before_loop{epoch::get_global_epoch()};
+        /**
+         * This must be read before looking for ltx and rtx. If they begin after
+         * that and are missed, they never read a snapshot older than this.
+         */
+        auto csse = epoch::get_cc_safe_ss_epoch();
         epoch::epoch_t valid_epoch{0};
+        {
+            // tx_began of the session is set later than this registration.
+            std::shared_lock<std::shared_mutex> lk{ongoing_tx::get_mtx()};
+            for (auto&& elem : ongoing_tx::get_tx_info()) {
+                auto ve = std::get<ongoing_tx::index_epoch>(elem);
+                if (valid_epoch == 0 || ve < valid_epoch) { valid_epoch = ve; }
+            }
+        }
         for (auto&& se : session_table::get_session_table()) {
             if (se.get_visible() && se.get_tx_began()) {
                 min_begin_epoch = std::min(min_begin_epoch, se.get_begin_epoch());
@@ -128,10 +142,9 @@ void work_manager() {
         // computing about ltx
         if (valid_epoch != 0) {
             // exist some ltx
-            auto csse = epoch::get_cc_safe_ss_epoch();
             set_min_batch_epoch(std::min(csse, valid_epoch));
         } else {
-            set_min_batch_epoch(epoch::get_cc_safe_ss_epoch());
+            set_min_batch_epoch(csse);
         }
 #ifdef PWAL
         switch_available_boundary_version(shirakami::datastore::get_datastore(), std::min(get_min_begin_epoch(), get_min_batch_epoch()));
-- 
2.43.0


From a90b03fb0791a0a5c62b567fa4300d2a8ebab503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:29 +0000
Subject: [PATCH 32/39] fix: tell versions of long and short transactions apart
 at read verify

The number within an epoch of a version written by a long transaction is its
id, the one written by a short transaction is a counter. Both can be equal
within one epoch. Read verify compared epoch and number only, so that a short
transaction could commit although a value written by a long transaction had
been overwritten after it was read.
---
 src/concurrency_control/interface/short_tx/termination.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index d02574d..5636c2c 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -189,6 +189,8 @@ static Status read_verify(session* ti, tid_word read_tid, tid_word check,
             read_tid.get_tid() != check.get_tid() ||
             // different epoch
             read_tid.get_epoch() != check.get_epoch() ||
+            // tid of stx and id of ltx are not unique to each other
+            read_tid.get_by_short() != check.get_by_short() ||
             // locked and it's not own.
             (check.get_lock() &&
              ti->get_write_set().search(rec_ptr) == nullptr)) {
-- 
2.43.0


From dbc5b4ac3d9ebbfcffaab7b4eea977dde7a6afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:36:29 +0000
Subject: [PATCH 33/39] fix: announce everything a waiting long transaction has
 read

A long transaction which may be ordered before others waits for older ones
which may have read what it writes. The announced reads of an older one which
had requested its commit missed the keys whose existence insert, update and
delete had decided on, and the parts of scan ranges without records. So both
could commit although no serial order explains them.
---
 src/concurrency_control/include/session.h     | 42 +++++++++++++++++++
 src/concurrency_control/interface/helper.cpp  |  2 +
 .../interface/scan/open_scan.cpp              |  1 +
 3 files changed, 45 insertions(+)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 2a8017a..283d1ba 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -532,6 +532,48 @@ public:
         }
     }
 
+    void insert_to_ltx_storage_read_set(Storage const st,
+                                        std::string_view const l_key,
+                                        scan_endpoint const l_end,
+                                        std::string_view const r_key,
+                                        scan_endpoint const r_end) {
+        std::lock_guard<std::shared_mutex> lk{get_mtx_ltx_storage_read_set()};
+        auto [itr, inserted] = get_ltx_storage_read_set().emplace(
+                st, std::make_tuple(std::string(l_key), l_end,
+                                    std::string(r_key), r_end));
+        if (inserted) { return; }
+        auto& [now_lkey, now_lpoint, now_rkey, now_rpoint] = itr->second;
+        // check initialize
+        if (now_lkey.empty() && now_lpoint == scan_endpoint::EXCLUSIVE &&
+            now_rkey.empty() && now_rpoint == scan_endpoint::EXCLUSIVE) {
+            now_lkey = l_key;
+            now_lpoint = l_end;
+            now_rkey = r_key;
+            now_rpoint = r_end;
+            return;
+        }
+        // widen to the left
+        if (now_lpoint != scan_endpoint::INF) {
+            if (l_end == scan_endpoint::INF || l_key < now_lkey) {
+                now_lkey = l_key;
+                now_lpoint = l_end;
+            } else if (l_key == now_lkey &&
+                       l_end == scan_endpoint::INCLUSIVE) {
+                now_lpoint = l_end;
+            }
+        }
+        // widen to the right
+        if (now_rpoint != scan_endpoint::INF) {
+            if (r_end == scan_endpoint::INF || now_rkey < r_key) {
+                now_rkey = r_key;
+                now_rpoint = r_end;
+            } else if (r_key == now_rkey &&
+                       r_end == scan_endpoint::INCLUSIVE) {
+                now_rpoint = r_end;
+            }
+        }
+    }
+
     void push_to_read_set_for_stx(read_set_obj&& elem) {
         // take write lock
         std::lock_guard<std::shared_mutex> lk{mtx_read_set_for_stx_};
diff --git a/src/concurrency_control/interface/helper.cpp b/src/concurrency_control/interface/helper.cpp
index 5820ccc..976b79d 100644
--- a/src/concurrency_control/interface/helper.cpp
+++ b/src/concurrency_control/interface/helper.cpp
@@ -75,6 +75,8 @@ Status check_before_write_ops(session* const ti, Storage const st,
                 ti->set_result(reason_code::CC_LTX_READ_AREA_VIOLATION);
                 return rs;
             }
+            // it reads the key
+            ti->insert_to_ltx_storage_read_set(st, std::string(key));
             // insert and delete with read
             // may need forwarding
             long_tx::wp_verify_and_forwarding(ti, wm, key);
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 350f484..6f09835 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -282,6 +282,7 @@ static Status open_scan_precheck(
          */
         ti->get_range_read_set_for_ltx().insert(std::make_tuple(
                 rrbp, std::string(l_key), l_end, std::string(r_key), r_end));
+        ti->insert_to_ltx_storage_read_set(storage, l_key, l_end, r_key, r_end);
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::SHORT) {
         wp::page_set_meta* psm{};
-- 
2.43.0


From 466cf1464a1c7396d4e925959909ba429a5e69bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:36:29 +0000
Subject: [PATCH 34/39] fix: let long transactions of the same epoch write
 before a forwarded one

A long transaction ordered before others keeps its larger id. When it wrote
first, a write of another one with the same epoch and a smaller id was taken
as older and dropped, although it belongs behind the forwarded one. Wait for
the others which preserve the written storages.
---
 .../interface/long_tx/termination.cpp         | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 2d08157..9dbcf95 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -463,6 +463,21 @@ static void register_read_by(session* const ti) {
     }
 }
 
+static bool exist_wp_in_same_epoch(session* const ti) {
+    std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
+    for (auto&& elem : ti->get_write_set().get_storage_map()) {
+        wp::wp_meta* wm{};
+        if (wp::find_wp_meta(elem.first, wm) != Status::OK) { continue; }
+        for (auto&& wped : wm->get_wped()) {
+            if (wped.first == ti->get_valid_epoch() &&
+                wped.second < ti->get_long_tx_id()) {
+                return true;
+            }
+        }
+    }
+    return false;
+}
+
 static Status verify(session* const ti) {
     // forwarding verify
     auto gc_threshold = epoch::get_cc_safe_ss_epoch();
@@ -543,6 +558,15 @@ static Status verify(session* const ti) {
         }
     }
     if (ti->get_is_forwarding()) {
+        /**
+         * The order of ltxs which have the same epoch is expressed by their
+         * ids, but this is in front of others in spite of its larger id. So
+         * they must write before this.
+         */
+        if (exist_wp_in_same_epoch(ti)) {
+            return Status::WARN_WAITING_FOR_OTHER_TX;
+        }
+
         // verify for write set
         {
             std::shared_lock<std::shared_mutex> lk{
@@ -731,9 +755,7 @@ extern Status commit(session* const ti) {
      * WP2: If it is possible to prepend the order, it waits for a transaction
      * with a higher priority than itself to finish the operation.
      */
-    // check wait
-    auto rc = check_wait_for_preceding_bt(ti);
-    if (rc == Status::WARN_WAITING_FOR_OTHER_TX) {
+    auto wait_process = [ti, &str_tx_id]() {
         ti->set_tx_state_if_valid(TxState::StateKind::WAITING_CC_COMMIT);
         if (!ti->get_requested_commit()) {
             // start wait
@@ -747,7 +769,10 @@ extern Status commit(session* const ti) {
             bg_work::bg_commit::register_tx(static_cast<void*>(ti));
         }
         return Status::WARN_WAITING_FOR_OTHER_TX;
-    }
+    };
+    // check wait
+    auto rc = check_wait_for_preceding_bt(ti);
+    if (rc == Status::WARN_WAITING_FOR_OTHER_TX) { return wait_process(); }
     if (rc == Status::ERR_CC) {
         // log debug timing event
         VLOG(log_debug_timing_event) << log_location_prefix_timing_event
@@ -774,6 +799,7 @@ extern Status commit(session* const ti) {
         rc = Status::OK;
     }
 
+    if (rc == Status::WARN_WAITING_FOR_OTHER_TX) { return wait_process(); }
     if (rc == Status::ERR_CC) {
         // verfy fail
         // log debug timing event
-- 
2.43.0


From 34aefe04e90eb959de7e07e6e7f610f5d308cbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:04:56 +0000
Subject: [PATCH 35/39] fix: retry a scan read of a record whose state changed
 meanwhile

---
 .../interface/scan/read_kv_from_scan.cpp            | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
index 2ed05ab..22e2a95 100644
--- a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
+++ b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
@@ -147,6 +147,7 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
     }
     if (ti->get_tx_type() == transaction_options::transaction_type::LONG ||
         ti->get_tx_type() == transaction_options::transaction_type::READ_ONLY) {
+    RETRY:
         version* ver{};
         bool is_latest{false};
         tid_word f_check{};
@@ -193,16 +194,10 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
             /**
              * else: fail to do optimistic read latest version. retry version
              * function.
-             * It may find null version.
+             * The latest version may be yet the version which this tx should
+             * read, e.g. an insert to the deleted record was aborted.
              */
-            ver = rec_ptr->get_latest();
-            rc = long_tx::version_function_without_optimistic_check(
-                    ti->get_valid_epoch(), ver);
-            if (rc == Status::WARN_NOT_FOUND) {
-                // version list traversed.
-                read_register_if_ltx(rec_ptr);
-                return rc;
-            }
+            goto RETRY; // NOLINT
         }
 
         if (!ver->get_tid().get_absent()) {
-- 
2.43.0


From 1272b3ee7d18019e788bf061e8e23b005a55e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:04:56 +0000
Subject: [PATCH 36/39] fix: access the version word of old versions atomically

---
 src/concurrency_control/include/version.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/include/version.h b/src/concurrency_control/include/version.h
index 1538999..4edf2a5 100644
--- a/src/concurrency_control/include/version.h
+++ b/src/concurrency_control/include/version.h
@@ -8,6 +8,7 @@
 #include <shared_mutex>
 #include <string_view>
 
+#include "atomic_wrapper.h"
 #include "cpu.h"
 
 #include "concurrency_control/include/tid.h"
@@ -49,7 +50,9 @@ public:
         out = value_;
     }
 
-    [[nodiscard]] tid_word get_tid() const { return tid_; }
+    [[nodiscard]] tid_word get_tid() const {
+        return tid_word{loadAcquire(tid_.get_obj())};
+    }
 
     /**
      * @brief set value
@@ -64,7 +67,9 @@ public:
         next_.store(next, std::memory_order_release);
     }
 
-    void set_tid(tid_word const& tid) { tid_ = tid; }
+    void set_tid(tid_word const& tid) {
+        storeRelease(tid_.get_obj(), tid.get_obj());
+    }
 
 private:
     tid_word tid_{};
-- 
2.43.0


From f38fde73c53befc8e509944e389b0732c0caf52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:04:56 +0000
Subject: [PATCH 37/39] fix: keep overtaken long transactions from finishing
 while they are registered

---
 .../interface/long_tx/helper.cpp              | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index 1e024d6..536eca9 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -234,16 +234,38 @@ Status version_function_with_optimistic_check(Record* rec, epoch::epoch_t ep,
     return version_function_without_optimistic_check(ep, ver);
 }
 
+/**
+ * @brief Calls @a func with the living wps of the storage.
+ * @details If there are ltxs of higher priority, they can not finish until
+ * @a func returns. Otherwise cc_safe_ss_epoch may pass the ltx in the meantime
+ * although this tx may be ordered before it.
+ */
+template<class F>
+static void call_with_wps(session* ti, wp::wp_meta* wp_meta_ptr, F&& func) {
+    auto wps = wp_meta_ptr->get_wped();
+    auto is_higher_priori = [ti](auto const& wped) {
+        return wped.second != 0 && wped.second < ti->get_long_tx_id();
+    };
+    if (std::any_of(wps.begin(), wps.end(), is_higher_priori)) {
+        std::shared_lock<std::shared_mutex> lk{ongoing_tx::get_mtx()};
+        func(wp_meta_ptr->get_wped());
+    } else {
+        func(wps);
+    }
+}
+
 void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr,
                               const std::string_view read_key) {
-    auto wps = wp_meta_ptr->get_wped();
-    wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps, read_key);
+    call_with_wps(ti, wp_meta_ptr, [&](auto const& wps) {
+        wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps, read_key);
+    });
 }
 
 void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr) {
     // the high priority ltx may be already committed, so check wp result too
-    auto wps = wp_meta_ptr->get_wped();
-    wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
+    call_with_wps(ti, wp_meta_ptr, [&](auto const& wps) {
+        wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
+    });
 }
 
 void update_local_read_range(session* ti, wp::wp_meta* wp_meta_ptr,
-- 
2.43.0


From 46bb5bedf131c11f1242ee5c49dd0032ba38167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:23:29 +0000
Subject: [PATCH 38/39] fix: share the tombstone until the write of a long
 transaction is visible

---
 .../interface/long_tx/termination.cpp         | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 9dbcf95..99df60e 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -116,19 +116,6 @@ static inline void expose_local_write(
         switch (wso.get_op()) {
             case OP_TYPE::UPSERT:
             case OP_TYPE::INSERT: {
-                // about tombstone count
-                if (wso.get_inc_tombstone()) {
-                    auto* rec_ptr = wso.get_rec_ptr();
-                    rec_ptr->get_tidw_ref().lock();
-                    if (rec_ptr->get_shared_tombstone_count() == 0) {
-                        LOG_FIRST_N(ERROR, 1)
-                                << log_location_prefix << "unreachable path.";
-                    } else {
-                        --rec_ptr->get_shared_tombstone_count();
-                    }
-                    rec_ptr->get_tidw_ref().unlock();
-                }
-
                 tid_word tid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
                 auto check_cd = [&tid]() {
                     return tid.get_absent() && // inserting or deleted
@@ -271,6 +258,23 @@ static inline void expose_local_write(
             }
         }
         if (wso.get_inc_tombstone()) {
+            /**
+             * about tombstone count. It must be kept until here, otherwise
+             * abort of another tx which shares the tombstone lets gc unhook
+             * the record before this write.
+             */
+            if (wso.get_op() == OP_TYPE::UPSERT ||
+                wso.get_op() == OP_TYPE::INSERT) {
+                rec_ptr->get_tidw_ref().lock();
+                if (rec_ptr->get_shared_tombstone_count() == 0) {
+                    LOG_FIRST_N(ERROR, 1)
+                            << log_location_prefix << "unreachable path.";
+                } else {
+                    --rec_ptr->get_shared_tombstone_count();
+                }
+                rec_ptr->get_tidw_ref().unlock();
+            }
+
             // this write may be older than the deletion which left the record
             // in inserting state for this tx
             auto check_cd = [rec_ptr](tid_word tid) {
-- 
2.43.0


From 56048717075570e55171ede149e2c474c37c5d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:36:23 +0000
Subject: [PATCH 39/39] fix: keep reads of absent records by short tx visible
 to ltx after gc

A short tx which finds a deleted record registered its read only at the
record. When gc unhooked the record, a ltx which is ordered before that short
tx could insert the key again without noticing the read. Register the read
also for the range of the storage, as for keys which are not in the index.
---
 .../interface/short_tx/search.cpp             | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/search.cpp b/src/concurrency_control/interface/short_tx/search.cpp
index 33829e3..c83de1a 100644
--- a/src/concurrency_control/interface/short_tx/search.cpp
+++ b/src/concurrency_control/interface/short_tx/search.cpp
@@ -32,6 +32,18 @@ static inline Status wp_verify(session* const ti, Storage const st) {
     return Status::OK;
 }
 
+static inline Status register_range_read(session* const ti, Storage const st) {
+    wp::page_set_meta* psm{};
+    auto rc_fpsm{wp::find_page_set_meta(st, psm)};
+    if (rc_fpsm == Status::WARN_NOT_FOUND) {
+        LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
+        return Status::ERR_FATAL;
+    }
+    range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
+    ti->push_to_range_read_by_short_set(st, rrbs);
+    return Status::OK;
+}
+
 Status search_key(session* ti, Storage const storage,
                   std::string_view const key, std::string& value,
                   bool const read_value) {
@@ -56,14 +68,8 @@ Status search_key(session* ti, Storage const storage,
         }
 
         // read protection for low priori ltx
-        wp::page_set_meta* psm{};
-        auto rc_fpsm{wp::find_page_set_meta(storage, psm)};
-        if (rc_fpsm == Status::WARN_NOT_FOUND) {
-            LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
-            return Status::ERR_FATAL;
-        }
-        range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
-        ti->push_to_range_read_by_short_set(storage, rrbs);
+        auto rc_rr = register_range_read(ti, storage);
+        if (rc_rr != Status::OK) { return rc_rr; }
         return rc;
     }
 
@@ -91,6 +97,12 @@ Status search_key(session* ti, Storage const storage,
         // it read normal page
         if (read_value) { value = read_res; }
     }
+    if (rs != Status::OK) {
+        // the absent record may be unhooked by gc before low priori ltx
+        // inserts the key again, so the record can't keep this read
+        auto rc_rr = register_range_read(ti, storage);
+        if (rc_rr != Status::OK) { return rc_rr; }
+    }
     ti->push_to_read_set_for_stx({storage, rec_ptr, read_tid});
     return rs;
 }
-- 
2.43.0

