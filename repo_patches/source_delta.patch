From 6d1befa57a2e7b8e3256a8e51e5e78d37e01b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:00 +0000
Subject: [PATCH 01/49] fix: replicate_log reports acceptance, announces the
 entry and appends it under the server lock

---
 src/raft_server.cxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 2cd053b..6f9cf04 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1079,6 +1079,7 @@ bool raft_server::is_leader() const
 
 bool raft_server::replicate_log(bufptr& log, const ptr<void>& cookie, uint cookie_tag)
 {
+    recur_lock(lock_);
     if (!is_leader())
     {
         return false;
@@ -1091,10 +1092,7 @@ bool raft_server::replicate_log(bufptr& log, const ptr<void>& cookie, uint cooki
     }
 
     log_store_->append(entry);
-    {
-        recur_lock(lock_);
-        request_append_entries();
-    }
-
-    return false;
+    state_machine_->pre_commit(log_store_->next_slot() - 1, entry->get_buf(), entry->get_cookie());
+    request_append_entries();
+    return true;
 }
-- 
2.43.0


From dcec44d985da257d9690a399a636e43b35771193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:00 +0000
Subject: [PATCH 02/49] fix: is_leader re-evaluates the leader lease on every
 call and per server

---
 src/raft_server.cxx | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 6f9cf04..6fc6ba0 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1052,10 +1052,8 @@ ptr<async_result<bool>> raft_server::send_msg_to_leader(ptr<req_msg>& req)
 
 bool raft_server::is_leader() const
 {
-    static volatile int32 time_elasped_since_quorum_resp(std::numeric_limits<int32>::max());
     read_lock(peers_lock_);
-    if (role_ == srv_role::leader && peers_.size() > 0 &&
-        time_elasped_since_quorum_resp > ctx_->params_->election_timeout_upper_bound_ * 2)
+    if (role_ == srv_role::leader && peers_.size() > 0)
     {
         std::vector<time_point> peer_resp_times;
         for (auto& peer : peers_)
@@ -1064,10 +1062,9 @@ bool raft_server::is_leader() const
         }
 
         std::sort(peer_resp_times.begin(), peer_resp_times.end());
-        time_elasped_since_quorum_resp =
-            static_cast<int32>(std::chrono::duration_cast<std::chrono::milliseconds>(
-                                   system_clock::now() - peer_resp_times[peers_.size() / 2])
-                                   .count());
+        int64_t time_elasped_since_quorum_resp = std::chrono::duration_cast<std::chrono::milliseconds>(
+                                                     system_clock::now() - peer_resp_times[peers_.size() / 2])
+                                                     .count();
         if (time_elasped_since_quorum_resp > ctx_->params_->election_timeout_upper_bound_ * 2)
         {
             return false;
-- 
2.43.0


From a7cef183b8d2282464a6fea479b642ffa8b89485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:00 +0000
Subject: [PATCH 03/49] fix: roll back every entry that is discarded by an
 overwrite, not only the first one

---
 src/raft_server_req_handlers.cxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 41d9891..83160cc 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -137,20 +137,23 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
             }
         }
 
-        // dealing with overwrites
-        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
+        // dealing with overwrites, everything starts from the first conflict will be discarded
+        for (ulong last_idx = log_store_->next_slot(); log_idx < req.log_entries().size() && last_idx > idx; --last_idx)
         {
-            ptr<log_entry> old_entry(log_store_->entry_at(idx));
+            ptr<log_entry> old_entry(log_store_->entry_at(last_idx - 1));
             if (old_entry->get_val_type() == log_val_type::app_log)
             {
-                state_machine_->rollback(idx, old_entry->get_buf(), old_entry->get_cookie());
+                state_machine_->rollback(last_idx - 1, old_entry->get_buf(), old_entry->get_cookie());
             }
             else if (old_entry->get_val_type() == log_val_type::conf)
             {
                 l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
                 config_changing_ = false;
             }
+        }
 
+        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
+        {
             ptr<log_entry> entry = req.log_entries().at(log_idx);
             log_store_->write_at(idx, entry);
             if (entry->get_val_type() == log_val_type::app_log)
-- 
2.43.0


From e50ae3997a96edf2dab0ca570950d9e902046471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:00 +0000
Subject: [PATCH 04/49] fix: a follower commits only entries verified by the
 append entries request

---
 src/raft_server_req_handlers.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 83160cc..3fbf1d5 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -188,7 +188,8 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     }
 
     leader_ = req.get_src();
-    commit(req.get_commit_idx());
+    // only the entries that are known to be same as leader's could be committed
+    commit(std::min(req.get_commit_idx(), (ulong)(req.get_last_log_idx() + req.log_entries().size())));
     resp->accept(req.get_last_log_idx() + req.log_entries().size() + 1);
     return resp;
 }
-- 
2.43.0


From 517394922eed18202e58af39ef5ee6ebbf164c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:00 +0000
Subject: [PATCH 05/49] fix: leader must not commit entries of previous terms
 by counting replicas nor act on responses of previous terms

---
 src/raft_server_resp_handlers.cxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index c1a4ab9..b52c1d4 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -61,6 +61,13 @@ void raft_server::handle_peer_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>
         }
 
         // ignore the response that with lower term for safety
+        if (resp->get_term() < state_->get_term())
+        {
+            l_->info(sstrfmt("ignore a response with lower term %llu v.s. current term %llu")
+                         .fmt(resp->get_term(), state_->get_term()));
+            return;
+        }
+
         switch (resp->get_type())
         {
             case msg_type::vote_response:
@@ -114,7 +121,13 @@ void raft_server::handle_append_entries_resp(resp_msg& resp)
         }
 
         std::sort(matched_indexes.begin(), matched_indexes.end(), std::greater<ulong>());
-        commit(matched_indexes[(peers_.size() + 1) / 2]);
+        ulong quorum_idx = matched_indexes[(peers_.size() + 1) / 2];
+        // entries from previous terms can only be committed along with an entry of current term
+        if (quorum_idx > quick_commit_idx_ && term_for_log(quorum_idx) == state_->get_term())
+        {
+            commit(quorum_idx);
+        }
+
         need_to_catchup = p->clear_pending_commit() || resp.get_next_idx() < log_store_->next_slot();
     }
     else
-- 
2.43.0


From 3b40437e10681995fe07a68e1a149c438ffe3253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:00 +0000
Subject: [PATCH 06/49] fix: a new leader forgets the matched indexes of its
 previous leadership

---
 src/raft_server.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 6fc6ba0..4d83979 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -439,6 +439,7 @@ void raft_server::become_leader()
         for (peer_itor it = peers_.begin(); it != peers_.end(); ++it)
         {
             it->second->set_next_log_idx(log_store_->next_slot());
+            it->second->set_matched_idx(0);
             it->second->set_snapshot_in_sync(nil_snp);
             it->second->set_free();
             enable_hb_for_peer(*(it->second));
-- 
2.43.0


From 3af85cee038d982cdcb195839e80095150b58f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:00 +0000
Subject: [PATCH 07/49] fix: compare candidate's log with the snapshot's term
 when the log has been fully compacted

---
 src/raft_server_req_handlers.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 3fbf1d5..1be3cf2 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -197,8 +197,9 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
 ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::vote_response, id_, req.get_src()));
-    bool log_okay = req.get_last_log_term() > log_store_->last_entry()->get_term() ||
-                    (req.get_last_log_term() == log_store_->last_entry()->get_term() &&
+    ulong last_log_term = term_for_log(log_store_->next_slot() - 1);
+    bool log_okay = req.get_last_log_term() > last_log_term ||
+                    (req.get_last_log_term() == last_log_term &&
                      log_store_->next_slot() - 1 <= req.get_last_log_idx());
     bool grant = req.get_term() == state_->get_term() && log_okay &&
                  (state_->get_voted_for() == req.get_src() || state_->get_voted_for() == -1);
@@ -215,8 +216,9 @@ ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 ptr<resp_msg> raft_server::handle_prevote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::prevote_response, id_, req.get_src()));
-    bool log_okay = req.get_last_log_term() > log_store_->last_entry()->get_term() ||
-                    (req.get_last_log_term() == log_store_->last_entry()->get_term() &&
+    ulong last_log_term = term_for_log(log_store_->next_slot() - 1);
+    bool log_okay = req.get_last_log_term() > last_log_term ||
+                    (req.get_last_log_term() == last_log_term &&
                      log_store_->next_slot() - 1 <= req.get_last_log_idx());
     bool grant = req.get_term() >= state_->get_term() && log_okay;
     if (ctx_->params_->defensive_prevote_)
-- 
2.43.0


From d5fc2ca61e182a0e9cc13716e6cefb4fbbd63d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:24 +0000
Subject: [PATCH 08/49] fix: do not append the initial config again, or forget
 to, when leadership changes before it is committed

---
 src/raft_server.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 4d83979..533ae36 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -446,10 +446,12 @@ void raft_server::become_leader()
         }
     }
 
-    if (config_->get_log_idx() == 0)
+    if (config_->get_log_idx() == 0 && !config_changing_)
     {
+        // the index is not known to be the config's index until the entry is committed
         config_->set_log_idx(log_store_->next_slot());
         bufptr conf_buf = config_->serialize();
+        config_->set_log_idx(0);
         ptr<log_entry> entry(cs_new<log_entry>(state_->get_term(), std::move(conf_buf), log_val_type::conf));
         log_store_->append(entry);
         l_->info("save initial config to log store");
-- 
2.43.0


From 1e87d1402936c8911266ac791415d53dbbb24232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:51 +0000
Subject: [PATCH 09/49] fix: prevote never stalls on lost messages and ends
 when the leader is heard

---
 src/raft_server.cxx              | 10 ++++++++--
 src/raft_server_req_handlers.cxx |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 533ae36..3050271 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -220,12 +220,18 @@ void raft_server::handle_election_timeout()
     {
         if (prevote_state_ && !prevote_state_->empty())
         {
-            l_->debug("Election timeout, but there is already a prevote ongoing, ignore this event");
+            l_->debug("Election timeout, but there is already a prevote ongoing, start a new round of prevote");
+            prevote_state_->reset();
         }
         else
         {
             l_->debug("Election timeout, start prevoting");
-            request_prevote();
+        }
+
+        request_prevote();
+        if (role_ == srv_role::follower)
+        {
+            restart_election_timer(); // requests or responses may be lost
         }
     }
     else
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 1be3cf2..4da6468 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -101,6 +101,7 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         }
         else
         {
+            prevote_state_.reset(); // leader is alive
             restart_election_timer();
         }
     }
@@ -317,6 +318,7 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
         }
         else
         {
+            prevote_state_.reset(); // leader is alive
             restart_election_timer();
         }
     }
-- 
2.43.0


From 773631e44636ad8df029904efc05f6783a33ced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:51 +0000
Subject: [PATCH 10/49] fix: a leader ignores an election timeout that expired
 before it was cancelled

---
 src/raft_server.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 3050271..fb8c10b 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -211,8 +211,8 @@ void raft_server::handle_election_timeout()
 
     if (role_ == srv_role::leader)
     {
-        l_->err("A leader should never encounter election timeout, illegal application state, stop the application");
-        ctx_->state_mgr_->system_exit(-1);
+        // the timer may have expired already when it was cancelled by become_leader
+        l_->warn("Election timeout for a leader, ignore this event");
         return;
     }
 
-- 
2.43.0


From 8f83fdcf23263fb7f8336b89b66a9f58694856d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:52 +0000
Subject: [PATCH 11/49] fix: no lost wakeup of the committing thread, and the
 destructor always terminates

---
 include/raft_server.hxx |  1 +
 src/raft_server.cxx     | 30 ++++++++++++++++++++++--------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index d9044fc..c91296b 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -123,6 +123,7 @@ private:
     bool config_changing_;
     bool catching_up_;
     bool stopping_;
+    bool commit_stopped_;
     int32 steps_to_down_;
     std::atomic_bool snp_in_progress_;
     std::unique_ptr<context> ctx_;
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index fb8c10b..2549622 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -56,6 +56,7 @@ raft_server::raft_server(context* ctx)
       config_changing_(false),
       catching_up_(false),
       stopping_(false),
+      commit_stopped_(false),
       steps_to_down_(0),
       snp_in_progress_(),
       ctx_(ctx),
@@ -146,14 +147,19 @@ raft_server::raft_server(context* ctx)
 
 raft_server::~raft_server()
 {
+    {
+        auto_lock(commit_lock_);
+        stopping_ = true;
+        commit_cv_.notify_all();
+    }
+
+    {
+        // the committing thread may need lock_ to finish its work
+        std::unique_lock<std::mutex> lock(stopping_lock_);
+        ready_to_stop_cv_.wait(lock, [this]() { return commit_stopped_; });
+    }
+
     recur_lock(lock_);
-    stopping_ = true;
-    std::unique_lock<std::mutex> commit_lock(commit_lock_);
-    commit_cv_.notify_all();
-    std::unique_lock<std::mutex> lock(stopping_lock_);
-    commit_lock.unlock();
-    commit_lock.release();
-    ready_to_stop_cv_.wait(lock);
     if (election_task_)
     {
         scheduler_->cancel(election_task_);
@@ -542,6 +548,7 @@ void raft_server::commit(ulong target_idx)
 
     if (log_store_->next_slot() - 1 > sm_commit_index_ && quick_commit_idx_ > sm_commit_index_)
     {
+        auto_lock(commit_lock_);
         commit_cv_.notify_one();
     }
 }
@@ -903,13 +910,20 @@ void raft_server::commit_in_bg()
                 }
 
                 std::unique_lock<std::mutex> lock(commit_lock_);
-                commit_cv_.wait(lock);
+                commit_cv_.wait(
+                    lock,
+                    [this]()
+                    {
+                        return stopping_ || (quick_commit_idx_ > sm_commit_index_ &&
+                                             sm_commit_index_ < log_store_->next_slot() - 1);
+                    });
                 if (stopping_)
                 {
                     lock.unlock();
                     lock.release();
                     {
                         auto_lock(stopping_lock_);
+                        commit_stopped_ = true;
                         ready_to_stop_cv_.notify_all();
                     }
 
-- 
2.43.0


From 49c5a6c9ed64823bec032848a3346b0191332396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:39 +0000
Subject: [PATCH 12/49] fix: async_result calls its handler exactly once and
 get() waits for the result

---
 include/async.hxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/async.hxx b/include/async.hxx
index e03b0a2..313a99b 100644
--- a/include/async.hxx
+++ b/include/async.hxx
@@ -36,7 +36,7 @@ public:
     explicit async_result(T& result) : result_(result), err_(), has_result_(true), lock_(), cv_()
     {
     }
-    explicit async_result(handler_type& handler) : err_(), has_result_(true), handler_(handler), lock_(), cv_()
+    explicit async_result(handler_type& handler) : err_(), has_result_(false), handler_(handler), lock_(), cv_()
     {
     }
 
@@ -50,12 +50,14 @@ public:
     template <typename _THandler>
     void when_ready(_THandler&& handler)
     {
+        bool ready(false);
         {
             std::lock_guard<std::mutex> guard(lock_);
             handler_ = std::forward<_THandler>(handler);
+            ready = has_result_; // set_result will call the handler otherwise
         }
 
-        if (has_result_)
+        if (ready)
         {
             handler_(result_, err_);
         }
@@ -97,7 +99,7 @@ public:
             throw err_;
         }
 
-        cv_.wait(lock);
+        cv_.wait(lock, [this]() { return has_result_; });
         if (err_ == nullptr)
         {
             return result_;
-- 
2.43.0


From 8d339317148c397a0e7260123d3f6181b58b9f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:39 +0000
Subject: [PATCH 13/49] fix: a completed snapshot has its real size, never
 replaces a newer one and never compacts below the log's start

---
 src/raft_server.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 2549622..686581d 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -641,8 +641,14 @@ void raft_server::on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr
             recur_lock(lock_);
             l_->debug("snapshot created, compact the log store");
 
-            last_snapshot_ = s;
-            if (s->get_last_log_idx() > (ulong)ctx_->params_->reserved_log_items_)
+            if (!last_snapshot_ || last_snapshot_->get_last_log_idx() < s->get_last_log_idx())
+            {
+                // state machine knows the size of the snapshot
+                ptr<snapshot> snp(state_machine_->last_snapshot());
+                last_snapshot_ = snp && snp->get_last_log_idx() == s->get_last_log_idx() ? snp : s;
+            }
+
+            if (s->get_last_log_idx() >= log_store_->start_index() + (ulong)ctx_->params_->reserved_log_items_)
             {
                 log_store_->compact(s->get_last_log_idx() - (ulong)ctx_->params_->reserved_log_items_);
             }
-- 
2.43.0


From f62ae931a1fd66e9e73d7f9c0dfe079525a2b2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:39 +0000
Subject: [PATCH 14/49] fix: send a snapshot to a follower whose next entry
 follows a compacted one the leader has no term for

---
 src/raft_server.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 686581d..d2dbdcc 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -692,7 +692,8 @@ ptr<req_msg> raft_server::create_append_entries_req(peer& p)
     }
 
     // for syncing the snapshots, for starting_idx - 1, we can check with last snapshot
-    if (last_log_idx > 0 && last_log_idx < starting_idx - 1)
+    if (starting_idx > 1 && last_log_idx < starting_idx &&
+        (!last_snapshot_ || last_log_idx != last_snapshot_->get_last_log_idx()))
     {
         return create_sync_snapshot_req(p, last_log_idx, term, commit_idx);
     }
@@ -890,7 +891,7 @@ ulong raft_server::term_for_log(ulong log_idx)
         return log_store_->term_at(log_idx);
     }
 
-    ptr<snapshot> last_snapshot(state_machine_->last_snapshot());
+    ptr<snapshot> last_snapshot(last_snapshot_);
     if (!last_snapshot || log_idx != last_snapshot->get_last_log_idx())
     {
         l_->err(sstrfmt("bad log_idx %llu for retrieving the term value, kill the system to protect the system")
-- 
2.43.0


From a876e09510143892db7cbe61010918ff9afee245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:39 +0000
Subject: [PATCH 15/49] fix: an append entries request that starts before the
 follower's compacted log is not fatal

---
 src/raft_server_req_handlers.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 4da6468..74396e3 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -112,8 +112,10 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     // log_store_->next_slot() for the leader to quick jump to the index that might aligned
     ptr<resp_msg> resp(cs_new<resp_msg>(
         state_->get_term(), msg_type::append_entries_response, id_, req.get_src(), log_store_->next_slot()));
-    bool log_okay = req.get_last_log_idx() == 0 || (req.get_last_log_idx() < log_store_->next_slot() &&
-                                                    req.get_last_log_term() == term_for_log(req.get_last_log_idx()));
+    // entries before start_index() have been committed, so they are same as leader's
+    bool log_okay = req.get_last_log_idx() < log_store_->start_index() ||
+                    (req.get_last_log_idx() < log_store_->next_slot() &&
+                     req.get_last_log_term() == term_for_log(req.get_last_log_idx()));
     if (req.get_term() < state_->get_term() || !log_okay)
     {
         return resp;
@@ -127,7 +129,8 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         size_t log_idx = 0;
         while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
         {
-            if (log_store_->term_at(idx) == req.log_entries().at(log_idx)->get_term())
+            if (idx < log_store_->start_index() ||
+                log_store_->term_at(idx) == req.log_entries().at(log_idx)->get_term())
             {
                 idx++;
                 log_idx++;
-- 
2.43.0


From 04c56cea2891cc195277b1ebfdf3233660f554a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:39 +0000
Subject: [PATCH 16/49] fix: a follower that already has everything in a
 snapshot lets the leader move on

---
 src/raft_server_req_handlers.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 74396e3..430c6a8 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -345,6 +345,8 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
     {
         l_->warn(sstrfmt("received a snapshot (%llu) that is older than current log store")
                      .fmt(sync_req->get_snapshot().get_last_log_idx()));
+        // everything in the snapshot is in place already, let the leader move on
+        resp->accept(sync_req->get_snapshot().size());
         return resp;
     }
 
-- 
2.43.0


From a5083aeb89af3e8d5144c3472fd5ad3354f3b68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:08 +0000
Subject: [PATCH 17/49] fix: installing a snapshot does not race with the
 committing thread and survives a crash at any point

---
 include/raft_server.hxx          |  1 +
 src/raft_server.cxx              | 15 +++++++++++++
 src/raft_server_req_handlers.cxx | 38 ++++++++++++++++++++------------
 3 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index c91296b..9823655 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -144,6 +144,7 @@ private:
     ptr<srv_config> conf_to_add_;
     std::recursive_mutex lock_;
     std::mutex commit_lock_;
+    std::mutex sm_lock_; // for the state machine and sm_commit_index_
     std::mutex rpc_clients_lock_;
     std::condition_variable commit_cv_;
     std::mutex stopping_lock_;
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index d2dbdcc..36be9d8 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -76,6 +76,7 @@ raft_server::raft_server(context* ctx)
       conf_to_add_(),
       lock_(),
       commit_lock_(),
+      sm_lock_(),
       rpc_clients_lock_(),
       commit_cv_(),
       stopping_lock_(),
@@ -115,6 +116,14 @@ raft_server::raft_server(context* ctx)
      * - 1) + Majority(S0) > S0 => Vote(A) < Majority(S0)
      * -|
      */
+    // a snapshot has been applied but the server stopped before the log store was compacted
+    if (last_snapshot_ && last_snapshot_->get_last_log_idx() >= log_store_->start_index() &&
+        (last_snapshot_->get_last_log_idx() >= log_store_->next_slot() ||
+         log_store_->term_at(last_snapshot_->get_last_log_idx()) != last_snapshot_->get_last_log_term()))
+    {
+        log_store_->compact(last_snapshot_->get_last_log_idx());
+    }
+
     for (ulong i = std::max(sm_commit_index_ + 1, log_store_->start_index()); i < log_store_->next_slot(); ++i)
     {
         ptr<log_entry> entry(log_store_->entry_at(i));
@@ -940,6 +949,12 @@ void raft_server::commit_in_bg()
 
             while (sm_commit_index_ < quick_commit_idx_ && sm_commit_index_ < log_store_->next_slot() - 1)
             {
+                auto_lock(sm_lock_);
+                if (sm_commit_index_ >= quick_commit_idx_ || sm_commit_index_ >= log_store_->next_slot() - 1)
+                {
+                    break; // a snapshot has been installed
+                }
+
                 sm_commit_index_ += 1;
                 ptr<log_entry> log_entry(log_store_->entry_at(sm_commit_index_));
                 if (log_entry->get_val_type() == log_val_type::app_log)
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 430c6a8..dba6a60 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -374,21 +374,29 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
             }
 
             l_->debug("sucessfully receive a snapshot from leader");
-            if (log_store_->compact(req.get_snapshot().get_last_log_idx()))
+            // the committing thread must not touch the state machine or the log store until the snapshot is installed,
+            // as it may be waiting for lock_, ask the leader to retry instead of waiting for it
+            std::unique_lock<std::mutex> sm_lock(sm_lock_, std::try_to_lock);
+            if (!sm_lock.owns_lock() || req.get_snapshot().get_last_log_idx() <= sm_commit_index_)
             {
-                // The state machine will not be able to commit anything before the snapshot is applied, so make this
-                // synchronously with election timer stopped as usually applying a snapshot may take a very long time
-                stop_election_timer();
-                l_->info("successfully compact the log store, will now ask the statemachine to apply the snapshot");
-                if (!state_machine_->apply_snapshot(req.get_snapshot()))
-                {
-                    l_->info("failed to apply the snapshot after log compacted, to ensure the safety, will shutdown "
-                             "the system");
-                    ctx_->state_mgr_->system_exit(-1);
-                    ::exit(-1);
-                    return false;
-                }
+                l_->info("the committing thread is busy, will ask the leader to retry");
+                return false;
+            }
 
+            // The state machine will not be able to commit anything before the snapshot is applied, so make this
+            // synchronously with election timer stopped as usually applying a snapshot may take a very long time
+            stop_election_timer();
+            if (!state_machine_->apply_snapshot(req.get_snapshot()))
+            {
+                l_->info("failed to apply the snapshot, to ensure the safety, will shutdown the system");
+                ctx_->state_mgr_->system_exit(-1);
+                ::exit(-1);
+                return false;
+            }
+
+            // compact the log store after the snapshot is applied, so that the committed entries are always available
+            if (log_store_->compact(req.get_snapshot().get_last_log_idx()))
+            {
                 reconfigure(req.get_snapshot().get_last_config());
                 ctx_->state_mgr_->save_config(*config_);
                 sm_commit_index_ = req.get_snapshot().get_last_log_idx();
@@ -404,7 +412,9 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
             }
             else
             {
-                l_->err("failed to compact the log store after a snapshot is received, will ask the leader to retry");
+                l_->err("failed to compact the log store after a snapshot is applied, will shutdown the system");
+                ctx_->state_mgr_->system_exit(-1);
+                ::exit(-1);
                 return false;
             }
         }
-- 
2.43.0


From f12dbbf03680e38d89b9d6db66289af0fb59862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:47 +0000
Subject: [PATCH 18/49] fix: a server learns a newer term from a prevote
 response, so that prevote does not fail forever

---
 src/raft_server_resp_handlers.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index b52c1d4..c6d1523 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -387,7 +387,11 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
         }
         break;
         case msg_type::prevote_response:
-            handle_prevote_resp(*resp);
+            // prevote never succeeds with an outdated term
+            if (!update_term(resp->get_term()))
+            {
+                handle_prevote_resp(*resp);
+            }
             break;
         default:
             l_->err(lstrfmt("received an unexpected response message type %s, for safety, stepping down")
-- 
2.43.0


From 58f38aa2e152c78613e0e98883609d04b6180271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:09 +0000
Subject: [PATCH 19/49] fix: use the config of the snapshot after a crash
 between applying the snapshot and saving its config

---
 src/raft_server.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 36be9d8..87d6fbc 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -124,6 +124,14 @@ raft_server::raft_server(context* ctx)
         log_store_->compact(last_snapshot_->get_last_log_idx());
     }
 
+    // nor may it have saved the snapshot's config
+    if (last_snapshot_ && last_snapshot_->get_last_config() &&
+        last_snapshot_->get_last_config()->get_log_idx() > config_->get_log_idx())
+    {
+        config_ = last_snapshot_->get_last_config();
+        ctx_->state_mgr_->save_config(*config_);
+    }
+
     for (ulong i = std::max(sm_commit_index_ + 1, log_store_->start_index()); i < log_store_->next_slot(); ++i)
     {
         ptr<log_entry> entry(log_store_->entry_at(i));
-- 
2.43.0


From bfed3d5bc611a2d6ef38dc3ba3761c7008c02e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:09 +0000
Subject: [PATCH 20/49] fix: a response for a previous snapshot does not count
 for the snapshot that is being sent

---
 include/raft_server.hxx           |  7 +++++--
 src/raft_server.cxx               | 10 ++++++++++
 src/raft_server_resp_handlers.cxx | 12 +++++++-----
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index 9823655..b220820 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -81,9 +81,12 @@ private:
     void request_prevote();
     void request_append_entries();
     bool request_append_entries(peer& p);
-    void handle_peer_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>& err);
+    void handle_peer_resp(
+        ptr<resp_msg>& resp,
+        const ptr<rpc_exception>& err,
+        const ptr<snapshot_sync_ctx>& sync_ctx = ptr<snapshot_sync_ctx>());
     void handle_append_entries_resp(resp_msg& resp);
-    void handle_install_snapshot_resp(resp_msg& resp);
+    void handle_install_snapshot_resp(resp_msg& resp, const ptr<snapshot_sync_ctx>& sync_ctx);
     void handle_voting_resp(resp_msg& resp);
     void handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>& err);
     void handle_ext_resp_err(rpc_exception& err);
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 87d6fbc..f09a5bc 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -391,6 +391,16 @@ bool raft_server::request_append_entries(peer& p)
     if (p.make_busy())
     {
         ptr<req_msg> msg = create_append_entries_req(p);
+        if (msg && msg->get_type() == msg_type::install_snapshot_request)
+        {
+            // the response does not tell which snapshot it is for
+            ptr<snapshot_sync_ctx> sync_ctx(p.get_snapshot_sync_ctx());
+            rpc_handler handler = [this, sync_ctx](ptr<resp_msg>& resp, const ptr<rpc_exception>& e)
+            { this->handle_peer_resp(resp, e, sync_ctx); };
+            p.send_req(msg, handler);
+            return true;
+        }
+
         p.send_req(msg, resp_handler_);
         return true;
     }
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index c6d1523..7b5ae5c 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -21,7 +21,10 @@ using namespace cornerstone;
 
 extern const char* __msg_type_str[];
 
-void raft_server::handle_peer_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>& err)
+void raft_server::handle_peer_resp(
+    ptr<resp_msg>& resp,
+    const ptr<rpc_exception>& err,
+    const ptr<snapshot_sync_ctx>& sync_ctx)
 {
     if (err)
     {
@@ -77,7 +80,7 @@ void raft_server::handle_peer_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>
                 handle_append_entries_resp(*resp);
                 break;
             case msg_type::install_snapshot_response:
-                handle_install_snapshot_resp(*resp);
+                handle_install_snapshot_resp(*resp, sync_ctx);
                 break;
             default:
                 l_->err(sstrfmt("Received an unexpected message %s for response, system exits.")
@@ -153,7 +156,7 @@ void raft_server::handle_append_entries_resp(resp_msg& resp)
     }
 }
 
-void raft_server::handle_install_snapshot_resp(resp_msg& resp)
+void raft_server::handle_install_snapshot_resp(resp_msg& resp, const ptr<snapshot_sync_ctx>& sync_ctx)
 {
     read_lock(peers_lock_);
     peer_itor it = peers_.find(resp.get_src());
@@ -170,8 +173,7 @@ void raft_server::handle_install_snapshot_resp(resp_msg& resp)
     if (resp.get_accepted())
     {
         std::lock_guard<std::mutex> guard(p->get_lock());
-        ptr<snapshot_sync_ctx> sync_ctx = p->get_snapshot_sync_ctx();
-        if (sync_ctx == nilptr)
+        if (sync_ctx == nilptr || sync_ctx != p->get_snapshot_sync_ctx())
         {
             l_->info("no snapshot sync context for this peer, drop the response");
             need_to_catchup = false;
-- 
2.43.0


From 06c35e4c62594662a412e579e8f6254cd4841d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:56 +0000
Subject: [PATCH 21/49] fix: responses and heartbeat timers of a removed peer
 do not access freed memory

---
 include/peer.hxx                 |  6 +++---
 include/raft_server.hxx          |  2 +-
 src/peer.cxx                     |  5 +++--
 src/raft_server.cxx              | 20 +++++++++++++++++---
 src/raft_server_req_handlers.cxx |  2 +-
 5 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/peer.hxx b/include/peer.hxx
index 9418c0e..86ac66b 100644
--- a/include/peer.hxx
+++ b/include/peer.hxx
@@ -23,10 +23,10 @@
 
 namespace cornerstone
 {
-class peer
+class peer : public std::enable_shared_from_this<peer>
 {
 public:
-    peer(ptr<srv_config>& config, const context& ctx, timer_task<peer&>::executor& hb_exec)
+    peer(ptr<srv_config>& config, const context& ctx, timer_task<int32>::executor& hb_exec)
         : config_(config),
           scheduler_(ctx.scheduler_),
           rpc_(ctx.rpc_cli_factory_->create_client(config->get_endpoint())),
@@ -40,7 +40,7 @@ public:
           busy_flag_(false),
           pending_commit_flag_(false),
           hb_enabled_(false),
-          hb_task_(cs_new<timer_task<peer&>, timer_task<peer&>::executor&, peer&>(hb_exec, *this)),
+          hb_task_(cs_new<timer_task<int32>, timer_task<int32>::executor&, int32>(hb_exec, config->get_id())),
           snp_sync_ctx_(),
           lock_()
     {
diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index b220820..126c348 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -103,7 +103,7 @@ private:
     void enable_hb_for_peer(peer& p);
     void restart_election_timer();
     void stop_election_timer();
-    void handle_hb_timeout(peer& peer);
+    void handle_hb_timeout(int32 peer_id);
     void handle_election_timeout();
     void sync_log_to_new_srv(ulong start_idx);
     void invite_srv_to_join_cluster();
diff --git a/src/peer.cxx b/src/peer.cxx
index c87f893..5599544 100644
--- a/src/peer.cxx
+++ b/src/peer.cxx
@@ -21,8 +21,9 @@ using namespace cornerstone;
 void peer::send_req(ptr<req_msg>& req, rpc_handler& handler)
 {
     ptr<rpc_result> pending = cs_new<rpc_result>(handler);
-    rpc_handler h = [this, req, pending](ptr<resp_msg>& resp, const ptr<rpc_exception>& ex) mutable
-    { this->handle_rpc_result(req, pending, resp, ex); };
+    ptr<peer> self(shared_from_this()); // the response may arrive after this peer has been removed
+    rpc_handler h = [self, req, pending](ptr<resp_msg>& resp, const ptr<rpc_exception>& ex) mutable
+    { self->handle_rpc_result(req, pending, resp, ex); };
     rpc_->send(req, h);
 }
 
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index f09a5bc..75b6652 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -149,7 +149,7 @@ raft_server::raft_server(context* ctx)
         if ((*it)->get_id() != id_)
         {
             write_lock(peers_lock_);
-            timer_task<peer&>::executor exec = [this](peer& p) { this->handle_hb_timeout(p); };
+            timer_task<int32>::executor exec = [this](int32 peer_id) { this->handle_hb_timeout(peer_id); };
             peers_.insert(std::make_pair(
                 (*it)->get_id(),
                 cs_new<peer>(*it, *ctx_, exec)));
@@ -409,9 +409,23 @@ bool raft_server::request_append_entries(peer& p)
     return false;
 }
 
-void raft_server::handle_hb_timeout(peer& p)
+void raft_server::handle_hb_timeout(int32 peer_id)
 {
     recur_lock(lock_);
+    ptr<peer> hb_peer;
+    {
+        read_lock(peers_lock_);
+        peer_itor it = peers_.find(peer_id);
+        if (it == peers_.end())
+        {
+            l_->info(sstrfmt("Receive a heartbeat event for %d which is no longer a peer").fmt(peer_id));
+            return;
+        }
+
+        hb_peer = it->second;
+    }
+
+    peer& p = *hb_peer;
     l_->debug(sstrfmt("Heartbeat timeout for %d").fmt(p.get_id()));
     if (role_ == srv_role::leader)
     {
@@ -782,7 +796,7 @@ void raft_server::reconfigure(const ptr<cluster_config>& new_config)
     for (std::vector<ptr<srv_config>>::const_iterator it = srvs_added.begin(); it != srvs_added.end(); ++it)
     {
         ptr<srv_config> srv_added(*it);
-        timer_task<peer&>::executor exec = [this](peer& p) { this->handle_hb_timeout(p); };
+        timer_task<int32>::executor exec = [this](int32 peer_id) { this->handle_hb_timeout(peer_id); };
         ptr<peer> p = cs_new<peer>(srv_added, *ctx_, exec);
         p->set_next_log_idx(log_store_->next_slot());
 
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index dba6a60..c9cf319 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -527,7 +527,7 @@ ptr<resp_msg> raft_server::handle_add_srv_req(req_msg& req)
     }
 
     conf_to_add_ = std::move(srv_conf);
-    timer_task<peer&>::executor exec = [this](peer& p) { this->handle_hb_timeout(p); };
+    timer_task<int32>::executor exec = [this](int32 peer_id) { this->handle_hb_timeout(peer_id); };
     srv_to_join_ = cs_new<peer>(conf_to_add_, *ctx_, exec);
     invite_srv_to_join_cluster();
     resp->accept(log_store_->next_slot());
-- 
2.43.0


From 5fa926e22558e972d8480b3aa96cac939f3f8930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:41 +0000
Subject: [PATCH 22/49] fix: no other config change is accepted or continued
 while one is in progress

---
 include/raft_server.hxx           |  1 +
 src/raft_server.cxx               |  3 +++
 src/raft_server_req_handlers.cxx  | 13 +++++++++++--
 src/raft_server_resp_handlers.cxx | 30 ++++++++++++++++++++----------
 4 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index 126c348..4db689f 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -145,6 +145,7 @@ private:
     ptr<cluster_config> config_;
     ptr<peer> srv_to_join_;
     ptr<srv_config> conf_to_add_;
+    ptr<peer> srv_to_leave_;
     std::recursive_mutex lock_;
     std::mutex commit_lock_;
     std::mutex sm_lock_; // for the state machine and sm_commit_index_
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 75b6652..cc10048 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -74,6 +74,7 @@ raft_server::raft_server(context* ctx)
       config_(ctx->state_mgr_->load_config()),
       srv_to_join_(),
       conf_to_add_(),
+      srv_to_leave_(),
       lock_(),
       commit_lock_(),
       sm_lock_(),
@@ -486,6 +487,7 @@ void raft_server::become_leader()
     role_ = srv_role::leader;
     leader_ = id_;
     srv_to_join_.reset();
+    srv_to_leave_.reset();
     ptr<snapshot> nil_snp;
     {
         read_lock(peers_lock_);
@@ -541,6 +543,7 @@ void raft_server::become_follower()
     }
 
     srv_to_join_.reset();
+    srv_to_leave_.reset();
     role_ = srv_role::follower;
     restart_election_timer();
     if (ctx_->event_listener_)
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index c9cf319..908dd60 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -432,6 +432,13 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
 
 void raft_server::on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req)
 {
+    recur_lock(lock_);
+    if (p != srv_to_join_ && p != srv_to_leave_)
+    {
+        l_->debug(sstrfmt("drop the request for %d as the config change has been given up").fmt(p->get_id()));
+        return;
+    }
+
     l_->debug(sstrfmt("retry the request %s for %d").fmt(__msg_type_str[req->get_type()], p->get_id()));
     p->send_req(req, ex_resp_handler_);
 }
@@ -452,7 +459,7 @@ ptr<resp_msg> raft_server::handle_rm_srv_req(req_msg& req)
         return resp;
     }
 
-    if (config_changing_)
+    if (config_changing_ || srv_to_join_ || srv_to_leave_)
     {
         // the previous config has not committed yet
         l_->info("previous config has not committed yet");
@@ -487,6 +494,7 @@ ptr<resp_msg> raft_server::handle_rm_srv_req(req_msg& req)
         0,
         log_store_->next_slot() - 1,
         quick_commit_idx_));
+    srv_to_leave_ = p;
     p->send_req(leave_req, ex_resp_handler_);
     resp->accept(log_store_->next_slot());
     return resp;
@@ -519,7 +527,7 @@ ptr<resp_msg> raft_server::handle_add_srv_req(req_msg& req)
         }
     }
 
-    if (config_changing_)
+    if (config_changing_ || srv_to_join_ || srv_to_leave_)
     {
         // the previous config has not committed yet
         l_->info("previous config has not committed yet");
@@ -657,6 +665,7 @@ ptr<resp_msg> raft_server::handle_leave_cluster_req(req_msg& req)
 
 void raft_server::rm_srv_from_cluster(int32 srv_id)
 {
+    srv_to_leave_.reset();
     ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), config_->get_log_idx());
     for (cluster_config::const_srv_itor it = config_->get_servers().begin(); it != config_->get_servers().end(); ++it)
     {
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 7b5ae5c..6ee6588 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -310,8 +310,15 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
     switch (resp->get_type())
     {
         case msg_type::sync_log_response:
-            if (srv_to_join_)
+            if (srv_to_join_ && srv_to_join_->get_id() == resp->get_src() && !config_changing_)
             {
+                if (!resp->get_accepted())
+                {
+                    l_->info("new server is no longer in log syncing mode, give up");
+                    srv_to_join_.reset();
+                    return;
+                }
+
                 // we are reusing heartbeat interval value to indicate when to stop retry
                 srv_to_join_->resume_hb_speed();
                 srv_to_join_->set_next_log_idx(resp->get_next_idx());
@@ -320,7 +327,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
             }
             break;
         case msg_type::join_cluster_response:
-            if (srv_to_join_)
+            if (srv_to_join_ && srv_to_join_->get_id() == resp->get_src() && !config_changing_)
             {
                 if (resp->get_accepted())
                 {
@@ -330,6 +337,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
                 else
                 {
                     l_->debug("new server cannot accept the invitation, give up");
+                    srv_to_join_.reset();
                 }
             }
             else
@@ -338,9 +346,16 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
             }
             break;
         case msg_type::leave_cluster_response:
+            if (!srv_to_leave_ || srv_to_leave_->get_id() != resp->get_src())
+            {
+                l_->info("no server to leave, the response must be very old.");
+                return;
+            }
+
             if (!resp->get_accepted())
             {
                 l_->debug("peer doesn't accept to stepping down, stop proceeding");
+                srv_to_leave_.reset();
                 return;
             }
 
@@ -349,7 +364,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
             break;
         case msg_type::install_snapshot_response:
         {
-            if (!srv_to_join_)
+            if (!srv_to_join_ || srv_to_join_->get_id() != resp->get_src() || config_changing_)
             {
                 l_->info("no server to join, the response must be very old.");
                 return;
@@ -414,19 +429,14 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
         ptr<peer> p;
         if (req->get_type() == msg_type::leave_cluster_request)
         {
-            read_lock(peers_lock_);
-            peer_itor pit = peers_.find(req->get_dst());
-            if (pit != peers_.end())
-            {
-                p = pit->second;
-            }
+            p = srv_to_leave_;
         }
         else
         {
             p = srv_to_join_;
         }
 
-        if (p != nilptr)
+        if (p != nilptr && p->get_id() == req->get_dst())
         {
             if (p->get_current_hb_interval() >= ctx_->params_->max_hb_interval())
             {
-- 
2.43.0


From f6da010d38380beaa1bd3d8da5c17b38b8cb4d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:41 +0000
Subject: [PATCH 23/49] fix: a snapshot that could not be delivered to or
 installed by the joining server is sent again

---
 src/raft_server_resp_handlers.cxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 6ee6588..228f089 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -332,6 +332,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
                 if (resp->get_accepted())
                 {
                     l_->debug("new server confirms it will join, start syncing logs to it");
+                    srv_to_join_->set_next_log_idx(resp->get_next_idx());
                     sync_log_to_new_srv(resp->get_next_idx());
                 }
                 else
@@ -372,10 +373,22 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
 
             if (!resp->get_accepted())
             {
-                l_->info("peer doesn't accept the snapshot installation request");
+                l_->info("peer doesn't accept the snapshot installation request, will retry");
+                ptr<peer> p(srv_to_join_);
+                timer_task<void>::executor exec = [this, p]()
+                {
+                    recur_lock(lock_);
+                    if (p == srv_to_join_ && !config_changing_)
+                    {
+                        sync_log_to_new_srv(p->get_next_log_idx());
+                    }
+                };
+                ptr<delayed_task> task(cs_new<timer_task<void>>(exec));
+                scheduler_->schedule(task, p->get_current_hb_interval());
                 return;
             }
 
+            srv_to_join_->resume_hb_speed();
             ptr<snapshot_sync_ctx> sync_ctx = srv_to_join_->get_snapshot_sync_ctx();
             if (sync_ctx == nilptr)
             {
@@ -424,7 +437,7 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
     l_->debug(lstrfmt("receive an rpc error response from peer server, %s").fmt(err.what()));
     ptr<req_msg> req = err.req();
     if (req->get_type() == msg_type::sync_log_request || req->get_type() == msg_type::join_cluster_request ||
-        req->get_type() == msg_type::leave_cluster_request)
+        req->get_type() == msg_type::leave_cluster_request || req->get_type() == msg_type::install_snapshot_request)
     {
         ptr<peer> p;
         if (req->get_type() == msg_type::leave_cluster_request)
-- 
2.43.0


From 428892b35ba2050cb70750c0ff31d88c512b3b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:41 +0000
Subject: [PATCH 24/49] fix: joining a cluster never lowers the term, forgets a
 vote, applies entries again or drops entries

---
 src/raft_server_req_handlers.cxx | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 908dd60..5e41af8 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -558,8 +558,12 @@ ptr<resp_msg> raft_server::handle_log_sync_req(req_msg& req)
         return resp;
     }
 
-    log_store_->apply_pack(req.get_last_log_idx() + 1, entries[0]->get_buf());
-    commit(log_store_->next_slot() - 1);
+    if (req.get_last_log_idx() + 1 == log_store_->next_slot())
+    {
+        log_store_->apply_pack(req.get_last_log_idx() + 1, entries[0]->get_buf());
+        commit(log_store_->next_slot() - 1);
+    }
+
     resp->accept(log_store_->next_slot());
     return resp;
 }
@@ -634,18 +638,20 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
 
     if (catching_up_)
     {
-        l_->info("this server is already in log syncing mode");
-        return resp;
+        // the previous response was lost or the previous leader is gone
+        l_->info("this server is already in log syncing mode, start over");
     }
 
     catching_up_ = true;
     role_ = srv_role::follower;
     leader_ = req.get_src();
-    sm_commit_index_ = 0;
-    quick_commit_idx_ = 0;
-    state_->set_voted_for(-1);
-    state_->set_term(req.get_term());
-    ctx_->state_mgr_->save_state(*state_);
+    if (req.get_term() > state_->get_term())
+    {
+        state_->set_voted_for(-1);
+        state_->set_term(req.get_term());
+        ctx_->state_mgr_->save_state(*state_);
+    }
+
     reconfigure(cluster_config::deserialize(entries[0]->get_buf()));
     resp->accept(log_store_->next_slot());
     return resp;
-- 
2.43.0


From 36f71c5a1bd23e04719b82a70677f2265eb9b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:54 +0000
Subject: [PATCH 25/49] fix: an outdated invitation does not take a member back
 to log syncing mode

---
 src/raft_server_req_handlers.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 5e41af8..d660d0f 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -636,6 +636,13 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
         return resp;
     }
 
+    ptr<cluster_config> conf(cluster_config::deserialize(entries[0]->get_buf()));
+    if (conf->get_log_idx() < config_->get_log_idx())
+    {
+        l_->info("this server has a newer config, ignore the outdated invitation");
+        return resp;
+    }
+
     if (catching_up_)
     {
         // the previous response was lost or the previous leader is gone
@@ -652,7 +659,7 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
         ctx_->state_mgr_->save_state(*state_);
     }
 
-    reconfigure(cluster_config::deserialize(entries[0]->get_buf()));
+    reconfigure(conf);
     resp->accept(log_store_->next_slot());
     return resp;
 }
-- 
2.43.0


From 5eab2a1e09891a43a292436e8c71439d569d4d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 26/49] fix: a server that was restarted before it sees the
 config that has it does not step down

---
 src/raft_server.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index cc10048..c0243b8 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -791,7 +791,8 @@ void raft_server::reconfigure(const ptr<cluster_config>& new_config)
         }
     }
 
-    if (!new_config->get_server(id_))
+    // a server that was restarted while joining goes through the configs which do not have it yet
+    if (!new_config->get_server(id_) && config_->get_log_idx() > 0 && config_->get_server(id_))
     {
         srvs_removed.push_back(id_);
     }
-- 
2.43.0


From 6b8e50f45501e3d9becbe6ebf8ce4d18adf2de2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:53 +0000
Subject: [PATCH 27/49] fix: requests sent at once through one asio rpc client
 neither interleave nor get each other's responses

---
 src/asio_service.cxx | 72 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 69 insertions(+), 3 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index a8cebf1..22a3af9 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -385,7 +385,7 @@ class asio_rpc_client : public rpc_client, public std::enable_shared_from_this<a
 {
 public:
     asio_rpc_client(asio::io_service& io_svc, std::string& host, std::string& port)
-        : resolver_(io_svc), socket_(io_svc), host_(host), port_(port)
+        : resolver_(io_svc), socket_(io_svc), host_(host), port_(port), lock_(), pending_reqs_(), busy_(false)
     {
     }
     virtual ~asio_rpc_client()
@@ -398,6 +398,46 @@ public:
 
 public:
     virtual void send(ptr<req_msg>& req, rpc_handler& when_done) __override__
+    {
+        {
+            auto_lock(lock_);
+            pending_reqs_.push_back(std::make_pair(req, when_done));
+            if (busy_)
+            {
+                // the connection serves one request at a time, so that requests don't interleave on the socket and
+                // every response is matched with its request
+                return;
+            }
+
+            busy_ = true;
+        }
+
+        send_next();
+    }
+
+private:
+    // only the one who holds the busy flag is allowed to touch resolver_ and socket_
+    void send_next()
+    {
+        ptr<req_msg> req;
+        rpc_handler when_done;
+        {
+            auto_lock(lock_);
+            if (pending_reqs_.empty())
+            {
+                busy_ = false;
+                return;
+            }
+
+            req = pending_reqs_.front().first;
+            when_done = pending_reqs_.front().second;
+            pending_reqs_.pop_front();
+        }
+
+        transmit(req, when_done);
+    }
+
+    void transmit(ptr<req_msg>& req, rpc_handler& when_done)
     {
         ptr<asio_rpc_client> self(this->shared_from_this());
         if (!socket_.is_open())
@@ -420,6 +460,7 @@ public:
                         ptr<resp_msg> rsp;
                         ptr<rpc_exception> except(cs_new<rpc_exception>(
                             lstrfmt("failed to resolve host %s due to error %d").fmt(host_.c_str(), err.value()), req));
+                        fail_pending();
                         when_done(rsp, except);
                     }
                 });
@@ -469,7 +510,6 @@ public:
         }
     }
 
-private:
     void connected(
         ptr<req_msg>& req,
         rpc_handler& when_done,
@@ -478,13 +518,15 @@ private:
     {
         if (!err)
         {
-            this->send(req, when_done);
+            this->transmit(req, when_done);
         }
         else
         {
             ptr<resp_msg> rsp;
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to connect to remote socket %d").fmt(err.value()), req));
+            socket_.close();
+            fail_pending();
             when_done(rsp, except);
         }
     }
@@ -515,6 +557,7 @@ private:
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to send request to remote socket %d").fmt(err.value()), req));
             socket_.close();
+            send_next();
             when_done(rsp, except);
         }
     }
@@ -536,6 +579,7 @@ private:
             byte accepted_val = resp_buf->get_byte();
             ptr<resp_msg> rsp(cs_new<resp_msg>(term, (msg_type)msg_type_val, src, dst, nxt_idx, accepted_val == 1));
             ptr<rpc_exception> except;
+            send_next();
             when_done(rsp, except);
         }
         else
@@ -544,15 +588,37 @@ private:
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to read response to remote socket %d").fmt(err.value()), req));
             socket_.close();
+            send_next();
             when_done(rsp, except);
         }
     }
 
+    // fails the requests that are waiting for a connection that could not be made, the next request will try again
+    void fail_pending()
+    {
+        std::list<std::pair<ptr<req_msg>, rpc_handler>> failed;
+        {
+            auto_lock(lock_);
+            failed.swap(pending_reqs_);
+            busy_ = false;
+        }
+
+        for (auto& item : failed)
+        {
+            ptr<resp_msg> rsp;
+            ptr<rpc_exception> except(cs_new<rpc_exception>("failed to connect to remote host", item.first));
+            item.second(rsp, except);
+        }
+    }
+
 private:
     asio::ip::tcp::resolver resolver_;
     asio::ip::tcp::socket socket_;
     std::string host_;
     std::string port_;
+    std::mutex lock_;
+    std::list<std::pair<ptr<req_msg>, rpc_handler>> pending_reqs_;
+    bool busy_;
 };
 } // namespace cornerstone
 
-- 
2.43.0


From 0f6a9c66f56fe3bd8cd0361e567b828674524c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:49 +0000
Subject: [PATCH 28/49] fix: asio_service::stop always returns

---
 src/asio_service.cxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 22a3af9..82f6b8a 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -120,6 +120,7 @@ private:
     std::mutex logger_list_lock_;
     std::list<ptr<impls::fs_based_logger>> loggers_;
     bool stopping_;
+    bool stopped_;
     std::mutex stopping_lock_;
     std::condition_variable stopping_cv_;
     friend asio_service;
@@ -646,6 +647,7 @@ asio_service_impl::asio_service_impl()
       logger_list_lock_(),
       loggers_(),
       stopping_(false),
+      stopped_(false),
       stopping_lock_(),
       stopping_cv_()
 {
@@ -689,6 +691,8 @@ void asio_service_impl::worker_entry()
 
 void asio_service_impl::flush_all_loggers(asio::error_code /* err */)
 {
+    // the timer must not be set again after stop() has cancelled it
+    std::lock_guard<std::mutex> stopping_guard(stopping_lock_);
     if (continue_.load() == 1)
     {
         log_flush_tm_.expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::hours(1000)));
@@ -706,6 +710,7 @@ void asio_service_impl::flush_all_loggers(asio::error_code /* err */)
 
     if (stopping_)
     {
+        stopped_ = true;
         stopping_cv_.notify_all();
     }
 }
@@ -713,14 +718,12 @@ void asio_service_impl::flush_all_loggers(asio::error_code /* err */)
 void asio_service_impl::stop()
 {
     int running = 1;
+    std::unique_lock<std::mutex> lock(stopping_lock_);
     if (continue_.compare_exchange_strong(running, 0))
     {
-        std::unique_lock<std::mutex> lock(stopping_lock_);
         stopping_ = true;
         log_flush_tm_.cancel();
-        stopping_cv_.wait(lock);
-        lock.unlock();
-        lock.release();
+        stopping_cv_.wait(lock, [this]() { return stopped_; });
     }
 }
 
-- 
2.43.0


From e5312631d873743a2d005f17c3b07e55355a4365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:31 +0000
Subject: [PATCH 29/49] fix: a leaving server does not persist a config that
 may never be committed

---
 src/raft_server.cxx | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index c0243b8..2746627 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -202,19 +202,8 @@ void raft_server::handle_election_timeout()
     {
         if (--steps_to_down_ == 0)
         {
-            l_->info("no hearing further news from leader, remove this server from cluster and step down");
-            for (std::list<ptr<srv_config>>::iterator it = config_->get_servers().begin();
-                 it != config_->get_servers().end();
-                 ++it)
-            {
-                if ((*it)->get_id() == id_)
-                {
-                    config_->get_servers().erase(it);
-                    ctx_->state_mgr_->save_config(*config_);
-                    break;
-                }
-            }
-
+            // config_ is left as is, it's not known whether the config without this server has been committed
+            l_->info("no hearing further news from leader, step down as this server is leaving the cluster");
             ctx_->state_mgr_->system_exit(-1);
             return;
         }
-- 
2.43.0


From c748f8c7e20ba845a3e2a5bc05bea5f8a947986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:46 +0000
Subject: [PATCH 30/49] fix: a server whose snapshot ends with a config entry
 can be restarted

---
 src/raft_server.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 2746627..e31d408 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -125,6 +125,14 @@ raft_server::raft_server(context* ctx)
         log_store_->compact(last_snapshot_->get_last_log_idx());
     }
 
+    // configs are not committed through the state machine, so it doesn't know about the ones a snapshot ends with
+    if (last_snapshot_ && sm_commit_index_ < last_snapshot_->get_last_log_idx() &&
+        sm_commit_index_ + 1 < log_store_->start_index())
+    {
+        sm_commit_index_ = last_snapshot_->get_last_log_idx();
+        quick_commit_idx_ = sm_commit_index_;
+    }
+
     // nor may it have saved the snapshot's config
     if (last_snapshot_ && last_snapshot_->get_last_config() &&
         last_snapshot_->get_last_config()->get_log_idx() > config_->get_log_idx())
-- 
2.43.0


From 17cd44344d77e7d428918b862058afd3d136fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:53 +0000
Subject: [PATCH 31/49] fix: replaying committed configs neither persists an
 old config nor hides one that is not committed

---
 include/raft_server.hxx           |  1 +
 src/raft_server.cxx               | 22 ++++++++++++++++++++--
 src/raft_server_req_handlers.cxx  |  9 ++++++++-
 src/raft_server_resp_handlers.cxx |  2 +-
 4 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index 4db689f..a653248 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -95,6 +95,7 @@ private:
     ptr<req_msg> create_sync_snapshot_req(peer& p, ulong last_log_idx, ulong term, ulong commit_idx);
     void commit(ulong target_idx);
     void snapshot_and_compact(ulong committed_idx);
+    bool has_uncommitted_config();
     bool update_term(ulong term);
     void reconfigure(const ptr<cluster_config>& new_config);
     void become_candidate();
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index e31d408..f301521 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -594,6 +594,19 @@ void raft_server::commit(ulong target_idx)
     }
 }
 
+bool raft_server::has_uncommitted_config()
+{
+    for (ulong i = std::max((ulong)sm_commit_index_ + 1, log_store_->start_index()); i < log_store_->next_slot(); ++i)
+    {
+        if (log_store_->entry_at(i)->get_val_type() == log_val_type::conf)
+        {
+            return true;
+        }
+    }
+
+    return false;
+}
+
 void raft_server::snapshot_and_compact(ulong committed_idx)
 {
     if (ctx_->params_->snapshot_distance_ == 0 ||
@@ -1000,8 +1013,13 @@ void raft_server::commit_in_bg()
                     log_entry->get_buf().pos(0);
                     ptr<cluster_config> new_conf = cluster_config::deserialize(log_entry->get_buf());
                     l_->info(sstrfmt("config at index %llu is committed").fmt(new_conf->get_log_idx()));
-                    ctx_->state_mgr_->save_config(*new_conf);
-                    config_changing_ = false;
+                    if (config_->get_log_idx() <= new_conf->get_log_idx())
+                    {
+                        // otherwise it's an old one that is being replayed
+                        ctx_->state_mgr_->save_config(*new_conf);
+                    }
+
+                    config_changing_ = has_uncommitted_config();
                     if (config_->get_log_idx() < new_conf->get_log_idx())
                     {
                         reconfigure(new_conf);
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index d660d0f..98a2390 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -142,6 +142,7 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         }
 
         // dealing with overwrites, everything starts from the first conflict will be discarded
+        bool config_reverted(false);
         for (ulong last_idx = log_store_->next_slot(); log_idx < req.log_entries().size() && last_idx > idx; --last_idx)
         {
             ptr<log_entry> old_entry(log_store_->entry_at(last_idx - 1));
@@ -152,7 +153,7 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
             else if (old_entry->get_val_type() == log_val_type::conf)
             {
                 l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
-                config_changing_ = false;
+                config_reverted = true;
             }
         }
 
@@ -189,6 +190,11 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
                 state_machine_->pre_commit(idx_for_entry, entry->get_buf(), entry->get_cookie());
             }
         }
+
+        if (config_reverted)
+        {
+            config_changing_ = has_uncommitted_config();
+        }
     }
 
     leader_ = req.get_src();
@@ -401,6 +407,7 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
                 ctx_->state_mgr_->save_config(*config_);
                 sm_commit_index_ = req.get_snapshot().get_last_log_idx();
                 quick_commit_idx_ = req.get_snapshot().get_last_log_idx();
+                config_changing_ = has_uncommitted_config();
                 ctx_->state_mgr_->save_state(*state_);
                 last_snapshot_ = cs_new<snapshot>(
                     req.get_snapshot().get_last_log_idx(),
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 228f089..ec59088 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -490,7 +490,7 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                 {
                     l_->info(lstrfmt("rpc failed again for the new coming server (%d), will stop retry for this server")
                                  .fmt(p->get_id()));
-                    config_changing_ = false;
+                    config_changing_ = has_uncommitted_config();
                     srv_to_join_.reset();
                 }
             }
-- 
2.43.0


From 87b33e78aac7782e88bafc9f6784d65d7838c137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:00 +0000
Subject: [PATCH 32/49] fix: overwriting an entry that is older than the log
 store's buffer discards the buffered entries

---
 src/fs_log_store.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index a19b2fb..582716f 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -128,6 +128,9 @@ void log_store_buffer::trim(ulong start)
     write_lock(lock_);
     if (start < start_idx_)
     {
+        // nothing in the buffer is left
+        buf_.clear();
+        start_idx_ = start;
         return;
     }
 
-- 
2.43.0


From ac62a19e07c8480be4d44c5b59923d662f981383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:00 +0000
Subject: [PATCH 33/49] fix: log_entries returns no more than the requested
 range when the range is older than the buffer

---
 src/fs_log_store.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 582716f..32c5a30 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -411,7 +411,7 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
             throw std::runtime_error("IO fails, data cannot be saved");
         }
 
-        lend = buffer_first_idx - start_idx_;
+        lend = std::min(lend, buffer_first_idx - start_idx_);
         idx_file_.seekg(lstart * sz_ulong);
         bufptr d_start_idx_buf(buffer::alloc(sz_ulong));
         idx_file_ >> *d_start_idx_buf;
-- 
2.43.0


From a72791f542155e493fc4f90d8c5316b11914b2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:00 +0000
Subject: [PATCH 34/49] fix: a log store with a buffer size of zero can read
 its last entry

---
 src/fs_log_store.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 32c5a30..28e3e8e 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -180,7 +180,8 @@ fs_log_store::fs_log_store(const std::string& log_folder, int buf_size)
       log_folder_(log_folder),
       store_lock_(),
       buf_(nilptr),
-      buf_size_(buf_size < 0 ? std::numeric_limits<int>::max() : buf_size)
+      // the last entry must always be in the buffer
+      buf_size_(buf_size < 0 ? std::numeric_limits<int>::max() : std::max(buf_size, 1))
 {
     if (log_folder_.length() > 0 && log_folder_[log_folder_.length() - 1] != PATH_SEPARATOR)
     {
-- 
2.43.0


From f90db00df5e6c0d749f4ef76b7910a753e278266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:00 +0000
Subject: [PATCH 35/49] fix: replacing the last log entry with a shorter one
 leaves no bytes of the old entry behind

---
 src/fs_log_store.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 28e3e8e..be143b1 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -337,8 +337,9 @@ void fs_log_store::write_at(ulong index, ptr<log_entry>& entry)
     ulong ndata_len = data_file_.tellp();
     ulong nidx_len = idx_file_.tellp();
     idx_file_.seekp(0, std::fstream::end);
-    if (static_cast<ulong>(idx_file_.tellp()) > nidx_len)
-    { // new index length is less than current file size, truncate it
+    data_file_.seekp(0, std::fstream::end);
+    if (static_cast<ulong>(idx_file_.tellp()) > nidx_len || static_cast<ulong>(data_file_.tellp()) > ndata_len)
+    { // new index or data length is less than current file size, truncate it
         std::string idx_path = log_folder_ + LOG_INDEX_FILE;
         std::string data_path = log_folder_ + LOG_DATA_FILE;
         idx_file_.close();
@@ -615,7 +616,7 @@ void fs_log_store::apply_pack(ulong index, buffer& pack)
     ulong data_pos = data_file_.tellp();
     idx_file_.seekp(0, std::fstream::end);
     data_file_.seekp(0, std::fstream::end);
-    if (idx_pos < static_cast<ulong>(idx_file_.tellp()))
+    if (idx_pos < static_cast<ulong>(idx_file_.tellp()) || data_pos < static_cast<ulong>(data_file_.tellp()))
     {
         std::string idx_path = log_folder_ + LOG_INDEX_FILE;
         std::string data_path = log_folder_ + LOG_DATA_FILE;
-- 
2.43.0


From 5aecfcf1edd3dc7fd18e2c72d7f7c8793eb007bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:00 +0000
Subject: [PATCH 36/49] fix: term_at or apply_pack outside of the stored range
 does not break the log store

---
 src/fs_log_store.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index be143b1..6390da5 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -499,6 +499,11 @@ ulong fs_log_store::term_at(ulong index)
             throw std::range_error("index out of range");
         }
 
+        if (index >= start_idx_ + entries_in_store_)
+        {
+            throw std::range_error("index out of range");
+        }
+
         if (!data_file_ || !idx_file_)
         {
             throw std::runtime_error("IO fails, data cannot be saved");
@@ -572,6 +577,11 @@ bufptr fs_log_store::pack(ulong index, int32 cnt)
 void fs_log_store::apply_pack(ulong index, buffer& pack)
 {
     recur_lock(store_lock_);
+    if (index < start_idx_ || index > start_idx_ + entries_in_store_)
+    {
+        throw std::range_error("index out of range");
+    }
+
     int32 idx_len = pack.get_int();
     int32 data_len = pack.get_int();
     ulong local_idx = index - start_idx_;
-- 
2.43.0


From 6302c21a48651d46b39f4402f077b082502a12f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:00 +0000
Subject: [PATCH 37/49] fix: a failed compact restores the log store's data
 instead of erasing the backup

---
 src/fs_log_store.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 6390da5..0112bf5 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -835,7 +835,7 @@ bool fs_log_store::compact(ulong last_log_index)
     idx_bak_file.seekg(0);
     data_bak_file.seekg(0);
     start_idx_bak_file.seekg(0);
-    data_file_.open(data_bak_path, std::fstream::out);
+    data_file_.open(data_file_path, std::fstream::out);
     data_file_.close();
     data_file_.open(data_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
     idx_file_.open(idx_file_path, std::fstream::out);
-- 
2.43.0


From 4979418b00c78d32c8cd1acc5043b239f2d8bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:30 +0000
Subject: [PATCH 38/49] fix: reads of the log store do not mix the states
 before and after a concurrent change

---
 src/fs_log_store.cxx | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 0112bf5..14b2e9a 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -268,6 +268,7 @@ ulong fs_log_store::start_index() const
 
 ptr<log_entry> fs_log_store::last_entry() const
 {
+    recur_lock(store_lock_);
     ptr<log_entry> entry = buf_->last_entry();
     if (entry == nilptr)
     {
@@ -373,25 +374,23 @@ void fs_log_store::write_at(ulong index, ptr<log_entry>& entry)
 
 ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong end)
 {
-    ulong lstart(0), lend(0), good_end(0);
+    // the buffer and the files must not change until everything is read
+    recur_lock(store_lock_);
+    if (start < start_idx_)
     {
-        recur_lock(store_lock_);
-        if (start < start_idx_)
-        {
-            throw std::range_error("index out of range");
-        }
-
-        if (start >= end || start >= (start_idx_ + entries_in_store_))
-        {
-            return ptr<std::vector<ptr<log_entry>>>();
-        }
+        throw std::range_error("index out of range");
+    }
 
-        lstart = start - start_idx_;
-        lend = end - start_idx_;
-        lend = lend > entries_in_store_ ? entries_in_store_ : lend;
-        good_end = lend + start_idx_;
+    if (start >= end || start >= (start_idx_ + entries_in_store_))
+    {
+        return ptr<std::vector<ptr<log_entry>>>();
     }
 
+    ulong lstart = start - start_idx_;
+    ulong lend = end - start_idx_;
+    lend = lend > entries_in_store_ ? entries_in_store_ : lend;
+    ulong good_end = lend + start_idx_;
+
     if (lstart >= lend)
     {
         return ptr<std::vector<ptr<log_entry>>>();
@@ -407,7 +406,6 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
     if (start < buffer_first_idx)
     {
         // in this case, we need to read from store file
-        recur_lock(store_lock_);
         if (!data_file_ || !idx_file_)
         {
             throw std::runtime_error("IO fails, data cannot be saved");
@@ -445,6 +443,7 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
 
 ptr<log_entry> fs_log_store::entry_at(ulong index)
 {
+    recur_lock(store_lock_);
     ptr<log_entry> entry = (*buf_)[index];
     if (entry)
     {
@@ -454,7 +453,6 @@ ptr<log_entry> fs_log_store::entry_at(ulong index)
     {
         // since we don't hit the buffer, so this must not be the last entry
         // (according to Assumption: buffer.last_index() == entries_in_store_ + start_idx_)
-        recur_lock(store_lock_);
         if (index < start_idx_)
         {
             throw std::range_error("index out of range");
@@ -487,13 +485,13 @@ ptr<log_entry> fs_log_store::entry_at(ulong index)
 
 ulong fs_log_store::term_at(ulong index)
 {
+    recur_lock(store_lock_);
     if (index >= buf_->first_idx() && index < buf_->last_idx())
     {
         return buf_->get_term(index);
     }
 
     {
-        recur_lock(store_lock_);
         if (index < start_idx_)
         {
             throw std::range_error("index out of range");
@@ -866,6 +864,7 @@ bool fs_log_store::compact(ulong last_log_index)
 
 void fs_log_store::close()
 {
+    recur_lock(store_lock_);
     idx_file_.close();
     data_file_.close();
     start_idx_file_.close();
-- 
2.43.0


From 6c21fbdb65e6d444f1df314207d430d911a87a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:50 +0000
Subject: [PATCH 39/49] fix: reading a buffer into a larger one is refused
 instead of reading beyond the end

---
 src/buffer.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer.cxx b/src/buffer.cxx
index 50678e6..26eb083 100644
--- a/src/buffer.cxx
+++ b/src/buffer.cxx
@@ -245,6 +245,11 @@ void buffer::put(const std::string& str)
 void buffer::get(bufptr& dst)
 {
     size_t sz = dst->size() - dst->pos();
+    if (size() - pos() < sz)
+    {
+        throw std::overflow_error("insufficient buffer available for the other buffer");
+    }
+
     ::memcpy(dst->data(), data(), sz);
     __mv_fw_block(this, sz);
 }
-- 
2.43.0


From c7d50d20238c74e2635dac70122cdf3601d0f9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:50 +0000
Subject: [PATCH 40/49] fix: an empty string put into a buffer can be read back

---
 src/buffer.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer.cxx b/src/buffer.cxx
index 26eb083..fb57886 100644
--- a/src/buffer.cxx
+++ b/src/buffer.cxx
@@ -172,7 +172,7 @@ const char* buffer::get_str()
     byte* d = data();
     while ((p + i) < s && *(d + i))
         ++i;
-    if (p + i >= s || i == 0)
+    if (p + i >= s)
     {
         return nilptr;
     }
-- 
2.43.0


From 8b7d7cddc7fd33ddd4e520d2c9d014e67c519f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:50 +0000
Subject: [PATCH 41/49] fix: an unknown kind in a received message or stored
 entry is not undefined behaviour

---
 include/log_val_type.hxx | 2 +-
 include/msg_type.hxx     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/log_val_type.hxx b/include/log_val_type.hxx
index e87c1b9..4bbea1c 100644
--- a/include/log_val_type.hxx
+++ b/include/log_val_type.hxx
@@ -18,7 +18,7 @@
 #define _LOG_VALUE_TYPE_HXX_
 namespace cornerstone
 {
-enum log_val_type
+enum log_val_type : unsigned int
 {
     app_log = 0x1,
     conf,
diff --git a/include/msg_type.hxx b/include/msg_type.hxx
index a0404ee..159b467 100644
--- a/include/msg_type.hxx
+++ b/include/msg_type.hxx
@@ -19,7 +19,7 @@
 
 namespace cornerstone
 {
-enum msg_type
+enum msg_type : unsigned int
 {
     vote_request = 0x1,
     vote_response,
-- 
2.43.0


From 514f497366fd93098a63ee6bc4608d4b83cec3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:57 +0000
Subject: [PATCH 42/49] fix: a damaged log pack is refused before it changes
 the store or is read beyond its end

---
 src/fs_log_store.cxx | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 14b2e9a..b4ffa14 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -582,6 +582,29 @@ void fs_log_store::apply_pack(ulong index, buffer& pack)
 
     int32 idx_len = pack.get_int();
     int32 data_len = pack.get_int();
+    const size_t prev_pack_pos = pack.pos();
+    const size_t pack_len = pack.size() - prev_pack_pos;
+    if (idx_len <= 0 || idx_len % sz_ulong != 0 || data_len < 0 || static_cast<size_t>(idx_len) > pack_len ||
+        static_cast<size_t>(data_len) > pack_len - idx_len)
+    {
+        throw std::invalid_argument("malformed log pack");
+    }
+
+    // each entry has at least a term and a value type
+    const ulong first_idx = pack.get_ulong();
+    ulong prev_idx = first_idx;
+    for (size_t i = 1; i <= idx_len / sz_ulong; ++i)
+    {
+        ulong idx = i < idx_len / sz_ulong ? pack.get_ulong() : first_idx + data_len;
+        if (idx < prev_idx || idx - prev_idx < sz_ulong + sz_byte || idx - first_idx > static_cast<ulong>(data_len))
+        {
+            throw std::invalid_argument("malformed log pack");
+        }
+
+        prev_idx = idx;
+    }
+
+    pack.pos(prev_pack_pos);
     ulong local_idx = index - start_idx_;
     if (local_idx == entries_in_store_)
     {
@@ -599,9 +622,6 @@ void fs_log_store::apply_pack(ulong index, buffer& pack)
     }
 
     ulong prev_data_pos = data_file_.tellp();
-    size_t prev_pack_pos = pack.pos();
-    ulong first_idx = pack.get_ulong();
-    pack.pos(prev_pack_pos);
     if (prev_data_pos == first_idx)
     {
         idx_file_.write(reinterpret_cast<const char*>(pack.data()), idx_len);
-- 
2.43.0


From 2e346a1a28be85a09cce7eda4fcdd5c828d20c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:57 +0000
Subject: [PATCH 43/49] fix: a membership with a corrupted server count is not
 undefined behaviour

---
 src/cluster_config.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cluster_config.cxx b/src/cluster_config.cxx
index 692c2a5..73a3f59 100644
--- a/src/cluster_config.cxx
+++ b/src/cluster_config.cxx
@@ -49,7 +49,7 @@ ptr<cluster_config> cluster_config::deserialize(buffer& buf)
     ulong prev_log_idx = buf.get_ulong();
     int32 cnt = buf.get_int();
     ptr<cluster_config> conf = cs_new<cluster_config>(log_idx, prev_log_idx);
-    while (cnt-- > 0)
+    for (; cnt > 0; --cnt)
     {
         conf->get_servers().push_back(srv_config::deserialize(buf));
     }
-- 
2.43.0


From f986abbae281956d6a5ca164250e4be7469ac127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:04 +0000
Subject: [PATCH 44/49] fix: waiters of an async_result return although the
 completion handler throws or blocks

---
 include/async.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/async.hxx b/include/async.hxx
index 313a99b..9cbadb7 100644
--- a/include/async.hxx
+++ b/include/async.hxx
@@ -78,12 +78,12 @@ public:
             }
         }
 
+        // waiters don't depend on the handler, which may block or throw
+        cv_.notify_all();
         if (handler)
         {
             handler(result_, err_);
         }
-
-        cv_.notify_all();
     }
 
     T& get()
-- 
2.43.0


From 9835871ae7597818352b8597fdc3ebfe4c3b1e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:20 +0000
Subject: [PATCH 45/49] fix: an exception thrown by a task does not end the
 service's worker thread

---
 src/asio_service.cxx | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 82f6b8a..a5503cd 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -679,13 +679,18 @@ void asio_service_impl::run()
 
 void asio_service_impl::worker_entry()
 {
-    try
+    bool done = false;
+    while (!done)
     {
-        io_svc_.run();
-    }
-    catch (...)
-    {
-        // ignore all exceptions
+        try
+        {
+            io_svc_.run();
+            done = true;
+        }
+        catch (...)
+        {
+            // ignore all exceptions, they must not end the worker
+        }
     }
 }
 
-- 
2.43.0


From 7e4fe48e165b05b2d098eb31efeb4758e25aee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:19 +0000
Subject: [PATCH 46/49] fix: a task that is scheduled again does not run early
 because its earlier expiry was queued already

---
 src/asio_service.cxx | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index a5503cd..f08aae7 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -626,15 +626,30 @@ private:
 using namespace cornerstone;
 using namespace cornerstone::impls;
 
+namespace
+{
+// the timer of a task, and the number of the latest schedule or cancel call for it
+struct task_timer
+{
+    explicit task_timer(asio::io_service& io_svc) : timer_(io_svc), generation_(0)
+    {
+    }
+
+    asio::steady_timer timer_;
+    std::atomic<ulong> generation_;
+};
+} // namespace
+
 void _free_timer_(void* ptr)
 {
-    asio::steady_timer* timer = static_cast<asio::steady_timer*>(ptr);
+    task_timer* timer = static_cast<task_timer*>(ptr);
     delete timer;
 }
 
-void _timer_handler_(ptr<delayed_task>& task, asio::error_code err)
+void _timer_handler_(ptr<delayed_task>& task, ulong generation, asio::error_code err)
 {
-    if (!err)
+    // the expiry may have been queued before the task was cancelled or scheduled again
+    if (!err && static_cast<task_timer*>(task->get_impl_context())->generation_.load() == generation)
     {
         task->execute();
     }
@@ -794,21 +809,26 @@ void asio_service::schedule(ptr<delayed_task>& task, int32 milliseconds)
 {
     if (task->get_impl_context() == nilptr)
     {
-        task->set_impl_context(new asio::steady_timer(impl_->io_svc_), &_free_timer_);
+        task->set_impl_context(new task_timer(impl_->io_svc_), &_free_timer_);
     }
     // ensure it's not in cancelled state
     task->reset();
 
-    asio::steady_timer* timer = static_cast<asio::steady_timer*>(task->get_impl_context());
-    timer->expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::milliseconds(milliseconds)));
-    timer->async_wait([task](const asio::error_code err) mutable { _timer_handler_(task, err); });
+    task_timer* timer = static_cast<task_timer*>(task->get_impl_context());
+    ulong generation = ++timer->generation_;
+    timer->timer_.expires_after(
+        std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::milliseconds(milliseconds)));
+    timer->timer_.async_wait([task, generation](const asio::error_code err) mutable
+                             { _timer_handler_(task, generation, err); });
 }
 
 void asio_service::cancel_impl(ptr<delayed_task>& task)
 {
     if (task->get_impl_context() != nilptr)
     {
-        static_cast<asio::steady_timer*>(task->get_impl_context())->cancel();
+        task_timer* timer = static_cast<task_timer*>(task->get_impl_context());
+        ++timer->generation_;
+        timer->timer_.cancel();
     }
 }
 
-- 
2.43.0


From 76170ee88e1047b98180fdd11c5dd1a353de77a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:04 +0000
Subject: [PATCH 47/49] fix: stopping the service ends its workers although
 timers and connections are pending

---
 src/asio_service.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index f08aae7..fd6c80d 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -744,6 +744,8 @@ void asio_service_impl::stop()
         stopping_ = true;
         log_flush_tm_.cancel();
         stopping_cv_.wait(lock, [this]() { return stopped_; });
+        // end the workers, no matter how many timers and connections are pending
+        io_svc_.stop();
     }
 }
 
-- 
2.43.0


From 164a74b7bbe79964ab231b0c77bffa232f08b2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:04 +0000
Subject: [PATCH 48/49] fix: log lines written by several threads at once do
 not mix up their time stamps

---
 src/asio_service.cxx | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index fd6c80d..9c5deb2 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -780,16 +780,21 @@ void cornerstone::impls::fs_based_logger::write_log(const std::string& level, co
     std::chrono::system_clock::time_point now = std::chrono::system_clock::now();
     int ms = (int)(std::chrono::duration_cast<std::chrono::milliseconds>(now.time_since_epoch()).count() % 1000);
     std::time_t now_c = std::chrono::system_clock::to_time_t(now);
-    std::tm* tm = std::gmtime(&now_c);
+    std::tm tm;
+#ifdef _WIN32
+    gmtime_s(&tm, &now_c);
+#else
+    gmtime_r(&now_c, &tm); // std::gmtime is not thread safe
+#endif
     std::hash<std::thread::id> hasher;
     std::string line(sstrfmt("%d/%d/%d %d:%d:%d.%d\t[%d]\t%s\t")
                          .fmt(
-                             tm->tm_mon + 1,
-                             tm->tm_mday,
-                             tm->tm_year + 1900,
-                             tm->tm_hour,
-                             tm->tm_min,
-                             tm->tm_sec,
+                             tm.tm_mon + 1,
+                             tm.tm_mday,
+                             tm.tm_year + 1900,
+                             tm.tm_hour,
+                             tm.tm_min,
+                             tm.tm_sec,
                              ms,
                              hasher(std::this_thread::get_id()),
                              level.c_str()));
-- 
2.43.0


From 4e8dd759466b1a8c6dda559894f0cd9b78723c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:21 +0000
Subject: [PATCH 49/49] fix: stopping the rpc listener does not race with
 accepting a connection

---
 src/asio_service.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 9c5deb2..46dc39d 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -314,6 +314,7 @@ public:
         : io_svc_(io),
           handler_(),
           acceptor_(io, asio::ip::tcp::endpoint(asio::ip::tcp::v4(), port)),
+          acceptor_lock_(),
           active_sessions_(),
           session_lock_(),
           l_(l)
@@ -323,6 +324,7 @@ public:
 
         public : virtual void stop() override
     {
+        auto_lock(acceptor_lock_);
         acceptor_.close();
     }
 
@@ -335,6 +337,8 @@ public:
 private:
     void start()
     {
+        // stop() may be called by any thread
+        auto_lock(acceptor_lock_);
         if (!acceptor_.is_open())
         {
             return;
@@ -377,6 +381,7 @@ private:
     asio::io_service& io_svc_;
     ptr<msg_handler> handler_;
     asio::ip::tcp::acceptor acceptor_;
+    std::mutex acceptor_lock_;
     std::vector<ptr<rpc_session>> active_sessions_;
     std::mutex session_lock_;
     ptr<logger> l_;
-- 
2.43.0

