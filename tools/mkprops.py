#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept in python for readable editing).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(observe), "hook_needed": hook}})

RS="src/raft_server.cxx"; RQ="src/raft_server_req_handlers.cxx"; RR="src/raft_server_resp_handlers.cxx"
RH="include/raft_server.hxx"; PE="src/peer.cxx"; PH="include/peer.hxx"; FS="src/fs_log_store.cxx"; AS="src/asio_service.cxx"

prop("C01","At most one leader per term",
 "In every term at most one server of the cluster ever acts as leader (announces leadership, or sends append-entries or snapshot requests carrying that term). A server acts as leader of a term only after servers forming a majority of the membership granted it their vote in that term, each server counted once.",
 ["schedules","crash_points","fault_sequences","histories"],
 "every interleaving of timers, messages (delayed, reordered, lost, delivered after the sender gave up), partitions, crashes and restarts of any server, for 1-5 servers, with and without pre-vote",
 "the tests start three servers on a loss-free in-process or loopback transport once and look at one leader; they never crash a server, lose or reorder a message, or look at two terms",
 [RS,RR,RQ,RH],
 [("vote counting per distinct voter and majority test",RR+":handle_voting_resp, "+RS+":request_vote"),("single persisted vote per term",RQ+":handle_vote_req"),("stepping down on a higher term",RS+":update_term, become_follower"),("a vote answer of another term is ignored",RR+":handle_voting_resp")],
 [("votes_granted_","votes of the running election",RH),("voted_servers_","who answered in the running election",RH)],
 ["event listener become_leader","requests passed to rpc_client::send","state_mgr::save_state"])

prop("C02","All state machines apply the same commands in the same order",
 "For every log index, every server that applies a command at that index applies the same bytes, whatever the order of elections, crashes, restarts and snapshot installations. Each server hands the commands of the log to its state machine in increasing index order, exactly once per state-machine lifetime, leaving out nothing but non-application entries and what an installed snapshot covers.",
 ["schedules","crash_points","fault_sequences","histories"],
 "every history of client requests, leader changes, message faults, crash/restart points (durable or snapshot-only state machines) and snapshot transfers",
 "the tests replicate a few hundred messages without any failure and compare message counts on one schedule",
 [RS,RQ,RR],
 [("background application loop",RS+":commit_in_bg"),("commit index only up to what is known to match the leader",RQ+":handle_append_entries"),("consistency check and overwrite of conflicting entries",RQ+":handle_append_entries"),("snapshot installation moves the applied index",RQ+":handle_snapshot_sync_req")],
 [("sm_commit_index_","last index handed to the state machine",RH),("quick_commit_idx_","last index known committed",RH)],
 ["state_machine::commit","state_machine::apply_snapshot","log_store writes"])

prop("C03","Committed entries are never lost or replaced",
 "Once any server has applied an entry, that entry is stored by a majority of the members, no server that lacks it can win an election any more, and every later leader has it in its log or snapshot. No server ever overwrites, drops or rolls back an entry that it or any other server has applied, except by compaction behind a snapshot that contains its effect.",
 ["schedules","crash_points","fault_sequences","histories"],
 "every history with leader changes, partial replication, stale replies, crash/restart at any persistence point and compaction",
 "losing a committed entry needs a leader change at a particular replication state; the tests never change the leader",
 [RR,RQ,RS],
 [("majority match computation and current-term commit rule",RR+":handle_append_entries_resp"),("up-to-date check when voting",RQ+":handle_vote_req"),("append acknowledged only after the entry is stored",RQ+":handle_append_entries"),("compaction only behind a completed snapshot",RS+":on_snapshot_completed")],
 [("matched_idx_","what a follower is known to hold",PH)],
 ["log_store::append/write_at/compact/apply_pack","state_machine::commit/rollback","event listener become_leader"])

prop("C04","Logs agree wherever they share an entry (log matching)",
 "If the logs of two servers contain an entry with the same index and term, the two entries are byte-identical (content and kind) and the logs agree on everything before. New entries of a term are created only by the leader of that term, a leader never rewrites or drops entries of its own log, and a follower acknowledges an append only for a prefix it really stores identically to the leader.",
 ["schedules","crash_points","fault_sequences","histories"],
 "every history of appends, conflicting suffixes, batch sizes, stale or repeated requests, leader changes and crashes between two entries of a batch",
 "the tests' followers never have a conflicting or partially written suffix",
 [RQ,RS,RR,PH],
 [("previous index/term check, skip of identical prefix, overwrite of the conflicting suffix",RQ+":handle_append_entries"),("terms stamped by the leader",RQ+":handle_cli_req"),("construction of append requests from the follower position",RS+":create_append_entries_req"),("log sync to a joining server",RQ+":handle_log_sync_req")],
 [("next_log_idx_","next entry to send to a follower",PH)],
 ["log_store::append/write_at/apply_pack","append_entries requests and responses"])

prop("C05","Term and vote are durable before they are used and never go back",
 "A server's persisted term never decreases and, within a term, its persisted vote never changes from one server to another, also across crashes and restarts. No request or reply leaves a server carrying a term it has not persisted, a granted vote is persisted before the grant is sent, and a candidate has persisted its vote for itself before asking for votes.",
 ["crash_points","schedules","fault_sequences"],
 "a crash before or after any single persistence step, and every order of vote requests from competing candidates",
 "the tests' state manager keeps nothing across a restart and no test restarts a server",
 [RS,RQ,"include/srv_state.hxx"],
 [("save before request/reply",RS+":become_candidate, request_vote, update_term"),("vote saved in the grant branch",RQ+":handle_vote_req"),("state loaded at start",RS+":raft_server ctor"),("joining a cluster",RQ+":handle_join_cluster_req")],
 [("state_","term and vote",RH)],
 ["state_mgr::save_state/read_state","requests and responses"])

prop("C06","Votes and pre-votes go only to up-to-date, legitimate candidates",
 "A server grants a vote or pre-vote only to a candidate whose last log entry (snapshot included) is at least as up-to-date as its own and whose term is not older, and a candidate always advertises its true last entry. A pre-vote request never changes anybody's term or vote; with pre-vote enabled a follower starts a real election only after a majority granted its pre-vote in the current round, and in defensive mode a server still hearing from a leader refuses pre-votes.",
 ["schedules","histories","fault_sequences","configurations"],
 "all pairs of candidate and voter logs reachable through conflicting histories, compaction, snapshot installation and restarts; pre-vote on/off, defensive on/off",
 "the tests' servers always have equal logs when they vote and compaction never empties a log",
 [RQ,RR,RS,"include/srv_state.hxx"],
 [("log comparison",RQ+":handle_vote_req, handle_prevote_req"),("pre-vote round bookkeeping",RR+":handle_prevote_resp, "+RS+":request_prevote"),("term of the last entry after compaction",RS+":term_for_log")],
 [("prevote_state_","running pre-vote round",RH)],
 ["vote/pre-vote requests and responses","log_store contents at that moment"])

prop("C07","The cluster makes progress again once faults stop",
 "After faults stop and all members are up and connected, the cluster elects a leader, commits a newly submitted command and brings every member's state machine to the same state within a bounded number of election timeouts, whatever happened before. No sequence of crashes, restarts, message loss, delay or reordering makes a healthy server shut itself down, deadlock, stop its timers or stall a peer for ever.",
 ["schedules","fault_sequences","crash_points","histories"],
 "every fault history followed by a fault-free period; bound 400 times the upper election timeout of virtual time, decided on virtual time and scheduler deadlock, never on wall clock",
 "the tests never inject a fault, so nothing ever has to recover",
 [RS,RR,RQ,PE,PH],
 [("election and heartbeat timers",RS+":restart_election_timer, handle_hb_timeout, handle_election_timeout"),("back-off and retry of a follower position",RR+":handle_append_entries_resp, handle_install_snapshot_resp"),("busy flag released on every rpc outcome",PE+":handle_rpc_result"),("wake-up of the application thread",RS+":commit, commit_in_bg")],
 [("busy_flag_","an append is in flight",PH)],
 ["state_machine::commit on every server","state_mgr::system_exit","controlled scheduler: no runnable thread"])

prop("C08","Snapshots and compaction are equivalent to the log they replace",
 "A snapshot is requested for exactly the applied prefix, with that prefix's last index, term and the membership in force there; a follower that installs one receives exactly the bytes the leader's state machine produced, block by block, applies it only when complete and newer than what it has applied, and continues with the next entry. Compaction removes only entries covered by such a snapshot (keeping the configured number of reserved entries), and a server restarted at any point during snapshot creation or installation recovers to a state reachable without snapshots.",
 ["schedules","crash_points","fault_sequences","configurations","histories"],
 "every snapshot distance, block size, reserve count and snapshot size (multiple of the block or not), lost or repeated blocks, leader changes and crashes during a transfer, commits racing with installation",
 "no test enables snapshots, installs one, or restarts from one",
 [RS,RQ,RR,"src/snapshot.cxx","src/snapshot_sync_req.cxx","include/snapshot_sync_ctx.hxx"],
 [("snapshot creation",RS+":snapshot_and_compact, on_snapshot_completed"),("block transfer",RS+":create_sync_snapshot_req, "+RR+":handle_install_snapshot_resp"),("installation",RQ+":handle_install_snapshot_req, handle_snapshot_sync_req")],
 [("last_snapshot_","newest snapshot usable for followers",RH),("snp_sync_ctx_","transfer position per follower",PH)],
 ["state_machine::create_snapshot/save_snapshot_data/apply_snapshot/read_snapshot_data","log_store::compact"])

prop("C09","Membership changes one server at a time and is agreed like any entry",
 "Successive memberships recorded in the log differ by exactly the one server whose addition or removal was requested (same id and endpoint), each refers to its predecessor, and a new change is started only by the leader after the previous one is committed; all other requests are refused. Every server adopts and persists a membership only when it is committed, an added server takes part only after it received the log, a removed one no longer counts, and while the leader and a majority stay healthy an accepted change takes effect. (A joining server brings no history of its own and stays passive until it has a membership that includes it; a server told to leave may stop even if its removal is then given up.)",
 ["schedules","fault_sequences","histories","configurations"],
 "every order of add/remove requests (also concurrent, repeated, for existing or unknown ids, at followers), leader changes, failed joins and message faults during a change",
 "the tests never add or remove a server",
 [RQ,RR,RS,"src/cluster_config.cxx"],
 [("one change at a time",RQ+":handle_add_srv_req, handle_rm_srv_req"),("join: invitation, log/snapshot sync, configuration entry",RQ+":sync_log_to_new_srv, "+RR+":handle_ext_resp"),("adoption at commit",RS+":commit_in_bg, reconfigure")],
 [("config_","membership in force",RH),("config_changing_","an uncommitted membership is in the log",RH)],
 ["conf entries in log_store writes","state_mgr::save_config","add/remove responses"])

prop("C10","State machine sees pre-commit, then commit or rollback, exactly once",
 "Every application entry a server stores is announced to its state machine once before it is applied, and ends in exactly one of: applied, covered by an installed snapshot, or rolled back when it is discarded in favour of another leader's entry; every discarded entry is rolled back and an applied one never is. Each of these calls carries the index, the bytes and, on the server where it was submitted with one, the caller's cookie of the entry concerned.",
 ["schedules","histories","fault_sequences"],
 "every history of conflicting suffixes (of any length, with membership entries inside), leader changes and submissions with and without cookies",
 "no test discards an entry, so rollback is never called, and no test passes a cookie",
 [RQ,RS],
 [("pre-commit at append, rollback at overwrite",RQ+":handle_append_entries, handle_cli_req"),("submission with cookie",RS+":replicate_log"),("commit",RS+":commit_in_bg")],
 [],
 ["state_machine::pre_commit/commit/rollback","log_store::append/write_at"])

prop("C11","A client request is accepted only by the leader and executed at most once",
 "A request reported as accepted was put into the log of the leader of the current term, once, complete, in order and with the submitted bytes; a request reported as refused is never put into any log; a request sent to a follower is forwarded to the leader and reports the leader's answer, and a failed call is reported as failed. A leader that has had no answer from a quorum for longer than twice the upper election timeout reports itself as no longer leading and refuses requests, while a leader in touch with a quorum accepts them.",
 ["schedules","fault_sequences","histories","inputs"],
 "every placement of requests (leader, follower, candidate, isolated ex-leader), batch sizes, forwarding with lost request or reply, several servers in one process",
 "the tests submit to a healthy leader and a healthy follower and count messages",
 [RS,RQ],
 [("forwarding",RS+":send_msg_to_leader"),("acceptance",RQ+":handle_cli_req"),("leader lease",RS+":is_leader"),("submission with cookie",RS+":replicate_log")],
 [("leader_","known leader",RH),("last_resp_","time of the last answer of a follower",PH)],
 ["append_entries/replicate_log/is_leader results","client responses","log_store::append"])

prop("C12","File log store behaves like a sequential log",
 "For every sequence of appends, overwrites (which discard everything after the overwritten position), range and single reads, term queries, packs, applied packs, compactions, closes and reopenings, and every size of its in-memory buffer, the file-based log store returns exactly what an in-memory array of entries would: same indexes, terms, kinds and bytes, same first and next index. Requests outside the stored range are answered as documented and change nothing.",
 ["inputs","histories","configurations"],
 "every operation sequence and entry size (including empty entries and entries larger than a page), buffer sizes from tiny to larger than the log",
 "the tests run one fixed random sequence with one buffer size; their own comment admits they fail for some seeds",
 [FS,"include/fs_log_store.hxx","include/log_store.hxx"],
 [("index, data and start-index files",FS),("in-memory window of recent entries",FS+":log_store_buffer")],
 [],
 ["return values of every log_store operation"])

prop("C13","A completed log-store operation survives a process kill",
 "When the process dies right after any log-store operation has returned, opening the same directory again yields exactly the contents as of that operation (first index, next index, every entry's term, kind and bytes), and the reopened store works normally. This also holds when the process dies a second time after reopening.",
 ["crash_points","histories","inputs"],
 "a kill after each operation of every operation sequence, including right after an overwrite or a compaction, and repeated kills",
 "the tests close the store properly before they reopen it",
 [FS],
 [("flush of the three files in append, write_at, compact, apply_pack",FS),("recovery of sizes and start index on open",FS+":fs_log_store ctor")],
 [],
 ["files left behind by a process that never closed the store"])

prop("C14","File log store is safe under concurrent use",
 "Threads that read, append, overwrite, pack and compact the same file-based log store at the same time never corrupt it, crash, deadlock or race on its memory. Every read returns an entry that was stored at that index at some instant between the call and its return, and no appended entry is lost or stored twice.",
 ["schedules","inputs"],
 "every interleaving of a writer, several readers and a compactor, with buffers small enough that reads go to disk",
 "the tests use the store from one thread",
 [FS,"include/fs_log_store.hxx"],
 [("store lock and buffer lock",FS)],
 [],
 ["results of concurrent calls with call/return order","ThreadSanitizer/AddressSanitizer reports"])

prop("C15","Buffers never read or write outside their storage",
 "For every capacity and every sequence of reads, writes and position changes, a buffer returns exactly the bytes written before at that position, its position and size agree with a simple byte-array model, and an access that does not fit raises an error and touches no memory outside the buffer. This includes strings (empty, unterminated), nested buffers, copies and stream transfer, for capacities around the internal size-class boundary.",
 ["inputs","histories"],
 "every capacity (dense around 0 and 0x7ffe..0x8001) and operation sequence",
 "the test writes and reads one well-formed sequence",
 ["src/buffer.cxx","include/buffer.hxx"],
 [("two header layouts by size",  "src/buffer.cxx"),("bounds checks before every access","src/buffer.cxx")],
 [],
 ["results and exceptions of buffer operations","AddressSanitizer/UBSan"])

prop("C16","Persistent and wire encodings round-trip and reject garbage safely",
 "Decoding what was encoded gives back an equal value for every server description, membership, snapshot description, snapshot block, log entry and log pack (any ids, endpoint lengths, member counts, indexes, flags, entry kinds and payload sizes), at any position inside a larger buffer, and re-encoding gives the same bytes. Decoding truncated or corrupted input either yields a value or reports an error, without reading outside the input.",
 ["inputs"],
 "every value of the encoded types, every truncation point and random corruptions",
 "the serialization test encodes a handful of small random values and never decodes damaged input",
 ["src/srv_config.cxx","src/cluster_config.cxx","src/snapshot.cxx","src/snapshot_sync_req.cxx","include/log_entry.hxx","src/buffer.cxx",FS],
 [("serialize/deserialize pairs","src/srv_config.cxx, src/cluster_config.cxx, src/snapshot.cxx, src/snapshot_sync_req.cxx, include/log_entry.hxx")],
 [],
 ["decoded values","AddressSanitizer/UBSan"])

prop("C17","RPC transport completes every call once and delivers it faithfully",
 "Every request sent through the TCP transport has its completion called exactly once, with the matching reply or an error, whatever the peer does (refuses, closes without answering, resets mid-message, restarts), also when many calls are issued at once on one client, and the handler on the other side sees exactly the fields and entry bytes that were sent, at most once. A malformed, truncated or oversized message affects only its own connection: the process keeps running, no memory is corrupted and other connections keep working.",
 ["schedules","inputs","fault_sequences"],
 "every message content and size, every fragmentation, garbage input, connection failure point and number of concurrent calls",
 "the asio test sends well-formed raft traffic between three healthy local servers",
 [AS,"include/asio_service.hxx","include/rpc_cli.hxx","include/rpc_listener.hxx"],
 [("request/response framing","%s:asio_rpc_client, rpc_session"%AS),("error paths call the completion",AS+":asio_rpc_client")],
 [],
 ["completion callbacks","requests seen by the server handler","raw sockets"])

prop("C18","Timers fire once, not early, and never after being cancelled",
 "A scheduled task runs exactly once per schedule call that is neither cancelled nor replaced, not before its delay has passed and within a bounded lateness on an idle service. Once a cancel call made before the delay has passed returns, the task does not run, and scheduling the same task again restarts its full delay whatever happened to the earlier schedule.",
 ["schedules","inputs","histories"],
 "every sequence of schedule, cancel, reschedule of several tasks from several threads, including cancelling and rescheduling around the moment of expiry",
 "the scheduler test runs one schedule, one cancel and one reschedule with generous gaps",
 [AS,"include/delayed_task.hxx","include/delayed_task_scheduler.hxx","include/timer_task.hxx"],
 [("asio steady timer per task",AS+":schedule, cancel_impl"),("cancelled flag","include/delayed_task.hxx")],
 [],
 ["task executions with timestamps"])

prop("C19","Asynchronous results are delivered exactly once and never lost",
 "For every interleaving of setting a result, registering a completion handler and waiting for it, the handler runs exactly once with the value and error that were set, and every waiter returns that value or throws that error, never blocks for ever once it is set and never sees a value that was not set. This holds whether the result is set before, during or after registration or waiting.",
 ["schedules"],
 "every interleaving of one setter, one handler registration and several waiters, including spurious wake-ups",
 "the test sets the result after a sleep, from one thread, in one order",
 ["include/async.hxx"],
 [("has-result flag, lock and condition variable","include/async.hxx")],
 [],
 ["handler invocations and get() results"])

prop("C20","The service keeps every log line and always stops cleanly",
 "Every line logged at or above the configured level before the service stops or the logger is flushed ends up once, complete and unmixed in the file, in the order each thread issued it, and lines below the level do not appear. Stopping the service at any moment - idle, busy, right after start, with timers and connections pending - returns, and destroying everything afterwards leaks and corrupts nothing.",
 ["schedules","inputs"],
 "every number of logging threads, line content, level and stop moment",
 "the logger test writes from one thread; the baseline notes that stopping hangs in a fraction of the runs",
 [AS,"include/asio_service.hxx","include/logger.hxx"],
 [("buffered lines flushed by a timer and at the end",AS+":fs_based_logger, asio_service_impl"),("stop protocol with the worker threads",AS+":asio_service_impl::stop")],
 [],
 ["log file contents","return of stop()"])

prop("C21","Servers are memory-safe and race-free on real threads, and shut down",
 "Running real servers on real threads with the TCP transport, the file log store and concurrent clients, including elections, snapshots and membership changes, causes no data race, no use of freed memory, no out-of-bounds access and no undefined behaviour. Destroying a server at any moment returns, and afterwards nothing of it runs or is touched any more by its own background work.",
 ["schedules","fault_sequences"],
 "every interleaving of network threads, timer threads, client threads, the application thread and the destructor",
 "the tests run without sanitizers on one CPU under a real-time policy, precisely because some interleavings hang",
 [RS,RQ,RR,PE,PH,AS,FS],
 [("server lock, peers lock, peer lock, commit lock",RH),("stop handshake with the application thread",RS+":~raft_server, commit_in_bg"),("lifetime of peers captured by timers and calls",PE+", "+RS+":reconfigure")],
 [],
 ["ThreadSanitizer/AddressSanitizer/UBSan reports","controlled scheduler: destructor never returns"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
