#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that the two stay in step.
A property is claimed when the harness has a check for it (props["Cxx"] = ...) and needs.txt lists it."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, Ms, O, C, D = ("src/apiserver/internal/", "src/metaserver/internal/", "src/objectserver/internal/", "src/common/", "src/adminserver/internal/")
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))

E2E = "Real servers built from the tree run as processes on loopback; assurance is for the executions explored (seeded workload). Trusts the fake etcd and the harness's oracle."

p("C01", "Stored objects read back byte for byte, whole and from any offset",
  "Whatever bytes an upload was acknowledged for are exactly the bytes every api server returns for that object version, whole or from any byte offset within it, for every storage strategy, with or without compression, and also after every object server was restarted. The reported length is the length of what is returned.",
  ["inputs", "configurations", "histories"], "every object content, size (1 byte to several times a block), name, storage strategy, compression choice, read offset, server and restart history",
  "The repository's tests need a running cluster and are not part of the stable set; a few sizes cannot cover block, shard and page boundaries in every strategy.",
  [A+"usecase/service/stream_provider.go", A+"usecase/service/rs_encoder.go", A+"usecase/service/rs_decoder.go", A+"usecase/service/copy_put_stream.go", A+"usecase/service/copy_get_stream.go", O+"usecase/service/objects_service.go", A+"controller/http/objects_api.go"],
  [("erasure coding and replication streams", A+"usecase/service"), ("direct-io and compressed object files", O+"usecase/service/objects_service.go"), ("aligned readers", C+"system/disk")],
  "runtime monitoring: byte-exact read-back oracle over seeded uploads to a real cluster", E2E)

p("C02", "Objects survive losing as many shards or copies as their redundancy allows",
  "An acknowledged object is returned byte for byte from any offset while at most parity-shards of its shards (erasure coding) or all but one of its copies (replication) are unavailable because their server is down or their file is missing (or, for erasure coding, was cut short). When more is lost the read fails visibly: it never returns wrong bytes as a complete answer.",
  ["fault_sequences", "inputs", "configurations"], "every set of lost shards or copies up to and beyond the tolerance, every way of losing them, every offset and configuration",
  "No test injects a fault; which shards are missing, in which order and where inside the read the loss shows is a large space.",
  [A+"usecase/service/rs_decoder.go", A+"usecase/service/rs_get_stream.go", A+"usecase/service/copy_get_stream.go", A+"usecase/service/get_stream.go", O+"usecase/service/objects_service.go"],
  [("reconstruction from surviving shards", A+"usecase/service/rs_decoder.go"), ("fail over to another copy", A+"usecase/service/copy_get_stream.go")],
  "runtime monitoring: fault injection (kills, deleted and truncated shard files) against a byte-exact oracle", E2E)

p("C03", "Reading a degraded object restores its full redundancy",
  "After a complete read of an object that lost shards within its tolerance every missing shard is stored again on a live server and is found through the object's metadata, so that the object then survives a second loss of the same size; a copy that the read found missing is stored again likewise. Nothing but correct, complete shards is ever put in place by the repair.",
  ["fault_sequences", "inputs", "configurations"], "every loss within tolerance followed by reads and by further losses, partial reads included",
  "Repair happens only as a side effect of a degraded read; no test creates one.",
  [A+"usecase/service/rs_get_stream.go", A+"usecase/service/rs_decoder.go", A+"usecase/service/copy_fix_stream.go", A+"usecase/service/copy_get_stream.go", A+"usecase/service/object_service.go"],
  [("rewriting reconstructed shards", A+"usecase/service/rs_get_stream.go"), ("copy fixing", A+"usecase/service/copy_fix_stream.go"), ("updating locations", A+"usecase/service/meta_service.go")],
  "runtime monitoring: repeated fault injection; oracle over shard files on disk, metadata locations and read-back", E2E)

p("C04", "Uploads are all or nothing",
  "An upload that is refused, is cut off or (with checksum verification on) carries a digest that is not that of its body never becomes visible: no version is added, earlier versions stay readable as they were and no object data or space remains in use for it. An upload that fails because servers failed never becomes visible either. An upload that was acknowledged is completely stored, also when servers are killed right after the acknowledgement.",
  ["inputs", "fault_sequences", "crash_points"], "every malformed, truncated or mismatching request, every server killed or failing before, during or right after an upload",
  "Needs broken clients and failing servers; tests only upload valid bodies.",
  [A+"usecase/service/object_service.go", A+"usecase/service/put_stream.go", A+"usecase/service/copy_put_stream.go", A+"usecase/service/rs_put_stream.go", O+"controller/http/temp/temp_rest.go", O+"usecase/service/temp_service.go"],
  [("two-phase temp upload then commit", A+"usecase/service/put_stream.go"), ("digest check", A+"usecase/service/object_service.go"), ("rename into place", O+"usecase/service/objects_service.go")],
  "runtime monitoring: hostile uploads and kills; oracle over visibility, shard files and used capacity", E2E)

p("C05", "A resumable upload either completes exactly or is refused",
  "Following the upload protocol (post, ask for the current size, send from there) any number of times with interruptions at any point leads to the object with exactly the announced content, readable like any other. A chunk sent from an offset other than the reported one, for an unknown, truncated or malformed upload location, or whose total does not have the announced digest is refused and never makes an object visible.",
  ["histories", "fault_sequences", "inputs"], "every split of the content into chunks, every interruption point and repetition, every storage strategy that supports it",
  "The state lives in servers' temporary files between requests; a test that sends one chunk sequence sees none of the interruption points.",
  [A+"controller/http/big_api.go", A+"usecase/service/rs_resumable_stream.go", A+"usecase/service/temp_stream.go", O+"controller/http/temp/temp_rest.go"],
  [("resumable token", A+"usecase/service/rs_resumable_stream.go"), ("HEAD size agreement", A+"controller/http/big_api.go"), ("commit", A+"usecase/service/rs_resumable_stream.go")],
  "runtime monitoring: random interruption histories against a byte-exact oracle", E2E)

p("C06", "Versions are numbered in order, listed completely and each stays itself",
  "Uploads to one name get version numbers 1, 2, 3 ... in the order they are acknowledged without repetition, also under concurrent uploads; without a version the latest is served and each listed version returns its own content and description. Version listings page through exactly the existing versions in order with the right total, whatever their number, and removed versions are neither listed nor served.",
  ["histories", "schedules", "inputs"], "every history of uploads, removals and listings of any length (far beyond ten versions), page and size, any concurrency",
  "Ordering defects need more than nine versions or concurrent uploads; tests have neither.",
  [Ms+"usecase/repo/metadata_repo.go", Ms+"usecase/logic/metadata_logic.go", Ms+"usecase/service/metadata_service.go", A+"usecase/repo/version_repo.go", A+"usecase/service/meta_service.go"],
  [("version sequence", Ms+"usecase/repo/metadata_repo.go"), ("paging", Ms+"usecase/logic/metadata_logic.go")],
  "runtime monitoring: model-based version history checker over recorded responses", E2E)

p("C07", "Bucket settings decide how objects are stored and kept",
  "A bucket's settings are returned as they were written and decide its uploads: an absent bucket or a readonly one accepts none, a storage strategy (for uploads in one request) or compression it prescribes is applied, and without versioning only the newest version remains while with it the configured number of newest versions remain, once the removal that follows an upload is done. Creating, updating and deleting buckets affects only the named bucket.",
  ["histories", "inputs", "configurations"], "every combination of settings and history of updates, uploads and reads",
  "The settings interact (retention with versioning, compression with strategy); tests never create a bucket with more than one setting.",
  [A+"controller/http/bucket_api.go", A+"usecase/service/object_service.go", A+"entity/metadata.go", A+"usecase/repo/bucket_repo.go", Ms+"usecase/service/bucket_service.go", Ms+"usecase/repo/bucket_repo.go"],
  [("bucket policy", A+"usecase/service/meta_service.go"), ("removing excess versions", A+"usecase/service/meta_service.go")],
  "runtime monitoring: model-based checker of bucket settings and their effects on stored versions", E2E)

p("C08", "Identical content is stored once and shared safely",
  "Uploading content that is already stored adds a version that shares the stored shards instead of storing them again, and every version sharing them reads back correctly however it was stored first. If the stored shards are incomplete the content is stored again, so that an acknowledged upload is always complete.",
  ["histories", "fault_sequences", "inputs"], "every order of uploads of equal and different content over names, buckets, strategies and compression, with shards lost in between",
  "Needs two uploads with faults in between and differing options.",
  [A+"usecase/service/object_service.go", O+"usecase/service/locate.go", Ms+"usecase/logic/hash_index_logic.go"],
  [("locating by content hash", A+"usecase/service/object_service.go"), ("answering locate requests", O+"usecase/service/locate.go")],
  "runtime monitoring: shard-file census and read-back over seeded duplicate uploads with faults", E2E)

p("C09", "Requests without valid credentials are refused when authentication is on",
  "With password authentication on, every object, metadata, bucket and upload request without the right user and password is refused without any effect, whatever its form, and those with them work. With callback authentication, a request is served exactly when the configured callback accepts it, and the callback is told the request's bucket, object and method.",
  ["inputs", "configurations"], "every route, method and form of missing, malformed or wrong credentials, every callback answer",
  "Access must be refused for all requests on all routes, tests send none of them.",
  [A+"usecase/componet/auth/auth_middleware.go", A+"usecase/componet/auth/password_validator.go", A+"usecase/componet/auth/callback_validator.go", A+"controller/http/server.go"],
  [("authentication middleware", A+"usecase/componet/auth/auth_middleware.go"), ("credential watch", A+"usecase/componet/auth/password_validator.go")],
  "runtime monitoring: hostile credential matrix over all routes with an effect oracle", E2E)

p("C10", "The metadata store behaves like a simple map and keeps what it acknowledged",
  "Every history of bucket, metadata and version operations on a metadata server answers as a sequential map of names to versions would: what was written is returned by the next read, what was removed is gone, failing operations change nothing and nothing else changes. Everything acknowledged is still there after the server is killed at any moment and restarted.",
  ["histories", "crash_points", "schedules", "inputs"], "every sequence of operations with any names, repeated and concurrent, and every kill point",
  "Caches, indexes and the store must agree after every operation; a handful of operations in a test cannot show a stale cache or index.",
  [Ms+"usecase/repo/metadata_repo.go", Ms+"usecase/repo/metadata_cache_repo.go", Ms+"usecase/repo/bucket_repo.go", Ms+"usecase/repo/bucket_cache_repo.go", Ms+"usecase/logic/metadata_logic.go", Ms+"usecase/db/storage.go", Ms+"controller/http/metadata_rest.go", Ms+"controller/http/version_rest.go"],
  [("bolt transactions", Ms+"usecase/db/storage.go"), ("cache repositories", Ms+"usecase/repo/metadata_cache_repo.go")],
  "runtime monitoring: sequential-model oracle and linearizability checking of recorded histories, with kills", E2E)

p("C11", "A raft group of metadata servers agrees, and keeps what it acknowledged",
  "In a group of metadata servers every write acknowledged by the leader reaches all members in the same order, survives killing and restarting any minority (and all of them in turn), and is applied exactly once, also across restarts and snapshots. Writes sent to a member that is not the leader are refused or carried out by the leader, never applied to that member alone.",
  ["fault_sequences", "histories", "crash_points", "schedules"], "every sequence of writes, leader kills, restarts and late joins",
  "Needs several servers, elections and restarts.",
  [Ms+"usecase/raftimpl/fsm_impl.go", Ms+"usecase/raftimpl/raft_impl.go", Ms+"usecase/raftimpl/raft_apply.go", Ms+"usecase/repo/batch_meta_repo.go", Ms+"controller/grpc/middleware.go", Ms+"controller/http/middleware.go"],
  [("replicated log applied by the FSM", Ms+"usecase/raftimpl/fsm_impl.go"), ("leader redirect", Ms+"controller/http/middleware.go")],
  "runtime monitoring: leader kills and restarts with a replica-agreement and durability oracle", E2E)

p("C12", "Objects are found by content hash; relocated shards are recorded for all",
  "Looking up a content hash returns exactly the existing versions with that hash, after any history of adding, updating and removing versions, names and buckets. Recording that a shard of a content hash moved changes that shard's location in every version with that hash and nothing else.",
  ["histories", "inputs"], "every history of version operations over shared and distinct hashes and every shard index",
  "Index maintenance must hold over all removal paths.",
  [Ms+"usecase/logic/hash_index_logic.go", Ms+"usecase/logic/unique_id_index_logic.go", Ms+"usecase/repo/hash_index_repo.go", Ms+"usecase/service/metadata_service.go", Ms+"controller/grpc/metadata_server.go"],
  [("hash index bucket", Ms+"usecase/logic/hash_index_logic.go"), ("locate update", Ms+"usecase/service/metadata_service.go")],
  "runtime monitoring: model-based index oracle over recorded rpc answers", E2E)

p("C13", "Every name belongs to exactly one metadata group, and only it serves the name",
  "With several metadata groups the slot ranges cover all slots without overlap, every api server sends a name to the group that owns its slot, and a group refuses names it does not own instead of answering for them. Overlapping or malformed slot configurations are refused.",
  ["configurations", "inputs", "histories"], "every slot configuration and every name",
  "Tests exercise range arithmetic on a few fixed ranges, not ownership across servers.",
  [C+"hashslot/hash_slot.go", C+"hashslot/edge.go", Ms+"usecase/db/hashslot_db.go", Ms+"usecase/service/hashslot_service.go", A+"usecase/logic/hashslot_logic.go", Ms+"controller/http/middleware.go"],
  [("slot edges and lookup", C+"hashslot/hash_slot.go"), ("ownership middleware", Ms+"controller/http/middleware.go")],
  "runtime monitoring: ownership oracle over all slots and names on multi-group clusters; differential oracle for slot arithmetic", E2E)

p("C14", "Moving slots between metadata groups loses and duplicates nothing",
  "When slots are moved from one metadata group to another, every name, version and bucket of these slots is served by the new owner with the same content, no longer by the old one, and names of other slots are untouched. A failed or interrupted move leaves the data with exactly one owner and can be repeated.",
  ["histories", "fault_sequences", "crash_points"], "every slot range, data set and interruption point",
  "Needs two groups, data and a migration in progress.",
  [Ms+"usecase/service/hashslot_service.go", Ms+"controller/grpc/hashslot_server.go", Ms+"usecase/db/hashslot_db.go"],
  [("streaming migration", Ms+"usecase/service/hashslot_service.go")],
  "runtime monitoring: census of every name before and after migrations with faults", E2E)

p("C15", "An object server stores what it acknowledged and serves exactly that",
  "An object stored on an object server is returned exactly, whole or from any offset, plain or compressed, cached or not, until it is deleted, and is not served afterwards, also after restarts and under concurrent requests for the same object. Requests for absent objects or with names that are not object names have no effect outside the storage.",
  ["histories", "inputs", "schedules", "crash_points"], "every history of put, get, range get, head and delete with any sizes, names, concurrency and restarts",
  "Direct io, page alignment, caches and compression each have their own boundaries; tests store one object.",
  [O+"controller/http/objects/objects_rest.go", O+"controller/http/objects/objects_cache.go", O+"usecase/service/objects_service.go", O+"db/object_path_cache.go", C+"system/disk/aligend_reader.go"],
  [("object files and caches", O+"usecase/service/objects_service.go"), ("path cache", O+"db/object_path_cache.go")],
  "runtime monitoring: model-based oracle over raw object-server histories, with restarts and concurrency", E2E)

p("C16", "Temporary uploads are appended in order and disappear when given up",
  "Data patched to a temporary object forms one gapless sequence: its reported size counts exactly the acknowledged bytes, a commit stores exactly that sequence as the object and only then makes it visible. A removed, expired or never committed temporary object leaves no visible object, no file and no used space behind.",
  ["histories", "fault_sequences", "schedules"], "every order and repetition of post, patch, head, get, commit and delete, truncated bodies, expiry and restarts",
  "The protocol's wrong orders, truncations and expiry need hostile clients and time.",
  [O+"controller/http/temp/temp_rest.go", O+"controller/http/temp/temp_mid.go", O+"usecase/service/temp_service.go", O+"usecase/service/objects_service.go"],
  [("temp info cache with eviction", O+"usecase/service/temp_service.go"), ("commit by rename or compression", O+"usecase/service/objects_service.go")],
  "runtime monitoring: model-based oracle over temp-protocol histories and a census of storage files", E2E)

p("C17", "Reported used capacity equals what is stored",
  "After any history of uploads, commits, removals, overwrites, failures and migrations the capacity an object server reports as used equals the total size of the objects it stores. It is the same after a restart.",
  ["histories", "fault_sequences", "schedules"], "every history of operations, concurrency and restarts",
  "Conservation only shows as drift over long histories with failures.",
  [O+"db/object_capacity_db.go", O+"usecase/service/objects_service.go", O+"usecase/service/migration_service.go"],
  [("atomic capacity counter", O+"db/object_capacity_db.go")],
  "runtime monitoring: conservation oracle (reported capacity against a census of files)", E2E)

p("C18", "Objects moved between object servers are neither lost nor corrupted",
  "When an object server leaves or joins, every object it hands over is complete on its new server before it is gone from the old one, its metadata points to where it is, and all objects stay readable before, during and after, also when the receiving or sending server fails in the middle. No partially transferred object is ever served.",
  ["fault_sequences", "histories", "crash_points"], "every data set, capacity distribution and failure point of a migration",
  "Needs several servers and a migration with faults.",
  [O+"usecase/service/migration_service.go", O+"controller/grpc/migration_server.go", O+"usecase/webapi/meta_server.go"],
  [("streaming migration", O+"usecase/service/migration_service.go"), ("locate update", O+"usecase/webapi/meta_server.go")],
  "runtime monitoring: census and read-back oracle around migrations with injected faults", E2E)

p("C19", "Servers find exactly the live servers of a kind",
  "Every server's view of the registered servers converges to exactly those that are registered: started ones are used, stopped and expired ones are not used any more, and a server whose registration was lost (lease expiry, etcd restart) registers again by itself. Server names never make one server hide another or bring a server down.",
  ["fault_sequences", "histories", "schedules", "inputs"], "every sequence of joins, leaves, crashes, lease losses and names",
  "Needs a changing membership over time.",
  [C+"registry/etcd_discovery.go", C+"registry/etcd_registry.go", C+"registry/etcd_lifecycle.go", C+"registry/service_list.go"],
  [("etcd lease registration", C+"registry/etcd_registry.go"), ("watch-driven service list", C+"registry/etcd_discovery.go")],
  "runtime monitoring: membership churn with a convergence oracle on the views used", E2E)

p("C20", "No server has data races or crashes under concurrent use",
  "Under any concurrent use of its interfaces together with joins, leaves and restarts of others, no server accesses shared memory without synchronisation, deadlocks or terminates. After the load ends every server still answers.",
  ["schedules", "histories"], "every interleaving of concurrent requests and membership changes",
  "Interleavings; no test is concurrent.",
  [C+"registry/service_list.go", O+"usecase/component/driver_balancer.go", A+"usecase/componet/selector/selectors.go", Ms+"usecase/raftimpl/raft_impl.go", C+"performance/collector.go"],
  [("locks and atomics of shared state", "src")],
  "sanitizer: servers built with the Go race detector under concurrent workload and churn", "Reports of the race detector for the executions explored; no claim for code paths the workload does not reach.")

p("C21", "Groups of concurrent tasks deliver every error and never hang",
  "Waiting for a group of concurrent tasks returns only after all of them ended (or, where asked to, as soon as one failed), reports an error exactly when at least one failed or panicked, and never blocks for ever or crashes, whatever the order in which they end. A panicking task does not bring the process down. A limited group never runs more tasks at once than allowed.",
  ["schedules", "inputs"], "every number of tasks, failures, delays and reuse of a group",
  "Lost errors depend on interleavings.",
  [C+"util/done_group.go", C+"graceful/recover.go", C+"util/sync_map.go"],
  [("done groups", C+"util/done_group.go")],
  "sanitizer and runtime monitoring: stress of the real primitives under the race detector with a counting oracle", "Component run in-process from the tree; schedules are those the Go scheduler and injected delays produce.")

p("C22", "Encodings and size arithmetic are exact for every value",
  "Everything that is encoded for storage or transfer is decoded to an equal value, malformed or truncated input is refused without a crash, and sizes, ranges, pages, slices and wildcard patterns are computed as their definitions say for every input. No input makes any of them crash.",
  ["inputs"], "every value, every truncation and mutation of an encoding, every size text, range header, slot range, page and pattern",
  "Tests give one or two values for each.",
  [C+"datasize/datasize.go", C+"proto/msg/metadata_gen.go", C+"hashslot/hash_slot.go", C+"util/util.go", C+"request/range.go", C+"wildcard/wildcard.go", C+"util/slices/slices.go", C+"system/disk/aligend_reader.go"],
  [("generated msgpack codecs", C+"proto/msg/metadata_gen.go"), ("datasize parser", C+"datasize/datasize.go"), ("slot arithmetic", C+"hashslot/hash_slot.go")],
  "runtime monitoring: differential and round-trip oracles over generated and mutated inputs", "Component run in-process from the tree on generated inputs.")

p("C23", "Performance records are stored, averaged and cleared exactly",
  "Every recorded performance sample is found under its kind and action until cleared, the averages and sizes reported are those of the stored samples, and clearing one kind leaves the others, for both the local and the etcd store. Collecting never blocks or loses samples that were accepted, also under concurrency.",
  ["histories", "schedules"], "every history of put, list, average, clear and size, any concurrency and store",
  "Statistics over histories.",
  [C+"performance/local_store.go", C+"performance/etcd_store.go", C+"performance/collector.go", C+"performance/store.go"],
  [("stores", C+"performance/local_store.go")],
  "runtime monitoring: model-based oracle over recorded store histories", "Component run in-process from the tree.")

p("C24", "Servers give back every file and connection they used",
  "After any workload, successful, failing or aborted by clients, the number of open files and connections of each server returns to what it was and temporary files are gone. Repeating the workload any number of times does not make it grow.",
  ["histories", "fault_sequences"], "every workload including aborted and failing requests, repeated",
  "Leaks only show over long runs.",
  [A+"usecase/service/put_stream.go", A+"usecase/service/get_stream.go", A+"usecase/webapi/object_server.go", O+"usecase/service/objects_service.go"],
  [("closing streams and bodies", A+"usecase/service")],
  "runtime monitoring: descriptor and thread census of real servers around repeated workloads", E2E)

p("C25", "The admin server shows the system's true state and requires a token",
  "The admin server lists exactly the existing metadata, versions and buckets page by page and the live servers of each kind with their own statistics. Requests without a token are refused, and uploads and downloads through it give the same objects as the api server.",
  ["histories", "inputs", "configurations"], "every data set, page, order and membership",
  "No test covers the admin server.",
  [D+"controller/http/metadata.go", D+"usecase/logic/metadata_logic.go", D+"controller/http/auth.go", D+"usecase/logic/server_monitor.go", D+"usecase/webapi/metadata_server.go"],
  [("paging merge over groups", D+"usecase/logic/metadata_logic.go"), ("token check", D+"controller/http/auth.go")],
  "runtime monitoring: census oracle against metadata servers and registrations", E2E)

src = "".join(open(os.path.join(V, "harness/cmd/check", f)).read() for f in sorted(os.listdir(os.path.join(V, "harness/cmd/check"))) if f.endswith(".go"))
have = set(re.findall(r'props\["(C\d\d)"\]', src)) & {l.split()[0] for l in open(os.path.join(V, "needs.txt")) if l.strip()}
NA = {}  # property -> reason, for those runtime monitoring cannot decide
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["text"]),
            why_tests_cant=q["why"], anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]]))) + "\n")
man = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="verif", enable="no hooks are needed: the checks build the servers as they are (go build, go build -race) and observe them from outside", source_commits=[]),
    checks=[dict(property=q["id"], quick_cmd="VERIF_TIER=quick ./check.sh %s" % q["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh %s" % q["id"],
        evidence_file="evidence/%s.json" % q["id"], technique=q["technique"], level="exploration", level_note=q["note"]) for q in P if q["id"] in have],
    not_applicable=[dict(property=q["id"], reason=NA.get(q["id"], "no check has been built for it yet")) for q in P if q["id"] not in have])
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print("claimed", len(man["checks"]), "of", len(P))
