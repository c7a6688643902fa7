import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,title
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=observe or ["gRPC client API of every node"]
    d["anchors"]["hook_needed"]=None
    P.append(d)
T="The suite starts one to three real servers for a few seconds, inserts a handful of data on the happy path and never controls interleaving, clock or faults"
p("C01","Acknowledged inserts are never lost by background work",
"Once an insert has been acknowledged to a client, the datum (its key, with a value some client wrote for it) stays stored on at least one node of the cluster for as long as no node crashes or shuts down and neither its time-to-live nor its dataset's retention has run out. Rebalancing between nodes, statistics and index rebuilds, expiry of other entries, cleanup of empty datasets, configuration updates, message loss, partitions and paused nodes never make it disappear.",
["schedules","fault_sequences","histories","configurations"],"every interleaving of inserts with the periodic tasks of all nodes, every sequence of network faults and pauses, every dataset configuration",
T+"; the periodic work runs every 10-60 s and its races with inserts are never scheduled.",
["data/newsync.go","data/insert.go","data/data.go","data/dataset.go"],
[("transfer before delete in the rebalancing pass","data/newsync.go Process"),("activity check before dropping a dataset","data/dataset.go ReloadRuns, data/data.go CheckIfActive"),("expired entries removed lazily","data/newsync.go LoopDBMap")],
[("entries","the per-node in-memory map of live data","data/data.go")])
p("C02","Enforced replication: an acknowledged insert is on enough nodes",
"When a dataset enforces replication on insert with factor R, a client insert is acknowledged only if at least R distinct nodes then hold the datum, so on a dataset without a size target any R-1 later node crashes leave it stored somewhere; when fewer nodes could store it the client gets an error. In a healthy cluster that has found its peers and has at least R running nodes (R up to 7) inserts do succeed, even if other nodes are down.",
["schedules","fault_sequences","crash_points","configurations"],"every timing of partitions, lost requests or replies, paused and crashed nodes relative to the insert, every factor and cluster size",
T+"; no test configures replication or makes a peer fail.",
["data/insert.go","node/datasourceclient.go","data/data.go","util/connpool.go"],
[("count successful copies, fail below the factor","data/insert.go Insert"),("replica inserts marked so that they do not replicate again","data/insert.go Insert")])
p("C03","Search returns exactly the best matching entries of the whole cluster",
"In a healthy, quiescent cluster of at most seven nodes that have found each other, a non-approximate search through any node returns exactly the best entries (up to the limit and result limit) among everything stored on any node: sorted best first, every key once, with the score of the named score function, honouring the better-direction flag, the label and group-label filters, several query vectors, context rescoring and, on a single node, grouping.",
["inputs","schedules","configurations","histories"],"every dataset content, placement over nodes, query and query parameters, and every order in which partial results arrive",
T+"; result merging depends on arrival order and on parameters no test combines.",
["data/search.go","data/aggregator.go","node/nodeservice.go","node/datasourceclient.go"],
[("local scan with bounded best list","data/search.go Search, Collector"),("fan-out and merge","data/search.go AggregatedSearch, MultiAggregatedSearch"),("merge, deduplication, rescoring","data/aggregator.go")])
p("C04","Searches answer within their timeout and keep the results they can get",
"A search returns to the client within its timeout plus a small scheduling allowance even when peers are hung, unreachable or slow, and even under many concurrent searches. Its answer still contains the best entries of the contacted node itself and of every healthy peer that can reach it; hung peers only cost their own entries.",
["schedules","fault_sequences","inputs"],"every choice of hung, partitioned or slow peers and every timing of the query relative to them",
T+"; no peer ever hangs in a test.",
["data/search.go","node/datasourceclient.go","node/nodeservice.go","util/connpool.go"],
[("timer per search, shrinking downstream","data/search.go AggregatedSearch, MultiAggregatedSearch")])
p("C05","A single node's store is linearizable per key",
"On one node, inserts, deletes and reads (streaming or searching) of a key behave as if executed one at a time in some order consistent with real time, including while index rebuilds and statistics run in the background. Keys that differ in any component are independent of each other.",
["schedules","histories"],"every interleaving of concurrent operations and background passes",
T+"; tests use one goroutine.",
["data/newsync.go","data/insert.go","data/delete.go","data/search.go","data/datum.go"],
[("concurrent map keyed by the encoded key","data/newsync.go InsertBDMap, DeleteBDMap, LoopDBMap")])
p("C06","Entries live exactly as long as their time-to-live",
"An entry inserted with a time-to-live is returned by reads until that time has passed (up to one second early, because expiry has one-second resolution) and by no read afterwards; an entry without one never expires. Re-inserting replaces the lifetime (differences below ten seconds may be ignored), and copies made by replication or rebalancing keep the remaining lifetime within a few tens of seconds rather than a fresh or unlimited one.",
["schedules","histories","inputs","fault_sequences"],"every insert and re-insert sequence, lifetime, read instant, transfer schedule, small clock skew between nodes",
T+"; tests do not control the clock.",
["data/newsync.go","data/sync.go","data/insert.go"],
[("absolute expiry computed at insert","data/newsync.go InsertBDMap"),("remaining lifetime on transfer","data/sync.go InsertConfigFromExpireAt"),("check on every scan","data/newsync.go LoopDBMap")])
p("C07","Dataset configuration: highest version wins everywhere",
"On a node holding data of a dataset, the dataset's configuration version never decreases, is at least the highest version acknowledged there, and is always exactly one submitted configuration, never a mixture. Once faults stop, all nodes of the cluster report the highest version within a few minutes.",
["schedules","fault_sequences","histories"],"every interleaving of concurrent configuration submissions, gossip and reads, every partition schedule",
T+"; no test submits two versions.",
["data/dataset.go","node/node.go","data/data.go"],
[("version comparison on create","data/dataset.go CreateIfNotExists"),("gossip of configurations with peer info","node/node.go SyncWithPeers, GetNodeInfo")])
p("C08","The dataset registry survives crashes and disk errors",
"A configuration of a dataset holding data that was acknowledged more than a minute and a half before a crash, power failure, termination or failed start of its node is known again, unaltered, as soon as the node restarts on the same, readable directory, whatever the instant of the crash and despite disk errors or a full disk in between. A restart never produces a configuration that was not submitted.",
["crash_points","fault_sequences","schedules","histories"],"every crash instant including in the middle of a save, every loss pattern of unsynced writes, every failing or short write",
T+"; no test restarts a node or fails a write.",
["data/dataset.go","server/veriserviceserver.go","node/node.go"],
[("registry file rewritten on change and every minute, read at start","data/dataset.go SaveIndex, LoadIndex")],observe=["GetDataInfo right after restart","simulated disk"])
p("C09","Membership converges and forgets dead peers",
"Nodes started in any order with any connected seed topology, with delays, losses and temporary partitions, end up all knowing each other within a few minutes after faults stop, so that every node's searches cover every node's data (clusters of up to seven); a restarted node is taken back in the same way. A node that is gone for good and is nobody's configured seed (its own included) is no longer contacted by anyone after half an hour, and no node treats itself as a peer.",
["schedules","fault_sequences","configurations"],"every seed topology, start order, partition/heal and crash/restart sequence",
T+"; the node test starts nodes on one host and checks nothing after the join.",
["node/node.go","node/nodeservice.go","util/connpool.go","data/data.go"],
[("join, gossip and expiry of peers","node/node.go SyncWithPeers, AddPeerElement, CheckPeer"),("data sources per dataset","data/data.go AddSource")])
p("C10","A query is processed at most once per node",
"For every search, each node evaluates a given query vector and asks its peers about it at most once, however the recursive fan-out of queries is interleaved, delayed or retried, so a search terminates and causes a bounded number of messages in any topology. A request that repeats a query identifier the node has already seen returns nothing and is not forwarded, while different queries never suppress each other.",
["schedules","configurations","histories"],"every delivery order of the recursive requests, every cluster topology, concurrent queries",
T+"; messages between nodes are not observed.",
["node/nodeservice.go","data/search.go"],
[("query identifier cache","node/nodeservice.go SearchStream")],observe=["every search message on the simulated network"])
p("C11","A data stream delivers every stored entry exactly once",
"A data stream that ends without error has delivered every entry that was stored on the node during the whole stream exactly once, each with a value that some client wrote for it, whatever the number of entries, the speed of the reader and the concurrent inserts, rebuilds or other streams. Abandoned streams do not harm later ones.",
["schedules","inputs","histories"],"every interleaving of the producer, the sender and the consumer; every size from none to thousands; slow, cancelled and concurrent readers",
T+"; streams are tested with a handful of entries.",
["node/nodeservice.go","data/newsync.go"],
[("producer goroutine, buffered channel and flush","node/nodeservice.go DataStream"),("scan","data/newsync.go StreamAll")])
p("C12","Reported statistics are true and the size target limits inserts",
"Some 75 seconds after inserts to a node stop, the entry count it reports for a dataset equals what it stores (apart from entries that expired since), and in the long run its reported centre, maximum distance and histogram are those of the stored vectors. When the reported count has reached the size target, inserts fail and are not stored; below it, or without a size target, they are not refused for capacity.",
["schedules","histories","configurations"],"every timing of inserts, expiries and reads relative to the periodic statistics pass, every target",
T+"; statistics appear only after a minute.",
["data/newsync.go","data/insert.go","data/data.go","data/util.go"],
[("periodic statistics pass","data/newsync.go Process"),("capacity check","data/insert.go Insert")])
p("C13","Graceful shutdown hands data over and always finishes",
"A node told to terminate immediately stops accepting inserts and reporting readiness, transfers everything it stores to peers that accept it, and exits with status 0; after the exit every datum it had acknowledged is on a surviving node, provided some connected peer of the dataset accepts inserts. It exits within a bounded time even if its peers refuse, are full, hang or are unreachable.",
["schedules","fault_sequences","configurations"],"every instant of the signal relative to inserts, rebuilds and ticks; every state of the peers",
T+"; shutdown is not tested.",
["node/node.go","data/data.go","data/newsync.go","server/veriserviceserver.go","data/dataset.go"],
[("drain flag, forced transfer passes on close","node/node.go Close, data/data.go Close, data/newsync.go Process")],observe=["gRPC API","HTTP readiness endpoint","process exit status"])
p("C14","No request or fault sequence crashes or wedges a node",
"No sequence of requests (including empty, incomplete or extreme ones), peer failures, lost messages, pauses or disk errors makes a node process crash, exit or stop answering. Once faults stop, every node again serves inserts, searches, streams and status requests, and reaches its peers, within a few minutes.",
["inputs","schedules","fault_sequences","histories"],"every request mix, interleaving and fault sequence",
T+"; only well-formed requests against healthy servers.",
["node/nodeservice.go","node/node.go","data/data.go","data/search.go","data/aggregator.go","util/connpool.go"],
[("request validation and nil checks","node/nodeservice.go, data/"),("connection pool replacing dead connections","util/connpool.go")])
p("C15","Cached searches are isolated and never older than asked for",
"A search that allows cached answers gets exactly the answer of the same query at some instant not longer ago than the cache duration (per node the answer passed through, since peers cache too); without a cache duration the answer includes every insert acknowledged before it. Queries that differ in the query vector or in any result-affecting parameter never share an answer, and neither rescoring nor mutation by one request shows up in another's cached answer.",
["schedules","histories","inputs"],"every sequence and interleaving of inserts and cached or uncached queries with different parameters",
T+"; caching is not tested.",
["data/search.go","data/aggregator.go"],
[("result cache keyed by query and configuration, cloned results","data/search.go AggregatedSearch, GetSearchKey, CloneResult")])
p("C16","Approximate search is memory-safe and sound during index rebuilds",
"Approximate searches running concurrently with index rebuilds, inserts, expiry and shutdown never touch a freed index or crash, and every result is an entry that was stored no longer ago than about the index refresh period, at most once, with its true score and passing the filters, never more than the limit. After the index has been refreshed a query whose limit far exceeds the dataset's size returns every entry, and neither indexes in memory nor index files accumulate.",
["schedules","histories"],"every interleaving of searches with the index swap",
T+"; the index is first built after a minute and swapped once per run at most.",
["data/search.go","data/newsync.go","data/data.go"],
[("reader/writer lock around the index swap","data/search.go SearchAnnoy, data/newsync.go Process")])
p("C17","Files outside the node's own directories are never touched",
"Whatever dataset names clients or peers use, a node creates, overwrites or deletes files only inside its own data directory and its temporary index files, and creating, dropping or expiring one dataset never removes the registry, the data directory itself or files belonging to others.",
["inputs","histories","schedules"],"every dataset name and every create/drop/expiry/shutdown sequence",
T+"; only plain names are used.",
["data/data.go","data/dataset.go","server/veriserviceserver.go"],
[("per-dataset path below the data directory","data/data.go NewData, DeletePath")],observe=["every simulated file system call"])
p("C18","Rebalancing respects the size target's lower threshold",
"Rebalancing removes an entry from a node only after a peer has acknowledged a copy, only for datasets with a size target, and only while the node holds at least the target size times the target utilization; a node of a dataset without a size target, or below that threshold, keeps everything it stores.",
["schedules","fault_sequences","configurations"],"every interleaving of transfer passes on all nodes, slow or failing peers, every target and utilization",
T+"; rebalancing starts after a minute with several nodes.",
["data/newsync.go","data/sync.go","data/data.go"],
[("eviction condition evaluated per removed entry","data/sync.go isEvictionOn, data/newsync.go Process")])
p("C19","Rebalancing spreads data to emptier peers",
"In a healthy cluster whose nodes know each other, a node that holds many more entries of a dataset than a peer keeps sending entries to it: a node that joins empty receives entries of every dataset its peers hold within hours, without any client action, whether or not the entries have a time-to-live. Every copy has the key, label, feature and group label of the original, and nothing else appears.",
["schedules","configurations","histories"],"every timing of the periodic passes and the join, every dataset configuration and content",
T+"; rebalancing needs many minutes and several nodes.",
["data/newsync.go","data/sync.go","data/data.go"],
[("periodic exchange with a random subset of entries and sources","data/newsync.go Process")])
p("C20","Key encoding is injective and lossless",
"Two data have the same encoded key only if all components of their keys are equal, and decoding an encoded key or value yields the original.",
["inputs"],"every datum","A property of all inputs of a pure function; tests check two examples.",
["data/gencoder/gencoder.go","data/datum.go","util/util.go"],[("generated encoder","data/gencoder")])
p("C21","Score functions compute their mathematical definitions",
"Each named score function returns its mathematical definition of the two vectors up to rounding.",
["inputs"],"every pair of vectors","A property of all inputs of pure functions; tests check a few vectors.",
["data/util.go"],[("score functions","data/util.go")])
p("C22","Finished requests leave nothing behind",
"However many requests a node has served, including cancelled, failed and timed out ones and ones to hung or unreachable peers, the goroutines it runs a quarter of an hour after they ended are those its datasets and listeners need, and the connections it holds to its peers do not grow with the number of requests or with time.",
["schedules","fault_sequences","histories"],"every sequence of finished, cancelled and failed requests and every interleaving of their parts",
T+"; resource leaks only show after many requests and much time.",
["node/nodeservice.go","data/search.go","node/datasourceclient.go","util/connpool.go"],
[("connection pool per address","util/connpool.go"),("every channel of a search has a reader until its writers are done","data/search.go AggregatedSearch")],observe=["simulated goroutines and connections"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
