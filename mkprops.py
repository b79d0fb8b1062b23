#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
                  "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": observe or [], "hook_needed": hook}})

p("C01", "Datum keys, values and scores encode losslessly and without collisions",
  "Encoding a datum's key or value and decoding it again yields exactly the same fields, for every feature vector (any length, any bit pattern), group label, size/dimension numbers, version and label, and every score survives its own encoding bit for bit. Two keys (or two values) have the same encoding only if all their fields are equal. The datum constructor stores each argument in the field it names.",
  ["inputs"], "all datums: feature lengths across varint boundaries, arbitrary float bit patterns, arbitrary bytes and full-range integers",
  "One fixed 3-dimensional datum is round-tripped; lengths over 127, special floats, and distinctness of encodings are never tried.",
  ["data/gencoder/gencoder.go", "data/datum.go", "util/util.go"],
  [("varint length prefixes and fixed-width little-endian fields", "data/gencoder/gencoder.go MarshalKey/UnmarshalKey/MarshalValue/UnmarshalValue"), ("map key conversion", "util/util.go EncodeToString"), ("constructor", "data/datum.go NewDatum")],
  ["data.GetKeyAsBytes / ToDatumKey / ToDatum / NewDatum", "gencoder.DatumScore"])

p("C02", "A dataset is a last-write-wins map over full datum keys",
  "After any sequence of successful inserts, overwrites, deletes and background processing passes, enumerating a dataset yields every live key exactly once, with the value of its latest insert. A deleted or never inserted key never appears, and an operation on one key never changes another, even when keys differ only in one feature, group label or size/dimension field.",
  ["histories", "inputs"], "all operation histories on one dataset (insert, overwrite, delete, process, statistics refresh), with near-colliding keys",
  "The tests insert three or about fifty datums once and never overwrite, delete or enumerate.",
  ["data/insert.go", "data/delete.go", "data/newsync.go"],
  [("map store keyed by encoded key", "data/newsync.go InsertBDMap/DeleteBDMap"), ("enumeration", "data/newsync.go LoopDBMap/StreamAll")],
  ["Data.Insert", "Data.Delete", "Data.StreamAll", "Data.Search"])

p("C03", "Time-to-live is honoured exactly and travels with the datum",
  "A datum inserted with a TTL of t seconds is returned by enumeration and exact search until t seconds after its most recent insert and never later (on a clock with one-second resolution); TTL 0 means it never expires, and an arbitrarily large TTL never makes it vanish. Re-inserting a datum always restarts its lifetime, whether or not the old copy had expired. When a datum is passed to a peer (replication, rebalancing, draining) the peer receives the remaining lifetime: never longer, never unlimited, and unlimited stays unlimited.",
  ["histories", "inputs"], "all histories of inserts with TTLs, re-inserts, clock advances, processing passes and transfers",
  "No test uses a TTL or lets time pass.",
  ["data/newsync.go", "data/sync.go", "data/insert.go"],
  [("expiry stamp and lazy deletion", "data/newsync.go InsertBDMap/LoopDBMap"), ("remaining lifetime on transfer", "data/sync.go InsertConfigFromExpireAt")],
  ["Data.StreamAll", "Data.Search", "DataSource.Insert calls received by a peer"])

p("C04", "Exact search returns the true top-k, best first, with true scores",
  "A non-approximate search returns exactly min(limit, number of matching live datums) results: the best ones under the requested score function and direction (higher or lower is better), ordered best first, each datum at most once and each carrying its real score. Asking for zero results is answered with an empty result; an unknown score function means Euclidean distance; no configuration means the documented defaults.",
  ["inputs", "histories"], "all dataset contents, queries, limits (0 up to beyond the dataset size), score functions and directions, including score ties",
  "Only the approximate path is asserted on, for one query on one file; exact search is never checked against a reference.",
  ["data/search.go"],
  [("bounded sorted collector", "data/search.go Collector.Insert / Data.Search"), ("score function table", "data/search.go GetVectorComparisonFunction")],
  ["Data.Search", "Data.StreamSearch"])

p("C05", "Vector score functions compute what their names say",
  "Euclidean distance, Manhattan (quick) distance, dot product, cosine similarity and angular score agree with their mathematical definitions within float32 rounding for all finite vectors of moderate size; they are symmetric, distances are non-negative and zero between equal vectors, similarities lie in [-1,1] and angular scores in [0,1], and vectors of different length never cause a failure.",
  ["inputs"], "all pairs of finite float32 vectors, equal and unequal lengths, zero vectors, parallel and opposite vectors",
  "The score functions only have benchmarks.",
  ["data/util.go", "data/search.go"],
  [("numeric kernels", "data/util.go VectorDistance/QuickVectorDistance/VectorMultiplication/CosineSimilarity/AngularDistance")],
  ["data.GetVectorComparisonFunction(name)", "exported functions of data/util.go"])

p("C06", "Filters select exactly the datums whose labels have every requested field",
  "When a search has filters or group filters, every returned datum has a label (respectively group label) in which each requested JSON path exists, and exact search omits no matching datum in favour of a worse one because of a non-matching one. All filters must hold at once; filters look only at the label and group filters only at the group label; datums with non-JSON labels just do not match.",
  ["inputs"], "all JSON / non-JSON labels, sets of simple paths, limits, exact and approximate search",
  "No test sets a filter.",
  ["data/search.go"],
  [("filter evaluation before collection", "data/search.go Collector.PassesFilters, Search, SearchAnnoy")],
  ["Data.Search", "Data.SearchAnnoy", "Data.MultiAggregatedSearch"])

p("C07", "Searching many sources and queries equals searching their union",
  "If every source answers in time, a search over one or more query datums returns the same as one exact search over the union of the local data and all sources' data (up to five sources): each datum at most once, with its best score over all queries, the best `limit` of them in best-first order (cut to the result limit if one is set). The answer does not depend on how data is split or replicated over sources, nor on the order in which partial results arrive, in both score directions.",
  ["inputs", "schedules", "configurations"], "all partitions/replications of data over sources, arrival orders, multi-query requests, limits and directions",
  "No test searches more than one source or query, or uses the merging code.",
  ["data/search.go", "data/aggregator.go"],
  [("merging with de-duplication", "data/aggregator.go Insert/InsertToList/Result"), ("fan-out", "data/search.go AggregatedSearch/MultiAggregatedSearch")],
  ["Data.MultiAggregatedSearch", "Data.AggregatedSearch", "NewAggrator"])

p("C08", "Grouped search ranks each group once by its best members",
  "With a group limit g (and no search context), at most one result per distinct group label is returned, carried by the group's best-scored datum. A group's score combines only its g best distinct members - their sum when higher is better, their sum divided by the square of their number when lower is better - and groups are ranked best first and cut to the limit (and result limit), independent of arrival order.",
  ["inputs", "schedules"], "all result streams with any group structure, duplicates, arrival orders, limits and directions",
  "No test sets a group limit.",
  ["data/aggregator.go", "data/search.go"],
  [("per-group aggregators and combination", "data/aggregator.go Insert/One/Result")],
  ["NewAggrator(config, true, ...)", "Data.MultiAggregatedSearch with GroupLimit > 0"])

p("C09", "Search context re-scores candidates by their best context match",
  "With a search context, each candidate's score becomes the best (under the search direction) among its own score and its scores against every context datum; with a prioritized context the own score is ignored. Ranking, de-duplication and limits then use that score; an empty context changes nothing.",
  ["inputs"], "all candidate streams, context sets, prioritize flags, score functions and directions",
  "No test passes a context.",
  ["data/aggregator.go", "data/search.go"],
  [("context scoring", "data/aggregator.go BestScore")],
  ["NewAggrator", "Data.MultiAggregatedSearch with a context"])

p("C10", "A search answers within its timeout whatever its sources do",
  "However short or long its timeout is, a search returns no later than that even if some sources are slow, hang or fail, and its answer still contains what the local data and the sources that answered in time contributed. Results that arrive late do not crash the node, do not show up in other answers and leave no goroutine behind once their source is done.",
  ["schedules", "fault_sequences"], "all delays, failures and result counts of sources, relative to the timeout",
  "No test has a source at all.",
  ["data/search.go"],
  [("timer and select loop", "data/search.go AggregatedSearch/MultiAggregatedSearch")],
  ["Data.MultiAggregatedSearch under a virtual clock", "goroutines left over after the search"])

p("C11", "The query cache never changes an answer except by bounded staleness",
  "Without a cache duration every search sees the current data. With a cache duration d, however long, repeating a query within d returns the same datums and scores as the first answer, and after d the current data; a cached answer is only ever used for the same query datum and search parameters, and serving, re-scoring or grouping a cached answer never alters what later queries get.",
  ["histories", "inputs"], "all histories of searches with varying query, parameters and cache durations, interleaved with inserts, deletes and clock advances",
  "No test sets a cache duration.",
  ["data/search.go"],
  [("query key", "data/search.go GetSearchKey/EncodeSearchConfig"), ("copies around the cache", "data/search.go CloneResult/AggregatedSearch")],
  ["Data.AggregatedSearch", "Data.MultiAggregatedSearch"])

p("C12", "Enforced replication: success means the required copies exist",
  "When replication on insert is enforced with factor r, a client insert that reports success has stored the datum locally and at enough peers to make at least r copies, and one that could not reports an error (with the local copy kept). Replicated inserts carry the same datum and TTL, are never forwarded again by the receiver (so cycles of peers terminate), and no more peers are contacted once enough have accepted.",
  ["fault_sequences", "configurations", "inputs"], "all peer sets with failing/accepting peers in any order, replication factors, topologies with cycles",
  "No test configures replication or sources.",
  ["data/insert.go", "data/data.go", "node/nodeservice.go"],
  [("replication loop and forward marker", "data/insert.go Insert"), ("source selection", "data/data.go RunOnRandomSources")],
  ["Data.Insert result and DataSource.Insert calls"])

p("C13", "Capacity targets are enforced on insert, and only then",
  "While a dataset with a target reports at least its target number of elements, every insert is refused with an error and changes nothing (locally or at peers); while it reports fewer, or has no target, no insert is refused for capacity. The reported count catches up with the real number of live elements at the next processing pass.",
  ["histories", "configurations"], "all targets and histories of inserts, deletes, expiries and processing passes",
  "Tests stay far below the target.",
  ["data/insert.go", "data/newsync.go"],
  [("target check", "data/insert.go Insert"), ("count refresh", "data/newsync.go Process")],
  ["Data.Insert error", "Data.GetDataInfo().N", "Data.StreamAll"])

p("C14", "Rebalancing never loses data and never evicts below the target share",
  "A running dataset gives up its local copy of a datum during rebalancing only after a peer accepted that same version of it; peer errors, refusals or concurrent newer inserts never cause loss. What is passed on is marked as a copy, so that the receiver does not replicate it again. Datasets without a target are never evicted from, and a pass only evicts as long as the number of elements counted at its start, less those evicted, stays at target x utilization or above.",
  ["fault_sequences", "histories", "schedules"], "all peer behaviours (accept, refuse, fail, be slow, write back), dataset sizes, targets and utilizations, concurrent inserts",
  "No test has a peer, so no datum is ever transferred.",
  ["data/newsync.go", "data/sync.go", "data/data.go"],
  [("delete after accepted insert", "data/newsync.go Process transfer goroutine"), ("eviction threshold", "data/sync.go isEvictionOn"), ("transfer budget", "data/data.go DataSourceDiffMap")],
  ["union of local and peer contents", "Data.StreamAll"])

p("C15", "Closing a dataset with peers hands every live datum over first",
  "Closing a dataset that has peers willing to accept data passes every live datum (with or without TTL, unless about to expire within seconds, and including ones inserted just before the close) to at least one peer, and then finishes. A datum no peer accepted is never dropped in favour of finishing, and an insert that arrives while the dataset closes is either handed over as well or refused. When all datasets of a node are closed, one that cannot be handed over does not keep the others from being so.",
  ["histories", "fault_sequences"], "all contents, numbers of peers, peer sizes/statistics, intermittent peer failures",
  "Tests close datasets without peers only.",
  ["data/data.go", "data/newsync.go"],
  [("drain loop", "data/data.go Close"), ("unconditional streaming when not alive", "data/newsync.go Process")],
  ["DataSource.Insert calls", "termination of Data.Close"])

p("C16", "Reported statistics converge to the true statistics",
  "Once contents stop changing, a few processing passes make the reported information exact: N equals the number of live elements, the average equals the mean feature vector, the maximum distance equals the largest Euclidean distance of an element from the average (all vectors having the same length), and the histogram gives the fraction of elements per distance bucket (64 buckets, summing to 1 unless all elements coincide).",
  ["histories", "inputs"], "all contents of fixed dimension and histories of inserts, deletes and expiries before the passes",
  "Statistics are only logged by tests.",
  ["data/newsync.go", "data/util.go", "data/data.go"],
  [("statistics pass", "data/newsync.go Process"), ("running average", "data/util.go CalculateAverage")],
  ["Data.GetDataInfo"])

p("C17", "Approximate search is sound, fresh and finds what is there",
  "Every result of an approximate (Annoy) search is a distinct datum that was live at the last processing pass, passes the filters and carries its true score, and there are at most `limit` results; querying with a stored feature vector finds that datum or one in the same direction, and with the whole dataset fitting one index leaf the results are the exact angular neighbours. After the pass following a change, new data is found and removed or expired data is not, even if the dataset became empty; queries or data of another dimension never crash it, and before any index exists it falls back to exact search. Searching several datasets approximately merges their answers like an exact search does. A running dataset does these passes by itself: an insert shows up within about a minute and a half, and a removal within about twelve minutes.",
  ["inputs", "histories"], "all contents, queries, limits, filters, histories of changes and processing passes, mixed dimensions",
  "One fixed file and query checks the label of the second result.",
  ["data/search.go", "data/newsync.go", "annoyindex/annoyindex.go"],
  [("index rebuild and swap", "data/newsync.go Process"), ("index search", "data/search.go SearchAnnoy")],
  ["Data.SearchAnnoy", "Data.StreamSearch with Annoy* functions"])

p("C18", "Concurrent use of a dataset is safe and loses nothing",
  "Inserts, deletes, exact and approximate searches, enumerations and processing passes may run concurrently without crashing; every search result is a datum that was live at some time during the search window with its true score, and when everything has finished the dataset holds, for each key, the outcome of its last operation. Rebuilding the index never exposes a half-built or freed index.",
  ["schedules"], "all interleavings of client operations and background passes (sampled by stress with real threads)",
  "The tests are single-threaded.",
  ["data/newsync.go", "data/search.go", "data/insert.go", "data/delete.go"],
  [("concurrent map", "data/data.go DBMap"), ("index lock", "data/data.go Annoyer.RWMutex")],
  ["Data methods called from many goroutines"])

p("C19", "The highest dataset configuration version wins everywhere",
  "Creating or receiving a dataset configuration any number of times, in any order, leaves the dataset with the first configuration received among those with the highest version; older or equal versions never overwrite it, data already stored is kept, and the configuration in force is the one reported, advertised to peers and saved.",
  ["histories"], "all sequences of configurations (versions, targets, retention, replication) for any set of dataset names, interleaved with data operations",
  "Tests create each dataset once.",
  ["data/dataset.go", "data/data.go", "node/nodeservice.go", "node/node.go"],
  [("version comparison", "data/dataset.go CreateIfNotExists"), ("reporting", "data/data.go GetDataInfo")],
  ["Dataset.GetOrCreateIfNotExists", "Node.CreateDataIfNotExists", "Data.GetDataInfo", "Dataset.DataConfigList"])

p("C20", "The dataset index survives restarts and crashes at any point",
  "Re-opening a node's folder restores exactly the datasets and configurations that were saved, whatever their number, names and (finite) settings. The saved index is complete at every instant: a crash of the process at any moment, concurrent saves included, leaves either the previous or the new complete index, never a torn or partial one, and loading never damages it. The index is saved at once after each creation and deletion; a failed or interrupted write (no space left, say) leaves the previous index, and what an interrupted save left behind does no harm.",
  ["crash_points", "histories", "schedules"], "all sets of configurations (hundreds of datasets, names with any characters), concurrent create/delete/list/save activity, every crash instant",
  "No test restarts a node or reads the index.",
  ["data/dataset.go"],
  [("index writer", "data/dataset.go SaveIndex"), ("index reader", "data/dataset.go LoadIndex")],
  ["index.save file contents", "NewDataset on an existing folder"])

p("C21", "Dataset lifecycle: names are independent and deletion stays contained",
  "Creating, getting, listing and deleting datasets behaves like a map from names to datasets: an existing dataset is returned with its data, an unknown one is created with the default configuration (or reported missing where creation is not allowed: of the service methods, insert, information and data stream create, search reports), a deleted one is gone and is not brought back by listing, saving or advertising. Deleting, closing or expiring a dataset touches no other dataset and removes nothing on disk outside that dataset's own folder below the node's data folder, whatever its name is.",
  ["histories", "inputs"], "all histories of registry operations with arbitrary names, including empty names, separators and dot segments",
  "No test uses the registry beyond node start-up.",
  ["data/dataset.go", "data/data.go"],
  [("name map", "data/dataset.go Dataset.DataList"), ("folder removal", "data/data.go DeletePath")],
  ["Dataset methods", "file system below and around the node folder"])

p("C22", "Housekeeping never drops a dataset that holds data",
  "The periodic maintenance pass removes a dataset only if it holds no live data and no reachable peer reports any for it; datasets with data, processed or inserted just before the pass or while it waits for peers, survive with all their data and keep running. Unreachable or failing peers never crash the pass.",
  ["histories", "fault_sequences"], "all histories of inserts, expiries, processing and maintenance passes, with peers that are up, empty, failing",
  "Tests run for less than one maintenance period.",
  ["data/dataset.go", "data/data.go"],
  [("activity check", "data/data.go CheckIfActive"), ("maintenance", "data/dataset.go ReloadRuns")],
  ["Dataset.ReloadRuns", "Dataset.GetNoCreate", "Data.StreamAll"])

p("C23", "The peer table keeps the newest live information about others only",
  "Whatever order peer announcements arrive in, the table holds for each peer (identified by its set of distinct addresses, in any order) the announcement with the newest timestamp among those accepted; announcements older than five minutes or about the node itself are never stored, and peers gone stale are removed when checked. A node's own announcement lists each of its addresses once, all its services and all its dataset configurations.",
  ["histories", "inputs"], "all sequences of join/add-peer announcements with arbitrary address lists and timestamps, clock advances and checks",
  "TestNode logs the peers and asserts nothing.",
  ["node/node.go", "node/nodeservice.go"],
  [("timestamped upsert", "node/node.go AddPeerElement"), ("staleness", "node/node.go IsRecent/CheckPeer"), ("identity", "node/node.go GetIdOfPeer/GetNodeInfo")],
  ["Node.Join", "Node.AddPeer", "Node.PeerListItems", "Node.GetNodeInfo"])

p("C24", "Every query is answered once per node and searches in cyclic clusters end",
  "A node answers a query identifier once: repeating it within minutes yields an empty answer, different identifiers do not affect each other, and a query without an identifier is always answered. In any cluster topology (up to five sources per node), cycles included, a search for one or many query datums terminates and returns the best results over all data of the nodes reachable from the asked node, each datum once.",
  ["configurations", "histories", "inputs"], "all small cluster topologies, data placements (with replicas), query sets and identifiers",
  "TestNode never searches.",
  ["node/nodeservice.go", "data/search.go"],
  [("identifier cache", "node/nodeservice.go SearchStream"), ("forwarding", "data/search.go AggregatedSearch/MultiAggregatedSearch")],
  ["Node.SearchStream"])

p("C25", "No request can crash a node",
  "Any sequence of well-formed protocol messages to any service method, including ones with missing sub-messages, empty or mismatching vectors, zero limits, extreme numbers and unknown names, is answered or rejected with an error; the node keeps running, its background processing keeps running, and data of other datasets stays intact.",
  ["inputs", "histories"], "all sequences of RPC messages decodable from the wire, interleaved with processing and maintenance passes",
  "No test calls an RPC.",
  ["node/nodeservice.go", "data/insert.go", "data/search.go", "data/newsync.go", "veriservice/extra.go"],
  [("request handlers", "node/nodeservice.go"), ("message clean-up", "veriservice/extra.go Clean")],
  ["Node RPC methods", "process survival", "canary dataset"])

p("C26", "A data stream delivers every live datum exactly once",
  "Streaming a dataset delivers each datum live during the whole stream exactly once with its current value before the call completes, for any dataset size and any consumer speed, and never sends on the stream concurrently or after the call has returned.",
  ["inputs", "schedules"], "all dataset sizes (beyond internal buffers) and consumer delays",
  "No test calls DataStream.",
  ["node/nodeservice.go", "data/newsync.go"],
  [("stream pump", "node/nodeservice.go DataStream"), ("enumeration", "data/newsync.go StreamAll")],
  ["Node.DataStream"])

p("C27", "A draining node refuses writes and is never reported ready",
  "From the moment a node starts closing, every insert sent to it is refused with the drain error and stores nothing, while reads keep working; readiness turns false at once and no later synchronisation or maintenance pass turns it true again. Before that, readiness is reported exactly when the node has synchronised, and health exactly as set, through HTTP status codes.",
  ["histories"], "all interleavings of close, inserts, sync/periodic passes and health probes",
  "No test closes a node or queries the HTTP handlers.",
  ["node/node.go", "node/nodeservice.go", "server/httpservice.go", "state/state.go"],
  [("drain flag", "node/node.go Close, node/nodeservice.go Insert"), ("readiness", "node/node.go SyncWithPeers, server/httpservice.go GetReady")],
  ["Node.Insert", "GetReady/GetHeath handlers"])

p("C28", "A remote peer behaves like the local dataset it stands for",
  "Using a dataset through a peer connection gives the same observable behaviour as using it directly: searches return the same datums, scores and order, inserts store the identical datum, TTL and replication marker, dataset information is identical, and remote refusals or connection failures come back as errors (or missing information) rather than as success. A peer that needs seconds to answer (less than ten) is waited for as far as the timeout of the search allows.",
  ["inputs", "fault_sequences"], "all datums, configurations and results that fit the protocol, with live, dead and draining peers",
  "No test exercises the peer client.",
  ["node/datasourceclient.go", "node/nodeservice.go", "veriservice/veriservice.pb.go"],
  [("gRPC client adapter", "node/datasourceclient.go"), ("request handlers", "node/nodeservice.go")],
  ["DataSource interface of GetDataSourceClient over loopback gRPC"])

p("C29", "Gossip converges: connected nodes learn all peers and datasets",
  "In any connected cluster, after enough join and sync rounds in any order every node knows every other node, has every dataset any node has - under its highest configuration version - and has every other holder attached as a source (and keeps it attached as long as it keeps announcing itself), so that (in a cluster of up to six nodes) a search at any node sees data inserted at any other; in larger ones every attached holder is asked sooner or later. A node that joins is told the address it is seen under (IPv4 or IPv6; localhost for a loopback one).",
  ["configurations", "schedules", "histories"], "all small connected seed topologies, dataset placements and orders of join/sync rounds",
  "TestNode starts three nodes and asserts nothing.",
  ["node/node.go", "node/nodeservice.go", "data/dataset.go"],
  [("join and sync", "node/node.go JoinToPeers/SyncWithPeers"), ("announcement exchange", "node/nodeservice.go SendJoinRequest/SendAddPeerRequest")],
  ["Node.PeerListItems", "Dataset.DataConfigList", "Node.SearchStream over loopback gRPC"])

p("C30", "The connection pool always yields a usable connection to a live peer",
  "Asking the pool for a connection to a reachable address gives a connection that is not shut down and can carry calls, after any history of gets, puts, closes and peer restarts (over at most 100 addresses); returning a connection never shuts it down while another user still holds it, and connections for different addresses are never mixed up.",
  ["histories", "fault_sequences"], "all histories of get/put/close by several users over several addresses, with server restarts",
  "No test uses the pool.",
  ["util/connpool.go"],
  [("shared pooled connections with user counts", "util/connpool.go")],
  ["ConnectionCache.Get/Put/Close and calls made on the connections"])

p("C31", "The vector index stores vectors faithfully and ranks neighbours correctly",
  "For every metric (angular, Euclidean, Manhattan, dot product) the index returns stored vectors unchanged, distances equal to the metric's definition, and neighbour lists that contain only distinct stored items in order of increasing distance (decreasing product) with matching distance values; with an exhaustive search budget the list is exactly the true nearest neighbours. Saving, loading and building on disk preserve all vectors, distances and exhaustive answers, and for items numbered without gaps all answers.",
  ["inputs", "histories"], "all item sets, dimensions, tree counts, queries, result sizes and save/load/on-disk cycles",
  "Three fixed vectors per test and one random Euclidean data set with planted pairs.",
  ["annoyindex/annoyindex.go", "annoyindex/annoylib.h", "annoyindex/annoygomodule.h", "annoyindex/annoygomodule_wrap.cxx"],
  [("forest of random projections", "annoyindex/annoylib.h"), ("SWIG bridge", "annoyindex/annoygomodule_wrap.cxx")],
  ["exported methods of package annoyindex"])

p("C32", "Serving keeps the operator's data folder and restores its datasets",
  "A server started on a user-supplied folder never deletes that folder or its index, whether it is terminated, or fails to start because its port is taken; started again it has the same datasets with the same configurations (after a kill, those of the last save, which follows each creation at once). Without a folder it starts empty and leaves its working directory untouched. It listens on the given port, answers the gRPC API, joins its services advertising its broadcast addresses, and exits with code 0 on a termination signal.",
  ["crash_points", "histories", "configurations"], "all sequences of start, create, terminate, kill and failing start on one folder",
  "The server package and the command line have no tests.",
  ["server/veriserviceserver.go", "cmd/serve.go", "data/dataset.go", "node/node.go"],
  [("folder handling and signal handler", "server/veriserviceserver.go RunServer"), ("index", "data/dataset.go")],
  ["veri serve process", "folder contents", "GetDataInfo over gRPC"])

p("C33", "Retention removes a dataset when due and never earlier",
  "A dataset with a retention period stays available with its data for at least the period configured at its creation (14 days if none; however long it is), and one that is not used is removed, data included, and its background work stopped, shortly after the period has passed - also if it is created again right then. Other datasets are unaffected, even if one cannot hand over its data.",
  ["histories"], "all retention values and histories of creations, inserts, listings and clock advances",
  "Retention periods are far longer than any test.",
  ["data/dataset.go"],
  [("cache expiry with close on eviction", "data/dataset.go NewDataset/CreateIfNotExists/GetRetention")],
  ["Dataset.List", "Dataset.GetNoCreate under a virtual clock"])

p("C34", "No accepted datum gets lost in a cluster by rebalancing or shutdowns",
  "In a cluster of up to five nodes that know each other, a datum accepted by any node is found by an exact search at every node, once and with its value, from then on until its time to live ends and not much later. This holds whatever replication, rebalancing, processing and maintenance passes run in whatever order, when nodes join, when passing data on is slow or fails (also after the datum was stored), and while and after nodes shut down gracefully as long as others accept their data.",
  ["histories", "schedules", "fault_sequences", "configurations"], "all histories of inserts, passes, joins and graceful shutdowns over small clusters with any target, utilization and replication settings",
  "TestNode starts three nodes, inserts nothing and asserts nothing.",
  ["data/newsync.go", "data/insert.go", "data/data.go", "data/search.go", "node/nodeservice.go"],
  [("hand-over and eviction", "data/newsync.go Process"), ("drain", "data/data.go Close"), ("fan-out", "data/search.go AggregatedSearch")],
  ["Node.Insert, Node.SearchStream at every node", "Dataset.Close of leaving nodes"])

p("C35", "Index files and background work end with their dataset",
  "However long a node runs, a dataset has at most one index file in the temporary folder between passes: each pass that replaces the index removes the old file. Once a dataset was deleted, dropped by maintenance, expired (also if its name is used again at once) or its node was closed gracefully, its index file is gone (not kept open or mapped either) and its background passes have stopped within three minutes.",
  ["histories"], "all histories of creations, inserts, passes, searches, deletions, maintenance, expiry and closing over several datasets",
  "Tests build one index and never look at the temporary folder.",
  ["data/newsync.go", "data/data.go", "data/dataset.go"],
  [("index swap", "data/newsync.go Process"), ("closing", "data/data.go Close, data/dataset.go closeData")],
  ["files in the temporary folder", "Data.GetDataInfo().Timestamp"])

p("C36", "Serving does not use up memory, goroutines or files",
  "Work that leaves the contents of a node as they were (exact, approximate, grouped, cached, timed-out or refused searches and requests; renewals, inserts that are deleted again or expire; passes, statistics, streams, maintenance, saving; datasets that come and go; peers that announce themselves and leave) can be repeated for ever. Once caches, expired data and forgotten peers have been cleaned up (twenty minutes), the node uses no more Go memory, memory of the index library, goroutines or open files than after earlier rounds of the same work.",
  ["histories", "sequences"], "all repeated mixes of requests and background work on a node with any contents and peers",
  "Tests run for seconds and never compare what a process uses.",
  ["data/search.go", "data/newsync.go", "data/aggregator.go", "data/dataset.go", "node/nodeservice.go", "node/node.go"],
  [("approximate search", "data/search.go SearchAnnoy"), ("expiry", "data/newsync.go LoopDBMap"), ("query identifiers and caches", "node/nodeservice.go SearchStream, data/data.go InitData"), ("timed-out searches", "data/search.go AggregatedSearch")],
  ["memory in use after collection", "goroutines", "open files"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        assert x["statement"].count(". ") <= 3, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
