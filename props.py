"""What check.py needs to know per property."""
PROPS = {}


def prop(pid, rule, **kw):
    PROPS[pid] = dict(rule=rule, **kw)


prop("C01", "rapid draws datums as raw bits (feature/label lengths around the varint boundaries 127/128 and 16383/16384, "
     "special floats, full-range integers), pairs of datums differing in one bit / swapped fields / bytes moved across a field "
     "boundary, and constructor arguments; non-trivial: a non-empty feature vector (roundtrip), unequal pair (injective), "
     "pairwise different numbers (constructor)", budget=40)
prop("C02", "rapid draws a universe of near-colliding keys (differing in one feature/label/size/dimension field) and a history of up to "
     "40 inserts, overwrites, deletes, forced and time-driven processing passes; the enumeration is compared with a map model after "
     "every step and a full exact search at the end; non-trivial: the history overwrites a live key and deletes a live key")
prop("C03", "rapid draws histories (up to 30 steps) of inserts with TTLs from 0 over seconds to 2^64-1, re-inserts, deletes, processing "
     "passes and clock advances on a virtual clock, with 0-3 accepting fake peers and optional enforced replication; after every step "
     "enumeration and exact search are compared with a model of expiry times, and every TTL a peer received with the remaining "
     "lifetime; non-trivial: some finite TTL and at least one expiry or transfer happened")
prop("C04", "rapid draws dataset contents (up to 60 datums, often on a small grid so scores tie), deletions and queries (limits 0 to "
     "100000, every exact score function, unknown names, no configuration, both directions); results compared with a full ranking "
     "computed independently; non-trivial: 0 < limit < number of live datums")
prop("C05", "rapid draws vector pairs (equal, scaled, opposite, zero, one-coordinate-off, unequal length; up to 300 dimensions) for every "
     "function name; compared with float64 definitions under a rounding bound, plus symmetry, range, self-distance; non-trivial: both "
     "vectors non-zero with more than one coordinate")
prop("C06", "rapid draws up to 25 datums whose labels/group labels are random JSON documents or plain text, and queries with 0-3 label and "
     "0-2 group-label path filters through exact, multi-source and approximate search; oracle: path evaluation by encoding/json and a "
     "full ranking of the matching datums; non-trivial: the filters select some but not all datums")
prop("C07", "rapid draws datums, a split/replication over local data and 0-5 sources (real datasets behind wrappers that delay, reverse "
     "and rotate the delivery), 1-4 queries, limits and directions; result compared with a ranking of the union (best score over "
     "queries, each datum once). merger: arbitrary result streams with duplicates of differing score straight into the aggregator. "
     "non-trivial: sources involved with replicated datums or several queries / duplicates with different scores under a truncating limit")
prop("C08", "rapid draws result streams (up to 40 scored datums with duplicates over up to 6 group labels) for the grouped merger, and whole "
     "grouped searches (data split over local and a delayed source, 1-3 queries); each group's members, head, score and rank are "
     "recomputed from the definition; non-trivial: several groups and at least one with more members than the group limit",
     assumptions=["grouped searches without a search context (the code re-applies a context to group scores; what that should mean is unspecified)"])
prop("C09", "rapid draws candidate streams and searches with contexts of 0-4 datums, prioritized or not, every score function and "
     "direction; scores, de-duplication, ranking and limits recomputed from the definition; non-trivial: the context changes a score "
     "and there is more than one candidate")
prop("C10", "rapid draws contents (up to several hundred datums), 0-4 sources with per-query behaviour (in time, late, half late, "
     "delivering but not ending, failing), 1-3 queries, limits and timeouts on a virtual clock; checked: elapsed virtual time, the "
     "answer against the ranking of what was delivered in time (results of unfinished sources optional), a second query while late "
     "results arrive, and that no goroutine is left once the sources are done. long: timeouts from minutes to 2^64-1 ms with sources that take up to hours. non-trivial: a slow source and some data")
prop("C11", "rapid draws histories (up to 30 steps) of inserts/deletes (local and at a source), clock advances and queries from a pool of "
     "near-identical requests (differing in one parameter, query datum, context or grouping), repeated up to three times, on a virtual "
     "clock; every answer is compared with a model holding, per query datum and parameters, the answer computed first and its expiry; "
     "returned answers are scribbled on by the caller; non-trivial: some answer came from the cache after the data had changed")
prop("C12", "rapid draws a replication factor 0-6, 0-7 scripted peers that accept or refuse per insert, and up to 8 inserts (TTL, forwarded "
     "marker, nil or re-used configuration objects); number, order, content and marking of the peers' inserts and the reported outcome "
     "are compared with a model; cycles: 2-6 real datasets connected by a random digraph; non-trivial: an insert needed and got copies "
     "(replicate), inserting node lies on a cycle (cycles)")
prop("C13", "rapid draws targets (0, small, huge, none) and histories (up to 40 steps) of client and forwarded inserts, deletes, TTL expiry, "
     "forced and time-driven processing passes with a replicating peer; refusals are compared with the count reported just before, the "
     "contents and the peer's log with a model, and the reported count with the live number after each pass; non-trivial: some insert "
     "was refused and some data is stored")
prop("C14", "transfer: rapid draws histories (up to 15 steps) of batch inserts, re-inserts, deletes, processing passes and clock advances with "
     "1-4 scripted peers (any reported size or none, accepting/refusing/slow, with newer local inserts, renewals or deletes happening "
     "while the peer handles a datum); invariant after every step: the latest version of each live datum is present or was accepted by "
     "a peer. bound: number evicted per pass against the counted size and target share. non-trivial: something was evicted, or a newer "
     "insert raced with a transfer")
prop("C15", "rapid draws up to 60 datums (no, short and long TTL; processed or inserted right before the close; some deleted) and 1-4 peers, one "
     "of them willing (others refusing, silent, busy; any reported size and statistics; unwilling for the first seconds); Close runs on "
     "a virtual clock with ten minutes to finish; every datum with more than 100 s to live must have been accepted by a peer, and "
     "nothing may be dropped while nobody accepts; some inserts arrive while the dataset is being closed and must be refused or handed over. registry: a node with "
     "several datasets is closed, some of which can not be handed over; all others must be. non-trivial: more than one datum to hand over / a dataset was handed over")
prop("C16", "rapid draws histories of inserts, deletes, expiry and passes over vectors of 1-64 dimensions (coinciding, gridded or arbitrary, "
     "optionally up to 2500 more datums), then lets six forced or background passes run; N, average, maximum distance and the "
     "histogram's prefix sums are compared with float64 definitions under rounding bounds; non-trivial: more than two live datums",
     assumptions=["all vectors of a dataset have the same length (the average of mixed lengths is not defined)"])
prop("C17", "history: rapid draws small datasets and histories of inserts, deletes, expiry, passes, emptying and approximate queries (filters, "
     "limits 0-2000); answers must come from the contents at the last pass with true scores, equal the exact angular neighbours when "
     "all fits one leaf, and equal exact search when there is no index. find: up to 2500 random vectors (2-100 dims), incremental "
     "passes; every probe with a stored vector must find its direction. dims: vectors of 0-300 dimensions mixed, queries of other "
     "dimensions. background: nobody forces a pass; inserts and removals must show up in the index within the stated times of the virtual clock. union: approximate searches over a dataset with others as sources (same or different contents, filters, limits) must have the true scores, be in order, hold every identifier once, and hold everything when all fits the limit. non-trivial: an approximate query ran on several datums / more than one leaf / more than one dimension")
prop("C18", "concurrent: rapid draws scripts for 1-4 writers (each key has one writer), 1-4 readers (exact, approximate, merged searches, "
     "enumeration) and 1-2 goroutines running processing passes, executed on real threads; every observation is checked against the "
     "recorded operation intervals (live during the window, true score, nothing stable missing), crashes are violations, final "
     "contents/count/index against each key's last operation. renewal: renewing inserts race with the removal of the expired copies at "
     "a second boundary. non-trivial: reads overlapped writes", budget=50)
prop("C19", "history: rapid draws up to 25 operations (create, get-or-create, CreateDataIfNotExists RPC, insert, processing pass, clock advance, "
     "save + re-open) with random configurations over 4 names; after each one the configuration in force, reported, advertised and listed "
     "is compared with the model (first of the highest version) and the contents with the reference map. race: 2-8 threads offer versions "
     "at once. sync: configurations arriving with peer announcements. non-trivial: at least one update and one ignored offer happened")
prop("C20", "history: rapid draws create/delete/bulk-create/list/save/re-open histories with arbitrary names (control characters, JSON, any "
     "unicode) and settings; every re-open must restore exactly the model. observe: the index file is read continuously by two threads "
     "while real threads save, list, create, delete, or nodes load it; the recovered contents of the versions seen must hold every "
     "permanent dataset and nothing alien (reading at an instant = crash at that instant). kill: a child process that saves after "
     "every creation is killed (SIGKILL) at a random point, several times on the same folder; all acknowledged datasets must be "
     "recovered. leftover: files of interrupted saves lie in the folder. disk-full: the file size limit of a child process makes the save fail half-way; the previous index must stay. non-trivial: more than one dataset / more than 20 instants observed / a kill", budget=60)
prop("C21", "history: rapid draws up to 30 registry operations (create, get variants, delete, list, advertise, save, insert, maintenance, clock "
     "advance) over plain and odd names (empty, dot segments, separators, absolute); after each one names, contents, configurations and "
     "identity are compared with a map model, and marker files outside the data folder and in other datasets' folders must still be "
     "there. concurrent: real threads create/delete while others list, advertise and save; nothing deleted may come back. service: the same through the service methods of a node. Run as an "
     "unprivileged user in scratch folders only. non-trivial: a deletion happened and several names were used", unprivileged=True)
prop("C22", "rapid draws up to 30 operations (create, insert with/without TTL, delete, processing pass, clock advance, attach a peer that is "
     "unreachable, empty, full or flaky, maintenance pass) on 3 datasets under a virtual clock; a dataset with live data or a reachable "
     "peer reporting data must survive maintenance as the same object with all its data; any crash is a violation. during: inserts arrive at "
     "drawn moments while maintenance waits for slow peers; everything accepted must be found afterwards. non-trivial: a dataset survived a maintenance pass / an insert arrived during one")
prop("C23", "rapid draws up to 30 operations (Join, AddPeer with permuted address lists and timestamps around the five-minute limit, clock "
     "advance, CheckPeer, SyncWithPeers when all peers are stale, learned services) under a virtual clock; after each one the peer table "
     "is compared with a model holding the newest accepted announcement per address set, and the node's own announcement with its "
     "addresses, services and datasets. race: 2-8 threads deliver announcements of one peer at once, the newest must stay. non-trivial: "
     "an announcement met an existing entry / threads raced")
prop("C24", "rapid draws clusters of 1-6 real nodes (random, ring, full, line, star topologies, some without the dataset; sources pass copies of "
     "the real requests to the peer's request handler after 0-20 ms virtual delay), data placements with replicas, and up to 6 searches "
     "with 1-4 query datums and fresh, reused or no identifiers; answers must be the exact top-k over all reachable nodes' data, repeated "
     "identifiers must get nothing, and every search must end within 20 s virtual time. non-trivial: an answer merged several holders or "
     "an identifier was repeated")
prop("C25", "calls: rapid draws up to 25 requests to all service methods (missing sub-messages, empty/odd/NaN/infinite/mismatching vectors, "
     "extreme numbers, odd names and filters), encoded to and decoded from the wire, interleaved with processing, maintenance, index saving, "
     "status output and clock advances. wire: the encodings are additionally mutated at random and kept if they still decode. Oracle: no "
     "crash or hang, every answer can be encoded, a canary dataset keeps its data, is searchable and its background processing runs. "
     "non-trivial: at least one decodable request was executed")
prop("C26", "rapid draws a dataset of 0-450 datums (some with TTLs, some deleted before), consumer delays of 0-3 s per datum, up to 6 changes "
     "(overwrite, delete, insert, processing pass) made while the stream runs, 1-3 streams at once and possibly a consumer that goes away; "
     "under a virtual clock the real DataStream handler runs on a recording stream. Oracle: every datum live during the whole call exactly "
     "once with a value it had, nothing else, everything before the call returns, no overlapping sends, no sends after the return, the call "
     "ends and leaves no goroutine. non-trivial: at least one datum had to be delivered")
prop("C27", "drain: rapid draws what is stored, up to 8 operations before and 14 after the node starts closing (inserts to known and unknown datasets, "
     "exact search, stream, information, readiness/health probes through the HTTP handlers, sync, maintenance, periodic pass, clock advance), "
     "optionally with a peer that accepts slowly so that closing takes time; oracle: a model of readiness, health, contents and the drain "
     "error. inflight: real loopback peers answer slowly while the node closes during 1-3 synchronisations; readiness must stay false. "
     "non-trivial: something was refused or read while closing / a synchronisation ended after the close")
prop("C28", "differential: a real node is served over loopback gRPC; rapid draws a configuration, 0-250 stored datums (labels up to 60 kB), a peer of "
     "the node and up to 14 operations (inserts with every kind of field, TTL and marker, searches, information, processing, unknown dataset, "
     "drain mode); each is done through the peer client and directly (a twin dataset for inserts) and errors, results, information, stored "
     "data, expiry and onward replication are compared; at the end the server is stopped and every call must fail. slow: the peer needs 1.2-5.5 s for each answer. parallel: 2-60 users share "
     "one connection cache; every call must succeed and everything must be stored. non-trivial: inserts plus searches or refusals / several "
     "users")
prop("C31", "rapid draws a metric, dimension (1-130, around the SIMD widths), 0-600 vectors of six kinds (Gaussian, small grid with ties and zero "
     "vectors, clusters with duplicates, one-hot, very different norms, collinear), item numbers with or without gaps, overwritten items, "
     "number of trees, building in memory or on disk, up to 3 save/load/unload steps and 1-5 queries (by item or vector, any size and budget); "
     "vectors bit for bit, distances and neighbour lists against float64 definitions, exhaustive budgets against a full scan, and answers "
     "before and after saving and loading are compared; non-trivial: more items than fit one leaf")
prop("C33", "rapid draws registries (new or restored from a saved index) and up to 24 steps (create with a retention of seconds to hours, none, or up "
     "to 2^64-1 seconds; insert, use, list, announce again, delete, save, clock advances, also to just before/at/after the moment a dataset is "
     "due) on a virtual clock; after every step a model of creation times tells which datasets must still be there with all their data and "
     "which must be gone and closed (two minutes of clean-up allowed); peers: expired datasets with peers, some of which refuse everything or whose name is used again, must be handed over to the willing ones in time; non-trivial: a dataset was removed when due and another step saw one "
     "kept until due (or four such sightings)")
prop("C30", "history: rapid draws up to 30 operations (get, get up to 30 times, return, return and close, call, stop/start/restart the server, calls at a "
     "stopped server, pool refresh, garbage collection) by several users over 1-4 addresses with real loopback gRPC servers that answer with "
     "their identity (hosts and ports or only ports differ); no held connection may be shut down, a connection to a running server must be there and carry calls to that server. "
     "many: the same with 5-100 addresses in use at once. concurrent: 2-40 threads get, use and return connections to running servers at once; all calls must succeed. non-trivial: a connection "
     "was shared (or more than four addresses used) and calls were made / several users", assumptions=["at most 100 addresses are in use at a time (the pool's capacity)"])
prop("C29", "rapid draws 1-8 clusters per case of 2-5 real nodes each on loopback gRPC: connected seed graphs (line, star, random, with extra and self "
     "links, directed either way), advertised addresses (none, one, two forms), late starts, one-round outages, dataset creations and upgrades "
     "in rounds 0-3, and the order of all join and sync operations per round (rounds one second apart, the clock resolution of announcements); "
     "13 rounds after the last change every node must know every other, hold every dataset under its highest version and have every other "
     "node as a source, and searches at every node must find data inserted at each; no node may ever be its own source. lasting: a node that is announced every few seconds to minutes for up to an hour of virtual time must be attached as a source at every probe. holders: 1-14 holders announce themselves, each must contribute to some search. seen: joins from any IPv4 or IPv6 address, the answer must name that address. non-trivial: a cluster "
     "of more than two nodes", budget=100)
prop("C32", "rapid draws a folder (existing with files of the operator, or missing; with or without trailing slash), broadcast addresses (flag or "
     "environment) and up to 11 operations (start, create or upgrade datasets with any settings and odd names over gRPC, insert, SIGTERM, SIGINT, "
     "SIGKILL, a start on a taken port also while another server uses the folder, a start killed or terminated within 250 ms) with the real "
     "veri binary built from the working tree; after every operation the folder and the operator's files must be there, after every start the "
     "announced and reported datasets and configurations must equal the model (after a kill an upgrade not saved yet may be missing), the "
     "server must answer on its port, advertise its addresses and exit with 0 on a signal. Run as an unprivileged user in scratch folders. "
     "non-trivial: a dataset was created and the server started again at least twice", unprivileged=True,
     extra_build=[("github.com/bgokden/veri", "veri")], budget=90)
prop("C35", "rapid draws up to 30 operations (create with or without a short retention, insert with any dimension and TTL, fill, empty, forced pass, "
     "clock advance, approximate search, delete the dataset, maintenance, attach a peer) on three datasets under a virtual clock, the temporary "
     "folder being a scratch folder, and then closes or deletes everything or nothing; after every step the folder may hold at most one file per "
     "existing dataset (those removed within the last three minutes included), and the passes of removed datasets must have stopped; non-trivial: an index file "
     "was replaced, or a dataset removed after an index was built")
prop("C34", "rapid draws clusters of 1-5 real nodes (joining later, shutting down gracefully, up to 18 operations: inserts with and without TTL, repeated inserts, "
     "clock advances with background passes and gossip, forced passes of one or all nodes at once, maintenance), a configuration (target, utilization, "
     "enforced replication or none), latencies of and failures in passing data on (also ones where the datum was stored but the answer was lost); nodes are linked "
     "by copies of the real requests; after every step an exact search at every node must find every accepted datum that has not expired with "
     "its value, once, and nothing else; non-trivial: some datum moved to another node", assumptions=["a datum that is inserted again has the same value and lifetime (which of two different ones wins when they were inserted at different nodes is unspecified)"])
prop("C36", "rapid draws a node's contents (0-120 datums of 1-100 dimensions, 0-3 peers, maybe one slower than the timeout) and one to four kinds of work that leave them "
     "as they were (searches of all kinds, cached or not, repeated or new queries; renewing, inserting and deleting, expiring data; passes, statistics, streams, "
     "datasets that are created and deleted or expire, refused requests, announcements of new peers, maintenance, saving); the work is done 200 times per round on a virtual clock, "
     "with time for caches to expire between rounds; goroutines, open files, Go memory and memory of the index library after collection must not grow from "
     "round to round (suspects run forty more rounds); non-trivial: data is there and searched, changed or processed", budget=60)
