import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p("C01","Datum encodings are lossless and storage keys identify exactly one key",
"Encoding any datum key (any vector, group label, sizes and dimensions), any datum value or any score and decoding the bytes gives back exactly what was encoded and consumes exactly the encoded bytes. Consequently two data share a storage key only when vector, group label, both sizes and both dimensions are identical. Building a datum from its parts puts every part into its own component.",
["inputs"],"all keys, values and scores: every vector length, every label length (including lengths that need a multi-byte prefix), every component value",
"TestDatum encodes one three-element key with one-byte labels; lengths of 128 and more, large sizes and distinct size/dimension values are never encoded.",
["data/gencoder/gencoder.go","data/datum.go","util/util.go"],
[("MarshalKey/UnmarshalKey/SizeKey","data/gencoder/gencoder.go"),("MarshalValue/UnmarshalValue/SizeValue","data/gencoder/gencoder.go"),("DatumScore","data/gencoder/gencoder.go"),("NewDatum, GetKeyAsBytes, ToDatum","data/datum.go"),("EncodeToString","util/util.go")],
["data.GetKeyAsBytes","data.ToDatum","data.NewDatum","gencoder.*"])
p("C02","Exact search returns the true best-k live entries in order",
"For any stored content, query vector, score function, direction and limit, an exact (non-index) search of one data set returns at most the limit, each result being a stored live entry that passes the filters, carrying its true score against the query, sorted best first. No matching live entry that was left out scores better than any returned one, and entries are left out only when the limit is reached.",
["inputs","histories"],"all store contents, queries, limits (including zero), both directions, all score functions (scores that are not NaN)",
"No test asserts anything about exact search; TestData2 checks one rank of one index-based query.",
["data/search.go","data/newsync.go"],
[("Collector.Insert","data/search.go"),("Data.Search","data/search.go"),("LoopDBMap","data/newsync.go"),("GetVectorComparisonFunction","data/search.go")],
["data.(*Data).Search","data.(*Data).StreamSearch"])
p("C03","Merged results are bounded, best-first, one per key, and never lose a better one",
"Merging any sequence of scored entries yields at most the requested limit (and at most the result limit when one is set), sorted best first in the requested direction, with at most one entry per key. A key seen with several scores keeps its best one, and no merged entry that was left out scores better than one that was kept. When a search context is given an entry is ranked by its best score against the context (and against the query, unless the context is prioritised).",
["inputs","histories"],"all sequences of merged entries, all limits (including zero), both directions, with and without context, grouped or not",
"No test calls the aggregator; the node test sends no searches.",
["data/aggregator.go"],
[("Aggregator.InsertToList/Insert/BestScore/IsNewScoredBetter/One/Result","data/aggregator.go")],
["data.NewAggrator(...).Insert/Result","node.(*Node).SearchStream"])
p("C04","Filters are never bypassed and never over-reject",
"A stored entry is a candidate for a search exactly when every filter path exists in its label and every group filter path exists in its group label. No local search, exact or index based, returns an entry that fails a filter.",
["inputs"],"all filter lists, labels and group labels (including absent labels and labels that are not JSON)",
"No test sets a filter.",
["data/search.go"],
[("Collector.PassesFilters","data/search.go"),("Data.Search, Data.SearchAnnoy","data/search.go")],
["data.(*Collector).PassesFilters","data.(*Data).Search","data.(*Data).SearchAnnoy"])
p("C05","The store holds the latest accepted write per key and nothing else changes",
"After an accepted insert the store maps that key to a datum with that value and the requested expiry (re-inserting the same value with nearly the same expiry may keep the earlier record), and every other key is unchanged. Deleting removes exactly that key. An insert refused because the data set is at its target size or the node is draining returns an error and leaves the store unchanged.",
["inputs","histories"],"all data, configurations, store contents and sequences of inserts and deletes",
"Tests insert a few distinct keys and never overwrite, delete, hit the target size or drain.",
["data/insert.go","data/newsync.go","data/delete.go","node/nodeservice.go"],
[("Data.Insert","data/insert.go"),("InsertBDMap/DeleteBDMap","data/newsync.go"),("Data.Delete","data/delete.go"),("Node.Insert","node/nodeservice.go")],
["data.(*Data).Insert","data.(*Data).Delete","node.(*Node).Insert"],[("DBMap","key string to entry","data/data.go")])
p("C06","Expired entries are never served and live entries are never dropped by reading",
"An entry inserted with a time to live expires that many seconds after the insert; one inserted without never expires. Exact search, full streaming and statistics never see an expired entry, visit every unexpired one, and reading removes only entries that have expired.",
["inputs","histories"],"all entries, expiry times, read operations and clock values",
"No test sets a time to live or waits for one.",
["data/newsync.go","data/sync.go"],
[("InsertBDMap","data/newsync.go"),("LoopDBMap","data/newsync.go"),("StreamAll","data/newsync.go"),("CloseEnough","data/newsync.go")],
["data.(*Data).LoopDBMap","data.(*Data).StreamAll","data.(*Data).Search"])
p("C07","Background transfer removes a local entry only after a peer accepted it",
"During background synchronisation a local entry is removed only if it has expired or a peer has acknowledged a copy of it, and then only while the data set is being closed or holds at least its configured share of the target size. A failed or refused transfer removes nothing. A transferred copy carries the remaining lifetime of the entry (unlimited stays unlimited), is marked as forwarded, and entries about to expire are not transferred.",
["inputs","fault_sequences"],"all stores, peer sets, peer answers (accept, refuse, fail) and configurations",
"No test has a data set with a peer source; every transfer path is dead code for the tests.",
["data/newsync.go","data/sync.go","data/data.go"],
[("Process","data/newsync.go"),("isEvictionOn, InsertConfigFromExpireAt","data/sync.go"),("DataSourceDiffMap","data/data.go")],
["data.(*Data).Process with a recording DataSource"])
p("C08","Data set registry: configurations only move forward and lookups are consistent",
"Creating a data set that already exists keeps the existing one with its data, and replaces its configuration only when the new version is strictly higher. Looking up an unknown name with the creating lookup yields a data set with the default configuration of that name, while the non-creating lookup returns an error and creates nothing; deleting an unknown name is an error and a deleted name is no longer listed.",
["inputs","histories"],"all names, configurations, versions and orders of create, get, delete",
"No test uses the registry beyond opening an empty one.",
["data/dataset.go"],
[("CreateIfNotExists, GetOrCreateIfNotExists, Get, GetNoOp, GetNoCreate, Delete","data/dataset.go"),("GetDefaultConfig, GetRetention","data/dataset.go")],
["data.(*Dataset).*","node.(*Node).CreateDataIfNotExists"],[("DataList","name to data set","data/dataset.go")])
p("C09","Clean-up discards only empty data sets and only their own directory",
"Periodic clean-up closes and unregisters a data set only if it holds no entry and none of its reachable peers holds one. Closing a data set deletes nothing outside its own directory directly below the node's data directory, whatever name a client or peer gave it.",
["inputs","histories","fault_sequences"],"all data set names, contents, peer states (including unreachable peers)",
"No test reaches the periodic clean-up or uses a hostile name.",
["data/data.go","data/dataset.go"],
[("CheckIfActive","data/data.go"),("ReloadRuns","data/dataset.go"),("NewData, NewPreData, DeletePath","data/data.go")],
["data.(*Dataset).ReloadRuns","data.(*Data).Close"])
p("C10","The peer table keeps only fresh foreign peers and never goes back in time",
"A node never records itself as a peer, never records peer information older than five minutes, and never replaces peer information by information that is not newer. A peer's identity does not depend on the order of its addresses. The address list a node announces contains each known and advertised address exactly once.",
["inputs","histories"],"all peers, timestamps, address lists and orders of announcements",
"TestNode only logs the peer lists and asserts nothing.",
["node/node.go"],
[("AddPeerElement, CheckPeer, IsRecent","node/node.go"),("GetIdOfPeer, SerializeStringArray, isPeerSimilarToNode","node/node.go"),("unique, GetNodeInfo, FirstDifferent, Find","node/node.go")],
["node.(*Node).AddPeerElement","node.(*Node).PeerListItems","node.(*Node).GetNodeInfo"],[("PeerList","peer id to latest peer info","node/node.go")])
p("C11","A search id is executed at most once per node",
"A search request that carries an id this node has already handled returns no results and starts no search. A request without an id is given a fresh id, which this node also remembers, so that the query coming back through peers is not executed again. A search of an unknown data set is an error and creates nothing.",
["inputs","histories"],"all request sequences and ids",
"No test sends a search request.",
["node/nodeservice.go"],
[("SearchStream","node/nodeservice.go")],
["node.(*Node).SearchStream"],[("QueryUUIDCache","ids already handled","node/node.go")])
p("C12","No client request and no peer answer can crash a node",
"Handling any well-formed protocol message, with any sub-message absent, any list empty and any number zero, either succeeds or returns an error, and never panics. The same holds for the handling of anything a peer answers, including a failed or missing answer.",
["inputs","histories","fault_sequences"],"all request messages, stored contents and peer answers",
"Tests send no malformed or partial message and have no failing peer.",
["node/nodeservice.go","node/node.go","node/datasourceclient.go","data/search.go","data/aggregator.go","data/insert.go","data/newsync.go","data/data.go"],
[("RPC handlers","node/nodeservice.go"),("data layer called by them","data/")],
["node.(*Node) RPC handlers"])
p("C13","Score functions compute their metric",
"The built-in score functions return the Euclidean distance, Manhattan distance, dot product, cosine similarity and angular similarity of the two vectors, using the common prefix (distances, dot product) or zero padding (cosine) when lengths differ, and a name selects its function, unknown names meaning Euclidean distance. Each is symmetric in its arguments, distances are never negative, cosine similarity lies in [-1, 1], and a zero vector has similarity 0.",
["inputs"],"all pairs of vectors of any lengths (finite values)",
"Only benchmarks call them directly; tests reach one function on one data file.",
["data/util.go","data/search.go"],
[("VectorDistance, QuickVectorDistance, VectorMultiplication, CosineSimilarity, AngularDistance","data/util.go"),("GetVectorComparisonFunction","data/search.go")],
["data.GetVectorComparisonFunction(name)(a, b)"])
p("C14","Published statistics and index snapshot describe the scanned data",
"After a statistics run the published count is the number of live entries, the maximum distance bounds every entry's distance to the previous centre and is attained, the histogram has 64 bins and every entry falls into one of them, and the average is the sum of the vectors divided by the count of the previous run. Position i of the index snapshot holds exactly the entry whose vector was added to the index as item i.",
["inputs","histories"],"all store contents and previous statistics",
"TestData2 only logs the count.",
["data/newsync.go","data/util.go","data/data.go"],
[("Process","data/newsync.go"),("CalculateAverage","data/util.go"),("GetDataInfo","data/data.go")],
["data.(*Data).GetDataInfo"])
p("C15","A successful insert means the configured number of copies exists",
"When replication on insert is enforced, an insert that came from a client succeeds only if the local store and enough peers have accepted the datum to reach the configured number of copies, and otherwise reports an error. Forwarded inserts are stored without being forwarded again, and the caller's insert options are not modified.",
["inputs","fault_sequences"],"all configurations, peer sets and peer answers",
"No test has a peer source or enables replication.",
["data/insert.go","data/data.go"],
[("Data.Insert","data/insert.go"),("RunOnRandomSources","data/data.go")],
["data.(*Data).Insert with recording DataSources"])
p("C16","Cached answers are returned only for the identical query",
"With caching requested, an answer is taken from the cache only if it was stored for the same query key and the same search options (the request id aside). Answers served from or stored in the cache are private copies, so later re-scoring of a delivered result never changes what the cache returns. Without caching requested nothing is read from or written to the cache.",
["inputs","histories"],"all queries and search options, all later modifications of delivered results",
"No test enables the cache.",
["data/search.go"],
[("GetSearchKey, EncodeSearchConfig","data/search.go"),("CloneResult","data/search.go"),("AggregatedSearch","data/search.go")],
["data.(*Data).AggregatedSearch"])
p("C17","Health and readiness probes report the node's state",
"The health probe answers 200 with alive true exactly when the node is healthy and 500 with alive false otherwise; the readiness probe answers 200 with alive true exactly when the node is ready and 503 with alive false otherwise.",
["inputs"],"all node states",
"The server package has no tests.",
["server/httpservice.go"],
[("GetHeath, GetReady","server/httpservice.go")],
["GET /health, GET /ready"])
p("C18","Every search worker signals completion once and all delivered results are merged",
"Each started search, local, remote or aggregated, signals completion exactly once on every path, after its last result was delivered. An aggregated search that is not cut off by its time limit merges every result its workers delivered, and queries the local data and its sources with the caller's options and a shorter time limit.",
["inputs","schedules","fault_sequences"],"all interleavings of deliveries and completions at the granularity of channel operations, all peer failures",
"No test runs an aggregated search.",
["data/search.go","node/datasourceclient.go"],
[("StreamSearch, AggregatedSearch, MultiAggregatedSearch","data/search.go"),("DataSourceClient.StreamSearch","node/datasourceclient.go")],
["data.(*Data).AggregatedSearch","data.(*Data).MultiAggregatedSearch"])
p("C19","Index-based search returns at most k entries of the snapshot with true scores",
"An index-based search returns at most the requested limit, each result being an entry of the current index snapshot with its score computed by the requested function against the query vector. Vectors are only handed to the index with at least the dimension the index was built for, and a search that cannot use the index falls back to exact search.",
["inputs"],"all snapshots, queries, limits and answers of the index",
"TestData2 checks the size and one rank of one query.",
["data/search.go","data/newsync.go"],
[("SearchAnnoy","data/search.go"),("Process","data/newsync.go")],
["data.(*Data).SearchAnnoy"])
p("C20","Streaming a data set delivers every live entry exactly once",
"A data stream request sends every live entry of the data set exactly once before it returns successfully, and sends nothing else.",
["inputs","schedules"],"all store contents, all interleavings of the producer and the sender",
"No test streams data.",
["node/nodeservice.go","data/newsync.go"],
[("Node.DataStream","node/nodeservice.go"),("StreamAll","data/newsync.go")],
["node.(*Node).DataStream"])
p("C21","The connection pool hands out only open connections, with bounded retries",
"Asking the pool for a connection yields either nothing or an open connection to the requested address whose use count has been raised by one, after a bounded number of attempts. A closed pool opens no new connections, and a returned connection is pooled again only when it is healthy and closed otherwise.",
["inputs","fault_sequences"],"all pool contents and connection states",
"No test uses the pool directly.",
["util/connpool.go"],
[("ConnectionPool.Get/GetWithRetry/PutIfHealthy/CloseAll/NewConnection, ConnectionCache","util/connpool.go")],
["util.(*ConnectionCache).Get/Put"])
p("C22","The data set index file lists every registered configuration",
"Saving the registry writes exactly one line per registered data set with its current configuration, and loading the file registers every configuration it lists, skipping lines that do not parse.",
["inputs","histories"],"all registries and file contents",
"Tests open an empty registry.",
["data/dataset.go"],
[("SaveIndex, LoadIndex","data/dataset.go")],
["data.NewDataset on a directory written by an earlier Dataset"])
p("C23","Concurrent operations on one data set are free of data races",
"Inserts, searches, statistics runs and configuration updates may run concurrently on one data set without data races, and each behaves as if it ran alone at some point in time.",
["schedules"],"all interleavings of operations",
"Tests are single threaded and run without the race detector.",
["data/data.go","data/newsync.go","data/search.go"],
[("sync.Map, Annoyer lock, atomics","data/data.go")],["data.(*Data)"])
p("C24","Peers converge to statistically identical subsets",
"In a cluster that stays connected, the data held by the nodes converges to statistically identical subsets of the whole.",
["schedules","histories","fault_sequences"],"all cluster histories",
"TestNode runs three empty nodes for thirty seconds.",
["data/newsync.go","data/data.go","node/node.go"],
[("Process, DataSourceDiffMap","data/"),("SyncWithPeers","node/node.go")],["GetDataInfo of each node"])
p("C25","The approximate index ranks like the exact distance on its candidates",
"The approximate nearest neighbour index returns distinct item numbers that were added, ordered by increasing distance to the query.",
["inputs"],"all item sets and queries",
"The annoy tests check a few fixed indexes.",
["annoyindex/annoylib.h"],
[("_get_all_nns","annoyindex/annoylib.h")],["annoyindex.GetNnsByVector"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
