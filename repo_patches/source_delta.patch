From 2d438609549e1b7b2aa57d542090b27f8e9ac909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:23 +0000
Subject: [PATCH 01/23] fix: NewDatum stores size2 in Size2

---
 data/datum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/datum.go b/data/datum.go
index 5db0810..fb0aa7c 100644
--- a/data/datum.go
+++ b/data/datum.go
@@ -22,7 +22,7 @@ func NewDatum(feature []float32,
 			Dim1:       dim1,
 			Dim2:       dim2,
 			Size1:      size1,
-			Size2:      size1,
+			Size2:      size2,
 			GroupLabel: groupLabel,
 		},
 		Value: &pb.DatumValue{
-- 
2.43.0


From ca9b49c3498f1fa387229b3d36300f84a85485bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:26 +0000
Subject: [PATCH 02/23] fix: aggregator prefers lower scores when lower is
 better

---
 data/aggregator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index 5dd9f33..f1b3ce7 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -46,7 +46,7 @@ func (a *Aggregator) IsNewScoredBetter(old, new float64) bool {
 			return true
 		}
 	} else {
-		if old < new {
+		if new < old {
 			return true
 		}
 	}
-- 
2.43.0


From bbb746e9a273668c3744c4d1e4b84a25dd73f01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:29 +0000
Subject: [PATCH 03/23] fix: a search with limit 0 returns nothing instead of
 crashing

---
 data/aggregator.go | 2 +-
 data/search.go     | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index f1b3ce7..a0533f0 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -81,7 +81,7 @@ func (a *Aggregator) InsertToList(scoredDatum *pb.ScoredDatum) error {
 	if uint32(len(a.List)) < limit {
 		a.List = append(a.List, scoredDatum)
 		itemAdded = true
-	} else if a.IsNewScoredBetter(a.List[len(a.List)-1].Score, scoredDatum.Score) {
+	} else if len(a.List) > 0 && a.IsNewScoredBetter(a.List[len(a.List)-1].Score, scoredDatum.Score) {
 		a.List[len(a.List)-1] = scoredDatum
 		itemAdded = true
 	}
diff --git a/data/search.go b/data/search.go
index 566e714..d16de85 100644
--- a/data/search.go
+++ b/data/search.go
@@ -66,8 +66,9 @@ func (c *Collector) Insert(scoredDatum *pb.ScoredDatum) error {
 	if uint32(len(c.List)) < c.N {
 		c.List = append(c.List, scoredDatum)
 		itemAdded = true
-	} else if (c.HigherIsBetter && scoredDatum.Score > c.List[len(c.List)-1].Score) ||
-		(!c.HigherIsBetter && scoredDatum.Score < c.List[len(c.List)-1].Score) {
+	} else if len(c.List) > 0 &&
+		((c.HigherIsBetter && scoredDatum.Score > c.List[len(c.List)-1].Score) ||
+			(!c.HigherIsBetter && scoredDatum.Score < c.List[len(c.List)-1].Score)) {
 		c.List[len(c.List)-1] = scoredDatum
 		itemAdded = true
 	}
-- 
2.43.0


From a9a28e8b14e575a6615518c8286807333f4f241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:32 +0000
Subject: [PATCH 04/23] fix: a better score replaces the earlier result of the
 same key

---
 data/aggregator.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/data/aggregator.go b/data/aggregator.go
index a0533f0..7eed7a6 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -100,6 +100,17 @@ func (a *Aggregator) InsertToList(scoredDatum *pb.ScoredDatum) error {
 	return nil
 }
 
+// removeFromList removes the entry with the given key, its score is superseded.
+func (a *Aggregator) removeFromList(keyString string) {
+	for i, scored := range a.List {
+		keyByte, err := GetKeyAsBytes(scored.GetDatum())
+		if err == nil && util.EncodeToString(keyByte) == keyString {
+			a.List = append(a.List[:i], a.List[i+1:]...)
+			return
+		}
+	}
+}
+
 func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 	scoredDatum.Score = a.BestScore(scoredDatum)
 	if a.Grouped {
@@ -124,6 +135,7 @@ func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 		if previousScore, ok := a.DeDuplicationMap.Get(keyString); ok {
 			if a.IsNewScoredBetter(previousScore.(float64), scoredDatum.GetScore()) {
 				a.DeDuplicationMap.Set(keyString, scoredDatum.GetScore(), cache.NoExpiration)
+				a.removeFromList(keyString)
 				return a.InsertToList(scoredDatum)
 			}
 		} else {
-- 
2.43.0


From 183c6f5dc268a3d787c744033582e407437ef5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:35 +0000
Subject: [PATCH 05/23] fix: inserting a datum without key is an error, without
 value stores an empty value

---
 data/newsync.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/data/newsync.go b/data/newsync.go
index 2040b5c..278883b 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -2,6 +2,7 @@ package data
 
 import (
 	"bytes"
+	"errors"
 	"io/ioutil"
 	"log"
 	"math/rand"
@@ -25,6 +26,12 @@ func CloseEnough(a, b int64) bool {
 }
 
 func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
+	if datum == nil || datum.Key == nil {
+		return errors.New("Datum has no key")
+	}
+	if datum.Value == nil {
+		datum.Value = &pb.DatumValue{}
+	}
 	exprireAt := int64(0)
 	if config != nil && config.TTL != 0 {
 		exprireAt = time.Now().Unix() + int64(config.TTL)
-- 
2.43.0


From 44a791472acbfbcc4ec5f41fd6372850a4270e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:37 +0000
Subject: [PATCH 06/23] fix: search requests and peer results without config or
 keys do not crash the node

---
 node/datasourceclient.go |  3 +++
 node/nodeservice.go      | 15 +++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/node/datasourceclient.go b/node/datasourceclient.go
index a3cfc9e..159bfa5 100644
--- a/node/datasourceclient.go
+++ b/node/datasourceclient.go
@@ -53,6 +53,9 @@ func (dcs *DataSourceClient) StreamSearch(datum *pb.Datum, scoredDatumStream cha
 			break
 		}
 		// log.Printf("Received From:  %v for Score: %v Label: %v", dcs.Ids, protoScoredDatum.Score, string(protoScoredDatum.GetDatum().GetValue().GetLabel()))
+		if protoScoredDatum.GetDatum().GetKey() == nil {
+			continue
+		}
 		scoredDatumStream <- protoScoredDatum
 	}
 	return err
diff --git a/node/nodeservice.go b/node/nodeservice.go
index 753ab84..9f28fb7 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -115,8 +115,23 @@ func (n *Node) GetDataInfo(ctx context.Context, getDataRequest *pb.GetDataReques
 	return nil, nil
 }
 
+func haveKeys(datumList []*pb.Datum) bool {
+	for _, datum := range datumList {
+		if datum.GetKey() == nil {
+			return false
+		}
+	}
+	return true
+}
+
 func (n *Node) SearchStream(searchRequest *pb.SearchRequest, stream pb.VeriService_SearchStreamServer) error {
 	config := searchRequest.GetConfig()
+	if config == nil {
+		return errors.New("Search request has no config")
+	}
+	if !haveKeys(searchRequest.GetDatum()) || !haveKeys(searchRequest.GetContext().GetDatum()) {
+		return errors.New("Search request has a datum without key")
+	}
 	uid := config.GetUuid()
 	if uid == "" {
 		uid, err := uuid.NewRandom()
-- 
2.43.0


From a63995affbd0de2b60f9d2b767db6ebbd8cc0fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:40 +0000
Subject: [PATCH 07/23] fix: a join or add peer request without peer does not
 crash the node

---
 node/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/node.go b/node/node.go
index 95456da..a2ad14e 100644
--- a/node/node.go
+++ b/node/node.go
@@ -110,7 +110,7 @@ func (n *Node) AddPeerElement(peer *pb.Peer) error {
 		idOfPeer := GetIdOfPeer(peer)
 		if oldPeerInterface, ok := n.PeerList.Get(idOfPeer); ok {
 			if oldPeer, ok2 := oldPeerInterface.(*pb.Peer); ok2 {
-				if oldPeer.Timestamp >= peer.Timestamp {
+				if oldPeer.GetTimestamp() >= peer.GetTimestamp() {
 					// New one is older than current peer info
 					return nil
 				}
-- 
2.43.0


From dad1b3813f390bb5f3fa57b541d7750e4f650555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:42 +0000
Subject: [PATCH 08/23] fix: node info skips data sets that expired meanwhile

---
 node/node.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node/node.go b/node/node.go
index a2ad14e..3f08a28 100644
--- a/node/node.go
+++ b/node/node.go
@@ -352,6 +352,7 @@ func (n *Node) Info() string {
 			sb.WriteString(fmt.Sprintf("* Name %v N: %v config %v\n", name, dinfo.N, config))
 		} else {
 			sb.WriteString(fmt.Sprintf("* Name %v Error: %v\n", name, err.Error()))
+			continue
 		}
 		sourceList := dt.Sources.Items()
 		for _, sourceItem := range sourceList {
-- 
2.43.0


From a34a49c77235434386ad510af96d59a15248e194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:45 +0000
Subject: [PATCH 09/23] fix: an unreachable source does not crash the activity
 check

---
 data/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index be2b8b9..719e844 100644
--- a/data/data.go
+++ b/data/data.go
@@ -133,7 +133,7 @@ func (dt *Data) CheckIfActive() bool {
 		sourceList := dt.Sources.Items()
 		for _, sourceItem := range sourceList { // Assumption is that random map runs are random enough
 			source := sourceItem.Object.(DataSource)
-			if source.GetDataInfo().N > 0 {
+			if source.GetDataInfo().GetN() > 0 {
 				return true
 			}
 		}
-- 
2.43.0


From 7472d18f11083d83c3b842cf68f83a0a349061c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:48 +0000
Subject: [PATCH 10/23] fix: a data set with entries not counted yet is active

---
 data/data.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index 719e844..760b25f 100644
--- a/data/data.go
+++ b/data/data.go
@@ -126,7 +126,7 @@ func (dt *Data) DeletePath() error {
 
 // Check if dataset is active
 func (dt *Data) CheckIfActive() bool {
-	if dt.N > 0 {
+	if dt.N > 0 || dt.hasEntries() {
 		return true
 	}
 	if dt.Sources != nil && len(dt.Sources.Items()) > 0 {
@@ -141,6 +141,16 @@ func (dt *Data) CheckIfActive() bool {
 	return false
 }
 
+// hasEntries checks the store itself since N is only updated periodically
+func (dt *Data) hasEntries() bool {
+	found := false
+	dt.DBMap.Range(func(key, value interface{}) bool {
+		found = true
+		return false
+	})
+	return found
+}
+
 // Run runs statistical calculation regularly
 func (dt *Data) Run() error {
 	if atomic.LoadInt32(&dt.Runs) >= 1 {
-- 
2.43.0


From 6d929074be06f23268c85d5d2b32961d1cdce4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:51 +0000
Subject: [PATCH 11/23] fix: a data set name can not reach outside of the data
 directory

---
 data/data.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/data/data.go b/data/data.go
index 760b25f..5a947ec 100644
--- a/data/data.go
+++ b/data/data.go
@@ -3,6 +3,7 @@ package data
 import (
 	"errors"
 	"log"
+	"net/url"
 	"os"
 	"path"
 	"strings"
@@ -58,13 +59,19 @@ func (d *Data) GetConfig() *pb.DataConfig {
 	return d.Config
 }
 
+// dataDirectory returns the directory of a data set. Names are given by clients and
+// peers, the escaped name with a prefix is always a single path element.
+func dataDirectory(dataPath, name string) string {
+	return path.Join(dataPath, "data-"+url.PathEscape(name))
+}
+
 // NewData creates a data struct
 func NewData(config *pb.DataConfig, dataPath string) (*Data, error) {
 	dt := &Data{
 		Config: config,
 	}
 	// log.Printf("Create Data\n")
-	dt.DBPath = path.Join(dataPath, config.Name)
+	dt.DBPath = dataDirectory(dataPath, config.Name)
 	dt.InitData()
 	return dt, nil
 }
@@ -76,7 +83,7 @@ func NewPreData(config *pb.DataConfig, dataPath string) *Data {
 	}
 	atomic.StoreUint64(&(dt.RecentInsertCount), 0)
 	// log.Printf("Pre Create Data %v\n", dt.Config)
-	dt.DBPath = path.Join(dataPath, config.Name)
+	dt.DBPath = dataDirectory(dataPath, config.Name)
 	return dt
 }
 
-- 
2.43.0


From 6f6412b13124ffa69521077245a8b250d101d6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:53 +0000
Subject: [PATCH 12/23] fix: entries without expiry are transferred to peers
 too

---
 data/newsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 278883b..598dd7c 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -189,7 +189,7 @@ func (dt *Data) Process(force bool) error {
 			}
 			if !dt.Alive || (insertionCounter < limit && rand.Float64() < fraction) {
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
-				if config.TTL > 10 {
+				if entry.ExprireAt == 0 || config.TTL > 10 {
 					datumStream <- &pb.InsertDatumWithConfig{
 						Datum:  entry.Datum,
 						Config: config,
-- 
2.43.0


From 90f06ec0e6380aa69bed77ffd09e1e35e1f30e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:56 +0000
Subject: [PATCH 13/23] fix: data stream sends every datum before it returns

---
 node/nodeservice.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/node/nodeservice.go b/node/nodeservice.go
index 9f28fb7..5f4a092 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -84,23 +84,18 @@ func (n *Node) DataStream(getDataRequest *pb.GetDataRequest, stream pb.VeriServi
 		return err
 	}
 	datumStreamAll := make(chan *pb.Datum, 100)
+	streamError := make(chan error, 1)
 	go func() {
-		for datum := range datumStreamAll {
-			// log.Printf("Send label: %v\n", string(datum.Value.Label))
-			stream.Send(datum)
-		}
+		defer close(datumStreamAll)
+		streamError <- dt.StreamAll(datumStreamAll)
 	}()
-	err = dt.StreamAll(datumStreamAll)
-	if err != nil {
-		return err
-	}
-	close(datumStreamAll)
+	// Only the handler sends, a stream must not be used concurrently or after returning
 	for datum := range datumStreamAll {
-		// log.Printf("Flush - Send label: %v\n", string(datum.Value.Label))
+		// log.Printf("Send label: %v\n", string(datum.Value.Label))
 		stream.Send(datum)
 	}
 	// log.Printf("DataStream finished\n")
-	return nil
+	return <-streamError
 }
 
 func (n *Node) GetDataInfo(ctx context.Context, getDataRequest *pb.GetDataRequest) (*pb.DataInfo, error) {
-- 
2.43.0


From 83b5ce0fb2eb9bea6e6ce3de526088acc3835395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:59 +0000
Subject: [PATCH 14/23] fix: a node remembers the search ids it creates

---
 node/nodeservice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node/nodeservice.go b/node/nodeservice.go
index 5f4a092..5ecbcfc 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -134,6 +134,7 @@ func (n *Node) SearchStream(searchRequest *pb.SearchRequest, stream pb.VeriServi
 			return err
 		}
 		config.Uuid = uid.String()
+		n.QueryUUIDCache.Set(config.Uuid, true, cache.DefaultExpiration)
 	} else {
 		err := n.QueryUUIDCache.Add(uid, true, cache.DefaultExpiration)
 		if err != nil {
-- 
2.43.0


From 46a9901247f3cf25ee7ef6daa489bab8befa6d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:01 +0000
Subject: [PATCH 15/23] fix: an unhealthy node does not report to be alive

---
 server/httpservice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httpservice.go b/server/httpservice.go
index 3aa7590..aa88457 100644
--- a/server/httpservice.go
+++ b/server/httpservice.go
@@ -34,7 +34,7 @@ func GetHeath(w http.ResponseWriter, r *http.Request) {
 	} else {
 		w.WriteHeader(http.StatusInternalServerError)
 		w.Header().Set("Content-Type", "application/json")
-		io.WriteString(w, `{"alive": true}`)
+		io.WriteString(w, `{"alive": false}`)
 	}
 }
 
-- 
2.43.0


From 0249c8dbb056844df3af4a029dd650a2e348e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:03 +0000
Subject: [PATCH 16/23] fix: insert does not modify the config of the caller

---
 data/insert.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/data/insert.go b/data/insert.go
index 46b8ca2..20b4d67 100644
--- a/data/insert.go
+++ b/data/insert.go
@@ -28,7 +28,10 @@ func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
 	}
 	counter := uint32(1)
 	if dt.Config.EnforceReplicationOnInsert && config.Count == 0 {
-		config.Count++
+		config = &pb.InsertConfig{
+			TTL:   config.TTL,
+			Count: config.Count + 1,
+		}
 		// log.Printf("Sending Insert with config.Count: %v ttl: %v\n", config.Count, config.TTL)
 		dt.RunOnRandomSources(5, func(source DataSource) error {
 			err := source.Insert(datum, config)
-- 
2.43.0


From 783fbad24b42f6768a34bb055619a7952ebd36d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:06 +0000
Subject: [PATCH 17/23] fix: aggregated search does not shorten the timeout of
 the caller

---
 data/search.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/data/search.go b/data/search.go
index d16de85..5af32a4 100644
--- a/data/search.go
+++ b/data/search.go
@@ -163,7 +163,10 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 	duration := time.Duration(config.Timeout) * time.Millisecond
 	timeLimit := time.After(duration)
 	queryKey := GetSearchKey(datum, config)
-	config.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream
+	var downstreamConfig pb.SearchConfig
+	copier.Copy(&downstreamConfig, config)
+	downstreamConfig.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream
+	config = &downstreamConfig
 	if dt.QueryCache == nil {
 		dt.InitData()
 	}
-- 
2.43.0


From ad151809c063c7218f826f6caa59ec3f403e921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:23 +0000
Subject: [PATCH 18/23] fix: vectors shorter than the index dimension are not
 handed to the index

---
 data/data.go    |  1 +
 data/newsync.go | 11 ++++++++---
 data/search.go  |  2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/data/data.go b/data/data.go
index 5a947ec..9c91110 100644
--- a/data/data.go
+++ b/data/data.go
@@ -29,6 +29,7 @@ type Annoyer struct {
 	sync.RWMutex
 	DataIndex     *[]*pb.Datum
 	AnnoyIndex    annoyindex.AnnoyIndexAngular
+	Dimension     int
 	BuildFileName string
 }
 
diff --git a/data/newsync.go b/data/newsync.go
index 598dd7c..7b7d88b 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -154,6 +154,7 @@ func (dt *Data) Process(force bool) error {
 		newDataIndex := make([]*pb.Datum, max(1000, int(dt.N)))
 		var newAnnoyIndex annoyindex.AnnoyIndexAngular
 		var newTempFileName string
+		newDimension := 0
 
 		err := dt.LoopDBMap(func(entry *DBMapEntry) error {
 			n++
@@ -176,7 +177,8 @@ func (dt *Data) Process(force bool) error {
 			if dt.Alive && i < len(newDataIndex) {
 				if newAnnoyIndex == nil {
 					// newAnnoyIndex = annoyindex.NewAnnoyIndexEuclidean(len(datum.Key.Feature))
-					newAnnoyIndex = annoyindex.NewAnnoyIndexAngular(len(entry.Datum.Key.Feature))
+					newDimension = len(entry.Datum.Key.Feature)
+					newAnnoyIndex = annoyindex.NewAnnoyIndexAngular(newDimension)
 					tmpfile, err := ioutil.TempFile("", "annoy")
 					if err == nil {
 						newTempFileName = tmpfile.Name()
@@ -184,8 +186,10 @@ func (dt *Data) Process(force bool) error {
 					}
 
 				}
-				newAnnoyIndex.AddItem(i, entry.Datum.Key.Feature)
-				newDataIndex[i] = entry.Datum
+				if len(entry.Datum.Key.Feature) >= newDimension { // index reads newDimension elements
+					newAnnoyIndex.AddItem(i, entry.Datum.Key.Feature)
+					newDataIndex[i] = entry.Datum
+				}
 			}
 			if !dt.Alive || (insertionCounter < limit && rand.Float64() < fraction) {
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
@@ -221,6 +225,7 @@ func (dt *Data) Process(force bool) error {
 			oldFile := dt.Annoyer.BuildFileName
 			dt.Annoyer.BuildFileName = newTempFileName
 			dt.Annoyer.AnnoyIndex = newAnnoyIndex
+			dt.Annoyer.Dimension = newDimension
 			dt.Annoyer.DataIndex = &newDataIndex
 			dt.Annoyer.Unlock()
 			if len(oldFile) > 0 {
diff --git a/data/search.go b/data/search.go
index 5af32a4..3946380 100644
--- a/data/search.go
+++ b/data/search.go
@@ -314,7 +314,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 	c.N = config.Limit
 	c.Filters = config.Filters
 	c.GroupFilters = config.GroupFilters
-	if dt.Annoyer.AnnoyIndex != nil && dt.Annoyer.DataIndex != nil && len(*(dt.Annoyer.DataIndex)) > 0 {
+	if dt.Annoyer.AnnoyIndex != nil && dt.Annoyer.DataIndex != nil && len(*(dt.Annoyer.DataIndex)) > 0 && len(datum.Key.Feature) >= dt.Annoyer.Dimension {
 		dt.Annoyer.RLock()
 		var result []int
 		var distances []float32
-- 
2.43.0


From 30c897ae7c48179870b4acaa910766075cec101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:55 +0000
Subject: [PATCH 19/23] fix: listing, saving and closing data sets no longer
 recreates one deleted meanwhile

---
 data/dataset.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index 1ec258c..fe254de 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -156,7 +156,10 @@ func (dts *Dataset) DataConfigList() []*pb.DataConfig {
 	sourceList := dts.DataList.Items()
 	configs := make([]*pb.DataConfig, 0, len(sourceList))
 	for k := range sourceList {
-		data, _ := dts.Get(k)
+		data, err := dts.GetNoCreate(k)
+		if err != nil {
+			continue
+		}
 		config := data.GetConfig()
 		configs = append(configs, config)
 	}
@@ -215,7 +218,10 @@ func (dts *Dataset) SaveIndex() error {
 	}
 	datawriter := bufio.NewWriter(file)
 	for k := range sourceList {
-		data, _ := dts.Get(k)
+		data, err := dts.GetNoCreate(k)
+		if err != nil {
+			continue
+		}
 		config := data.GetConfig()
 		jsonData, _ := json.Marshal(config)
 		_, _ = datawriter.WriteString(string(jsonData) + "\n")
@@ -230,7 +236,7 @@ func (dts *Dataset) Close() error {
 	dts.SaveIndex()
 	datalist := dts.DataList.Items()
 	for k := range datalist {
-		data, err := dts.Get(k)
+		data, err := dts.GetNoCreate(k)
 		if err == nil {
 			data.Close()
 		}
-- 
2.43.0


From f09e53685deb9d1a2a2e887d9f303efdf76b6f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:53 +0000
Subject: [PATCH 20/23] fix: inserting an entry again after it expired stores
 it again

An insert with the same value and nearly the same expiry kept the earlier
record even when that one had already expired, so that an accepted insert
with a short time to live stayed invisible.
---
 data/newsync.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 7b7d88b..6975ecc 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -57,7 +57,8 @@ func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
 			if err != nil {
 				return err
 			}
-			if bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) {
+			expired := oldEntry.ExprireAt != 0 && oldEntry.ExprireAt <= time.Now().Unix()
+			if !expired && bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) {
 				isNewEntry = false
 			}
 		}
-- 
2.43.0


From 7c9487f2d368dc3509a25fab4600aec3279d4b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:58 +0000
Subject: [PATCH 21/23] fix: the whole index file is read before a data set of
 it is created

Creating a data set saves the index in the background, which truncates the
file while it is still being read: data sets beyond the first 4096 bytes of
the index were lost on restart.
---
 data/dataset.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index fe254de..2d1a5a0 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -172,6 +172,9 @@ func (dts *Dataset) LoadIndex() error {
 	if err != nil {
 		return err
 	}
+	// The whole index is read before anything is created, because creating
+	// a data set saves the index again.
+	configs := make([]*pb.DataConfig, 0)
 	reader := bufio.NewReader(file)
 	for {
 		line, err := reader.ReadString('\n')
@@ -180,13 +183,16 @@ func (dts *Dataset) LoadIndex() error {
 		}
 		var config pb.DataConfig
 		if err := json.Unmarshal([]byte(line), &config); err == nil {
-			err2 := dts.CreateIfNotExists(&config)
-			if err2 != nil {
-				log.Printf("Err creatding data: %v\n", err2)
-			}
+			configs = append(configs, &config)
 		}
 	}
 	file.Close()
+	for _, config := range configs {
+		err2 := dts.CreateIfNotExists(config)
+		if err2 != nil {
+			log.Printf("Err creatding data: %v\n", err2)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 3b4b4628f7d6ac472bd5c90891ec44900ef9f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:20 +0000
Subject: [PATCH 22/23] fix: the index file is written by one save at a time

Every creation, deletion and listing saves the index in the background.
Saves that overlapped appended to the same truncated file, so data sets were
listed several times, or a stale list replaced a newer one and data sets were
missing after a restart.
---
 data/dataset.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index 2d1a5a0..811becd 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"os"
 	"path"
+	"sync"
 	"time"
 
 	"github.com/bgokden/go-cache"
@@ -16,9 +17,10 @@ import (
 )
 
 type Dataset struct {
-	DataList *cache.Cache
-	Path     string
-	DataPath string
+	DataList   *cache.Cache
+	Path       string
+	DataPath   string
+	indexMutex sync.Mutex // held while the index file is written
 }
 
 func closeData(key string, value interface{}) {
@@ -216,6 +218,8 @@ func (dts *Dataset) ReloadRuns() error {
 }
 
 func (dts *Dataset) SaveIndex() error {
+	dts.indexMutex.Lock()
+	defer dts.indexMutex.Unlock()
 	indexPath := path.Join(dts.Path, "index.save")
 	sourceList := dts.DataList.Items()
 	file, err := os.OpenFile(indexPath, os.O_TRUNC|os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
-- 
2.43.0


From ccb89e99034c0345703b6b257309751a46c148af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:01 +0000
Subject: [PATCH 23/23] fix: a transferred copy of an entry that expired
 meanwhile got a lifetime of 2^64 seconds

---
 data/sync.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/sync.go b/data/sync.go
index 0cf6ba3..d865a93 100644
--- a/data/sync.go
+++ b/data/sync.go
@@ -24,8 +24,8 @@ type InsertStreamCollector struct {
 
 func InsertConfigFromExpireAt(expiresAt uint64) *pb.InsertConfig {
 	var timeLeftInSeconds uint64
-	if expiresAt > 0 {
-		timeLeftInSeconds = expiresAt - uint64(getCurrentTime())
+	if now := getCurrentTime(); expiresAt > now { // expired meanwhile: nothing left
+		timeLeftInSeconds = expiresAt - now
 	} else {
 		timeLeftInSeconds = 0
 	}
-- 
2.43.0

