From 9004977c636b5f954c9c1d16d85ff56a11bf16b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:58 +0000
Subject: [PATCH 01/49] fix: NewDatum stored size1 in the Size2 field

---
 data/datum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/datum.go b/data/datum.go
index 5db0810..fb0aa7c 100644
--- a/data/datum.go
+++ b/data/datum.go
@@ -22,7 +22,7 @@ func NewDatum(feature []float32,
 			Dim1:       dim1,
 			Dim2:       dim2,
 			Size1:      size1,
-			Size2:      size1,
+			Size2:      size2,
 			GroupLabel: groupLabel,
 		},
 		Value: &pb.DatumValue{
-- 
2.43.0


From d560459c051719b4a8d177a3acb465a21ae1f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:46 +0000
Subject: [PATCH 02/49] fix: a search with limit 0 crashed on non-empty data

---
 data/aggregator.go | 2 +-
 data/search.go     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index 5dd9f33..743652c 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -81,7 +81,7 @@ func (a *Aggregator) InsertToList(scoredDatum *pb.ScoredDatum) error {
 	if uint32(len(a.List)) < limit {
 		a.List = append(a.List, scoredDatum)
 		itemAdded = true
-	} else if a.IsNewScoredBetter(a.List[len(a.List)-1].Score, scoredDatum.Score) {
+	} else if limit > 0 && a.IsNewScoredBetter(a.List[len(a.List)-1].Score, scoredDatum.Score) {
 		a.List[len(a.List)-1] = scoredDatum
 		itemAdded = true
 	}
diff --git a/data/search.go b/data/search.go
index 566e714..6b4abe1 100644
--- a/data/search.go
+++ b/data/search.go
@@ -66,6 +66,8 @@ func (c *Collector) Insert(scoredDatum *pb.ScoredDatum) error {
 	if uint32(len(c.List)) < c.N {
 		c.List = append(c.List, scoredDatum)
 		itemAdded = true
+	} else if len(c.List) == 0 { // limit is zero
+		return nil
 	} else if (c.HigherIsBetter && scoredDatum.Score > c.List[len(c.List)-1].Score) ||
 		(!c.HigherIsBetter && scoredDatum.Score < c.List[len(c.List)-1].Score) {
 		c.List[len(c.List)-1] = scoredDatum
-- 
2.43.0


From 27c51afea95b3387d9f095f161c29859c108e804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:46 +0000
Subject: [PATCH 03/49] fix: very large TTLs overflowed and made the datum
 expire at once

---
 data/newsync.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 2040b5c..24b95d4 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"io/ioutil"
 	"log"
+	"math"
 	"math/rand"
 	"os"
 	"sync/atomic"
@@ -24,10 +25,19 @@ func CloseEnough(a, b int64) bool {
 	return c < 10 && c > -10
 }
 
+// expireAtFromTTL saturates instead of overflowing for very large TTLs
+func expireAtFromTTL(ttl uint64) int64 {
+	now := time.Now().Unix()
+	if ttl > uint64(math.MaxInt64-now) {
+		return math.MaxInt64
+	}
+	return now + int64(ttl)
+}
+
 func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
 	exprireAt := int64(0)
 	if config != nil && config.TTL != 0 {
-		exprireAt = time.Now().Unix() + int64(config.TTL)
+		exprireAt = expireAtFromTTL(config.TTL)
 	}
 	datum.Clean()
 	entry := &DBMapEntry{
-- 
2.43.0


From cc8ff346d9b2f47565d7a81be60d2ae0af50c86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:46 +0000
Subject: [PATCH 04/49] fix: re-inserting an unchanged datum did not renew its
 lifetime

---
 data/newsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 24b95d4..2c8fcb0 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -65,8 +65,8 @@ func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
 			}
 		}
 	}
+	dt.DBMap.Store(mapKey, entry) // always store, otherwise the lifetime of the datum is not renewed
 	if isNewEntry {
-		dt.DBMap.Store(mapKey, entry)
 		atomic.AddUint64(&(dt.RecentInsertCount), 1)
 	}
 	return nil
-- 
2.43.0


From 29568528a872a16a19366d66e69ed8b7f4069080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:16 +0000
Subject: [PATCH 05/49] fix: merging preferred worse scores when lower is
 better

---
 data/aggregator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index 743652c..0c1e458 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -46,7 +46,7 @@ func (a *Aggregator) IsNewScoredBetter(old, new float64) bool {
 			return true
 		}
 	} else {
-		if old < new {
+		if new < old {
 			return true
 		}
 	}
-- 
2.43.0


From ab7add7b76aee772817cf725ae4c81de43758f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:16 +0000
Subject: [PATCH 06/49] fix: a datum found with improving scores was listed
 several times in merged results

---
 data/aggregator.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/data/aggregator.go b/data/aggregator.go
index 0c1e458..de7c530 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -100,6 +100,16 @@ func (a *Aggregator) InsertToList(scoredDatum *pb.ScoredDatum) error {
 	return nil
 }
 
+// removeFromList drops the previous occurrence of a datum that gets a better score
+func (a *Aggregator) removeFromList(keyString string) {
+	for i, scored := range a.List {
+		if keyByte, err := GetKeyAsBytes(scored.GetDatum()); err == nil && util.EncodeToString(keyByte) == keyString {
+			a.List = append(a.List[:i], a.List[i+1:]...)
+			return
+		}
+	}
+}
+
 func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 	scoredDatum.Score = a.BestScore(scoredDatum)
 	if a.Grouped {
@@ -124,6 +134,7 @@ func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 		if previousScore, ok := a.DeDuplicationMap.Get(keyString); ok {
 			if a.IsNewScoredBetter(previousScore.(float64), scoredDatum.GetScore()) {
 				a.DeDuplicationMap.Set(keyString, scoredDatum.GetScore(), cache.NoExpiration)
+				a.removeFromList(keyString)
 				return a.InsertToList(scoredDatum)
 			}
 		} else {
-- 
2.43.0


From dff05a5ac51606912ffc0dda49ff7d756862faaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:01 +0000
Subject: [PATCH 07/49] fix: the queries of one search shared a config, so
 timeouts decayed and peers answered only one of them

---
 data/search.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/data/search.go b/data/search.go
index 6b4abe1..ddb3c87 100644
--- a/data/search.go
+++ b/data/search.go
@@ -2,6 +2,7 @@ package data
 
 import (
 	"encoding/json"
+	"fmt"
 	"log"
 	"sort"
 	"strings"
@@ -13,6 +14,7 @@ import (
 	"github.com/bgokden/veri/util"
 	pb "github.com/bgokden/veri/veriservice"
 	"github.com/tidwall/gjson"
+	"google.golang.org/protobuf/proto"
 )
 
 // type SearchConfig struct {
@@ -252,6 +254,16 @@ func CloneResult(result []*pb.ScoredDatum) []*pb.ScoredDatum {
 	return resultCopy
 }
 
+// configForQuery returns the config of one of count queries. Each query has its own copy since
+// AggregatedSearch changes it, and its own Uuid since a peer answers a Uuid only once.
+func configForQuery(config *pb.SearchConfig, index int, count int) *pb.SearchConfig {
+	queryConfig := proto.Clone(config).(*pb.SearchConfig)
+	if count > 1 && queryConfig.Uuid != "" {
+		queryConfig.Uuid = fmt.Sprintf("%s-%d", queryConfig.Uuid, index)
+	}
+	return queryConfig
+}
+
 // MultiAggregatedSearch searches and merges other resources
 func (dt *Data) MultiAggregatedSearch(datumList []*pb.Datum, config *pb.SearchConfig, context *pb.SearchContext) ([]*pb.ScoredDatum, error) {
 	duration := time.Duration(config.Timeout) * time.Millisecond
@@ -261,9 +273,9 @@ func (dt *Data) MultiAggregatedSearch(datumList []*pb.Datum, config *pb.SearchCo
 	var queryWaitGroup sync.WaitGroup
 	waitChannel := make(chan struct{})
 	// loop datumList
-	for _, datum := range datumList {
+	for i, datum := range datumList {
 		queryWaitGroup.Add(1)
-		go dt.AggregatedSearch(datum, scoredDatumStream, &queryWaitGroup, config)
+		go dt.AggregatedSearch(datum, scoredDatumStream, &queryWaitGroup, configForQuery(config, i, len(datumList)))
 	}
 	go func() {
 		defer close(waitChannel)
-- 
2.43.0


From 149b59d3c34f424c9dc877e3f4fe7728879f2d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:01 +0000
Subject: [PATCH 08/49] fix: one source not answering in time made the whole
 search answer with nothing

---
 data/search.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data/search.go b/data/search.go
index ddb3c87..fd47a41 100644
--- a/data/search.go
+++ b/data/search.go
@@ -261,6 +261,8 @@ func configForQuery(config *pb.SearchConfig, index int, count int) *pb.SearchCon
 	if count > 1 && queryConfig.Uuid != "" {
 		queryConfig.Uuid = fmt.Sprintf("%s-%d", queryConfig.Uuid, index)
 	}
+	// A query has to be cut short before the whole search is, otherwise what it collected is lost
+	queryConfig.Timeout = uint64(float64(queryConfig.Timeout) * 0.9)
 	return queryConfig
 }
 
-- 
2.43.0


From c7df27757e70567cfc4447bd79194e879bc3b51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:42 +0000
Subject: [PATCH 09/49] fix: sources that answered after the timeout left
 blocked goroutines behind

---
 data/search.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/data/search.go b/data/search.go
index fd47a41..a5e5fa4 100644
--- a/data/search.go
+++ b/data/search.go
@@ -222,6 +222,7 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 			break
 		case <-timeLimit:
 			log.Printf("timeout")
+			go discardUntil(waitChannel, scoredDatumStream)
 			dataAvailable = false
 			break
 		}
@@ -244,6 +245,17 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 	return nil
 }
 
+// discardUntil lets late senders finish after a timeout
+func discardUntil(waitChannel <-chan struct{}, scoredDatumStream <-chan *pb.ScoredDatum) {
+	for {
+		select {
+		case <-scoredDatumStream:
+		case <-waitChannel:
+			return
+		}
+	}
+}
+
 func CloneResult(result []*pb.ScoredDatum) []*pb.ScoredDatum {
 	resultCopy := make([]*pb.ScoredDatum, len(result))
 	for i, sd := range result {
@@ -304,6 +316,7 @@ func (dt *Data) MultiAggregatedSearch(datumList []*pb.Datum, config *pb.SearchCo
 			break
 		case <-timeLimit:
 			// log.Printf("timeout")
+			go discardUntil(waitChannel, scoredDatumStream)
 			dataAvailable = false
 			break
 		}
-- 
2.43.0


From 7ea7f00bf4796ea2049d3d3b845669395c831fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:34 +0000
Subject: [PATCH 10/49] fix: sources applied group and result limits to partial
 results, giving wrong groups and group scores

---
 data/search.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/search.go b/data/search.go
index a5e5fa4..b5cdb38 100644
--- a/data/search.go
+++ b/data/search.go
@@ -167,6 +167,7 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 	timeLimit := time.After(duration)
 	queryKey := GetSearchKey(datum, config)
 	config.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream
+	config.GroupLimit = 0                                  // Grouping is done on merged results, not downstream
 	if dt.QueryCache == nil {
 		dt.InitData()
 	}
@@ -273,6 +274,8 @@ func configForQuery(config *pb.SearchConfig, index int, count int) *pb.SearchCon
 	if count > 1 && queryConfig.Uuid != "" {
 		queryConfig.Uuid = fmt.Sprintf("%s-%d", queryConfig.Uuid, index)
 	}
+	// The result limit is for the merged results, it should not cut the partial ones
+	queryConfig.ResultLimit = 0
 	// A query has to be cut short before the whole search is, otherwise what it collected is lost
 	queryConfig.Timeout = uint64(float64(queryConfig.Timeout) * 0.9)
 	return queryConfig
-- 
2.43.0


From 5401847e2c2fad5368d30f9b3a15eef4bc2fc3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:03 +0000
Subject: [PATCH 11/49] fix: an insert changed the caller's config, so a later
 insert with it was not replicated

---
 data/insert.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data/insert.go b/data/insert.go
index 46b8ca2..b88e3dd 100644
--- a/data/insert.go
+++ b/data/insert.go
@@ -28,7 +28,11 @@ func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
 	}
 	counter := uint32(1)
 	if dt.Config.EnforceReplicationOnInsert && config.Count == 0 {
-		config.Count++
+		// The config belongs to the caller, who may use it again
+		config = &pb.InsertConfig{
+			TTL:   config.TTL,
+			Count: config.Count + 1,
+		}
 		// log.Printf("Sending Insert with config.Count: %v ttl: %v\n", config.Count, config.TTL)
 		dt.RunOnRandomSources(5, func(source DataSource) error {
 			err := source.Insert(datum, config)
-- 
2.43.0


From 58b92aed22b3cd66a67d78494cec7d414d4b58fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:47 +0000
Subject: [PATCH 12/49] fix: datums without TTL were never passed on to peers

---
 data/newsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 2c8fcb0..28f80d6 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -192,7 +192,7 @@ func (dt *Data) Process(force bool) error {
 			}
 			if !dt.Alive || (insertionCounter < limit && rand.Float64() < fraction) {
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
-				if config.TTL > 10 {
+				if config.TTL == 0 || config.TTL > 10 { // TTL 0 means it does not expire
 					datumStream <- &pb.InsertDatumWithConfig{
 						Datum:  entry.Datum,
 						Config: config,
-- 
2.43.0


From 1c927343320a456468d2ff08c3619ace25971ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:50 +0000
Subject: [PATCH 13/49] fix: rebalancing deleted a newer version inserted while
 the old one was sent

---
 data/newsync.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/data/newsync.go b/data/newsync.go
index 28f80d6..137325a 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -81,6 +81,22 @@ func (dt *Data) DeleteBDMap(datum *pb.Datum) error {
 	return nil
 }
 
+// transferEntry is an entry on its way to the peers
+type transferEntry struct {
+	Entry  *DBMapEntry
+	Config *pb.InsertConfig
+}
+
+// deleteEntry deletes an entry unless it is replaced by a newer one
+func (dt *Data) deleteEntry(entry *DBMapEntry) error {
+	keyByte, err := GetKeyAsBytes(entry.Datum)
+	if err != nil {
+		return err
+	}
+	dt.DBMap.CompareAndDelete(string(keyByte), entry)
+	return nil
+}
+
 func (dt *Data) LoopDBMap(entryFunction func(entry *DBMapEntry) error) error {
 	var lastError error
 	dt.DBMap.Range(func(key, value interface{}) bool {
@@ -110,7 +126,7 @@ func (dt *Data) Process(force bool) error {
 	if (timeDiff >= 60 && (recentInsertCount > 0 || limit > transferLimit || timeDiff >= 600)) || force {
 		atomic.StoreUint64(&(dt.RecentInsertCount), 0)
 		config := dt.GetConfig()
-		datumStream := make(chan *pb.InsertDatumWithConfig, limit)
+		datumStream := make(chan *transferEntry, limit)
 		defer close(datumStream)
 		insertionCounter := uint64(0)
 		fraction := float64(0)
@@ -120,12 +136,12 @@ func (dt *Data) Process(force bool) error {
 			go func() {
 				deleted := uint64(0)
 				counter := 0
-				for datum := range datumStream {
+				for item := range datumStream {
 					for id, count := range diffMap {
 						if countMap[id] < count {
 							if sourceItem, ok := dt.Sources.Get(id); ok {
 								if source, ok2 := sourceItem.(DataSource); ok2 {
-									err := source.Insert(datum.Datum, datum.Config)
+									err := source.Insert(item.Entry.Datum, item.Config)
 									if err != nil && CheckIfUnkownError(err) {
 										log.Printf("Sending Insert error %v\n", err.Error())
 									}
@@ -134,7 +150,7 @@ func (dt *Data) Process(force bool) error {
 									}
 									if err == nil && (!dt.Alive || isEvictionOn(localInfo, config, deleted)) {
 										countMap[id]++
-										dt.DeleteBDMap(datum.Datum)
+										dt.deleteEntry(item.Entry)
 										deleted++
 									}
 								}
@@ -193,8 +209,8 @@ func (dt *Data) Process(force bool) error {
 			if !dt.Alive || (insertionCounter < limit && rand.Float64() < fraction) {
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
 				if config.TTL == 0 || config.TTL > 10 { // TTL 0 means it does not expire
-					datumStream <- &pb.InsertDatumWithConfig{
-						Datum:  entry.Datum,
+					datumStream <- &transferEntry{
+						Entry:  entry,
 						Config: config,
 					}
 					insertionCounter++
-- 
2.43.0


From 101667d140a52f2fcec8d100b87eeab306852e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:53 +0000
Subject: [PATCH 14/49] fix: removing an expired entry could remove a
 concurrent renewal of it

---
 data/newsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 137325a..e1faf98 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -102,7 +102,7 @@ func (dt *Data) LoopDBMap(entryFunction func(entry *DBMapEntry) error) error {
 	dt.DBMap.Range(func(key, value interface{}) bool {
 		if mapEntry, ok := value.(*DBMapEntry); ok {
 			if mapEntry.ExprireAt != 0 && mapEntry.ExprireAt <= time.Now().Unix() {
-				dt.DBMap.Delete(key)
+				dt.DBMap.CompareAndDelete(key, value) // it may have been renewed meanwhile
 				return true
 			}
 			err := entryFunction(mapEntry)
-- 
2.43.0


From bf5fe488d98525c80fd7e84031b6ae6ceb5a5f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:04 +0000
Subject: [PATCH 15/49] fix: closing could drop data inserted since the last
 run and never finish with peers having similar data

---
 data/data.go    | 4 ++++
 data/newsync.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index be2b8b9..4c7380a 100644
--- a/data/data.go
+++ b/data/data.go
@@ -108,6 +108,7 @@ func NewTempData() (*Data, error) {
 func (dt *Data) Close() error {
 	dt.Alive = false
 	if dt.Sources != nil && len(dt.Sources.Items()) > 0 {
+		dt.Process(true) // N may not include the latest insertions
 		for dt.N > 0 {
 			dt.Process(true)
 		}
@@ -186,6 +187,9 @@ func (dt *Data) DataSourceDiffMap() (map[string]uint64, uint64) {
 					diff = 0
 				}
 			}
+			if !dt.Alive { // closing, everything should go
+				diff = localN
+			}
 			diffMap[source.GetID()] = diff
 			sum += diff
 		}
diff --git a/data/newsync.go b/data/newsync.go
index e1faf98..1487686 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -206,7 +206,7 @@ func (dt *Data) Process(force bool) error {
 				newAnnoyIndex.AddItem(i, entry.Datum.Key.Feature)
 				newDataIndex[i] = entry.Datum
 			}
-			if !dt.Alive || (insertionCounter < limit && rand.Float64() < fraction) {
+			if localN > 0 && (!dt.Alive || (insertionCounter < limit && rand.Float64() < fraction)) {
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
 				if config.TTL == 0 || config.TTL > 10 { // TTL 0 means it does not expire
 					datumStream <- &transferEntry{
-- 
2.43.0


From 03eb3ddef5da1eae31efd9d3aa4b03ce220b8ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:37 +0000
Subject: [PATCH 16/49] fix: more than 1000 new datums were not all indexed by
 the next run

---
 data/newsync.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/data/newsync.go b/data/newsync.go
index 1487686..9ca2b15 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -170,7 +170,7 @@ func (dt *Data) Process(force bool) error {
 			nFloat = 1
 		}
 		histUnit := 1 / nFloat
-		newDataIndex := make([]*pb.Datum, max(1000, int(dt.N)))
+		newDataIndex := make([]*pb.Datum, 0, max(1000, int(dt.N)))
 		var newAnnoyIndex annoyindex.AnnoyIndexAngular
 		var newTempFileName string
 
@@ -191,8 +191,7 @@ func (dt *Data) Process(force bool) error {
 				}
 				hist[index] += histUnit
 			}
-			i := int(n - 1)
-			if dt.Alive && i < len(newDataIndex) {
+			if dt.Alive {
 				if newAnnoyIndex == nil {
 					// newAnnoyIndex = annoyindex.NewAnnoyIndexEuclidean(len(datum.Key.Feature))
 					newAnnoyIndex = annoyindex.NewAnnoyIndexAngular(len(entry.Datum.Key.Feature))
@@ -203,8 +202,8 @@ func (dt *Data) Process(force bool) error {
 					}
 
 				}
-				newAnnoyIndex.AddItem(i, entry.Datum.Key.Feature)
-				newDataIndex[i] = entry.Datum
+				newAnnoyIndex.AddItem(len(newDataIndex), entry.Datum.Key.Feature)
+				newDataIndex = append(newDataIndex, entry.Datum)
 			}
 			if localN > 0 && (!dt.Alive || (insertionCounter < limit && rand.Float64() < fraction)) {
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
-- 
2.43.0


From 7d78105ee44d80a7a6b0f59773d7811155ce3544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:40 +0000
Subject: [PATCH 17/49] fix: vectors of another dimension or without elements
 crashed approximate search

---
 data/data.go    | 1 +
 data/newsync.go | 7 ++++++-
 data/search.go  | 3 ++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/data/data.go b/data/data.go
index 4c7380a..0865396 100644
--- a/data/data.go
+++ b/data/data.go
@@ -29,6 +29,7 @@ type Annoyer struct {
 	DataIndex     *[]*pb.Datum
 	AnnoyIndex    annoyindex.AnnoyIndexAngular
 	BuildFileName string
+	Dimension     int
 }
 
 // Data represents a dataset with similar struture
diff --git a/data/newsync.go b/data/newsync.go
index 9ca2b15..b20b894 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -173,6 +173,7 @@ func (dt *Data) Process(force bool) error {
 		newDataIndex := make([]*pb.Datum, 0, max(1000, int(dt.N)))
 		var newAnnoyIndex annoyindex.AnnoyIndexAngular
 		var newTempFileName string
+		var newDimension int
 
 		err := dt.LoopDBMap(func(entry *DBMapEntry) error {
 			n++
@@ -191,8 +192,11 @@ func (dt *Data) Process(force bool) error {
 				}
 				hist[index] += histUnit
 			}
-			if dt.Alive {
+			featureLen := len(entry.Datum.Key.Feature)
+			// all vectors of an index have the same, non zero dimension
+			if dt.Alive && featureLen > 0 && (newAnnoyIndex == nil || featureLen == newDimension) {
 				if newAnnoyIndex == nil {
+					newDimension = featureLen
 					// newAnnoyIndex = annoyindex.NewAnnoyIndexEuclidean(len(datum.Key.Feature))
 					newAnnoyIndex = annoyindex.NewAnnoyIndexAngular(len(entry.Datum.Key.Feature))
 					tmpfile, err := ioutil.TempFile("", "annoy")
@@ -239,6 +243,7 @@ func (dt *Data) Process(force bool) error {
 			oldFile := dt.Annoyer.BuildFileName
 			dt.Annoyer.BuildFileName = newTempFileName
 			dt.Annoyer.AnnoyIndex = newAnnoyIndex
+			dt.Annoyer.Dimension = newDimension
 			dt.Annoyer.DataIndex = &newDataIndex
 			dt.Annoyer.Unlock()
 			if len(oldFile) > 0 {
diff --git a/data/search.go b/data/search.go
index b5cdb38..4fa7e9d 100644
--- a/data/search.go
+++ b/data/search.go
@@ -342,7 +342,8 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 	c.N = config.Limit
 	c.Filters = config.Filters
 	c.GroupFilters = config.GroupFilters
-	if dt.Annoyer.AnnoyIndex != nil && dt.Annoyer.DataIndex != nil && len(*(dt.Annoyer.DataIndex)) > 0 {
+	if dt.Annoyer.AnnoyIndex != nil && dt.Annoyer.DataIndex != nil && len(*(dt.Annoyer.DataIndex)) > 0 &&
+		len(datum.Key.Feature) == dt.Annoyer.Dimension {
 		dt.Annoyer.RLock()
 		var result []int
 		var distances []float32
-- 
2.43.0


From a0f8051ff2eeda5b3cedff0b4fcca9ebe890f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:04 +0000
Subject: [PATCH 18/49] fix: approximate search kept returning the removed data
 of an emptied dataset

---
 data/newsync.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index b20b894..0d6f7fd 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -234,9 +234,11 @@ func (dt *Data) Process(force bool) error {
 			newAnnoyIndex.Build(-1) // Previosly 10, -1 creates index dynamically
 			elapsed := time.Since(start)
 			log.Printf("Building annoy index took %s", elapsed)
+		}
+		if newAnnoyIndex != nil || dt.Alive { // without data there is no index
 			// log.Printf("Updating index. len: %v\n", len(newDataIndex))
 			dt.Annoyer.Lock()
-			if dt.Annoyer.DataIndex != nil {
+			if dt.Annoyer.AnnoyIndex != nil {
 				dt.Annoyer.AnnoyIndex.Unload() // Not sure if this is needed
 				annoyindex.DeleteAnnoyIndexAngular(dt.Annoyer.AnnoyIndex)
 			}
-- 
2.43.0


From cc9086c2cc1087d0df9aaedf44d82d9bf4dea444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:07 +0000
Subject: [PATCH 19/49] fix: the time left of a just expired entry was
 unlimited

---
 data/sync.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/data/sync.go b/data/sync.go
index 0cf6ba3..59d33a0 100644
--- a/data/sync.go
+++ b/data/sync.go
@@ -25,7 +25,10 @@ type InsertStreamCollector struct {
 func InsertConfigFromExpireAt(expiresAt uint64) *pb.InsertConfig {
 	var timeLeftInSeconds uint64
 	if expiresAt > 0 {
-		timeLeftInSeconds = expiresAt - uint64(getCurrentTime())
+		timeLeftInSeconds = 1 // not less, 0 means that it does not expire
+		if now := getCurrentTime(); expiresAt > now+1 {
+			timeLeftInSeconds = expiresAt - now
+		}
 	} else {
 		timeLeftInSeconds = 0
 	}
-- 
2.43.0


From 6b2824995649329b10a594a2fe1625cbb2c5f1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:38 +0000
Subject: [PATCH 20/49] fix: approximate search crashed when the index was
 replaced while it started

---
 data/search.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/search.go b/data/search.go
index 4fa7e9d..df93616 100644
--- a/data/search.go
+++ b/data/search.go
@@ -342,9 +342,9 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 	c.N = config.Limit
 	c.Filters = config.Filters
 	c.GroupFilters = config.GroupFilters
+	dt.Annoyer.RLock() // the index may be replaced at any time
 	if dt.Annoyer.AnnoyIndex != nil && dt.Annoyer.DataIndex != nil && len(*(dt.Annoyer.DataIndex)) > 0 &&
 		len(datum.Key.Feature) == dt.Annoyer.Dimension {
-		dt.Annoyer.RLock()
 		var result []int
 		var distances []float32
 		index := *(dt.Annoyer.DataIndex)
@@ -369,6 +369,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		}
 		dt.Annoyer.RUnlock()
 	} else {
+		dt.Annoyer.RUnlock()
 		log.Println("Fallback to regular search")
 		// return c // Fallback is emptry list now
 		return dt.Search(datum, config, nil)
-- 
2.43.0


From 1a7fe4b8100f59bd63cec2d75c6185df1a04f8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:18 +0000
Subject: [PATCH 21/49] fix: dataset information left out replication and
 retention settings

---
 data/data.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/data/data.go b/data/data.go
index 0865396..9e7db92 100644
--- a/data/data.go
+++ b/data/data.go
@@ -210,16 +210,19 @@ func CheckIfUnkownError(err error) bool {
 func (dt *Data) GetDataInfo() *pb.DataInfo {
 	// log.Printf("Data: %v\n", dt)
 	return &pb.DataInfo{
-		Avg:               dt.Avg,
-		N:                 dt.N,
-		MaxDistance:       dt.MaxDistance,
-		Hist:              dt.Hist,
-		Timestamp:         dt.Timestamp,
-		Version:           dt.Config.Version,
-		Name:              dt.Config.Name,
-		TargetN:           dt.Config.TargetN,
-		TargetUtilization: dt.Config.TargetUtilization,
-		NoTarget:          dt.Config.NoTarget,
+		Avg:                        dt.Avg,
+		N:                          dt.N,
+		MaxDistance:                dt.MaxDistance,
+		Hist:                       dt.Hist,
+		Timestamp:                  dt.Timestamp,
+		Version:                    dt.Config.Version,
+		Name:                       dt.Config.Name,
+		TargetN:                    dt.Config.TargetN,
+		TargetUtilization:          dt.Config.TargetUtilization,
+		NoTarget:                   dt.Config.NoTarget,
+		ReplicationOnInsert:        dt.Config.ReplicationOnInsert,
+		EnforceReplicationOnInsert: dt.Config.EnforceReplicationOnInsert,
+		Retention:                  dt.Config.Retention,
 	}
 }
 
-- 
2.43.0


From 6531b8a6f2c81678bbcf5e65d7f3bee5f92a407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:18 +0000
Subject: [PATCH 22/49] fix: a concurrent update could replace a newer dataset
 configuration by an older one

---
 data/dataset.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data/dataset.go b/data/dataset.go
index 1ec258c..d04cdf1 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -117,10 +117,12 @@ func (dts *Dataset) CreateIfNotExists(config *pb.DataConfig) error {
 	if err.Error() == fmt.Sprintf("Item %s already exists", config.Name) {
 		data, errGetNoOp := dts.GetNoOp(config.Name)
 		if errGetNoOp == nil {
+			data.Lock() // of concurrent updates the highest version should win
 			if config.Version > data.Config.Version {
 				log.Printf("Update Data %v Config.Version: %v\n", config.Name, config.Version)
 				data.Config = config
 			}
+			data.Unlock()
 		} else {
 			log.Printf("Error errGetNoOp: %v\n", errGetNoOp.Error())
 		}
-- 
2.43.0


From 59526e381e2e883c3cd0ca269d73e6be4c0a5e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:13 +0000
Subject: [PATCH 23/49] fix: the saved index could be torn, lost or incomplete
 when saves overlapped, or after a crash while saving or loading

---
 data/dataset.go | 50 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index d04cdf1..cdfa5c0 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"os"
 	"path"
+	"sync"
 	"time"
 
 	"github.com/bgokden/go-cache"
@@ -17,6 +18,7 @@ import (
 
 type Dataset struct {
 	DataList *cache.Cache
+	saveLock sync.Mutex
 	Path     string
 	DataPath string
 }
@@ -105,13 +107,20 @@ func (dts *Dataset) GetOrCreateIfNotExists(config *pb.DataConfig) (*Data, error)
 }
 
 func (dts *Dataset) CreateIfNotExists(config *pb.DataConfig) error {
+	created, err := dts.createIfNotExists(config)
+	if created {
+		go dts.SaveIndex()
+	}
+	return err
+}
+
+func (dts *Dataset) createIfNotExists(config *pb.DataConfig) (bool, error) {
 	preData := NewPreData(config, dts.DataPath)
 	retention := GetRetention(config.Retention)
 	// log.Printf("Data %v Retention: %v Version: %v\n", config.Name, retention, config.Version)
 	err := dts.DataList.Add(config.Name, preData, retention)
 	if err == nil {
-		go dts.SaveIndex()
-		return preData.InitData()
+		return true, preData.InitData()
 	}
 	// log.Printf("Data %v Error: %v\n", config.Name, err.Error())
 	if err.Error() == fmt.Sprintf("Item %s already exists", config.Name) {
@@ -126,9 +135,9 @@ func (dts *Dataset) CreateIfNotExists(config *pb.DataConfig) error {
 		} else {
 			log.Printf("Error errGetNoOp: %v\n", errGetNoOp.Error())
 		}
-		return nil
+		return false, nil
 	}
-	return err
+	return false, err
 }
 
 func (dts *Dataset) Delete(name string) error {
@@ -179,7 +188,7 @@ func (dts *Dataset) LoadIndex() error {
 		}
 		var config pb.DataConfig
 		if err := json.Unmarshal([]byte(line), &config); err == nil {
-			err2 := dts.CreateIfNotExists(&config)
+			_, err2 := dts.createIfNotExists(&config) // without saving, the index is not loaded completely yet
 			if err2 != nil {
 				log.Printf("Err creatding data: %v\n", err2)
 			}
@@ -208,24 +217,39 @@ func (dts *Dataset) ReloadRuns() error {
 	return nil
 }
 
+// SaveIndex replaces the index at once, so that there is a complete one at any time
 func (dts *Dataset) SaveIndex() error {
+	dts.saveLock.Lock()
+	defer dts.saveLock.Unlock()
 	indexPath := path.Join(dts.Path, "index.save")
+	tempPath := indexPath + ".tmp"
 	sourceList := dts.DataList.Items()
-	file, err := os.OpenFile(indexPath, os.O_TRUNC|os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+	file, err := os.OpenFile(tempPath, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
 	datawriter := bufio.NewWriter(file)
-	for k := range sourceList {
-		data, _ := dts.Get(k)
-		config := data.GetConfig()
-		jsonData, _ := json.Marshal(config)
+	for _, item := range sourceList {
+		data, ok := item.Object.(*Data)
+		if !ok {
+			continue
+		}
+		jsonData, err := json.Marshal(data.GetConfig())
+		if err != nil {
+			log.Printf("Saving error: %v\n", err)
+			continue
+		}
 		_, _ = datawriter.WriteString(string(jsonData) + "\n")
 
 	}
-	datawriter.Flush()
-	file.Close()
-	return nil
+	err = datawriter.Flush() // returns errors of writes, too
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(tempPath, indexPath)
 }
 
 func (dts *Dataset) Close() error {
-- 
2.43.0


From 99b1e27c5105fc78c114e334e0eb2b278b158ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:59 +0000
Subject: [PATCH 24/49] fix: listing or closing datasets re-created ones
 deleted meanwhile

---
 data/dataset.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index cdfa5c0..14c58bb 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -166,10 +166,10 @@ func (dts *Dataset) List() []string {
 func (dts *Dataset) DataConfigList() []*pb.DataConfig {
 	sourceList := dts.DataList.Items()
 	configs := make([]*pb.DataConfig, 0, len(sourceList))
-	for k := range sourceList {
-		data, _ := dts.Get(k)
-		config := data.GetConfig()
-		configs = append(configs, config)
+	for _, item := range sourceList { // getting them by name would create the ones that are deleted meanwhile
+		if data, ok := item.Object.(*Data); ok {
+			configs = append(configs, data.GetConfig())
+		}
 	}
 	return configs
 }
@@ -255,9 +255,8 @@ func (dts *Dataset) SaveIndex() error {
 func (dts *Dataset) Close() error {
 	dts.SaveIndex()
 	datalist := dts.DataList.Items()
-	for k := range datalist {
-		data, err := dts.Get(k)
-		if err == nil {
+	for _, item := range datalist {
+		if data, ok := item.Object.(*Data); ok {
 			data.Close()
 		}
 	}
-- 
2.43.0


From 1fc32380798fd9fa77a965720739a6ca69cde532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:59 +0000
Subject: [PATCH 25/49] fix: deleting a dataset named like a path removed files
 outside of the data folder

---
 data/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/data.go b/data/data.go
index 9e7db92..19075d9 100644
--- a/data/data.go
+++ b/data/data.go
@@ -122,6 +122,9 @@ func (dt *Data) Close() error {
 // Delete currently deletes underlying data folder ignores errors.
 func (dt *Data) DeletePath() error {
 	// dt.DB.Close()
+	if path.Base(dt.DBPath) != dt.Config.Name {
+		return nil // a name like .. or a/b has no folder of its own in the data folder
+	}
 	os.RemoveAll(dt.DBPath)
 	return nil
 }
-- 
2.43.0


From 1fdddb4e61ee7f37bf82db46b2a00845515a765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:18 +0000
Subject: [PATCH 26/49] fix: a source that is not available crashed the node in
 the activity check

---
 data/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index 19075d9..ce56636 100644
--- a/data/data.go
+++ b/data/data.go
@@ -138,7 +138,7 @@ func (dt *Data) CheckIfActive() bool {
 		sourceList := dt.Sources.Items()
 		for _, sourceItem := range sourceList { // Assumption is that random map runs are random enough
 			source := sourceItem.Object.(DataSource)
-			if source.GetDataInfo().N > 0 {
+			if source.GetDataInfo().GetN() > 0 { // info is nil if the source is not available
 				return true
 			}
 		}
-- 
2.43.0


From 242f0e85ee909378a2476b79262ce1daa2683ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:25 +0000
Subject: [PATCH 27/49] fix: datasets with data inserted since the last run
 were dropped as inactive

---
 data/data.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/data/data.go b/data/data.go
index ce56636..a6972dc 100644
--- a/data/data.go
+++ b/data/data.go
@@ -134,6 +134,14 @@ func (dt *Data) CheckIfActive() bool {
 	if dt.N > 0 {
 		return true
 	}
+	active := false
+	dt.LoopDBMap(func(entry *DBMapEntry) error { // N does not include the latest insertions
+		active = true
+		return errors.New("found")
+	})
+	if active {
+		return true
+	}
 	if dt.Sources != nil && len(dt.Sources.Items()) > 0 {
 		sourceList := dt.Sources.Items()
 		for _, sourceItem := range sourceList { // Assumption is that random map runs are random enough
-- 
2.43.0


From 75ad20c5ea081459f24957773799f2397f2903e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:18 +0000
Subject: [PATCH 28/49] fix: an older announcement of a peer could replace a
 newer one arriving at the same time

---
 node/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/node.go b/node/node.go
index 95456da..3ee2f48 100644
--- a/node/node.go
+++ b/node/node.go
@@ -6,6 +6,7 @@ import (
 	"runtime"
 	"sort"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/bgokden/go-cache"
@@ -45,6 +46,7 @@ type Node struct {
 	Dataset         *data.Dataset
 	ServiceList     *cache.Cache
 	PeerList        *cache.Cache
+	peerLock        sync.Mutex
 	PeriodicTicker  *time.Ticker
 	PeriodicDone    chan bool
 	QueryUUIDCache  *cache.Cache
@@ -108,6 +110,8 @@ func (n *Node) CheckPeer(peer *pb.Peer) bool {
 func (n *Node) AddPeerElement(peer *pb.Peer) error {
 	if !n.isPeerSimilarToNode(peer) {
 		idOfPeer := GetIdOfPeer(peer)
+		n.peerLock.Lock() // announcements arrive concurrently
+		defer n.peerLock.Unlock()
 		if oldPeerInterface, ok := n.PeerList.Get(idOfPeer); ok {
 			if oldPeer, ok2 := oldPeerInterface.(*pb.Peer); ok2 {
 				if oldPeer.Timestamp >= peer.Timestamp {
-- 
2.43.0


From 65fab60ffcfce295a56114d10dd458a0529d2304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:41 +0000
Subject: [PATCH 29/49] fix: inserting a datum without key or value crashed the
 node

---
 data/insert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/insert.go b/data/insert.go
index b88e3dd..495f975 100644
--- a/data/insert.go
+++ b/data/insert.go
@@ -9,6 +9,9 @@ import (
 
 // Insert inserts data to internal kv store
 func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
+	if datum.GetKey() == nil || datum.GetValue() == nil {
+		return errors.New("Datum should have a key and a value")
+	}
 	if dt.Config != nil && !dt.Config.NoTarget && dt.N >= dt.Config.TargetN {
 		return errors.New("Number of elements is over the target")
 	}
-- 
2.43.0


From 1f57b48020713cdb5cebe06a49692cb1eae0fe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:52 +0000
Subject: [PATCH 30/49] fix: a search without config, or with datums without
 keys, crashed the node

---
 node/nodeservice.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/node/nodeservice.go b/node/nodeservice.go
index 753ab84..dab9850 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -117,6 +117,14 @@ func (n *Node) GetDataInfo(ctx context.Context, getDataRequest *pb.GetDataReques
 
 func (n *Node) SearchStream(searchRequest *pb.SearchRequest, stream pb.VeriService_SearchStreamServer) error {
 	config := searchRequest.GetConfig()
+	if config == nil {
+		return errors.New("Search config is missing")
+	}
+	for _, datum := range append(append([]*pb.Datum{}, searchRequest.GetDatum()...), searchRequest.GetContext().GetDatum()...) {
+		if datum.GetKey() == nil {
+			return errors.New("Datum should have a key")
+		}
+	}
 	uid := config.GetUuid()
 	if uid == "" {
 		uid, err := uuid.NewRandom()
-- 
2.43.0


From 4278b7c46fba952734f24484d8a905a133c076c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:02 +0000
Subject: [PATCH 31/49] fix: very large result limits crashed the node

---
 data/aggregator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index de7c530..2daa4c4 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -156,7 +156,7 @@ func (a *Aggregator) Result() []*pb.ScoredDatum {
 		}
 		return agg.Result()
 	} else {
-		if a.Config.ResultLimit > 0 && len(a.List) > int(a.Config.ResultLimit) {
+		if a.Config.ResultLimit > 0 && uint64(len(a.List)) > a.Config.ResultLimit {
 			return a.List[:a.Config.ResultLimit]
 		}
 		return a.List
-- 
2.43.0


From f458c7e98df01c82d8dec89823c5bb10ede388f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:32 +0000
Subject: [PATCH 32/49] fix: announcements without a peer crashed the node

---
 node/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/node.go b/node/node.go
index 3ee2f48..ad9ba45 100644
--- a/node/node.go
+++ b/node/node.go
@@ -1,6 +1,7 @@
 package node
 
 import (
+	"errors"
 	"fmt"
 	"log"
 	"runtime"
@@ -108,6 +109,9 @@ func (n *Node) CheckPeer(peer *pb.Peer) bool {
 }
 
 func (n *Node) AddPeerElement(peer *pb.Peer) error {
+	if peer == nil {
+		return errors.New("Peer is missing")
+	}
 	if !n.isPeerSimilarToNode(peer) {
 		idOfPeer := GetIdOfPeer(peer)
 		n.peerLock.Lock() // announcements arrive concurrently
-- 
2.43.0


From 2614441dc57fc9fc0cddf4ce7a0b8f34ff5c472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:32 +0000
Subject: [PATCH 33/49] fix: a search with a very large limit used up all the
 memory

---
 data/search.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/search.go b/data/search.go
index df93616..0d3c417 100644
--- a/data/search.go
+++ b/data/search.go
@@ -335,7 +335,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		config = DefaultSearchConfig()
 	}
 	c := &Collector{}
-	c.List = make([]*pb.ScoredDatum, 0, config.Limit)
+	c.List = make([]*pb.ScoredDatum, 0, min(int(config.Limit), 1000)) // the limit may be much more than there is
 	c.DatumKey = datum.Key
 	c.ScoreFunc = GetVectorComparisonFunction(config.ScoreFuncName)
 	c.HigherIsBetter = config.HigherIsBetter
@@ -385,7 +385,7 @@ func (dt *Data) Search(datum *pb.Datum, config *pb.SearchConfig, c *Collector) *
 			config = DefaultSearchConfig()
 		}
 		c = &Collector{}
-		c.List = make([]*pb.ScoredDatum, 0, config.Limit)
+		c.List = make([]*pb.ScoredDatum, 0, min(int(config.Limit), 1000)) // the limit may be much more than there is
 		c.DatumKey = datum.Key
 		c.ScoreFunc = GetVectorComparisonFunction(config.ScoreFuncName)
 		c.HigherIsBetter = config.HigherIsBetter
-- 
2.43.0


From 0460df370c01e4fc8c2c9c4f06e7e5784aa9450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:59 +0000
Subject: [PATCH 34/49] fix: printing the node information crashed when a
 dataset was removed or created meanwhile

---
 node/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/node.go b/node/node.go
index ad9ba45..dfa521d 100644
--- a/node/node.go
+++ b/node/node.go
@@ -360,6 +360,10 @@ func (n *Node) Info() string {
 			sb.WriteString(fmt.Sprintf("* Name %v N: %v config %v\n", name, dinfo.N, config))
 		} else {
 			sb.WriteString(fmt.Sprintf("* Name %v Error: %v\n", name, err.Error()))
+			continue
+		}
+		if dt.Sources == nil { // not initialized yet
+			continue
 		}
 		sourceList := dt.Sources.Items()
 		for _, sourceItem := range sourceList {
-- 
2.43.0


From 51c098410bd9365898c1cfbfc54f62b220b8b0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:26 +0000
Subject: [PATCH 35/49] fix: a data stream sent from two goroutines at once and
 returned before everything was sent

---
 node/nodeservice.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/node/nodeservice.go b/node/nodeservice.go
index dab9850..81a3380 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -84,20 +84,25 @@ func (n *Node) DataStream(getDataRequest *pb.GetDataRequest, stream pb.VeriServi
 		return err
 	}
 	datumStreamAll := make(chan *pb.Datum, 100)
-	go func() {
+	sendResult := make(chan error, 1)
+	go func() { // only this goroutine sends on the stream
+		var sendErr error
 		for datum := range datumStreamAll {
 			// log.Printf("Send label: %v\n", string(datum.Value.Label))
-			stream.Send(datum)
+			if sendErr == nil {
+				sendErr = stream.Send(datum)
+			}
 		}
+		sendResult <- sendErr
 	}()
 	err = dt.StreamAll(datumStreamAll)
+	close(datumStreamAll)
+	sendErr := <-sendResult // everything should be sent before the call returns
 	if err != nil {
 		return err
 	}
-	close(datumStreamAll)
-	for datum := range datumStreamAll {
-		// log.Printf("Flush - Send label: %v\n", string(datum.Value.Label))
-		stream.Send(datum)
+	if sendErr != nil {
+		return sendErr
 	}
 	// log.Printf("DataStream finished\n")
 	return nil
-- 
2.43.0


From b4d28f902f8b48511f08961e1ef5e7784c722498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:54 +0000
Subject: [PATCH 36/49] fix: a draining node became ready again after
 synchronising with peers

---
 server/httpservice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httpservice.go b/server/httpservice.go
index 3aa7590..b2e5a54 100644
--- a/server/httpservice.go
+++ b/server/httpservice.go
@@ -15,7 +15,7 @@ import (
 // var Ready = false
 
 func GetReady(w http.ResponseWriter, r *http.Request) {
-	if state.Ready {
+	if state.Ready && !state.Drain { // a sync may end after draining started
 		w.WriteHeader(http.StatusOK)
 		w.Header().Set("Content-Type", "application/json")
 		io.WriteString(w, `{"alive": true}`)
-- 
2.43.0


From f934cca2166b0920beb26bee96527d2610a01ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:00 +0000
Subject: [PATCH 37/49] fix: reading the statistics of a dataset while a
 processing pass stored new ones could crash the node

---
 data/data.go    | 2 ++
 data/newsync.go | 8 +++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/data/data.go b/data/data.go
index a6972dc..0050093 100644
--- a/data/data.go
+++ b/data/data.go
@@ -220,6 +220,8 @@ func CheckIfUnkownError(err error) bool {
 // GetDataInfo out of data
 func (dt *Data) GetDataInfo() *pb.DataInfo {
 	// log.Printf("Data: %v\n", dt)
+	dt.RLock()
+	defer dt.RUnlock()
 	return &pb.DataInfo{
 		Avg:                        dt.Avg,
 		N:                          dt.N,
diff --git a/data/newsync.go b/data/newsync.go
index 0d6f7fd..40b7980 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -178,12 +178,12 @@ func (dt *Data) Process(force bool) error {
 		err := dt.LoopDBMap(func(entry *DBMapEntry) error {
 			n++
 			avg = CalculateAverage(avg, entry.Datum.Key.Feature, nFloat)
-			distance = VectorDistance(dt.Avg, entry.Datum.Key.Feature)
+			distance = VectorDistance(localInfo.Avg, entry.Datum.Key.Feature)
 			if distance > maxDistance {
 				maxDistance = distance
 			}
-			if dt.MaxDistance != 0 {
-				index := int((distance / dt.MaxDistance) * 64)
+			if localInfo.MaxDistance != 0 {
+				index := int((distance / localInfo.MaxDistance) * 64)
 				if index >= 64 {
 					index = 63
 				}
@@ -224,10 +224,12 @@ func (dt *Data) Process(force bool) error {
 		if err != nil {
 			return err
 		}
+		dt.Lock() // statistics are read at any time
 		dt.Avg = avg
 		dt.Hist = hist
 		dt.MaxDistance = maxDistance
 		dt.N = n
+		dt.Unlock()
 		dt.LastRunTimestamp = getCurrentTime()
 		if newAnnoyIndex != nil {
 			start := time.Now()
-- 
2.43.0


From f446b82f9caad5550e26243607305f1decd43b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:18 +0000
Subject: [PATCH 38/49] fix: a search that failed at a peer was reported as
 success without results

---
 node/datasourceclient.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node/datasourceclient.go b/node/datasourceclient.go
index a3cfc9e..c0f2023 100644
--- a/node/datasourceclient.go
+++ b/node/datasourceclient.go
@@ -3,6 +3,7 @@ package node
 import (
 	"context"
 	"errors"
+	"io"
 	"log"
 	"sync"
 	"time"
@@ -48,14 +49,16 @@ func (dcs *DataSourceClient) StreamSearch(datum *pb.Datum, scoredDatumStream cha
 	}
 	for {
 		protoScoredDatum, err := stream.Recv()
+		if err == io.EOF { // all results are received
+			return nil
+		}
 		if err != nil {
 			// log.Printf("Error: (%v)", err)
-			break
+			return err
 		}
 		// log.Printf("Received From:  %v for Score: %v Label: %v", dcs.Ids, protoScoredDatum.Score, string(protoScoredDatum.GetDatum().GetValue().GetLabel()))
 		scoredDatumStream <- protoScoredDatum
 	}
-	return err
 }
 
 func (dcs *DataSourceClient) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
-- 
2.43.0


From c272abbd78da5ef9de66a866ee75054249be1a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:17 +0000
Subject: [PATCH 39/49] fix: datasets with a very long retention expired at
 once

---
 data/dataset.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data/dataset.go b/data/dataset.go
index 14c58bb..20905d6 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -57,10 +57,16 @@ func GetDefaultConfig(name string) *pb.DataConfig {
 	}
 }
 
+// maxRetention keeps the time of expiry within the range of the clock
+const maxRetention = 100 * 365 * 24 * time.Hour
+
 func GetRetention(retention uint64) time.Duration {
 	if retention == 0 {
 		return time.Duration(14*24) * time.Hour
 	}
+	if retention > uint64(maxRetention/time.Second) {
+		return maxRetention
+	}
 	return time.Duration(retention) * time.Second
 }
 
-- 
2.43.0


From bf729c99cb44dc7d63d5187685027f552d99e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:16 +0000
Subject: [PATCH 40/49] fix: connections were closed while others used them,
 and none was given when the pool held closed ones

---
 util/connpool.go | 66 ++++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/util/connpool.go b/util/connpool.go
index 4d48f1d..ff64eb5 100644
--- a/util/connpool.go
+++ b/util/connpool.go
@@ -3,6 +3,7 @@ package util
 import (
 	"fmt"
 	"log"
+	"math"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -90,6 +91,28 @@ type Connection struct {
 	Counter int64
 }
 
+// closedCounter marks a connection nobody can use anymore
+const closedCounter = math.MinInt64 / 2
+
+// acquire counts a new user, unless the connection is already closed
+func (c *Connection) acquire() bool {
+	if atomic.AddInt64(&c.Counter, 1) > 0 && c.Conn.GetState() != connectivity.Shutdown {
+		return true
+	}
+	atomic.AddInt64(&c.Counter, -1)
+	return false
+}
+
+// closeIfUnused closes the connection unless somebody still uses it
+func (c *Connection) closeIfUnused() {
+	if atomic.CompareAndSwapInt64(&c.Counter, 0, closedCounter) {
+		err := c.Conn.Close()
+		if err != nil {
+			log.Printf("Connection Close Error: %v\n", err.Error())
+		}
+	}
+}
+
 func (c *Connection) Close() {
 	if c.Conn != nil {
 		c.Conn.Close()
@@ -122,7 +145,6 @@ func (cp *ConnectionPool) NewConnection(address string) *Connection {
 func (cp *ConnectionPool) Get() *Connection {
 	c := cp.GetWithRetry(0)
 	if c != nil {
-		atomic.AddInt64(&c.Counter, 1)
 		if atomic.LoadInt64(&c.Counter) <= 20 {
 			cp.Put(c) // if there are less than 20 concurrent users put it back
 		}
@@ -130,28 +152,22 @@ func (cp *ConnectionPool) Get() *Connection {
 	return c
 }
 
+// GetWithRetry returns a connection with its new user already counted
 func (cp *ConnectionPool) GetWithRetry(count int) *Connection {
-	if count > 3 {
-		return nil
-	}
-	connectionInterface := cp.Pool.Get()
-	if connectionInterface == nil {
-		return nil
-	}
-	if conn, ok := connectionInterface.(*Connection); ok {
-		if conn != nil && conn.Conn != nil {
-			if conn.Conn.GetState() != connectivity.Shutdown {
+	for ; count <= 3; count++ {
+		connectionInterface := cp.Pool.Get()
+		if connectionInterface == nil {
+			return nil
+		}
+		if conn, ok := connectionInterface.(*Connection); ok && conn != nil && conn.Conn != nil {
+			if conn.acquire() {
 				return conn
-			} else {
-				err := conn.Conn.Close()
-				if err != nil {
-					log.Printf("Connection Close Error (expected to be already closed): %v\n", err.Error())
-				}
-
 			}
 		}
-		count++
-		return cp.GetWithRetry(count)
+	}
+	// Pool is full of closed connections
+	if conn, ok := cp.Pool.New().(*Connection); ok && conn != nil && conn.acquire() {
+		return conn
 	}
 	return nil
 }
@@ -165,20 +181,14 @@ func (cp *ConnectionPool) PutIfHealthy(conn *Connection) {
 		if conn.Conn.GetState() == connectivity.Ready {
 			cp.Pool.Put(conn)
 		} else {
-			err := conn.Conn.Close()
-			if err != nil {
-				log.Printf("Connection Close Error: %v\n", err.Error())
-			}
+			conn.closeIfUnused()
 		}
 	}
 }
 
 func (cp *ConnectionPool) Close(conn *Connection) {
-	if conn != nil && conn.Conn != nil && atomic.LoadInt64(&conn.Counter) <= 0 {
-		err := conn.Conn.Close()
-		if err != nil {
-			log.Printf("Connection Close Error: %v\n", err.Error())
-		}
+	if conn != nil && conn.Conn != nil {
+		conn.closeIfUnused()
 	}
 }
 
-- 
2.43.0


From 45531b5436527a406ac7764d34451a6c8e9cf4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:25 +0000
Subject: [PATCH 41/49] fix: the data folder given by the user was deleted when
 the server could not listen

---
 server/veriserviceserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/veriserviceserver.go b/server/veriserviceserver.go
index 429ff0d..32a3d9e 100644
--- a/server/veriserviceserver.go
+++ b/server/veriserviceserver.go
@@ -53,9 +53,9 @@ func RunServer(configMap map[string]interface{}) {
 		if err != nil {
 			log.Fatal(err)
 		}
+		defer os.RemoveAll(directory) // only the temporary one, not the data of the user
 	}
 	os.MkdirAll(directory, os.ModePerm)
-	defer os.RemoveAll(directory)
 	broadcast := configMap["broadcast"].(string)
 	broadcastAddresses := make([]string, 0)
 	if len(broadcast) > 0 {
-- 
2.43.0


From 6e3c41bb8832e9f8561a5604f134736bf3443c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:41 +0000
Subject: [PATCH 42/49] fix: labels that are not JSON but contain some matched
 filters

---
 data/search.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data/search.go b/data/search.go
index 0d3c417..513a2f8 100644
--- a/data/search.go
+++ b/data/search.go
@@ -92,6 +92,9 @@ func (c *Collector) Insert(scoredDatum *pb.ScoredDatum) error {
 func (c *Collector) PassesFilters(datum *pb.Datum) bool {
 	if len(c.GroupFilters) > 0 {
 		jsonLabel := string(datum.Key.GroupLabel)
+		if !gjson.Valid(jsonLabel) { // gjson.Get finds values in what only resembles json
+			return false
+		}
 		for _, filter := range c.GroupFilters {
 			value := gjson.Get(jsonLabel, filter)
 			if !value.Exists() {
@@ -102,6 +105,9 @@ func (c *Collector) PassesFilters(datum *pb.Datum) bool {
 
 	if len(c.Filters) > 0 {
 		jsonLabel := string(datum.Value.Label)
+		if !gjson.Valid(jsonLabel) { // gjson.Get finds values in what only resembles json
+			return false
+		}
 		for _, filter := range c.Filters {
 			value := gjson.Get(jsonLabel, filter)
 			if !value.Exists() {
-- 
2.43.0


From b102054309d39c442bf48e8192dd132ae8da57bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:56 +0000
Subject: [PATCH 43/49] fix: very long timeouts and cache durations of searches
 were cut to nothing

---
 data/search.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/data/search.go b/data/search.go
index 513a2f8..fcaae3d 100644
--- a/data/search.go
+++ b/data/search.go
@@ -167,9 +167,20 @@ func GetSearchKey(datum *pb.Datum, config *pb.SearchConfig) string {
 	return util.EncodeToString(append(keyByte, signature...))
 }
 
+// maxDuration is far beyond any use but can still be added to the current time
+const maxDuration = 100 * 365 * 24 * time.Hour
+
+// durationOf is count units of time, at most maxDuration as the product may not fit in a duration
+func durationOf(count uint64, unit time.Duration) time.Duration {
+	if count > uint64(maxDuration/unit) {
+		return maxDuration
+	}
+	return time.Duration(count) * unit
+}
+
 // AggregatedSearch searches and merges other resources
 func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<- *pb.ScoredDatum, upperWaitGroup *sync.WaitGroup, config *pb.SearchConfig) error {
-	duration := time.Duration(config.Timeout) * time.Millisecond
+	duration := durationOf(config.Timeout, time.Millisecond)
 	timeLimit := time.After(duration)
 	queryKey := GetSearchKey(datum, config)
 	config.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream
@@ -187,7 +198,7 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 			if upperWaitGroup != nil {
 				upperWaitGroup.Done()
 			}
-			cacheDuration := time.Duration(config.CacheDuration) * time.Second
+			cacheDuration := durationOf(config.CacheDuration, time.Second)
 			dt.QueryCache.IncrementExpiration(queryKey, cacheDuration)
 			return nil
 		}
@@ -245,7 +256,7 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 		upperWaitGroup.Done()
 	}
 	if config.CacheDuration > 0 {
-		cacheDuration := time.Duration(config.CacheDuration) * time.Second
+		cacheDuration := durationOf(config.CacheDuration, time.Second)
 		dt.QueryCache.Set(queryKey, resultCopy, cacheDuration)
 		// log.Printf("AggregatedSearch: finished. Set Cache Duration: %v\n", cacheDuration)
 	}
@@ -289,7 +300,7 @@ func configForQuery(config *pb.SearchConfig, index int, count int) *pb.SearchCon
 
 // MultiAggregatedSearch searches and merges other resources
 func (dt *Data) MultiAggregatedSearch(datumList []*pb.Datum, config *pb.SearchConfig, context *pb.SearchContext) ([]*pb.ScoredDatum, error) {
-	duration := time.Duration(config.Timeout) * time.Millisecond
+	duration := durationOf(config.Timeout, time.Millisecond)
 	timeLimit := time.After(duration)
 	// Search Start
 	scoredDatumStream := make(chan *pb.ScoredDatum, 100)
-- 
2.43.0


From 1bd74ed321d77e2204085300d3820a76d38f237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:48 +0000
Subject: [PATCH 44/49] fix: sources of a dataset were lost for up to a minute
 every ten minutes

---
 data/data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index 0050093..32ed037 100644
--- a/data/data.go
+++ b/data/data.go
@@ -250,7 +250,8 @@ func (dt *Data) AddSource(dataSource DataSource) error {
 	if dt.Sources == nil {
 		return errors.New("Sources is still nil")
 	}
-	return dt.Sources.Add(dataSource.GetID(), dataSource, cache.DefaultExpiration)
+	dt.Sources.Set(dataSource.GetID(), dataSource, cache.DefaultExpiration) // a source added again is kept longer
+	return nil
 }
 
 func (dt *Data) GetID() string {
-- 
2.43.0


From 822ce2b79c28214f40272cf951589f65acc204fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:32 +0000
Subject: [PATCH 45/49] fix: inserts during the maintenance pass or after
 closing were lost

---
 data/data.go    | 35 +++++++++++++++++++++++++----------
 data/dataset.go |  9 ++-------
 data/insert.go  |  6 ++++++
 3 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/data/data.go b/data/data.go
index 32ed037..73c0c5a 100644
--- a/data/data.go
+++ b/data/data.go
@@ -107,7 +107,9 @@ func NewTempData() (*Data, error) {
 
 // Close currently closes underlying kv store
 func (dt *Data) Close() error {
+	dt.Lock()
 	dt.Alive = false
+	dt.Unlock()
 	if dt.Sources != nil && len(dt.Sources.Items()) > 0 {
 		dt.Process(true) // N may not include the latest insertions
 		for dt.N > 0 {
@@ -131,15 +133,7 @@ func (dt *Data) DeletePath() error {
 
 // Check if dataset is active
 func (dt *Data) CheckIfActive() bool {
-	if dt.N > 0 {
-		return true
-	}
-	active := false
-	dt.LoopDBMap(func(entry *DBMapEntry) error { // N does not include the latest insertions
-		active = true
-		return errors.New("found")
-	})
-	if active {
+	if dt.N > 0 || dt.hasEntries() { // N does not include the latest insertions
 		return true
 	}
 	if dt.Sources != nil && len(dt.Sources.Items()) > 0 {
@@ -151,7 +145,28 @@ func (dt *Data) CheckIfActive() bool {
 			}
 		}
 	}
-	return false
+	return dt.hasEntries() // something may have been inserted while the sources were asked
+}
+
+// hasEntries checks if there is anything that is not expired
+func (dt *Data) hasEntries() bool {
+	found := false
+	dt.LoopDBMap(func(entry *DBMapEntry) error {
+		found = true
+		return errors.New("found")
+	})
+	return found
+}
+
+// stopIfEmpty stops accepting inserts unless something is inserted already
+func (dt *Data) stopIfEmpty() bool {
+	dt.Lock()
+	defer dt.Unlock()
+	if dt.hasEntries() {
+		return false
+	}
+	dt.Alive = false
+	return true
 }
 
 // Run runs statistical calculation regularly
diff --git a/data/dataset.go b/data/dataset.go
index 20905d6..a53cdfe 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -206,20 +206,15 @@ func (dts *Dataset) LoadIndex() error {
 
 func (dts *Dataset) ReloadRuns() error {
 	itemList := dts.DataList.Items()
-	removeList := make([]string, 0, len(itemList))
 	for key, itemInterface := range itemList {
 		if item, ok := itemInterface.Object.(*Data); ok {
 			if item.CheckIfActive() {
 				go item.Run()
-			} else {
-				item.Close()
-				removeList = append(removeList, key)
+			} else if current, err := dts.GetNoCreate(key); err == nil && current == item && item.stopIfEmpty() {
+				dts.DataList.Delete(key) // closes it, later inserts go to a new one
 			}
 		}
 	}
-	for _, key := range removeList {
-		dts.DataList.Delete(key)
-	}
 	return nil
 }
 
diff --git a/data/insert.go b/data/insert.go
index 495f975..4da5ae1 100644
--- a/data/insert.go
+++ b/data/insert.go
@@ -18,7 +18,13 @@ func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
 	if dt.Initialized == false {
 		dt.InitData()
 	}
+	dt.RLock() // nothing is accepted after it is closed
+	if !dt.Alive {
+		dt.RUnlock()
+		return errors.New("Data is closed")
+	}
 	err := dt.InsertBDMap(datum, config)
+	dt.RUnlock()
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 160dc247bbb8a6ce4016bea2cea53ffbe1554864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:35 +0000
Subject: [PATCH 46/49] fix: index files of closed datasets were never removed

---
 data/data.go    |  1 +
 data/newsync.go | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/data/data.go b/data/data.go
index 73c0c5a..d2a6706 100644
--- a/data/data.go
+++ b/data/data.go
@@ -117,6 +117,7 @@ func (dt *Data) Close() error {
 		}
 	}
 	// return dt.DB.Close()
+	dt.removeIndex()
 	dt.DeletePath()
 	return nil
 }
diff --git a/data/newsync.go b/data/newsync.go
index 40b7980..265ad57 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -253,6 +253,9 @@ func (dt *Data) Process(force bool) error {
 			if len(oldFile) > 0 {
 				os.Remove(oldFile)
 			}
+			if !dt.Alive { // closed meanwhile
+				dt.removeIndex()
+			}
 		}
 	}
 	dt.Timestamp = getCurrentTime()
@@ -260,6 +263,22 @@ func (dt *Data) Process(force bool) error {
 	return nil
 }
 
+// removeIndex frees the index and its file
+func (dt *Data) removeIndex() {
+	dt.Annoyer.Lock()
+	defer dt.Annoyer.Unlock()
+	if dt.Annoyer.AnnoyIndex != nil {
+		dt.Annoyer.AnnoyIndex.Unload()
+		annoyindex.DeleteAnnoyIndexAngular(dt.Annoyer.AnnoyIndex)
+		dt.Annoyer.AnnoyIndex = nil
+		dt.Annoyer.DataIndex = nil
+	}
+	if len(dt.Annoyer.BuildFileName) > 0 {
+		os.Remove(dt.Annoyer.BuildFileName)
+		dt.Annoyer.BuildFileName = ""
+	}
+}
+
 func (dt *Data) StreamAll(datumStream chan<- *pb.Datum) error {
 	err := dt.LoopDBMap(func(entry *DBMapEntry) error {
 		if entry != nil && entry.Datum != nil {
-- 
2.43.0


From 5e21d72f9857ce45ca6355b2c2cd2d2ea74ab86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:38 +0000
Subject: [PATCH 47/49] fix: an expired dataset created again was never closed,
 and one that could not hand over blocked the expiry of others

---
 data/dataset.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/data/dataset.go b/data/dataset.go
index a53cdfe..c6d78b4 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -25,7 +25,7 @@ type Dataset struct {
 
 func closeData(key string, value interface{}) {
 	if data, ok := value.(*Data); ok {
-		data.Close()
+		go data.Close() // it may take long to hand the data over, others should not wait for it
 	}
 }
 
@@ -124,6 +124,9 @@ func (dts *Dataset) createIfNotExists(config *pb.DataConfig) (bool, error) {
 	preData := NewPreData(config, dts.DataPath)
 	retention := GetRetention(config.Retention)
 	// log.Printf("Data %v Retention: %v Version: %v\n", config.Name, retention, config.Version)
+	if _, ok := dts.DataList.Get(config.Name); !ok {
+		dts.DataList.DeleteExpired() // an expired one of this name would be replaced without being closed
+	}
 	err := dts.DataList.Add(config.Name, preData, retention)
 	if err == nil {
 		return true, preData.InitData()
-- 
2.43.0


From a09bd78b8a5fef60eef59c9c5b5ba1aff9ac3282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:40 +0000
Subject: [PATCH 48/49] fix: closing a node, one dataset that could not be
 handed over kept others from being so

---
 data/dataset.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/data/dataset.go b/data/dataset.go
index c6d78b4..574e000 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -259,10 +259,16 @@ func (dts *Dataset) SaveIndex() error {
 func (dts *Dataset) Close() error {
 	dts.SaveIndex()
 	datalist := dts.DataList.Items()
+	var closing sync.WaitGroup
 	for _, item := range datalist {
 		if data, ok := item.Object.(*Data); ok {
-			data.Close()
+			closing.Add(1)
+			go func() { // one that can not hand its data over should not keep others from doing so
+				defer closing.Done()
+				data.Close()
+			}()
 		}
 	}
+	closing.Wait()
 	return nil
 }
-- 
2.43.0


From 99d8db60954e45f1a72e18183e80ba815852cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:11 +0000
Subject: [PATCH 49/49] fix: every approximate search leaked the memory of its
 result

---
 data/search.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/data/search.go b/data/search.go
index fcaae3d..4f6645f 100644
--- a/data/search.go
+++ b/data/search.go
@@ -8,9 +8,11 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unsafe"
 
 	"github.com/jinzhu/copier"
 
+	"github.com/bgokden/veri/annoyindex"
 	"github.com/bgokden/veri/util"
 	pb "github.com/bgokden/veri/veriservice"
 	"github.com/tidwall/gjson"
@@ -346,6 +348,16 @@ func (dt *Data) MultiAggregatedSearch(datumList []*pb.Datum, config *pb.SearchCo
 	return temp.Result(), nil
 }
 
+// freeNns frees slices that are filled by the index, their memory is not known to the garbage collector
+func freeNns(result []int, distances []float32) {
+	if len(result) > 0 {
+		annoyindex.Swig_free(uintptr(unsafe.Pointer(&result[0])))
+	}
+	if len(distances) > 0 {
+		annoyindex.Swig_free(uintptr(unsafe.Pointer(&distances[0])))
+	}
+}
+
 // Search does a search based on distances of keys
 func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector {
 	if config == nil {
@@ -366,6 +378,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		var distances []float32
 		index := *(dt.Annoyer.DataIndex)
 		dt.Annoyer.AnnoyIndex.GetNnsByVector(datum.Key.Feature, len(index), int(config.Limit), &result, &distances)
+		defer freeNns(result, distances)
 		if result != nil {
 			counter := uint32(0)
 			for i := 0; i < len(result); i++ {
-- 
2.43.0

