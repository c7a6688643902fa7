From eb1cc64c532a4c22063f98e1ba13c228fb9a28b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:05 +0000
Subject: [PATCH 01/35] fix: aggregator prefers the worse score when lower is
 better

---
 data/aggregator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index 5dd9f33..f1b3ce7 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -46,7 +46,7 @@ func (a *Aggregator) IsNewScoredBetter(old, new float64) bool {
 			return true
 		}
 	} else {
-		if old < new {
+		if new < old {
 			return true
 		}
 	}
-- 
2.43.0


From dd784595b4ad0d23265d608203b1e738faf66761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:08 +0000
Subject: [PATCH 02/35] fix: merged search results list an entry twice when a
 better score for it arrives

---
 data/aggregator.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index f1b3ce7..7a738b8 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -100,6 +100,16 @@ func (a *Aggregator) InsertToList(scoredDatum *pb.ScoredDatum) error {
 	return nil
 }
 
+// RemoveFromList removes an entry that is replaced by a better scored one
+func (a *Aggregator) RemoveFromList(scoredDatum *pb.ScoredDatum) {
+	for i, e := range a.List {
+		if e == scoredDatum {
+			a.List = append(a.List[:i], a.List[i+1:]...)
+			return
+		}
+	}
+}
+
 func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 	scoredDatum.Score = a.BestScore(scoredDatum)
 	if a.Grouped {
@@ -121,13 +131,15 @@ func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 			return err
 		}
 		keyString := util.EncodeToString(keyByte)
-		if previousScore, ok := a.DeDuplicationMap.Get(keyString); ok {
-			if a.IsNewScoredBetter(previousScore.(float64), scoredDatum.GetScore()) {
-				a.DeDuplicationMap.Set(keyString, scoredDatum.GetScore(), cache.NoExpiration)
+		if previous, ok := a.DeDuplicationMap.Get(keyString); ok {
+			previousDatum := previous.(*pb.ScoredDatum)
+			if a.IsNewScoredBetter(previousDatum.GetScore(), scoredDatum.GetScore()) {
+				a.RemoveFromList(previousDatum)
+				a.DeDuplicationMap.Set(keyString, scoredDatum, cache.NoExpiration)
 				return a.InsertToList(scoredDatum)
 			}
 		} else {
-			a.DeDuplicationMap.Set(keyString, scoredDatum.GetScore(), cache.NoExpiration)
+			a.DeDuplicationMap.Set(keyString, scoredDatum, cache.NoExpiration)
 			return a.InsertToList(scoredDatum)
 		}
 
-- 
2.43.0


From 0bfb7b39f41ea485b5a3c43525bae3768df76aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:11 +0000
Subject: [PATCH 03/35] fix: a search with limit 0 or a huge limit crashes the
 node

---
 data/aggregator.go | 2 +-
 data/search.go     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index 7a738b8..442a589 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -81,7 +81,7 @@ func (a *Aggregator) InsertToList(scoredDatum *pb.ScoredDatum) error {
 	if uint32(len(a.List)) < limit {
 		a.List = append(a.List, scoredDatum)
 		itemAdded = true
-	} else if a.IsNewScoredBetter(a.List[len(a.List)-1].Score, scoredDatum.Score) {
+	} else if len(a.List) > 0 && a.IsNewScoredBetter(a.List[len(a.List)-1].Score, scoredDatum.Score) {
 		a.List[len(a.List)-1] = scoredDatum
 		itemAdded = true
 	}
diff --git a/data/search.go b/data/search.go
index 566e714..b554047 100644
--- a/data/search.go
+++ b/data/search.go
@@ -66,8 +66,8 @@ func (c *Collector) Insert(scoredDatum *pb.ScoredDatum) error {
 	if uint32(len(c.List)) < c.N {
 		c.List = append(c.List, scoredDatum)
 		itemAdded = true
-	} else if (c.HigherIsBetter && scoredDatum.Score > c.List[len(c.List)-1].Score) ||
-		(!c.HigherIsBetter && scoredDatum.Score < c.List[len(c.List)-1].Score) {
+	} else if len(c.List) > 0 && ((c.HigherIsBetter && scoredDatum.Score > c.List[len(c.List)-1].Score) ||
+		(!c.HigherIsBetter && scoredDatum.Score < c.List[len(c.List)-1].Score)) {
 		c.List[len(c.List)-1] = scoredDatum
 		itemAdded = true
 	}
@@ -303,7 +303,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		config = DefaultSearchConfig()
 	}
 	c := &Collector{}
-	c.List = make([]*pb.ScoredDatum, 0, config.Limit)
+	c.List = make([]*pb.ScoredDatum, 0)
 	c.DatumKey = datum.Key
 	c.ScoreFunc = GetVectorComparisonFunction(config.ScoreFuncName)
 	c.HigherIsBetter = config.HigherIsBetter
@@ -351,7 +351,7 @@ func (dt *Data) Search(datum *pb.Datum, config *pb.SearchConfig, c *Collector) *
 			config = DefaultSearchConfig()
 		}
 		c = &Collector{}
-		c.List = make([]*pb.ScoredDatum, 0, config.Limit)
+		c.List = make([]*pb.ScoredDatum, 0)
 		c.DatumKey = datum.Key
 		c.ScoreFunc = GetVectorComparisonFunction(config.ScoreFuncName)
 		c.HigherIsBetter = config.HigherIsBetter
-- 
2.43.0


From 752af412024b478a3fc66b71cfc96a750b4ebae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:25 +0000
Subject: [PATCH 04/35] fix: rebalancing and expiry can delete entries that
 were inserted meanwhile or that no node keeps

---
 data/data.go    |  2 ++
 data/newsync.go | 79 +++++++++++++++++++++++++++++++++++++------------
 data/sync.go    |  6 ++--
 3 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/data/data.go b/data/data.go
index be2b8b9..f77fa2c 100644
--- a/data/data.go
+++ b/data/data.go
@@ -51,6 +51,8 @@ type Data struct {
 	Annoyer           Annoyer
 	Runs              int32
 	DBMap             sync.Map
+	DBMapLock         sync.Mutex // held while DBMap is changed
+	DBMapCount        uint64     // number of entries in DBMap, guarded by DBMapLock
 	RecentInsertCount uint64
 }
 
diff --git a/data/newsync.go b/data/newsync.go
index 2040b5c..7a72266 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -39,8 +39,11 @@ func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
 		return err
 	}
 	mapKey := util.EncodeToString(keyByte)
+	dt.DBMapLock.Lock()
+	defer dt.DBMapLock.Unlock()
 	isNewEntry := true // calulcation of this a bit expensive but it limit the runs
-	if oldEntryInfterface, ok := dt.DBMap.Load(mapKey); ok {
+	oldEntryInfterface, ok := dt.DBMap.Load(mapKey)
+	if ok {
 		if oldEntry, ok2 := oldEntryInfterface.(*DBMapEntry); ok2 && oldEntry != nil && oldEntry.Datum != nil {
 			valueByte, err := GetValueAsBytes(datum)
 			if err != nil {
@@ -50,24 +53,68 @@ func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
 			if err != nil {
 				return err
 			}
-			if bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) {
+			if bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) && !isExpired(oldEntry) {
+				entry.ExprireAt = oldEntry.ExprireAt
 				isNewEntry = false
 			}
 		}
+	} else {
+		dt.DBMapCount++
 	}
+	// The entry is replaced even if it is not new, so that a transfer of the old
+	// one that is under way does not delete it afterwards.
+	dt.DBMap.Store(mapKey, entry)
 	if isNewEntry {
-		dt.DBMap.Store(mapKey, entry)
 		atomic.AddUint64(&(dt.RecentInsertCount), 1)
 	}
 	return nil
 }
 
+func isExpired(entry *DBMapEntry) bool {
+	return entry.ExprireAt != 0 && entry.ExprireAt <= time.Now().Unix()
+}
+
+// deleteEntry deletes an entry unless it has been replaced in the meantime
+func (dt *Data) deleteEntry(mapKey string, entry *DBMapEntry) bool {
+	dt.DBMapLock.Lock()
+	defer dt.DBMapLock.Unlock()
+	return dt.deleteEntryLocked(mapKey, entry)
+}
+
+func (dt *Data) deleteEntryLocked(mapKey string, entry *DBMapEntry) bool {
+	if current, ok := dt.DBMap.Load(mapKey); ok && current == interface{}(entry) {
+		dt.DBMap.Delete(mapKey)
+		dt.DBMapCount--
+		return true
+	}
+	return false
+}
+
+// evictEntry deletes an entry of which a peer has a copy as long as eviction is on
+func (dt *Data) evictEntry(entry *DBMapEntry) bool {
+	keyByte, err := GetKeyAsBytes(entry.Datum)
+	if err != nil {
+		return false
+	}
+	dt.DBMapLock.Lock()
+	defer dt.DBMapLock.Unlock()
+	if dt.Alive && !isEvictionOn(dt.DBMapCount, dt.GetConfig()) {
+		return false
+	}
+	return dt.deleteEntryLocked(util.EncodeToString(keyByte), entry)
+}
+
 func (dt *Data) DeleteBDMap(datum *pb.Datum) error {
 	keyByte, err := GetKeyAsBytes(datum)
 	if err != nil {
 		return err
 	}
-	dt.DBMap.Delete(string(keyByte))
+	dt.DBMapLock.Lock()
+	defer dt.DBMapLock.Unlock()
+	if _, ok := dt.DBMap.Load(string(keyByte)); ok {
+		dt.DBMap.Delete(string(keyByte))
+		dt.DBMapCount--
+	}
 	return nil
 }
 
@@ -75,8 +122,8 @@ func (dt *Data) LoopDBMap(entryFunction func(entry *DBMapEntry) error) error {
 	var lastError error
 	dt.DBMap.Range(func(key, value interface{}) bool {
 		if mapEntry, ok := value.(*DBMapEntry); ok {
-			if mapEntry.ExprireAt != 0 && mapEntry.ExprireAt <= time.Now().Unix() {
-				dt.DBMap.Delete(key)
+			if isExpired(mapEntry) {
+				dt.deleteEntry(key.(string), mapEntry)
 				return true
 			}
 			err := entryFunction(mapEntry)
@@ -99,33 +146,30 @@ func (dt *Data) Process(force bool) error {
 	recentInsertCount := atomic.LoadUint64(&(dt.RecentInsertCount))
 	if (timeDiff >= 60 && (recentInsertCount > 0 || limit > transferLimit || timeDiff >= 600)) || force {
 		atomic.StoreUint64(&(dt.RecentInsertCount), 0)
-		config := dt.GetConfig()
-		datumStream := make(chan *pb.InsertDatumWithConfig, limit)
-		defer close(datumStream)
+		entryStream := make(chan *DBMapEntry, limit)
+		defer close(entryStream)
 		insertionCounter := uint64(0)
 		fraction := float64(0)
 		if localN > 0 {
 			fraction = float64(limit) / float64(localN)
 			countMap := make(map[string]uint64, len(diffMap))
 			go func() {
-				deleted := uint64(0)
 				counter := 0
-				for datum := range datumStream {
+				for entry := range entryStream {
+					insertConfig := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
 					for id, count := range diffMap {
 						if countMap[id] < count {
 							if sourceItem, ok := dt.Sources.Get(id); ok {
 								if source, ok2 := sourceItem.(DataSource); ok2 {
-									err := source.Insert(datum.Datum, datum.Config)
+									err := source.Insert(entry.Datum, insertConfig)
 									if err != nil && CheckIfUnkownError(err) {
 										log.Printf("Sending Insert error %v\n", err.Error())
 									}
 									if err == nil {
 										counter++
 									}
-									if err == nil && (!dt.Alive || isEvictionOn(localInfo, config, deleted)) {
+									if err == nil && dt.evictEntry(entry) {
 										countMap[id]++
-										dt.DeleteBDMap(datum.Datum)
-										deleted++
 									}
 								}
 							}
@@ -183,10 +227,7 @@ func (dt *Data) Process(force bool) error {
 			if !dt.Alive || (insertionCounter < limit && rand.Float64() < fraction) {
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
 				if config.TTL > 10 {
-					datumStream <- &pb.InsertDatumWithConfig{
-						Datum:  entry.Datum,
-						Config: config,
-					}
+					entryStream <- entry
 					insertionCounter++
 				}
 			}
diff --git a/data/sync.go b/data/sync.go
index 0cf6ba3..90019a5 100644
--- a/data/sync.go
+++ b/data/sync.go
@@ -4,9 +4,9 @@ import (
 	pb "github.com/bgokden/veri/veriservice"
 )
 
-func isEvictionOn(localInfo *pb.DataInfo, config *pb.DataConfig, deleted uint64) bool {
-	lowerThreshold := uint64(float64(localInfo.TargetN) * config.TargetUtilization) // This should be configurable
-	if !config.NoTarget && (localInfo.N-deleted) >= lowerThreshold {
+func isEvictionOn(n uint64, config *pb.DataConfig) bool {
+	lowerThreshold := uint64(float64(config.TargetN) * config.TargetUtilization) // This should be configurable
+	if !config.NoTarget && n >= lowerThreshold {
 		return true
 	}
 	return false
-- 
2.43.0


From d7de50c59b769d8832d92da74a1f5e6abdfafd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:28 +0000
Subject: [PATCH 05/35] fix: cleanup of empty datasets drops datasets with
 fresh entries and crashes when a peer is unreachable

---
 data/data.go        | 19 +++++++++++++++++--
 data/dataset.go     |  9 ++-------
 data/newsync.go     |  9 +++++++++
 node/nodeservice.go |  7 +++++++
 4 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/data/data.go b/data/data.go
index f77fa2c..e78b94e 100644
--- a/data/data.go
+++ b/data/data.go
@@ -17,6 +17,9 @@ import (
 	pb "github.com/bgokden/veri/veriservice"
 )
 
+// ErrDataClosed is returned when data is removed at the time of an insert, retry creates it again
+var ErrDataClosed = errors.New("Data is closed. Retry recomended")
+
 type DataSource interface {
 	StreamSearch(datumList *pb.Datum, scoredDatumStream chan<- *pb.ScoredDatum, queryWaitGroup *sync.WaitGroup, config *pb.SearchConfig) error
 	Insert(datum *pb.Datum, config *pb.InsertConfig) error
@@ -53,6 +56,7 @@ type Data struct {
 	DBMap             sync.Map
 	DBMapLock         sync.Mutex // held while DBMap is changed
 	DBMapCount        uint64     // number of entries in DBMap, guarded by DBMapLock
+	Closed            bool       // no more inserts, guarded by DBMapLock
 	RecentInsertCount uint64
 }
 
@@ -128,14 +132,14 @@ func (dt *Data) DeletePath() error {
 
 // Check if dataset is active
 func (dt *Data) CheckIfActive() bool {
-	if dt.N > 0 {
+	if dt.N > 0 || dt.entryCount() > 0 {
 		return true
 	}
 	if dt.Sources != nil && len(dt.Sources.Items()) > 0 {
 		sourceList := dt.Sources.Items()
 		for _, sourceItem := range sourceList { // Assumption is that random map runs are random enough
 			source := sourceItem.Object.(DataSource)
-			if source.GetDataInfo().N > 0 {
+			if source.GetDataInfo().GetN() > 0 {
 				return true
 			}
 		}
@@ -143,6 +147,17 @@ func (dt *Data) CheckIfActive() bool {
 	return false
 }
 
+// closeIfEmpty closes the data for inserts if it has no entries
+func (dt *Data) closeIfEmpty() bool {
+	dt.DBMapLock.Lock()
+	defer dt.DBMapLock.Unlock()
+	if dt.Closed || dt.DBMapCount > 0 {
+		return false
+	}
+	dt.Closed = true
+	return true
+}
+
 // Run runs statistical calculation regularly
 func (dt *Data) Run() error {
 	if atomic.LoadInt32(&dt.Runs) >= 1 {
diff --git a/data/dataset.go b/data/dataset.go
index 1ec258c..03d936b 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -189,20 +189,15 @@ func (dts *Dataset) LoadIndex() error {
 
 func (dts *Dataset) ReloadRuns() error {
 	itemList := dts.DataList.Items()
-	removeList := make([]string, 0, len(itemList))
 	for key, itemInterface := range itemList {
 		if item, ok := itemInterface.Object.(*Data); ok {
 			if item.CheckIfActive() {
 				go item.Run()
-			} else {
-				item.Close()
-				removeList = append(removeList, key)
+			} else if item.closeIfEmpty() {
+				dts.DataList.Delete(key) // closes the data
 			}
 		}
 	}
-	for _, key := range removeList {
-		dts.DataList.Delete(key)
-	}
 	return nil
 }
 
diff --git a/data/newsync.go b/data/newsync.go
index 7a72266..4bb9ae0 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -41,6 +41,9 @@ func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
 	mapKey := util.EncodeToString(keyByte)
 	dt.DBMapLock.Lock()
 	defer dt.DBMapLock.Unlock()
+	if dt.Closed {
+		return ErrDataClosed
+	}
 	isNewEntry := true // calulcation of this a bit expensive but it limit the runs
 	oldEntryInfterface, ok := dt.DBMap.Load(mapKey)
 	if ok {
@@ -74,6 +77,12 @@ func isExpired(entry *DBMapEntry) bool {
 	return entry.ExprireAt != 0 && entry.ExprireAt <= time.Now().Unix()
 }
 
+func (dt *Data) entryCount() uint64 {
+	dt.DBMapLock.Lock()
+	defer dt.DBMapLock.Unlock()
+	return dt.DBMapCount
+}
+
 // deleteEntry deletes an entry unless it has been replaced in the meantime
 func (dt *Data) deleteEntry(mapKey string, entry *DBMapEntry) bool {
 	dt.DBMapLock.Lock()
diff --git a/node/nodeservice.go b/node/nodeservice.go
index 753ab84..6f3ed4e 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -10,6 +10,7 @@ import (
 	"time"
 
 	"github.com/bgokden/go-cache"
+	data "github.com/bgokden/veri/data"
 	"github.com/bgokden/veri/state"
 	pb "github.com/bgokden/veri/veriservice"
 	"github.com/google/uuid"
@@ -44,6 +45,12 @@ func (n *Node) Insert(ctx context.Context, insertionRequest *pb.InsertionRequest
 		return nil, err
 	}
 	err = dt.Insert(datum, config)
+	for retry := 0; err == data.ErrDataClosed && !state.Drain && retry < 10; retry++ {
+		time.Sleep(10 * time.Millisecond) // empty data was being removed
+		if dt, err = n.Dataset.Get(name); err == nil {
+			err = dt.Insert(datum, config)
+		}
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 07ed6f004d194440d95eb35c4fa19f4ae50bb81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:51 +0000
Subject: [PATCH 06/35] fix: shutdown never ends when entries have no TTL or
 peers refuse them, and loses entries

---
 data/data.go    |  7 ++++---
 data/dataset.go |  5 ++---
 data/newsync.go | 42 ++++++++++++++++++++++++++++++++++++++++--
 data/sync.go    |  5 ++++-
 4 files changed, 50 insertions(+), 9 deletions(-)

diff --git a/data/data.go b/data/data.go
index e78b94e..8439cc4 100644
--- a/data/data.go
+++ b/data/data.go
@@ -114,10 +114,11 @@ func NewTempData() (*Data, error) {
 func (dt *Data) Close() error {
 	dt.Alive = false
 	if dt.Sources != nil && len(dt.Sources.Items()) > 0 {
-		for dt.N > 0 {
-			dt.Process(true)
-		}
+		dt.HandOver()
 	}
+	dt.DBMapLock.Lock()
+	dt.Closed = true
+	dt.DBMapLock.Unlock()
 	// return dt.DB.Close()
 	dt.DeletePath()
 	return nil
diff --git a/data/dataset.go b/data/dataset.go
index 03d936b..0f9ce71 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -224,9 +224,8 @@ func (dts *Dataset) SaveIndex() error {
 func (dts *Dataset) Close() error {
 	dts.SaveIndex()
 	datalist := dts.DataList.Items()
-	for k := range datalist {
-		data, err := dts.Get(k)
-		if err == nil {
+	for _, item := range datalist {
+		if data, ok := item.Object.(*Data); ok {
 			data.Close()
 		}
 	}
diff --git a/data/newsync.go b/data/newsync.go
index 4bb9ae0..acde255 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -2,6 +2,7 @@ package data
 
 import (
 	"bytes"
+	"errors"
 	"io/ioutil"
 	"log"
 	"math/rand"
@@ -107,7 +108,7 @@ func (dt *Data) evictEntry(entry *DBMapEntry) bool {
 	}
 	dt.DBMapLock.Lock()
 	defer dt.DBMapLock.Unlock()
-	if dt.Alive && !isEvictionOn(dt.DBMapCount, dt.GetConfig()) {
+	if !isEvictionOn(dt.DBMapCount, dt.GetConfig()) {
 		return false
 	}
 	return dt.deleteEntryLocked(util.EncodeToString(keyByte), entry)
@@ -233,7 +234,7 @@ func (dt *Data) Process(force bool) error {
 				newAnnoyIndex.AddItem(i, entry.Datum.Key.Feature)
 				newDataIndex[i] = entry.Datum
 			}
-			if !dt.Alive || (insertionCounter < limit && rand.Float64() < fraction) {
+			if insertionCounter < limit && rand.Float64() < fraction {
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
 				if config.TTL > 10 {
 					entryStream <- entry
@@ -276,6 +277,43 @@ func (dt *Data) Process(force bool) error {
 	return nil
 }
 
+// HandOver moves all entries to other sources. A source that fails or refuses
+// several times in a row is given up, so that it always comes to an end.
+func (dt *Data) HandOver() {
+	failures := map[string]int{}
+	for {
+		err := dt.LoopDBMap(func(entry *DBMapEntry) error {
+			keyByte, err := GetKeyAsBytes(entry.Datum)
+			if err != nil {
+				return err
+			}
+			for id, sourceItem := range dt.Sources.Items() {
+				source, ok := sourceItem.Object.(DataSource)
+				if !ok || failures[id] >= 3 {
+					continue
+				}
+				err := source.Insert(entry.Datum, InsertConfigFromExpireAt(uint64(entry.ExprireAt)))
+				if err == nil {
+					failures[id] = 0
+					dt.deleteEntry(util.EncodeToString(keyByte), entry)
+					return nil
+				}
+				log.Printf("Sending Insert error %v\n", err.Error())
+				failures[id]++
+			}
+			for id := range dt.Sources.Items() {
+				if failures[id] < 3 {
+					return nil // try this entry again in the next round
+				}
+			}
+			return errors.New("No source is left to hand over data")
+		})
+		if err != nil || dt.closeIfEmpty() || dt.entryCount() == 0 {
+			return
+		}
+	}
+}
+
 func (dt *Data) StreamAll(datumStream chan<- *pb.Datum) error {
 	err := dt.LoopDBMap(func(entry *DBMapEntry) error {
 		if entry != nil && entry.Datum != nil {
diff --git a/data/sync.go b/data/sync.go
index 90019a5..cf71a9f 100644
--- a/data/sync.go
+++ b/data/sync.go
@@ -25,7 +25,10 @@ type InsertStreamCollector struct {
 func InsertConfigFromExpireAt(expiresAt uint64) *pb.InsertConfig {
 	var timeLeftInSeconds uint64
 	if expiresAt > 0 {
-		timeLeftInSeconds = expiresAt - uint64(getCurrentTime())
+		timeLeftInSeconds = 1
+		if now := getCurrentTime(); expiresAt > now {
+			timeLeftInSeconds = expiresAt - now
+		}
 	} else {
 		timeLeftInSeconds = 0
 	}
-- 
2.43.0


From d18c3e9d02009b62e14a813be7b88e57cba09ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:21 +0000
Subject: [PATCH 07/35] fix: entries without TTL are never exchanged with peers

---
 data/newsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index acde255..74d234b 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -236,7 +236,7 @@ func (dt *Data) Process(force bool) error {
 			}
 			if insertionCounter < limit && rand.Float64() < fraction {
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
-				if config.TTL > 10 {
+				if entry.ExprireAt == 0 || config.TTL > 10 {
 					entryStream <- entry
 					insertionCounter++
 				}
-- 
2.43.0


From d85c84775b4592c47c37052721c8a588c4bab6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:24 +0000
Subject: [PATCH 08/35] fix: an entry with a very large TTL expires immediately

---
 data/newsync.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 74d234b..7ec35a9 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io/ioutil"
 	"log"
+	"math"
 	"math/rand"
 	"os"
 	"sync/atomic"
@@ -28,7 +29,11 @@ func CloseEnough(a, b int64) bool {
 func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
 	exprireAt := int64(0)
 	if config != nil && config.TTL != 0 {
-		exprireAt = time.Now().Unix() + int64(config.TTL)
+		now := time.Now().Unix()
+		exprireAt = now + int64(config.TTL)
+		if exprireAt <= now { // too far in the future
+			exprireAt = math.MaxInt64
+		}
 	}
 	datum.Clean()
 	entry := &DBMapEntry{
-- 
2.43.0


From cf1c4af1c01add8eba588ab8ddf088788d4b048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:27 +0000
Subject: [PATCH 09/35] fix: periodic node report crashes when a dataset is
 just created or removed

---
 node/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/node.go b/node/node.go
index 95456da..4abae40 100644
--- a/node/node.go
+++ b/node/node.go
@@ -352,6 +352,10 @@ func (n *Node) Info() string {
 			sb.WriteString(fmt.Sprintf("* Name %v N: %v config %v\n", name, dinfo.N, config))
 		} else {
 			sb.WriteString(fmt.Sprintf("* Name %v Error: %v\n", name, err.Error()))
+			continue
+		}
+		if dt.Sources == nil { // not initialized yet
+			continue
 		}
 		sourceList := dt.Sources.Items()
 		for _, sourceItem := range sourceList {
-- 
2.43.0


From 73a8f5d886ef3c15ac73cb1d2491a562f0d5457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:30 +0000
Subject: [PATCH 10/35] fix: sources of a dataset disappear every ten minutes
 although their peers are alive

---
 data/data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index 8439cc4..7352738 100644
--- a/data/data.go
+++ b/data/data.go
@@ -247,7 +247,8 @@ func (dt *Data) AddSource(dataSource DataSource) error {
 	if dt.Sources == nil {
 		return errors.New("Sources is still nil")
 	}
-	return dt.Sources.Add(dataSource.GetID(), dataSource, cache.DefaultExpiration)
+	dt.Sources.Set(dataSource.GetID(), dataSource, cache.DefaultExpiration)
+	return nil
 }
 
 func (dt *Data) GetID() string {
-- 
2.43.0


From 7b1ddc3d414c33b3845a0daf2d6eef005bf70aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:33 +0000
Subject: [PATCH 11/35] fix: two processors can run for the same data

---
 data/data.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/data/data.go b/data/data.go
index 7352738..3baf321 100644
--- a/data/data.go
+++ b/data/data.go
@@ -161,11 +161,10 @@ func (dt *Data) closeIfEmpty() bool {
 
 // Run runs statistical calculation regularly
 func (dt *Data) Run() error {
-	if atomic.LoadInt32(&dt.Runs) >= 1 {
+	if !atomic.CompareAndSwapInt32(&dt.Runs, 0, 1) {
 		log.Printf("Multiple Run calls detected.")
 		return errors.New("Another instance of processor is running for data")
 	}
-	atomic.AddInt32(&dt.Runs, 1)
 	defer atomic.AddInt32(&dt.Runs, -1)
 	nextTime := getCurrentTime()
 	gcCounter := 10
-- 
2.43.0


From 0eea2327c22e93f5c69e3b04e7e87f189c17250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:36 +0000
Subject: [PATCH 12/35] fix: data info can mix two configuration versions

---
 data/data.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/data/data.go b/data/data.go
index 3baf321..d9ac271 100644
--- a/data/data.go
+++ b/data/data.go
@@ -221,17 +221,18 @@ func CheckIfUnkownError(err error) bool {
 // GetDataInfo out of data
 func (dt *Data) GetDataInfo() *pb.DataInfo {
 	// log.Printf("Data: %v\n", dt)
+	config := dt.GetConfig() // may be replaced any time
 	return &pb.DataInfo{
 		Avg:               dt.Avg,
 		N:                 dt.N,
 		MaxDistance:       dt.MaxDistance,
 		Hist:              dt.Hist,
 		Timestamp:         dt.Timestamp,
-		Version:           dt.Config.Version,
-		Name:              dt.Config.Name,
-		TargetN:           dt.Config.TargetN,
-		TargetUtilization: dt.Config.TargetUtilization,
-		NoTarget:          dt.Config.NoTarget,
+		Version:           config.Version,
+		Name:              config.Name,
+		TargetN:           config.TargetN,
+		TargetUtilization: config.TargetUtilization,
+		NoTarget:          config.NoTarget,
 	}
 }
 
-- 
2.43.0


From 10dbb62e30e3560925a06cfefdc55cb4ffc8c664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:42 +0000
Subject: [PATCH 13/35] fix: only one of several query vectors is searched on
 peers, and the vectors share a timeout

---
 data/search.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/data/search.go b/data/search.go
index b554047..d8da81a 100644
--- a/data/search.go
+++ b/data/search.go
@@ -2,6 +2,7 @@ package data
 
 import (
 	"encoding/json"
+	"fmt"
 	"log"
 	"sort"
 	"strings"
@@ -250,6 +251,15 @@ func CloneResult(result []*pb.ScoredDatum) []*pb.ScoredDatum {
 	return resultCopy
 }
 
+// SubQueryUUID returns the id of the query for one of the datums of a search,
+// peers would reject the other ones if they all had the same id
+func SubQueryUUID(uuid string, i int, count int) string {
+	if count <= 1 {
+		return uuid
+	}
+	return fmt.Sprintf("%v-%v", uuid, i)
+}
+
 // MultiAggregatedSearch searches and merges other resources
 func (dt *Data) MultiAggregatedSearch(datumList []*pb.Datum, config *pb.SearchConfig, context *pb.SearchContext) ([]*pb.ScoredDatum, error) {
 	duration := time.Duration(config.Timeout) * time.Millisecond
@@ -259,9 +269,12 @@ func (dt *Data) MultiAggregatedSearch(datumList []*pb.Datum, config *pb.SearchCo
 	var queryWaitGroup sync.WaitGroup
 	waitChannel := make(chan struct{})
 	// loop datumList
-	for _, datum := range datumList {
+	for i, datum := range datumList {
 		queryWaitGroup.Add(1)
-		go dt.AggregatedSearch(datum, scoredDatumStream, &queryWaitGroup, config)
+		searchConfig := &pb.SearchConfig{} // it is changed by the search
+		copier.Copy(searchConfig, config)
+		searchConfig.Uuid = SubQueryUUID(config.Uuid, i, len(datumList))
+		go dt.AggregatedSearch(datum, scoredDatumStream, &queryWaitGroup, searchConfig)
 	}
 	go func() {
 		defer close(waitChannel)
-- 
2.43.0


From 226e3246fe3c8d8ed11232c86c63d7c0d60e033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:45 +0000
Subject: [PATCH 14/35] fix: a node processes its own query again when peers
 send it back

---
 node/nodeservice.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/nodeservice.go b/node/nodeservice.go
index 6f3ed4e..41c1037 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -131,6 +131,7 @@ func (n *Node) SearchStream(searchRequest *pb.SearchRequest, stream pb.VeriServi
 			return err
 		}
 		config.Uuid = uid.String()
+		n.QueryUUIDCache.Add(config.Uuid, true, cache.DefaultExpiration)
 	} else {
 		err := n.QueryUUIDCache.Add(uid, true, cache.DefaultExpiration)
 		if err != nil {
@@ -145,6 +146,9 @@ func (n *Node) SearchStream(searchRequest *pb.SearchRequest, stream pb.VeriServi
 		return err
 	}
 	datumList := searchRequest.GetDatum()
+	for i := range datumList { // peers may send these queries back
+		n.QueryUUIDCache.Add(data.SubQueryUUID(config.Uuid, i, len(datumList)), true, cache.DefaultExpiration)
+	}
 	searchConfig := searchRequest.GetConfig()
 	searchContext := searchRequest.GetContext()
 	result, err := aData.MultiAggregatedSearch(datumList, searchConfig, searchContext)
-- 
2.43.0


From 3d5798e4a0f2c9d66622ef42c74b9e9ae2e2acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:49 +0000
Subject: [PATCH 15/35] fix: a search with a hanging peer returns nothing at
 all

---
 data/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data/search.go b/data/search.go
index d8da81a..a1c6fe2 100644
--- a/data/search.go
+++ b/data/search.go
@@ -273,6 +273,7 @@ func (dt *Data) MultiAggregatedSearch(datumList []*pb.Datum, config *pb.SearchCo
 		queryWaitGroup.Add(1)
 		searchConfig := &pb.SearchConfig{} // it is changed by the search
 		copier.Copy(searchConfig, config)
+		searchConfig.Timeout = uint64(float64(config.Timeout) * 0.9) // results are merged before timeout
 		searchConfig.Uuid = SubQueryUUID(config.Uuid, i, len(datumList))
 		go dt.AggregatedSearch(datum, scoredDatumStream, &queryWaitGroup, searchConfig)
 	}
-- 
2.43.0


From e2ba4ce7167c3fdfc27c966e5c48c19ee972d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:52 +0000
Subject: [PATCH 16/35] fix: searches that time out leave goroutines blocked
 forever

---
 data/search.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/data/search.go b/data/search.go
index a1c6fe2..61f90c9 100644
--- a/data/search.go
+++ b/data/search.go
@@ -220,6 +220,7 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 		case <-timeLimit:
 			log.Printf("timeout")
 			dataAvailable = false
+			go drainUntil(scoredDatumStream, waitChannel)
 			break
 		}
 	}
@@ -241,6 +242,17 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 	return nil
 }
 
+// drainUntil receives late results so that their senders can finish
+func drainUntil(scoredDatumStream <-chan *pb.ScoredDatum, finished <-chan struct{}) {
+	for {
+		select {
+		case <-scoredDatumStream:
+		case <-finished:
+			return
+		}
+	}
+}
+
 func CloneResult(result []*pb.ScoredDatum) []*pb.ScoredDatum {
 	resultCopy := make([]*pb.ScoredDatum, len(result))
 	for i, sd := range result {
@@ -303,6 +315,7 @@ func (dt *Data) MultiAggregatedSearch(datumList []*pb.Datum, config *pb.SearchCo
 		case <-timeLimit:
 			// log.Printf("timeout")
 			dataAvailable = false
+			go drainUntil(scoredDatumStream, waitChannel)
 			break
 		}
 	}
-- 
2.43.0


From c7cc58cdb297fd8eb320090d94187b49414feed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:55 +0000
Subject: [PATCH 17/35] fix: data stream sends concurrently and can finish
 before its last entry is sent

---
 node/nodeservice.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/node/nodeservice.go b/node/nodeservice.go
index 41c1037..7509207 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -91,23 +91,23 @@ func (n *Node) DataStream(getDataRequest *pb.GetDataRequest, stream pb.VeriServi
 		return err
 	}
 	datumStreamAll := make(chan *pb.Datum, 100)
+	var streamErr error
 	go func() {
-		for datum := range datumStreamAll {
-			// log.Printf("Send label: %v\n", string(datum.Value.Label))
-			stream.Send(datum)
-		}
+		defer close(datumStreamAll)
+		streamErr = dt.StreamAll(datumStreamAll)
 	}()
-	err = dt.StreamAll(datumStreamAll)
-	if err != nil {
-		return err
+	var sendErr error
+	for datum := range datumStreamAll { // runs to the end to let the goroutine finish
+		// log.Printf("Send label: %v\n", string(datum.Value.Label))
+		if sendErr == nil {
+			sendErr = stream.Send(datum)
+		}
 	}
-	close(datumStreamAll)
-	for datum := range datumStreamAll {
-		// log.Printf("Flush - Send label: %v\n", string(datum.Value.Label))
-		stream.Send(datum)
+	if sendErr != nil {
+		return sendErr
 	}
 	// log.Printf("DataStream finished\n")
-	return nil
+	return streamErr
 }
 
 func (n *Node) GetDataInfo(ctx context.Context, getDataRequest *pb.GetDataRequest) (*pb.DataInfo, error) {
-- 
2.43.0


From aad152aee1cdddf3334803f8046da0af4951b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:58 +0000
Subject: [PATCH 18/35] fix: connection pool full of closed connections gives
 no connection

---
 util/connpool.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/connpool.go b/util/connpool.go
index 4d48f1d..d8387a5 100644
--- a/util/connpool.go
+++ b/util/connpool.go
@@ -131,7 +131,10 @@ func (cp *ConnectionPool) Get() *Connection {
 }
 
 func (cp *ConnectionPool) GetWithRetry(count int) *Connection {
-	if count > 3 {
+	if count > 3 { // enough closed connections, a new one is needed
+		if conn, ok := cp.Pool.New().(*Connection); ok {
+			return conn
+		}
 		return nil
 	}
 	connectionInterface := cp.Pool.Get()
-- 
2.43.0


From 313bae2897084fc3c58872829e1c052475d49943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:01 +0000
Subject: [PATCH 19/35] fix: a draining node reports that it is ready

---
 server/httpservice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httpservice.go b/server/httpservice.go
index 3aa7590..eb4beec 100644
--- a/server/httpservice.go
+++ b/server/httpservice.go
@@ -15,7 +15,7 @@ import (
 // var Ready = false
 
 func GetReady(w http.ResponseWriter, r *http.Request) {
-	if state.Ready {
+	if state.Ready && !state.Drain {
 		w.WriteHeader(http.StatusOK)
 		w.Header().Set("Content-Type", "application/json")
 		io.WriteString(w, `{"alive": true}`)
-- 
2.43.0


From 5ce01149c021299e01d5679d3c899629810ec0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:04 +0000
Subject: [PATCH 20/35] fix: a node that can not listen deletes the data
 directory given by the user

---
 server/veriserviceserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/veriserviceserver.go b/server/veriserviceserver.go
index 429ff0d..f52ad1c 100644
--- a/server/veriserviceserver.go
+++ b/server/veriserviceserver.go
@@ -53,9 +53,9 @@ func RunServer(configMap map[string]interface{}) {
 		if err != nil {
 			log.Fatal(err)
 		}
+		defer os.RemoveAll(directory)
 	}
 	os.MkdirAll(directory, os.ModePerm)
-	defer os.RemoveAll(directory)
 	broadcast := configMap["broadcast"].(string)
 	broadcastAddresses := make([]string, 0)
 	if len(broadcast) > 0 {
-- 
2.43.0


From f2cb6f092be4db9789968281d915ed9f69170a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:35 +0000
Subject: [PATCH 21/35] fix: concurrent config updates can replace a newer
 version by an older one

---
 data/dataset.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index 0f9ce71..ff5b31c 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"os"
 	"path"
+	"sync"
 	"time"
 
 	"github.com/bgokden/go-cache"
@@ -16,9 +17,10 @@ import (
 )
 
 type Dataset struct {
-	DataList *cache.Cache
-	Path     string
-	DataPath string
+	DataList   *cache.Cache
+	Path       string
+	DataPath   string
+	ConfigLock sync.Mutex // held while a config is replaced
 }
 
 func closeData(key string, value interface{}) {
@@ -117,6 +119,8 @@ func (dts *Dataset) CreateIfNotExists(config *pb.DataConfig) error {
 	if err.Error() == fmt.Sprintf("Item %s already exists", config.Name) {
 		data, errGetNoOp := dts.GetNoOp(config.Name)
 		if errGetNoOp == nil {
+			dts.ConfigLock.Lock()
+			defer dts.ConfigLock.Unlock()
 			if config.Version > data.Config.Version {
 				log.Printf("Update Data %v Config.Version: %v\n", config.Name, config.Version)
 				data.Config = config
-- 
2.43.0


From e9c3f3f447b26e823e3d63e5f1d0783290282ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:39 +0000
Subject: [PATCH 22/35] fix: a crash or disk error while the index is saved
 loses the registered datasets

---
 data/dataset.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index ff5b31c..6175350 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -21,6 +21,7 @@ type Dataset struct {
 	Path       string
 	DataPath   string
 	ConfigLock sync.Mutex // held while a config is replaced
+	IndexLock  sync.Mutex // held while the index file is read or written
 }
 
 func closeData(key string, value interface{}) {
@@ -168,6 +169,8 @@ func (dts *Dataset) DataConfigList() []*pb.DataConfig {
 }
 
 func (dts *Dataset) LoadIndex() error {
+	dts.IndexLock.Lock() // loading starts savings, they have to wait for the end of it
+	defer dts.IndexLock.Unlock()
 	indexPath := path.Join(dts.Path, "index.save")
 	file, err := os.OpenFile(indexPath, os.O_APPEND|os.O_CREATE|os.O_RDONLY, 0644)
 	if err != nil {
@@ -206,23 +209,35 @@ func (dts *Dataset) ReloadRuns() error {
 }
 
 func (dts *Dataset) SaveIndex() error {
+	dts.IndexLock.Lock()
+	defer dts.IndexLock.Unlock()
 	indexPath := path.Join(dts.Path, "index.save")
+	tempPath := indexPath + ".tmp"
 	sourceList := dts.DataList.Items()
-	file, err := os.OpenFile(indexPath, os.O_TRUNC|os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+	file, err := os.OpenFile(tempPath, os.O_TRUNC|os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
 	datawriter := bufio.NewWriter(file)
-	for k := range sourceList {
-		data, _ := dts.Get(k)
-		config := data.GetConfig()
-		jsonData, _ := json.Marshal(config)
-		_, _ = datawriter.WriteString(string(jsonData) + "\n")
-
+	for _, item := range sourceList {
+		if data, ok := item.Object.(*Data); ok {
+			config := data.GetConfig()
+			jsonData, _ := json.Marshal(config)
+			_, _ = datawriter.WriteString(string(jsonData) + "\n")
+		}
 	}
-	datawriter.Flush()
-	file.Close()
-	return nil
+	err = datawriter.Flush()
+	if err == nil {
+		err = file.Sync()
+	}
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	if err != nil { // the old index is still complete
+		os.Remove(tempPath)
+		return err
+	}
+	return os.Rename(tempPath, indexPath)
 }
 
 func (dts *Dataset) Close() error {
-- 
2.43.0


From 3e12ab8d42f808e34bed6b9f1722a61919de191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:42 +0000
Subject: [PATCH 23/35] fix: listing datasets creates removed ones again

---
 data/dataset.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index 6175350..852ebc8 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -160,10 +160,10 @@ func (dts *Dataset) List() []string {
 func (dts *Dataset) DataConfigList() []*pb.DataConfig {
 	sourceList := dts.DataList.Items()
 	configs := make([]*pb.DataConfig, 0, len(sourceList))
-	for k := range sourceList {
-		data, _ := dts.Get(k)
-		config := data.GetConfig()
-		configs = append(configs, config)
+	for _, item := range sourceList {
+		if data, ok := item.Object.(*Data); ok {
+			configs = append(configs, data.GetConfig())
+		}
 	}
 	return configs
 }
-- 
2.43.0


From 806b144d9d8f20725246393775033f1a0968ad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:45 +0000
Subject: [PATCH 24/35] fix: removing a dataset whose name is a path deletes
 files outside of its folder

---
 data/data.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/data/data.go b/data/data.go
index d9ac271..17067e1 100644
--- a/data/data.go
+++ b/data/data.go
@@ -3,6 +3,7 @@ package data
 import (
 	"errors"
 	"log"
+	"net/url"
 	"os"
 	"path"
 	"strings"
@@ -64,13 +65,23 @@ func (d *Data) GetConfig() *pb.DataConfig {
 	return d.Config
 }
 
+// dataFolder returns the folder of a data, it is always a direct child of
+// data path, even if the name of the data contains separators or is .. or empty
+func dataFolder(dataPath, name string) string {
+	folder := url.PathEscape(name)
+	if strings.Trim(folder, ".") == "" {
+		folder = "%" + folder
+	}
+	return path.Join(dataPath, folder)
+}
+
 // NewData creates a data struct
 func NewData(config *pb.DataConfig, dataPath string) (*Data, error) {
 	dt := &Data{
 		Config: config,
 	}
 	// log.Printf("Create Data\n")
-	dt.DBPath = path.Join(dataPath, config.Name)
+	dt.DBPath = dataFolder(dataPath, config.Name)
 	dt.InitData()
 	return dt, nil
 }
@@ -82,7 +93,7 @@ func NewPreData(config *pb.DataConfig, dataPath string) *Data {
 	}
 	atomic.StoreUint64(&(dt.RecentInsertCount), 0)
 	// log.Printf("Pre Create Data %v\n", dt.Config)
-	dt.DBPath = path.Join(dataPath, config.Name)
+	dt.DBPath = dataFolder(dataPath, config.Name)
 	return dt
 }
 
-- 
2.43.0


From bcb32569de95c8349e28e6cc77f14da8680043ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:48 +0000
Subject: [PATCH 25/35] fix: incomplete insert and search requests crash the
 node

---
 node/nodeservice.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/node/nodeservice.go b/node/nodeservice.go
index 7509207..0863291 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -40,6 +40,12 @@ func (n *Node) Insert(ctx context.Context, insertionRequest *pb.InsertionRequest
 	config := insertionRequest.GetConfig()
 	datum := insertionRequest.GetDatum()
 	name := insertionRequest.GetDataName()
+	if datum.GetKey() == nil {
+		return nil, errors.New("Datum has no key")
+	}
+	if datum.Value == nil {
+		datum.Value = &pb.DatumValue{}
+	}
 	dt, err := n.Dataset.Get(name)
 	if err != nil {
 		return nil, err
@@ -124,6 +130,14 @@ func (n *Node) GetDataInfo(ctx context.Context, getDataRequest *pb.GetDataReques
 
 func (n *Node) SearchStream(searchRequest *pb.SearchRequest, stream pb.VeriService_SearchStreamServer) error {
 	config := searchRequest.GetConfig()
+	if config == nil {
+		return errors.New("Search has no config")
+	}
+	for _, datum := range append(searchRequest.GetContext().GetDatum(), searchRequest.GetDatum()...) {
+		if datum.GetKey() == nil {
+			return errors.New("Datum has no key")
+		}
+	}
 	uid := config.GetUuid()
 	if uid == "" {
 		uid, err := uuid.NewRandom()
-- 
2.43.0


From e3edb8e4514bba8651bf69537f1dc3334c2fcea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:42 +0000
Subject: [PATCH 26/35] fix: approximate search reads beyond vectors that have
 a different dimension

---
 data/data.go    |  1 +
 data/newsync.go | 12 +++++++++---
 data/search.go  |  4 ++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/data/data.go b/data/data.go
index 17067e1..3cb324d 100644
--- a/data/data.go
+++ b/data/data.go
@@ -33,6 +33,7 @@ type Annoyer struct {
 	DataIndex     *[]*pb.Datum
 	AnnoyIndex    annoyindex.AnnoyIndexAngular
 	BuildFileName string
+	Dimension     int
 }
 
 // Data represents a dataset with similar struture
diff --git a/data/newsync.go b/data/newsync.go
index 7ec35a9..7b56ccd 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -206,6 +206,8 @@ func (dt *Data) Process(force bool) error {
 		newDataIndex := make([]*pb.Datum, max(1000, int(dt.N)))
 		var newAnnoyIndex annoyindex.AnnoyIndexAngular
 		var newTempFileName string
+		var newDimension int
+		i := 0
 
 		err := dt.LoopDBMap(func(entry *DBMapEntry) error {
 			n++
@@ -224,9 +226,9 @@ func (dt *Data) Process(force bool) error {
 				}
 				hist[index] += histUnit
 			}
-			i := int(n - 1)
 			if dt.Alive && i < len(newDataIndex) {
 				if newAnnoyIndex == nil {
+					newDimension = len(entry.Datum.Key.Feature)
 					// newAnnoyIndex = annoyindex.NewAnnoyIndexEuclidean(len(datum.Key.Feature))
 					newAnnoyIndex = annoyindex.NewAnnoyIndexAngular(len(entry.Datum.Key.Feature))
 					tmpfile, err := ioutil.TempFile("", "annoy")
@@ -236,8 +238,11 @@ func (dt *Data) Process(force bool) error {
 					}
 
 				}
-				newAnnoyIndex.AddItem(i, entry.Datum.Key.Feature)
-				newDataIndex[i] = entry.Datum
+				if len(entry.Datum.Key.Feature) == newDimension { // the index reads as many values
+					newAnnoyIndex.AddItem(i, entry.Datum.Key.Feature)
+					newDataIndex[i] = entry.Datum
+					i++
+				}
 			}
 			if insertionCounter < limit && rand.Float64() < fraction {
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
@@ -270,6 +275,7 @@ func (dt *Data) Process(force bool) error {
 			oldFile := dt.Annoyer.BuildFileName
 			dt.Annoyer.BuildFileName = newTempFileName
 			dt.Annoyer.AnnoyIndex = newAnnoyIndex
+			dt.Annoyer.Dimension = newDimension
 			dt.Annoyer.DataIndex = &newDataIndex
 			dt.Annoyer.Unlock()
 			if len(oldFile) > 0 {
diff --git a/data/search.go b/data/search.go
index 61f90c9..31b38f3 100644
--- a/data/search.go
+++ b/data/search.go
@@ -339,6 +339,10 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 	c.GroupFilters = config.GroupFilters
 	if dt.Annoyer.AnnoyIndex != nil && dt.Annoyer.DataIndex != nil && len(*(dt.Annoyer.DataIndex)) > 0 {
 		dt.Annoyer.RLock()
+		if len(datum.Key.Feature) != dt.Annoyer.Dimension {
+			dt.Annoyer.RUnlock()
+			return dt.Search(datum, config, nil)
+		}
 		var result []int
 		var distances []float32
 		index := *(dt.Annoyer.DataIndex)
-- 
2.43.0


From 00e168e1c368e9420b397f584af94e8d69000790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:40 +0000
Subject: [PATCH 27/35] fix: a search of more than ten seconds loses the
 results of healthy peers when another peer hangs

---
 node/datasourceclient.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node/datasourceclient.go b/node/datasourceclient.go
index a3cfc9e..ab89d52 100644
--- a/node/datasourceclient.go
+++ b/node/datasourceclient.go
@@ -30,7 +30,11 @@ type DataSourceClient struct {
 
 func (dcs *DataSourceClient) StreamSearch(datum *pb.Datum, scoredDatumStream chan<- *pb.ScoredDatum, queryWaitGroup *sync.WaitGroup, config *pb.SearchConfig) error {
 	defer queryWaitGroup.Done()
-	clientCtx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
+	timeout := 10 * time.Second
+	if d := time.Duration(config.GetTimeout()) * time.Millisecond; d+d/10 > timeout {
+		timeout = d + d/10 // peer may use all of the search timeout if one of its peers hangs
+	}
+	clientCtx, cancel := context.WithTimeout(context.Background(), timeout)
 	defer cancel()
 	conn := dcs.ConnectionCache.Get(dcs.IdOfPeer)
 	if conn == nil {
-- 
2.43.0


From 7cfb6704d58af4362bbf56a82e7f9ef44f7d2ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:34 +0000
Subject: [PATCH 28/35] fix: a search with a huge result limit crashes the node

---
 data/aggregator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index 442a589..0ec1a0b 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -157,7 +157,7 @@ func (a *Aggregator) Result() []*pb.ScoredDatum {
 		}
 		return agg.Result()
 	} else {
-		if a.Config.ResultLimit > 0 && len(a.List) > int(a.Config.ResultLimit) {
+		if a.Config.ResultLimit > 0 && uint64(len(a.List)) > a.Config.ResultLimit {
 			return a.List[:a.Config.ResultLimit]
 		}
 		return a.List
-- 
2.43.0


From 47d2c90b182c9ab3a53870b33b0740467b213550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:08 +0000
Subject: [PATCH 29/35] fix: a request to add no peer crashes the node

---
 node/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/node.go b/node/node.go
index 4abae40..ed4e656 100644
--- a/node/node.go
+++ b/node/node.go
@@ -110,7 +110,7 @@ func (n *Node) AddPeerElement(peer *pb.Peer) error {
 		idOfPeer := GetIdOfPeer(peer)
 		if oldPeerInterface, ok := n.PeerList.Get(idOfPeer); ok {
 			if oldPeer, ok2 := oldPeerInterface.(*pb.Peer); ok2 {
-				if oldPeer.Timestamp >= peer.Timestamp {
+				if oldPeer.GetTimestamp() >= peer.GetTimestamp() {
 					// New one is older than current peer info
 					return nil
 				}
-- 
2.43.0


From 1acff4b65ce4ee7f938b6544bd8f3462e91596b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:50 +0000
Subject: [PATCH 30/35] fix: a key string can point to memory that the garbage
 collector freed

---
 util/util.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/util/util.go b/util/util.go
index 297bc85..4f96b8e 100644
--- a/util/util.go
+++ b/util/util.go
@@ -1,14 +1,11 @@
 package util
 
 import (
-	"reflect"
 	"unsafe"
 )
 
 // BytesToString Alternative to hex.EncodeToString(b)
 func EncodeToString(b []byte) string {
-	bh := (*reflect.SliceHeader)(unsafe.Pointer(&b))
-	sh := reflect.StringHeader{bh.Data, bh.Len}
-	return *(*string)(unsafe.Pointer(&sh))
+	return *(*string)(unsafe.Pointer(&b))
 	// return string(b)
 }
-- 
2.43.0


From c89e72420bb3080ea61df4463dfc91a0d2329698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:06 +0000
Subject: [PATCH 31/35] fix: a dropped dataset leaves its index and index file
 behind

---
 data/data.go    | 19 +++++++++++++++++++
 data/newsync.go |  9 ++++-----
 data/search.go  |  3 ++-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/data/data.go b/data/data.go
index 3cb324d..a08dacc 100644
--- a/data/data.go
+++ b/data/data.go
@@ -34,6 +34,18 @@ type Annoyer struct {
 	AnnoyIndex    annoyindex.AnnoyIndexAngular
 	BuildFileName string
 	Dimension     int
+	Closed        bool // no more indexes
+}
+
+// free releases the current index and returns its file, the caller holds the lock
+func (a *Annoyer) free() string {
+	if a.AnnoyIndex != nil {
+		a.AnnoyIndex.Unload() // Not sure if this is needed
+		annoyindex.DeleteAnnoyIndexAngular(a.AnnoyIndex)
+	}
+	oldFile := a.BuildFileName
+	a.AnnoyIndex, a.DataIndex, a.BuildFileName = nil, nil, ""
+	return oldFile
 }
 
 // Data represents a dataset with similar struture
@@ -131,6 +143,13 @@ func (dt *Data) Close() error {
 	dt.DBMapLock.Lock()
 	dt.Closed = true
 	dt.DBMapLock.Unlock()
+	dt.Annoyer.Lock()
+	oldFile := dt.Annoyer.free()
+	dt.Annoyer.Closed = true
+	dt.Annoyer.Unlock()
+	if len(oldFile) > 0 {
+		os.Remove(oldFile)
+	}
 	// return dt.DB.Close()
 	dt.DeletePath()
 	return nil
diff --git a/data/newsync.go b/data/newsync.go
index 7b56ccd..cac14ad 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -268,15 +268,14 @@ func (dt *Data) Process(force bool) error {
 			log.Printf("Building annoy index took %s", elapsed)
 			// log.Printf("Updating index. len: %v\n", len(newDataIndex))
 			dt.Annoyer.Lock()
-			if dt.Annoyer.DataIndex != nil {
-				dt.Annoyer.AnnoyIndex.Unload() // Not sure if this is needed
-				annoyindex.DeleteAnnoyIndexAngular(dt.Annoyer.AnnoyIndex)
-			}
-			oldFile := dt.Annoyer.BuildFileName
+			oldFile := dt.Annoyer.free()
 			dt.Annoyer.BuildFileName = newTempFileName
 			dt.Annoyer.AnnoyIndex = newAnnoyIndex
 			dt.Annoyer.Dimension = newDimension
 			dt.Annoyer.DataIndex = &newDataIndex
+			if dt.Annoyer.Closed { // in the meantime
+				oldFile = dt.Annoyer.free()
+			}
 			dt.Annoyer.Unlock()
 			if len(oldFile) > 0 {
 				os.Remove(oldFile)
diff --git a/data/search.go b/data/search.go
index 31b38f3..178a615 100644
--- a/data/search.go
+++ b/data/search.go
@@ -337,8 +337,8 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 	c.N = config.Limit
 	c.Filters = config.Filters
 	c.GroupFilters = config.GroupFilters
+	dt.Annoyer.RLock()
 	if dt.Annoyer.AnnoyIndex != nil && dt.Annoyer.DataIndex != nil && len(*(dt.Annoyer.DataIndex)) > 0 {
-		dt.Annoyer.RLock()
 		if len(datum.Key.Feature) != dt.Annoyer.Dimension {
 			dt.Annoyer.RUnlock()
 			return dt.Search(datum, config, nil)
@@ -367,6 +367,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		}
 		dt.Annoyer.RUnlock()
 	} else {
+		dt.Annoyer.RUnlock()
 		log.Println("Fallback to regular search")
 		// return c // Fallback is emptry list now
 		return dt.Search(datum, config, nil)
-- 
2.43.0


From 142691c154799698e891e81dc1cf1ab7e67229ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:06 +0000
Subject: [PATCH 32/35] fix: connections are not dropped without being closed

A sync.Pool forgets its items at garbage collections and the refresh of the
connection cache replaced whole pools; in both cases the gRPC connections with
their goroutines stayed open on both sides for ever.
---
 util/connpool.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/util/connpool.go b/util/connpool.go
index d8387a5..110607c 100644
--- a/util/connpool.go
+++ b/util/connpool.go
@@ -31,7 +31,6 @@ func NewConnectionCache() *ConnectionCache {
 	c := goburrow.NewLoadingCache(load,
 		goburrow.WithMaximumSize(100),                  // Limit number of entries in the cache.
 		goburrow.WithExpireAfterAccess(10*time.Minute), // Expire entries after 10 minutes since last accessed.
-		goburrow.WithRefreshAfterWrite(20*time.Minute), // Expire entries after 20 minutes since last created.
 		goburrow.WithRemovalListener(remove),
 	)
 
@@ -71,7 +70,7 @@ func (cc *ConnectionCache) Close(c *Connection) {
 // Func to init pool
 func NewConnectionPool(address string) *ConnectionPool {
 	cp := &ConnectionPool{}
-	cp.Pool = &sync.Pool{
+	cp.Pool = &connectionList{
 		New: func() interface{} {
 			return cp.NewConnection(address)
 		},
@@ -79,8 +78,38 @@ func NewConnectionPool(address string) *ConnectionPool {
 	return cp
 }
 
+// connectionList is used instead of a sync.Pool, which drops connections
+// without closing them
+type connectionList struct {
+	New  func() interface{}
+	lock sync.Mutex
+	list []*Connection
+}
+
+func (l *connectionList) Get() interface{} {
+	l.lock.Lock()
+	defer l.lock.Unlock()
+	if last := len(l.list) - 1; last >= 0 {
+		conn := l.list[last]
+		l.list = l.list[:last]
+		return conn
+	}
+	return l.New()
+}
+
+func (l *connectionList) Put(conn *Connection) {
+	l.lock.Lock()
+	defer l.lock.Unlock()
+	for _, c := range l.list {
+		if c == conn {
+			return
+		}
+	}
+	l.list = append(l.list, conn)
+}
+
 type ConnectionPool struct {
-	Pool   *sync.Pool
+	Pool   *connectionList
 	Closed bool
 }
 
-- 
2.43.0


From 3c2dec4db78b1a888f013c29bccc79157c6db1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:36 +0000
Subject: [PATCH 33/35] fix: a node known by several addresses counted as
 several replicas

---
 data/data.go    | 20 +++++++++++++++++---
 data/newsync.go |  4 ++--
 node/node.go    | 18 +++++++++++++++++-
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/data/data.go b/data/data.go
index a08dacc..eac00ba 100644
--- a/data/data.go
+++ b/data/data.go
@@ -267,8 +267,8 @@ func (dt *Data) GetDataInfo() *pb.DataInfo {
 	}
 }
 
-// AddSource adds a source
-func (dt *Data) AddSource(dataSource DataSource) error {
+// AddSource adds a source, it replaces sources with other ids of the same node
+func (dt *Data) AddSource(dataSource DataSource, otherIDs ...string) error {
 	if dataSource == nil {
 		return errors.New("DataSource is nil")
 	}
@@ -278,16 +278,30 @@ func (dt *Data) AddSource(dataSource DataSource) error {
 	if dt.Sources == nil {
 		return errors.New("Sources is still nil")
 	}
+	dt.Lock() // the node is never missing or listed twice in SourceItems
+	defer dt.Unlock()
+	for _, id := range otherIDs {
+		if id != dataSource.GetID() {
+			dt.Sources.Delete(id)
+		}
+	}
 	dt.Sources.Set(dataSource.GetID(), dataSource, cache.DefaultExpiration)
 	return nil
 }
 
+// SourceItems returns current sources
+func (dt *Data) SourceItems() map[string]cache.Item {
+	dt.RLock()
+	defer dt.RUnlock()
+	return dt.Sources.Items()
+}
+
 func (dt *Data) GetID() string {
 	return dt.Config.Name
 }
 
 func (dt *Data) RunOnRandomSources(sourceLimit int, sourceFunction func(dataSource DataSource) error) error {
-	sourceList := dt.Sources.Items()
+	sourceList := dt.SourceItems()
 	for _, sourceItem := range sourceList { // Assumption is that random map runs are random enough
 		if sourceLimit < 0 {
 			break
diff --git a/data/newsync.go b/data/newsync.go
index cac14ad..04d8fbd 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -297,7 +297,7 @@ func (dt *Data) HandOver() {
 			if err != nil {
 				return err
 			}
-			for id, sourceItem := range dt.Sources.Items() {
+			for id, sourceItem := range dt.SourceItems() {
 				source, ok := sourceItem.Object.(DataSource)
 				if !ok || failures[id] >= 3 {
 					continue
@@ -311,7 +311,7 @@ func (dt *Data) HandOver() {
 				log.Printf("Sending Insert error %v\n", err.Error())
 				failures[id]++
 			}
-			for id := range dt.Sources.Items() {
+			for id := range dt.SourceItems() {
 				if failures[id] < 3 {
 					return nil // try this entry again in the next round
 				}
diff --git a/node/node.go b/node/node.go
index ed4e656..95dbf1f 100644
--- a/node/node.go
+++ b/node/node.go
@@ -215,6 +215,19 @@ func (n *Node) GetDifferentAddressOf(peer *pb.Peer) string {
 	return FirstDifferent(aList, peer.GetAddressList())
 }
 
+// isListedWithMoreAddresses checks if the list has the same node again. A node
+// learns its addresses from others, so it can be known by less of them, too.
+func isListedWithMoreAddresses(peer *pb.Peer, peerList map[string]cache.Item) bool {
+	for _, item := range peerList {
+		other := item.Object.(*pb.Peer)
+		if IsRecent(other.GetTimestamp()) && len(other.GetAddressList()) > len(peer.GetAddressList()) &&
+			FirstDifferent(other.GetAddressList(), peer.GetAddressList()) == "" {
+			return true
+		}
+	}
+	return false
+}
+
 func (n *Node) SyncWithPeers() {
 	// nodeId := GetIdOfPeer(n.GetNodeInfo())
 	// log.Printf("(0) Node: %v\n", nodeId)
@@ -251,11 +264,14 @@ func (n *Node) SyncWithPeers() {
 			peerOfPeer := itemOfPeer.Object.(*pb.Peer)
 			n.SendAddPeerRequest(idOfPeer, peerOfPeer)
 		}
+		listed := isListedWithMoreAddresses(peer, peerList)
 		for _, dataConfigFromPeer := range peer.DataList {
 			data, err := n.Dataset.GetOrCreateIfNotExists(dataConfigFromPeer)
 			// log.Printf("(2) dataN: %v peer %v dataConfigFromPeer %v idOfPeer %v\n", data.N, peer, dataConfigFromPeer, idOfPeer)
 			if err == nil {
-				data.AddSource(GetDataSourceClient(peer, dataConfigFromPeer.Name, idOfPeer, n.ConnectionCache))
+				if !listed {
+					data.AddSource(GetDataSourceClient(peer, dataConfigFromPeer.Name, idOfPeer, n.ConnectionCache), peer.AddressList...)
+				}
 			} else {
 				log.Printf("Error data creation: %v\n", err)
 			}
-- 
2.43.0


From 8b75ba022c8dbdea38995b4764082d9e850f7ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:58 +0000
Subject: [PATCH 34/35] fix: a retention too long for a duration drops the
 dataset

---
 data/dataset.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/data/dataset.go b/data/dataset.go
index 852ebc8..631db44 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"log"
+	"math"
 	"os"
 	"path"
 	"sync"
@@ -62,6 +63,9 @@ func GetRetention(retention uint64) time.Duration {
 	if retention == 0 {
 		return time.Duration(14*24) * time.Hour
 	}
+	if retention > uint64(math.MaxInt64/time.Second) { // too long for a duration
+		return cache.NoExpiration
+	}
 	return time.Duration(retention) * time.Second
 }
 
-- 
2.43.0


From ddfcf7106a6361e6c2400bff091488190943c35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:58 +0000
Subject: [PATCH 35/35] fix: a search timeout too long for a duration ends the
 search at once

---
 node/nodeservice.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/node/nodeservice.go b/node/nodeservice.go
index 0863291..b396a02 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -29,6 +29,9 @@ import (
 // 	InsertStream(VeriService_InsertStreamServer) error
 // }
 
+// maxSearchTimeout is the longest timeout of a search in milliseconds
+const maxSearchTimeout = uint64(24 * time.Hour / time.Millisecond)
+
 func (n *Node) Search(ctx context.Context, searchRequest *pb.SearchRequest) (*pb.SearchResponse, error) {
 	return nil, nil
 }
@@ -133,6 +136,9 @@ func (n *Node) SearchStream(searchRequest *pb.SearchRequest, stream pb.VeriServi
 	if config == nil {
 		return errors.New("Search has no config")
 	}
+	if config.Timeout > maxSearchTimeout { // durations do not overflow
+		config.Timeout = maxSearchTimeout
+	}
 	for _, datum := range append(searchRequest.GetContext().GetDatum(), searchRequest.GetDatum()...) {
 		if datum.GetKey() == nil {
 			return errors.New("Datum has no key")
-- 
2.43.0

