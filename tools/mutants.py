#!/usr/bin/env python3
"""Development tool: applies small mutations to a scratch copy of /repo and runs
the check of the property each one breaks. Not used by any check.
usage: mutants.py [-s SECS] [-j] [ID-prefix ...]"""
import subprocess, sys, os, shutil
NS="data/newsync.go"; DT="data/data.go"; DS="data/dataset.go"; IN="data/insert.go"; SE="data/search.go"; AG="data/aggregator.go"
NO="node/node.go"; SV="node/nodeservice.go"; CL="node/datasourceclient.go"; CP="util/connpool.go"; SR="server/veriserviceserver.go"; SY="data/sync.go"
M=[]; V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def m(id,prop,*edits): M.append((id,prop,edits))
# --- C01
m("c01a","C01",(NS,"if err == nil && dt.evictEntry(entry) {","if dt.evictEntry(entry) {"))
m("c01b","C01",(NS,"	if dt.Closed {\n		return ErrDataClosed\n	}\n",""))
m("c01c","C01",(NS,"	if current, ok := dt.DBMap.Load(mapKey); ok && current == interface{}(entry) {\n		dt.DBMap.Delete(mapKey)\n		dt.DBMapCount--\n		return true\n	}\n	return false","	dt.DBMap.Delete(mapKey)\n	dt.DBMapCount--\n	return true"))
m("c01d","C01",(NS,"dt.deleteEntry(key.(string), mapEntry)","dt.DBMap.Delete(key)"))
m("c01e","C01",(DS,"return time.Duration(14*24) * time.Hour","return time.Duration(14*24) * time.Minute"))
m("c01f","C01",(DS,"} else if item.closeIfEmpty() {","} else {"),(DT,"if dt.N > 0 || dt.entryCount() > 0 {","if dt.N > 0 {"))
m("c01g","C01",(SV,"for retry := 0; err == data.ErrDataClosed && !state.Drain && retry < 10; retry++ {","for retry := 0; err == data.ErrDataClosed && !state.Drain && retry < 1; retry++ {"),(SV,"	if err != nil {\n		return nil, err\n	}\n	return &pb.InsertionResponse{Code: 0}, nil","	if err != nil && err != data.ErrDataClosed {\n		return nil, err\n	}\n	return &pb.InsertionResponse{Code: 0}, nil"))
m("c01h","C01",(DS,"		if errGetNoOp == nil {\n","		if errGetNoOp == nil && config.Version > data.Config.Version+1 {\n			dts.DataList.Set(config.Name, preData, retention)\n			return preData.InitData()\n		}\n		if errGetNoOp == nil {\n"))
m("c01i","C01",(CL,"	_, err := client.Insert(clientCtx, request)\n	return err","	_, err := client.Insert(clientCtx, request)\n	if err != nil && clientCtx.Err() != nil {\n		return nil\n	}\n	return err"))
# --- C02
m("c02a","C02",(IN,"			if err == nil {\n				counter++","			if err == nil || !CheckIfUnkownError(err) {\n				counter++"))
m("c02b","C02",(IN,"RunOnRandomSources(5,","RunOnRandomSources(2,"))
m("c02c","C02",(IN,"		if counter < dt.Config.ReplicationOnInsert {\n			return errors.New(\"Replicas","		if counter+1 < dt.Config.ReplicationOnInsert {\n			return errors.New(\"Replicas"))
m("c02d","C02",(DT,"dt.Sources.Set(dataSource.GetID(), dataSource,","dt.Sources.Set(dataSource.GetID()+time.Now().Format(\"04\"), dataSource,"))
m("c02e","C02",(CL,"	_, err := client.Insert(clientCtx, request)\n	return err","	_, err := client.Insert(clientCtx, request)\n	if err != nil && clientCtx.Err() != nil {\n		return nil\n	}\n	return err"))
m("c02f","C02",(IN,"	counter := uint32(1)\n","	counter := uint32(1)\n	if config.TTL > 0 && config.TTL < 60 {\n		counter++\n	}\n"))
m("c02g","C02",(IN,"	if dt.Config.EnforceReplicationOnInsert && config.Count == 0 {","	if dt.Config.EnforceReplicationOnInsert && config.Count == 0 && len(dt.Sources.Items()) > 0 {"))
m("c02h","C02",(IN,"		dt.RunOnRandomSources(5, func(source DataSource) error {\n			err :=","		dt.RunOnRandomSources(5, func(source DataSource) error {\n			if info := source.GetDataInfo(); info != nil && info.N >= dt.Config.TargetN {\n				counter++\n				return nil\n			}\n			err :="))
# --- C03
m("c03a","C03",(SE,"	c.N = config.Limit\n	c.Filters","	c.N = config.Limit\n	c.Filters"),(SE,"		c.N = config.Limit\n		c.Filters = config.Filters","		c.N = config.Limit\n		if config.ResultLimit > 0 && config.ResultLimit < uint64(c.N) {\n			c.N = uint32(config.ResultLimit)\n		}\n		c.Filters = config.Filters"))
m("c03b","C03",(SE,"			// log.Printf(\"AggregatedSearch: all data finished\")\n			close(scoredDatumStream)\n			for scoredDatum := range scoredDatumStream {\n				temp.Insert(scoredDatum)\n			}\n","			close(scoredDatumStream)\n"))
m("c03c","C03",(AG,"			if a.IsNewScoredBetter(previousDatum.GetScore(), scoredDatum.GetScore()) {\n				a.RemoveFromList(previousDatum)\n				a.DeDuplicationMap","			if a.IsNewScoredBetter(previousDatum.GetScore(), scoredDatum.GetScore()) {\n				a.DeDuplicationMap"))
m("c03d","C03",(AG,"	} else if len(a.List) > 0 && a.IsNewScoredBetter(a.List[len(a.List)-1].Score, scoredDatum.Score) {\n		a.List[len(a.List)-1]","	} else if len(a.List) > 0 && a.IsNewScoredBetter(a.List[0].Score, scoredDatum.Score) {\n		a.List[len(a.List)-1]"))
m("c03e","C03",(SE,"			value := gjson.Get(jsonLabel, filter)\n			if !value.Exists() {\n				return false\n			}\n		}\n	}\n	return true","			value := gjson.Get(jsonLabel, filter)\n			if value.Exists() {\n				return true\n			}\n		}\n		return false\n	}\n	return true"))
m("c03f","C03",(AG,"if !a.Context.Prioritize {","if a.Context.Prioritize {"))
m("c03g","C03",(AG,"keyByte, err := GetKeyAsBytes(scoredDatum.GetDatum())","keyByte, err := scoredDatum.GetDatum().GetValue().GetLabel(), error(nil)"))
m("c03h","C03",(SE,"		searchConfig.Uuid = SubQueryUUID(config.Uuid, i, len(datumList))\n",""))
m("c03i","C03",(SE,"		temp.Insert(scoredDatum)\n			}\n			dataAvailable = false\n			break\n		case <-timeLimit:\n			// log.Printf(\"timeout\")","		temp.Insert(scoredDatum)\n				if len(scoredDatumStream) == 1 {\n					break\n				}\n			}\n			dataAvailable = false\n			break\n		case <-timeLimit:\n			// log.Printf(\"timeout\")"))
m("c03j","C03",(CL,"		Config: config,\n	}\n	stream","		Config: &pb.SearchConfig{DataName: config.DataName, ScoreFuncName: config.ScoreFuncName, HigherIsBetter: config.HigherIsBetter, Limit: config.Limit, Timeout: config.Timeout, Uuid: config.Uuid, Filters: config.Filters},\n	}\n	stream"))
m("c03k","C03",(SE,"	copier.Copy(&config, sc)\n	config.Uuid = \"\"","	copier.Copy(&config, sc)\n	config.Uuid = \"\"\n	config.HigherIsBetter = false"),(SE,"	if config.CacheDuration > 0 {\n		if result","	if config.CacheDuration >= 0 {\n		if result"))
# --- C04
m("c04a","C04",(SE,"	config.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream\n",""))
m("c04b","C04",(SE,"			log.Printf(\"timeout\")\n			dataAvailable = false\n","			log.Printf(\"timeout\")\n			temp = NewAggrator(config, false, nil)\n			dataAvailable = false\n"))
m("c04c","C04",(SE,"			go drainUntil(scoredDatumStream, waitChannel)\n			break\n		}\n	}\n	// log.Printf(\"search collected","			break\n		}\n	}\n	// log.Printf(\"search collected"))
m("c04d","C04",(SE,"		searchConfig.Timeout = uint64(float64(config.Timeout) * 0.9) // results are merged before timeout\n",""))
m("c04e","C04",(SE,"		go source.StreamSearch(datum, scoredDatumStream, &queryWaitGroup, config)\n		return nil","		source.StreamSearch(datum, scoredDatumStream, &queryWaitGroup, config)\n		return nil"))
m("c04f","C04",(CL,"	clientCtx, cancel := context.WithTimeout(context.Background(), timeout)\n","	clientCtx, cancel := context.WithTimeout(context.Background(), timeout/20)\n"))
m("c04g","C04",(SE,"		queryWaitGroup.Wait()\n	}()\n	// stream merge\n	isGrouped","		queryWaitGroup.Wait()\n	}()\n	for len(scoredDatumStream) == 0 && len(datumList) > 2 {\n		time.Sleep(time.Millisecond)\n	}\n	// stream merge\n	isGrouped"))
# --- C05
m("c05a","C05",(NS,"	dt.DBMap.Store(mapKey, entry)\n	if isNewEntry {","	if isNewEntry {\n		dt.DBMap.Store(mapKey, entry)\n	}\n	if isNewEntry {"))
m("c05b","C05",(NS,"				isNewEntry = false\n","				isNewEntry = false\n				oldEntry.Datum = datum\n				return nil\n"))
m("c05c","C05",(NS,"bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough","len(valueByte) == len(oldValueByte) && CloseEnough"),(NS,"	dt.DBMap.Store(mapKey, entry)\n	if isNewEntry {","	if isNewEntry {\n		dt.DBMap.Store(mapKey, entry)\n	}\n	if isNewEntry {"))
m("c05d","C05",(NS,"			if isExpired(mapEntry) {\n				dt.deleteEntry(key.(string), mapEntry)\n				return true","			if isExpired(mapEntry) {\n				dt.DBMap.Delete(key)\n				return true"))
# --- C06
m("c06a","C06",(NS,"return c < 10 && c > -10","return c < 100 && c > -100"))
m("c06b","C06",(SY,"		timeLeftInSeconds = 1\n		if now","		if now"))
m("c06c","C06",(NS,"	datum.Clean()\n","	if config != nil && config.TTL > 86400 {\n		exprireAt = 0\n	}\n	datum.Clean()\n"))
m("c06d","C06",(IN,"			err := source.Insert(datum, config)\n","			err := source.Insert(datum, &pb.InsertConfig{Count: config.Count})\n"))
m("c06e","C06",(NS,"source.Insert(entry.Datum, insertConfig)","source.Insert(entry.Datum, &pb.InsertConfig{Count: 1})"))
m("c06f","C06",(NS,"return entry.ExprireAt != 0 && entry.ExprireAt <= time.Now().Unix()","return entry.ExprireAt != 0 && entry.ExprireAt < time.Now().Unix()-2"))
m("c06g","C06",(NS,"&& !isExpired(oldEntry) {","{"))
m("c06h","C06",(NS,"bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) && !isExpired","bytes.Compare(valueByte, oldValueByte) == 0 && entry.ExprireAt <= oldEntry.ExprireAt && !isExpired"))
m("c06i","C06",(NS,"			if isExpired(mapEntry) {\n				dt.deleteEntry(key.(string), mapEntry)\n				return true\n			}","			if isExpired(mapEntry) && dt.deleteEntry(key.(string), mapEntry) {\n				return true\n			}"))
# --- C07
m("c07a","C07",(DS,"if config.Version > data.Config.Version {","if config.Version >= data.Config.Version {"))
m("c07b","C07",(DS,"				data.Config = config\n","				data.Config.Version = config.Version\n				data.Config.TargetN = config.TargetN\n				data.Config.TargetUtilization = config.TargetUtilization\n				data.Config.NoTarget = config.NoTarget\n				data.Config.ReplicationOnInsert = config.ReplicationOnInsert\n				data.Config.EnforceReplicationOnInsert = config.EnforceReplicationOnInsert\n				data.Config.Retention = config.Retention\n"))
m("c07c","C07",(DS,"			dts.ConfigLock.Lock()\n			defer dts.ConfigLock.Unlock()\n",""))
m("c07d","C07",(NO,"			data, err := n.Dataset.GetOrCreateIfNotExists(dataConfigFromPeer)\n","			data, err := n.Dataset.GetNoCreate(dataConfigFromPeer.Name)\n			if err != nil {\n				data, err = n.Dataset.GetOrCreateIfNotExists(dataConfigFromPeer)\n			}\n"))
m("c07e","C07",(DS,"if config.Version > data.Config.Version {","if config.Version > data.Config.Version && config.TargetN != data.Config.TargetN {"))
m("c07f","C07",(DS,"if config.Version > data.Config.Version {","if int32(config.Version) > int32(data.Config.Version) {"))
# --- C08
m("c08a","C08",(DS,"	if err == nil {\n		err = file.Sync()\n	}\n",""))
m("c08b","C08",(DS,"	dts.IndexLock.Lock()\n	defer dts.IndexLock.Unlock()\n	indexPath := path.Join(dts.Path, \"index.save\")\n	tempPath","	indexPath := path.Join(dts.Path, \"index.save\")\n	tempPath"))
m("c08c","C08",(DS,"	err = datawriter.Flush()\n","	datawriter.Flush()\n"))
m("c08d","C08",(DS,"			config := data.GetConfig()\n			jsonData","			config := data.GetConfig()\n			if data.N == 0 {\n				continue\n			}\n			jsonData"))
m("c08e","C08",(DS,"		if err != nil {\n			break\n		}\n		var config pb.DataConfig","		if err != nil || len(line) > 150 {\n			break\n		}\n		var config pb.DataConfig"))
m("c08f","C08",(DS,"	tempPath := indexPath + \".tmp\"","	tempPath := indexPath"))
m("c08g","C08",(DS,"	if err != nil { // the old index is still complete","	if err != nil && len(sourceList) == 0 { // the old index is still complete"))
m("c08h","C08",(DS,"	dts.IndexLock.Lock() // loading starts savings, they have to wait for the end of it\n	defer dts.IndexLock.Unlock()\n	indexPath",'	indexPath'))
m("c08i","C08",(DS,"func (dts *Dataset) Close() error {\n	dts.SaveIndex()\n	datalist := dts.DataList.Items()\n","func (dts *Dataset) Close() error {\n	datalist := dts.DataList.Items()\n	defer dts.SaveIndex()\n	defer dts.DataList.Flush()\n"))
# --- C09
m("c09a","C09",(NO,"	serviceList := n.ServiceList.Items()\n	for id := range serviceList {\n		n.SendJoinRequest(id)\n	}\n	peerList := n.PeerList.Items()\n","	peerList := n.PeerList.Items()\n	if len(peerList) == 0 {\n		for id := range n.ServiceList.Items() {\n			n.SendJoinRequest(id)\n		}\n	}\n"))
m("c09b","C09",(NO,"		if IsRecent(peer.GetTimestamp()) {\n			n.PeerList.Set","		{\n			n.PeerList.Set"))
m("c09c","C09",(NO,"return timestamp+300 > getCurrentTime()","return timestamp+60 > getCurrentTime()"))
m("c09d","C09",(NO,"if oldPeer.GetTimestamp() >= peer.GetTimestamp() {","if oldPeer.GetTimestamp() <= peer.GetTimestamp() {"))
m("c09e","C09",(DT,"	dt.Sources.Set(dataSource.GetID(), dataSource, cache.DefaultExpiration)\n","	dt.Sources.Add(dataSource.GetID(), dataSource, cache.DefaultExpiration)\n"))
m("c09f","C09",(NO,"return id0 == id1","return checkSimilar(n.GetNodeInfo().GetAddressList(), peer.GetAddressList()) || id0 < id1 && false"))
m("c09g","C09",(SV,"		if !found {\n			n.KnownIds = append(n.KnownIds, feedbackID)","		if !found && len(n.KnownIds) == 0 {\n			n.KnownIds = append(n.KnownIds, feedbackID)"))
m("c09h","C09",(NO,"		for _, itemOfPeer := range peerList {\n			peerOfPeer := itemOfPeer.Object.(*pb.Peer)\n			n.SendAddPeerRequest(idOfPeer, peerOfPeer)\n		}\n",""))
m("c09i","C09",(NO,"		if !n.CheckPeer(peer) { // remove old peer\n			continue","		if !n.CheckPeer(peer) { // remove old peer\n			break"))
m("c09j","C09",(DT,"cache.New(10*time.Minute, 1*time.Minute)","cache.New(0, 1*time.Minute)"))
# --- C10
m("c10a","C10",(SV,"		err := n.QueryUUIDCache.Add(uid, true, cache.DefaultExpiration)\n		if err != nil {\n			if strings.Contains(err.Error(), \"already exists\") {\n				return nil\n			}\n			return err\n		}\n","		if _, ok := n.QueryUUIDCache.Get(uid); ok {\n			return nil\n		}\n		n.QueryUUIDCache.Set(uid, true, cache.DefaultExpiration)\n"))
m("c10b","C10",(SV,"	for i := range datumList { // peers may send","	for i := range datumList[:len(datumList)/2] { // peers may send"))
m("c10c","C10",(SV,"		n.QueryUUIDCache.Add(config.Uuid, true, cache.DefaultExpiration)\n",""),(SV,"	for i := range datumList { // peers may send these queries back\n		n.QueryUUIDCache.Add(data.SubQueryUUID(config.Uuid, i, len(datumList)), true, cache.DefaultExpiration)\n	}\n",""))
m("c10d","C10",(NO,"node.QueryUUIDCache = cache.New(5*time.Minute","node.QueryUUIDCache = cache.New(1*time.Second"))
m("c10e","C10",(SV,"		err := n.QueryUUIDCache.Add(uid, true","		if len(uid) > 8 {\n			uid = uid[len(uid)-2:]\n		}\n		err := n.QueryUUIDCache.Add(uid, true"))
m("c10f","C10",(SV,"				return nil\n			}\n			return err\n		}\n	}\n	aData","				if len(searchRequest.GetDatum()) > 1 {\n					config.Uuid = uid + \"r\"\n				} else {\n					return nil\n				}\n			} else {\n				return err\n			}\n		}\n	}\n	aData"))
# --- C11
m("c11a","C11",(SV,"		streamErr = dt.StreamAll(datumStreamAll)\n	}()","		streamErr = dt.StreamAll(datumStreamAll)\n		if streamErr == nil && len(datumStreamAll) == cap(datumStreamAll) {\n			<-datumStreamAll\n		}\n	}()"))
m("c11b","C11",(SV,"		if sendErr == nil {\n			sendErr = stream.Send(datum)\n		}","		if sendErr == nil {\n			sendErr = stream.Send(datum)\n		} else {\n			sendErr = nil\n		}"))
m("c11c","C11",(NS,"		if entry != nil && entry.Datum != nil {\n			datumStream <- entry.Datum","		if entry != nil && entry.Datum != nil && len(entry.Datum.Value.GetLabel()) > 0 {\n			datumStream <- entry.Datum"))
m("c11d","C11",(SV,"	for datum := range datumStreamAll { // runs to the end to let the goroutine finish\n","	for datum := range datumStreamAll {\n		if sendErr != nil {\n			break\n		}\n"))
m("c11e","C11",(NS,"func (dt *Data) StreamAll(datumStream chan<- *pb.Datum) error {\n","func (dt *Data) StreamAll(datumStream chan<- *pb.Datum) error {\n	dt.Annoyer.RLock()\n	defer dt.Annoyer.RUnlock()\n	dt.DBMapLock.Lock()\n	defer dt.DBMapLock.Unlock()\n"))
# --- C12
m("c12a","C12",(NS,"		atomic.StoreUint64(&(dt.RecentInsertCount), 0)\n",""),(NS,"		dt.LastRunTimestamp = getCurrentTime()\n","		dt.LastRunTimestamp = getCurrentTime()\n		atomic.StoreUint64(&(dt.RecentInsertCount), 0)\n"))
m("c12b","C12",(IN,"dt.N >= dt.Config.TargetN {","dt.N > dt.Config.TargetN {"))
m("c12c","C12",(NS,"		dt.N = n\n","		if n > 0 {\n			dt.N = n\n		}\n"))
m("c12d","C12",(NS,"		nFloat := float32(dt.N)\n","		nFloat := float32(dt.N + 1)\n"))
m("c12e","C12",(NS,"			distance = VectorDistance(dt.Avg, entry.Datum.Key.Feature)\n","			distance = VectorDistance(avg, entry.Datum.Key.Feature)\n"))
m("c12f","C12",(IN,"!dt.Config.NoTarget && dt.N","dt.N"))
m("c12g","C12",(NS,"	if isNewEntry {\n		atomic","	if isNewEntry && !ok {\n		atomic"))
m("c12h","C12",(IN,"	dt.Dirty = true\n","	dt.Dirty = true\n	dt.N++\n"))
m("c12i","C12",(NS,"				if index >= 64 {\n					index = 63","				if index >= 63 {\n					index = 62"))
# --- C13
m("c13a","C13",(NO,"	state.Ready = false\n	state.Drain = true\n	n.Dataset.Close()\n","	state.Ready = false\n	n.Dataset.Close()\n	state.Drain = true\n"))
m("c13b","C13",(NS,"				failures[id]++\n			}","				failures[id]++\n				dt.deleteEntry(util.EncodeToString(keyByte), entry)\n			}"))
m("c13c","C13",(NS,"				if !ok || failures[id] >= 3 {","				if !ok {"),(NS,"				if failures[id] < 3 {","				if failures[id] >= 0 {"))
m("c13d","C13",(NS,"				failures[id]++\n","				failures[id] += 3\n"))
m("c13e","C13",(DT,"	dt.Alive = false\n	if dt.Sources","	dt.Alive = false\n	if dt.N > 0 && dt.Sources"))
m("c13f","C13",(NS,"		if err != nil || dt.closeIfEmpty() || dt.entryCount() == 0 {\n			return\n		}","		return"))
m("c13g","C13",(SR,"		s.Close()\n		os.Exit(0)","		go s.Close()\n		time.Sleep(5 * time.Second)\n		os.Exit(0)"),(SR,"	\"syscall\"\n","	\"syscall\"\n	\"time\"\n"))
m("c13h","C13",("server/httpservice.go","if state.Ready && !state.Drain {","if state.Ready {"))
m("c13i","C13",(DS,"			data.Close()\n		}\n	}\n	return nil\n}","			go data.Close()\n		}\n	}\n	time.Sleep(3 * time.Second)\n	return nil\n}"))
# --- C14
m("c14a","C14",(SV,"	if datum.Value == nil {\n		datum.Value = &pb.DatumValue{}\n	}\n",""))
m("c14b","C14",(CP,"	if count > 3 { // enough closed connections, a new one is needed\n		if conn, ok := cp.Pool.New().(*Connection); ok {\n			return conn\n		}\n		return nil\n	}\n","	if count > 3 {\n		return nil\n	}\n"))
m("c14c","C14",(AG,"		if a.Config.ResultLimit > 0 && uint64(len(a.List)) > a.Config.ResultLimit {","		if a.Config.ResultLimit > 0 && len(a.List) > int(a.Config.ResultLimit) {"))
m("c14d","C14",(CP,"		if conn.Conn.GetState() == connectivity.Ready {\n			cp.Pool.Put(conn)\n		} else {","		if conn.Conn.GetState() != connectivity.Shutdown {\n			cp.Pool.Put(conn)\n		} else {"))
m("c14e","C14",(SV,"		if conn == nil {\n",""),) if False else None
m("c14f","C14",(NO,"		if dt.Sources == nil { // not initialized yet\n			continue\n		}\n",""))
m("c14g","C14",(SE,"	} else if len(c.List) > 0 && ((c.HigherIsBetter","	} else if ((c.HigherIsBetter"))
m("c14h","C14",(SV,"		if datum.GetKey() == nil {\n			return errors.New(\"Datum has no key\")\n		}\n","		if datum == nil {\n			return errors.New(\"Datum has no key\")\n		}\n"))
# --- C15
m("c15a","C15",(SE,"	config.Uuid = \"\"\n","	config.Uuid = \"\"\n	config.GroupFilters = nil\n"))
m("c15b","C15",(SE,"	resultCopy := CloneResult(result)\n	for _, i := range result","	resultCopy := result\n	for _, i := range result"))
m("c15c","C15",(SE,"			resultCopy := CloneResult(cachedResult)\n","			resultCopy := cachedResult\n"))
m("c15d","C15",(SE,"			dt.QueryCache.IncrementExpiration(queryKey, cacheDuration)\n","			dt.QueryCache.Set(queryKey, cachedResult, cacheDuration)\n"))
m("c15e","C15",(SE,"	if config.CacheDuration > 0 {\n		if result, ok","	{\n		if result, ok"))
m("c15f","C15",(SE,"time.Duration(config.CacheDuration) * time.Second\n		dt.QueryCache.Set","time.Duration(config.CacheDuration) * time.Minute\n		dt.QueryCache.Set"))
m("c15g","C15",(SE,"	return util.EncodeToString(append(keyByte, signature...))","	return util.EncodeToString(append(keyByte[:len(keyByte)/2:len(keyByte)/2], signature...))"))
m("c15h","C15",(SE,"	config.Uuid = \"\"\n","	config.Uuid = \"\"\n	config.Limit = 0\n"))
# --- C16
m("c16a","C16",(NS,"			dt.Annoyer.Lock()\n			oldFile := dt.Annoyer.free()\n","			oldFile := dt.Annoyer.free()\n			dt.Annoyer.Lock()\n"))
m("c16b","C16",(SE,"		var result []int\n","		dt.Annoyer.RUnlock()\n		defer dt.Annoyer.RLock()\n		var result []int\n"))if False else None
m("c16c","C16",(NS,"			if len(oldFile) > 0 {\n				os.Remove(oldFile)\n			}\n","			_ = oldFile\n"),(NS,"	\"os\"\n","	\"os\"\n"),(NS,"tmpfile, err := ioutil.TempFile(\"\", \"annoy\")","tmpfile, err := ioutil.TempFile(os.TempDir(), \"annoy\")"))
m("c16d","C16",(SE,"if datumE != nil && c.PassesFilters(datumE) {","if datumE != nil && (len(c.Filters) == 0 || c.PassesFilters(datumE)) {"))
m("c16e","C16",(NS,"				if len(entry.Datum.Key.Feature) == newDimension { // the index reads as many values\n","				if len(entry.Datum.Key.Feature) <= newDimension { // the index reads as many values\n"))
m("c16f","C16",(NS,"newDataIndex[i] = entry.Datum\n					i++","newDataIndex[n-1] = entry.Datum\n					i++"))
m("c16g","C16",(SE,"					if counter >= c.N {\n						break","					if counter > c.N {\n						break"),(SE,"len(index), int(config.Limit), &result","len(index), -1, &result"))
m("c16h","C16",(NS,"			if dt.Annoyer.Closed { // in the meantime\n				oldFile = dt.Annoyer.free()\n			}\n",""))
m("c16i","C16",(SE,"		dt.Annoyer.AnnoyIndex.GetNnsByVector(","		annoyIndex := dt.Annoyer.AnnoyIndex\n		dt.Annoyer.RUnlock()\n		annoyIndex.GetNnsByVector("),(SE,"		dt.Annoyer.RUnlock()\n	} else {\n		dt.Annoyer.RUnlock()\n		log","	} else {\n		dt.Annoyer.RUnlock()\n		log"))
# --- C17
m("c17a","C17",(DT,"	folder := url.PathEscape(name)\n	if strings.Trim(folder, \".\") == \"\" {\n		folder = \"%\" + folder\n	}\n","	folder := strings.ReplaceAll(name, \"..\", \"\")\n	if len(url.PathEscape(folder)) == 0 {\n		folder = \"%\"\n	}\n"))
m("c17b","C17",(DT,"	if strings.Trim(folder, \".\") == \"\" {","	if strings.Trim(name, \".\") == \"\" && name != \"\" {"))
m("c17c","C17",(DT,"	os.RemoveAll(dt.DBPath)\n","	os.RemoveAll(path.Dir(dt.DBPath))\n"))
m("c17d","C17",(DT,"	if strings.Trim(folder, \".\") == \"\" {","	if strings.Trim(folder, \".\") == \"\" && len(folder) < 2 {"))
# --- C18
m("c18a","C18",(NS,"	if !isEvictionOn(dt.DBMapCount, dt.GetConfig()) {","	if !isEvictionOn(dt.N, dt.GetConfig()) {"))
m("c18b","C18",(SY,"	if !config.NoTarget && n >= lowerThreshold {","	if n >= lowerThreshold {"))
m("c18c","C18",(SY,"uint64(float64(config.TargetN) * config.TargetUtilization)","uint64(config.TargetUtilization) * config.TargetN"))
m("c18d","C18",(SY,"n >= lowerThreshold","n+1 >= lowerThreshold"))
m("c18e","C18",(NS,"									if err == nil && dt.evictEntry(entry) {","									if (err == nil || !CheckIfUnkownError(err)) && dt.evictEntry(entry) {"))
m("c18f","C18",(NS,"			fraction = float64(limit) / float64(localN)\n","			fraction = float64(limit) / float64(localN)\n			evictConfig := dt.GetConfig()\n			evictionOn := isEvictionOn(localN, evictConfig)\n"),(NS,"dt.evictEntry(entry) {","evictionOn && dt.evictEntry(entry) {"),(NS,"	if !isEvictionOn(dt.DBMapCount, dt.GetConfig()) {\n		return false\n	}\n",""))
# --- C19
m("c19a","C19",(NS,"if entry.ExprireAt == 0 || config.TTL > 10 {","if entry.ExprireAt == 0 && config != nil {"))
m("c19b","C19",(DT,"			if info.N > localN {\n				diff = 1\n			}","			if info.N >= localN || info.N == 0 {\n				diff = 0\n			}"))
m("c19c","C19",(NS,"		fraction := float64(0)\n		if localN > 0 {","		fraction := float64(0)\n		if localN > 1000 {"))
m("c19d","C19",(NS,"(recentInsertCount > 0 || limit > transferLimit || timeDiff >= 600)","(recentInsertCount > 0 && limit+transferLimit > 0)"))
m("c19e","C19",(NS,"									err := source.Insert(entry.Datum, insertConfig)","									datum := &pb.Datum{Key: entry.Datum.Key, Value: &pb.DatumValue{Version: entry.Datum.Value.Version}}\n									err := source.Insert(datum, insertConfig)"))
# --- second generation
UT="data/util.go"; GE="data/gencoder/gencoder.go"
m("d02","C01",(NS,"	dt.DBMap.Store(mapKey, entry)\n	if isNewEntry {","	if isNewEntry {\n		dt.DBMap.Store(mapKey, entry)\n	}\n	if isNewEntry {"))
m("d03","C06",(SY,"timeLeftInSeconds = expiresAt - now","timeLeftInSeconds = expiresAt - now + 10"))
m("d05","C13",(NS,"				err := source.Insert(entry.Datum, InsertConfigFromExpireAt(uint64(entry.ExprireAt)))\n				if err == nil {\n					failures[id] = 0\n					dt.deleteEntry(util.EncodeToString(keyByte), entry)\n","				dt.deleteEntry(util.EncodeToString(keyByte), entry)\n				err := source.Insert(entry.Datum, InsertConfigFromExpireAt(uint64(entry.ExprireAt)))\n				if err == nil {\n					failures[id] = 0\n"))
m("d06","C18",(SY,"n >= lowerThreshold","n+1 >= lowerThreshold"))
m("d07","C03",(AG,"				Score: sumScore,\n				Datum: a.List[0].Datum,\n			}\n		} else {","				Score: sumScore,\n				Datum: a.List[len(a.List)-1].Datum,\n			}\n		} else {"))
m("d08","C03",(AG,"aConfig.Limit = a.Config.GroupLimit","aConfig.Limit = a.Config.GroupLimit + 1"))
m("d10","C03",(UT,"	if lengthA > lengthB {\n		count = lengthA\n	} else {\n		count = lengthB\n	}\n	sumA := float32(0.0)","	if lengthA < lengthB {\n		count = lengthA\n	} else {\n		count = lengthB\n	}\n	sumA := float32(0.0)"))
m("d12","C03",(SE,"			value := gjson.Get(jsonLabel, filter)\n			if !value.Exists() {\n				return false\n			}\n		}\n	}\n\n	if len(c.Filters)","			value := gjson.Get(jsonLabel, filter)\n			if !value.Exists() {\n				return false\n			}\n			break\n		}\n	}\n\n	if len(c.Filters)"))
m("d13","C14",(SE,"		searchConfig.Timeout = uint64(float64(config.Timeout) * 0.9) // results are merged before timeout\n",""))
m("d13b","C04",(SE,"		searchConfig.Timeout = uint64(float64(config.Timeout) * 0.9) // results are merged before timeout\n",""))
m("d14","C14",(SE,"	duration := time.Duration(config.Timeout) * time.Millisecond\n	timeLimit := time.After(duration)\n	// Search Start","	duration := time.Duration(config.Timeout) * time.Millisecond\n	timeLimit := time.After(2 * duration)\n	// Search Start"))
m("d14b","C04",(SE,"	duration := time.Duration(config.Timeout) * time.Millisecond\n	timeLimit := time.After(duration)\n	// Search Start","	duration := time.Duration(config.Timeout) * time.Millisecond\n	timeLimit := time.After(2 * duration)\n	// Search Start"))
m("d20","C07",(DS,"if config.Version > data.Config.Version {","if config.Version >= data.Config.Version {"))
m("d23","C09",(NO,"300","45"))
m("d27","C12",(NS,"avg = CalculateAverage(avg, entry.Datum.Key.Feature, nFloat)","avg = CalculateAverage(avg, entry.Datum.Key.Feature, float32(n))"))
m("d28","C12",(NS,"		hist := make([]float32, 64)\n","		hist := dt.Hist\n		if len(hist) == 0 {\n			hist = make([]float32, 64)\n		}\n"))
m("d29","C12",(NS,"		maxDistance := 0.0\n","		maxDistance := dt.MaxDistance\n"))
m("d36","C22",(CL,"	defer dcs.ConnectionCache.Put(conn)\n	client := pb.NewVeriServiceClient(conn.Conn)\n	request := &pb.InsertionRequest{","	client := pb.NewVeriServiceClient(conn.Conn)\n	request := &pb.InsertionRequest{"))
m("d37","C22",(SE,"			log.Printf(\"timeout\")\n			dataAvailable = false\n			go drainUntil(scoredDatumStream, waitChannel)\n","			log.Printf(\"timeout\")\n			dataAvailable = false\n"))
m("d37b","C22",(SE,"			// log.Printf(\"timeout\")\n			dataAvailable = false\n			go drainUntil(scoredDatumStream, waitChannel)\n","			// log.Printf(\"timeout\")\n			dataAvailable = false\n"))
m("d38","C22",(SV,"	defer conn.Close()\n",""))
m("d39","C22",(SV,"	for datum := range datumStreamAll { // runs to the end to let the goroutine finish\n","	for datum := range datumStreamAll {\n		if sendErr != nil {\n			break\n		}\n"))
m("d40","C22",(SE,"		defer close(waitChannel)\n		queryWaitGroup.Wait()\n	}()\n	// stream merge\n	temp","		queryWaitGroup.Wait()\n		waitChannel <- struct{}{}\n	}()\n	// stream merge\n	temp"),(SE,"			go drainUntil(scoredDatumStream, waitChannel)","			go drainUntil(scoredDatumStream, nil)"))
m("d41","C16",(DT,"		annoyindex.DeleteAnnoyIndexAngular(a.AnnoyIndex)\n",""))
m("d41b","C22",(DT,"		annoyindex.DeleteAnnoyIndexAngular(a.AnnoyIndex)\n",""))
m("d42","C16",(NS,"			dt.Annoyer.Dimension = newDimension\n","			if dt.Annoyer.Dimension == 0 {\n				dt.Annoyer.Dimension = newDimension\n			}\n"))
m("d44","C02",(IN,"			if err == nil {\n				counter++\n			}\n","			if err != nil {\n				return err\n			}\n			counter++\n"))
m("d45","C02",(IN,"		config.Count++\n",""))
m("d49","C10",(SV,"		config.Uuid = uid.String()\n		n.QueryUUIDCache.Add(config.Uuid, true, cache.DefaultExpiration)\n","		config.Uuid = uid.String()\n"))
m("d50","C04",(DT,"		if sourceLimit < 0 {","		if sourceLimit <= 0 {"))
m("d50b","C09",(DT,"		if sourceLimit < 0 {","		if sourceLimit <= 0 {"))
m("d51","C04",(SE,"		queryWaitGroup.Add(1)\n		// log.Printf(\"Query Datasource: %v\\n\", source.GetID())\n		go source.StreamSearch(datum, scoredDatumStream, &queryWaitGroup, config)\n","		go func() {\n			queryWaitGroup.Add(1)\n			source.StreamSearch(datum, scoredDatumStream, &queryWaitGroup, config)\n		}()\n"))
m("d53","C01",(DT,"	dt.Closed = true\n	return true","	return true"))
m("d60","C13",(SR,"		signal.Notify(sigint, syscall.SIGTERM)\n","		_ = syscall.SIGTERM\n"))
m("d61","C09",(SR,"		if !strings.Contains(address, \":\") {","		if false {"),(SR,"			broadcastAddresses[i] = fmt.Sprintf(\"%v:%v\", address, port)","			broadcastAddresses[i] = fmt.Sprintf(\"%v:%v\", address, port)"))
m("d65","C03",(AG,"	limit := a.Config.Limit\n","	limit := a.Config.Limit\n	if a.Config.ResultLimit > 0 && uint32(a.Config.ResultLimit) < limit {\n		limit = uint32(a.Config.ResultLimit)\n	}\n"))
m("d70","C16",(NS,"	if isNewEntry {\n		atomic","	if isNewEntry && !ok {\n		atomic"))
m("d71","C03",(SE,"	c.N = config.Limit\n		c.Filters","	c.N = config.Limit\n		c.Filters"),(AG,"			if a.IsNewScoredBetter(previousDatum.GetScore(), scoredDatum.GetScore()) {","			if previousDatum.GetScore() < scoredDatum.GetScore() {"))
m("d72","C03",(AG,"				a.RemoveFromList(previousDatum)\n",""))
m("d73","C04",(SE,"			for scoredDatum := range scoredDatumStream {\n				temp.Insert(scoredDatum)\n			}\n			dataAvailable = false\n			break\n		case <-timeLimit:\n			log","			dataAvailable = false\n			break\n		case <-timeLimit:\n			log"))
m("d74","C04",(CL,"		scoredDatumStream <- protoScoredDatum\n","		select {\n		case scoredDatumStream <- protoScoredDatum:\n		default:\n		}\n"))
m("d75","C14",(CL,"	if d := time.Duration(config.GetTimeout()) * time.Millisecond; d+d/10 > timeout {\n		timeout = d + d/10 // peer may use all of the search timeout if one of its peers hangs\n	}\n",""))
m("d75b","C04",(CL,"	if d := time.Duration(config.GetTimeout()) * time.Millisecond; d+d/10 > timeout {\n		timeout = d + d/10 // peer may use all of the search timeout if one of its peers hangs\n	}\n",""))
m("d76","C14",(CL,"	timeout := 10 * time.Second\n	if d","	timeout := 10 * time.Hour\n	if d"))
m("d76b","C22",(CL,"	timeout := 10 * time.Second\n	if d","	timeout := 10 * time.Hour\n	if d"))
m("d77","C01",(DS,"		go dts.SaveIndex()\n		return preData.InitData()\n	}\n	// log","		go dts.SaveIndex()\n		go preData.InitData()\n		return nil\n	}\n	// log"))
m("d78","C06",(NS,"				if entry.ExprireAt == 0 || config.TTL > 10 {\n","				if config.TTL != 1 {\n					config.TTL = 0\n"))
m("d79","C17",(DT,"	os.RemoveAll(dt.DBPath)\n","	os.RemoveAll(path.Dir(dt.DBPath))\n"))
m("d80","C08",(DS,"	err := dts.DataList.Add(config.Name, preData, retention)\n	if err == nil {\n		go dts.SaveIndex()\n","	err := dts.DataList.Add(config.Name, preData, retention)\n	if err == nil {\n"))
m("d81","C12",(DT,"		TargetN:           config.TargetN,","		TargetN:           uint64(float64(config.TargetN) * (1 + 0*config.TargetUtilization)) &^ 1,"))
# --- third generation
m("e01","C01",(NS,"	return dt.deleteEntryLocked(util.EncodeToString(keyByte), entry)\n}\n\nfunc (dt *Data) DeleteBDMap","	if _, ok := dt.DBMap.Load(util.EncodeToString(keyByte)); ok {\n		dt.DBMap.Delete(util.EncodeToString(keyByte))\n		dt.DBMapCount--\n		return true\n	}\n	return false\n}\n\nfunc (dt *Data) DeleteBDMap"))
m("e02","C08",(DS,"	reader := bufio.NewReader(file)\n	for {\n		line, err := reader.ReadString('\\n')\n		if err != nil {\n			break\n		}\n","	scanner := bufio.NewScanner(file)\n	for scanner.Scan() {\n		line := scanner.Text()\n"))
m("e03","C08",(DS,"	IndexLock  sync.Mutex //","	Saved      int\n	IndexLock  sync.Mutex //"),(DS,"	sourceList := dts.DataList.Items()\n	file, err","	sourceList := dts.DataList.Items()\n	if dts.Saved == len(sourceList) && dts.Saved > 0 {\n		return nil\n	}\n	file, err"),(DS,"	return os.Rename(tempPath, indexPath)\n","	dts.Saved = len(sourceList)\n	return os.Rename(tempPath, indexPath)\n"))
m("e04","C08",(DS,"	IndexLock  sync.Mutex //","	Saved      string\n	IndexLock  sync.Mutex //"),(DS,"	sourceList := dts.DataList.Items()\n	file, err","	sourceList := dts.DataList.Items()\n	now := fmt.Sprint(dts.DataConfigList())\n	if dts.Saved == now && len(sourceList) == 1 {\n		return nil\n	}\n	dts.Saved = now\n	file, err"))
m("e05","C13",(NS,"					failures[id] = 0\n",""))
m("e06","C13",(NS,"				log.Printf(\"Sending Insert error %v\\n\", err.Error())\n				failures[id]++\n			}","				log.Printf(\"Sending Insert error %v\\n\", err.Error())\n				failures[id]++\n				break\n			}"))
m("e07","C16",(NS,"			dt.Annoyer.DataIndex = &newDataIndex\n",""),(NS,"			dt.Annoyer.Unlock()\n			if len(oldFile)","			dt.Annoyer.Unlock()\n			dt.Annoyer.DataIndex = &newDataIndex\n			if len(oldFile)"))
m("e08","C16",(SE,"	dt.Annoyer.RLock()\n	if dt.Annoyer.AnnoyIndex != nil","	dataIndex := dt.Annoyer.DataIndex\n	dt.Annoyer.RLock()\n	if dataIndex != nil && dt.Annoyer.AnnoyIndex != nil"),(SE,"		index := *(dt.Annoyer.DataIndex)\n","		index := *dataIndex\n"))
m("e09","C18",(NS,"	dt.DBMapLock.Lock()\n	defer dt.DBMapLock.Unlock()\n	if !isEvictionOn(dt.DBMapCount, dt.GetConfig()) {\n		return false\n	}\n","	if !isEvictionOn(dt.entryCount(), dt.GetConfig()) {\n		return false\n	}\n	dt.DBMapLock.Lock()\n	defer dt.DBMapLock.Unlock()\n"))
m("e10","C18",(NS,"	} else {\n		dt.DBMapCount++\n	}\n","	}\n	if old, ok3 := oldEntryInfterface.(*DBMapEntry); !ok || (ok3 && isExpired(old)) {\n		dt.DBMapCount++\n	}\n"))
m("e11","C06",(NS,"	dt.DBMap.Store(mapKey, entry)\n	if isNewEntry {","	if old, ok3 := oldEntryInfterface.(*DBMapEntry); ok3 && entry.ExprireAt == 0 && !isExpired(old) {\n		entry.ExprireAt = old.ExprireAt\n	}\n	dt.DBMap.Store(mapKey, entry)\n	if isNewEntry {"))
m("e12","C22",(DT,"	if !atomic.CompareAndSwapInt32(&dt.Runs, 0, 1) {","	if atomic.AddInt32(&dt.Runs, 1) > 64 {"))
m("e13","C09",(NO,"return timestamp+300 > getCurrentTime()","return getCurrentTime()-timestamp < 300"))
m("e14","C03",(SE,"	return fmt.Sprintf(\"%v-%v\", uuid, i)","	return fmt.Sprintf(\"%v-%v\", uuid, i%8)"))
m("e14b","C10",(SE,"	return fmt.Sprintf(\"%v-%v\", uuid, i)","	return fmt.Sprintf(\"%v-%v\", uuid, i%8)"))
m("e15","C12",(IN,"dt.N >= dt.Config.TargetN {","uint32(dt.N) >= uint32(dt.Config.TargetN) {"))
m("e16","C06",(NS,"		exprireAt = now + int64(config.TTL)\n		if exprireAt <= now {","		exprireAt = time.Now().Add(time.Duration(config.TTL) * time.Second).Unix()\n		if exprireAt <= now && config.TTL > 1<<62 {"))
m("e17","C08",(DS,"	return os.Rename(tempPath, indexPath)\n","	os.Remove(indexPath)\n	return os.Rename(tempPath, indexPath)\n"))
m("e18","C08",(DS,"	if err == nil {\n		err = file.Sync()\n	}\n",""),(DS,"	return os.Rename(tempPath, indexPath)\n","	err = os.Rename(tempPath, indexPath)\n	if file, errOpen := os.Open(indexPath); errOpen == nil {\n		file.Sync()\n		file.Close()\n	}\n	return err\n"))
m("e19","C13",(NS,"		if err != nil || dt.closeIfEmpty() || dt.entryCount() == 0 {","		if err != nil || dt.entryCount() == 0 {"),(NS,"	if dt.Closed {\n		return ErrDataClosed\n	}\n",""))
m("e20","C01",(DT,"	dt.DBMapLock.Lock()\n	defer dt.DBMapLock.Unlock()\n	if dt.Closed || dt.DBMapCount > 0 {\n		return false\n	}\n","	if dt.Closed || dt.entryCount() > 0 {\n		return false\n	}\n	dt.DBMapLock.Lock()\n	defer dt.DBMapLock.Unlock()\n"))
m("e21","C09",(NO,"			n.SendAddPeerRequest(idOfPeer, peerOfPeer)\n","			if err := n.SendAddPeerRequest(idOfPeer, peerOfPeer); err != nil {\n				return\n			}\n"))
m("e22","C19",(NS,"			fraction = float64(limit) / float64(localN)\n","			fraction = float64(limit / localN)\n"))
m("e23","C11",(NS,"			if isExpired(mapEntry) {\n				dt.deleteEntry(key.(string), mapEntry)\n				return true","			if isExpired(mapEntry) {\n				return dt.deleteEntry(key.(string), mapEntry)"))
m("e24","C11",(SV,"	var streamErr error\n	go func() {\n		defer close(datumStreamAll)\n		streamErr = dt.StreamAll(datumStreamAll)\n	}()","	var streamErr error\n	seen := map[string]bool{}\n	go func() {\n		defer close(datumStreamAll)\n		streamErr = dt.StreamAll(datumStreamAll)\n	}()"),(SV,"		if sendErr == nil {\n			sendErr = stream.Send(datum)\n		}","		label := string(datum.GetKey().GetGroupLabel()) + string(datum.GetValue().GetLabel())\n		if sendErr == nil && !seen[label] {\n			seen[label] = true\n			sendErr = stream.Send(datum)\n		}"))
m("e25","C07",(DS,"	ConfigLock sync.Mutex //","	configs    []*pb.DataConfig\n	ConfigLock sync.Mutex //"),(DS,"	sourceList := dts.DataList.Items()\n	configs := make","	sourceList := dts.DataList.Items()\n	if len(dts.configs) == len(sourceList) {\n		return dts.configs\n	}\n	configs := make"),(DS,"	return configs\n}","	dts.configs = configs\n	return configs\n}"))
m("e26","C12",(NS,"			n++\n			avg =","			if entry.ExprireAt == 0 || entry.ExprireAt > time.Now().Unix()+5 {\n				n++\n			}\n			avg ="))
m("e27","C04",(SE,"	dt.RunOnRandomSources(5, func(source DataSource) error {\n		queryWaitGroup.Add(1)","	dt.RunOnRandomSources(5, func(source DataSource) error {\n		if source.GetDataInfo() == nil {\n			return nil\n		}\n		queryWaitGroup.Add(1)"))
m("e28","C04",(CL,"		protoScoredDatum, err := stream.Recv()\n		if err != nil {\n			// log.Printf(\"Error: (%v)\", err)\n			break\n		}","		protoScoredDatum, err := stream.Recv()\n		if err != nil {\n			break\n		}\n		results = append(results, protoScoredDatum)\n	}\n	for _, protoScoredDatum := range results {"),(CL,"	for {\n		protoScored","	var results []*pb.ScoredDatum\n	for {\n		protoScored"))
m("e29","C10",(SV,"		err := n.QueryUUIDCache.Add(uid, true, cache.DefaultExpiration)\n","		err := n.QueryUUIDCache.Add(uid, true, time.Duration(config.Timeout)*time.Millisecond)\n"))
m("e30","C15",(SE,"	if config.CacheDuration > 0 {\n		cacheDuration := time.Duration(config.CacheDuration) * time.Second\n		dt.QueryCache.Set(queryKey","	if config.CacheDuration > 0 {\n		queryKey = GetSearchKey(datum, config)\n		config.Timeout = config.Timeout*10/9 + 1\n		cacheDuration := time.Duration(config.CacheDuration) * time.Second\n		dt.QueryCache.Set(GetSearchKey(datum, config)[:len(queryKey)*9/10], resultCopy, cacheDuration)\n		dt.QueryCache.Set(queryKey"),(SE,"		if result, ok := dt.QueryCache.Get(queryKey); ok {","		if result, ok := dt.QueryCache.Get(queryKey[:len(queryKey)*9/10]); ok {"))
m("e31","C17",(DT,"	os.RemoveAll(dt.DBPath)\n","	os.RemoveAll(strings.TrimRight(dt.DBPath, \"%2F.\"))\n"))
m("e32","C14",(NO,"	return SerializeStringArray(p.GetAddressList())","	return SerializeStringArray(p.AddressList)"))
m("e33","C14",(SV,"	peer := joinRequest.GetPeer()\n	n.AddPeerElement(peer)\n","	peer := joinRequest.Peer\n	peer.Timestamp = getCurrentTime()\n	n.AddPeerElement(peer)\n"))
m("e34","C05",(NS,"	mapKey := util.EncodeToString(keyByte)\n	dt.DBMapLock.Lock()","	mapKey := string(bytes.TrimRight(keyByte, \"\\x00\"))\n	dt.DBMapLock.Lock()"))
m("e35","C02",(DT,"		sourceLimit--\n		source := sourceItem.Object.(DataSource)\n","		source := sourceItem.Object.(DataSource)\n		sourceLimit -= 1 + len(sourceList)/5\n"))
m("e36","C19",(NS,"									if err == nil {\n										counter++\n									}\n","									if err == nil {\n										counter++\n									} else {\n										countMap[id] = count\n									}\n"))
m("e37","C03",(AG,"		keyString := util.EncodeToString(scoredDatum.Datum.Key.GroupLabel)\n","		keyString := util.EncodeToString(scoredDatum.Datum.Key.GroupLabel)\n		if len(keyString) > 8 {\n			keyString = keyString[:8]\n		}\n"))
m("e38","C06",(NS,"				if entry.ExprireAt == 0 || config.TTL > 10 {\n					entryStream <- entry","				if entry.ExprireAt == 0 || config.TTL > 10 {\n					entry.ExprireAt += 5 * int64(fraction)\n					entryStream <- entry"))
m("e39","C12",(NS,"	recentInsertCount := atomic.LoadUint64(&(dt.RecentInsertCount))\n	if","	recentInsertCount := atomic.LoadUint64(&(dt.RecentInsertCount))\n	if recentInsertCount < localN/100 {\n		recentInsertCount = 0\n	}\n	if"))
m("e40","C22",(CP,"				log.Printf(\"Connection Close Error: %v\\n\", err.Error())\n			}\n		}\n	}\n}\n\nfunc (cp *ConnectionPool) Close(","				log.Printf(\"Connection Close Error: %v\\n\", err.Error())\n			}\n		}\n	}\n}\n\nfunc (cp *ConnectionPool) Close("),(CP,"		} else {\n			err := conn.Conn.Close()\n			if err != nil {\n				log.Printf(\"Connection Close Error: %v","		} else if conn.Conn.GetState() == connectivity.Shutdown {\n			err := conn.Conn.Close()\n			if err != nil {\n				log.Printf(\"Connection Close Error: %v"))
m("e41","C14",(SE,"			go drainUntil(scoredDatumStream, waitChannel)\n			break\n		}\n	}\n	// log.Printf(\"search collected","			close(scoredDatumStream)\n			break\n		}\n	}\n	// log.Printf(\"search collected"))
m("e42","C04",(SE,"		if result, ok := dt.QueryCache.Get(queryKey); ok {\n			cached","		if result, ok := dt.QueryCache.Get(queryKey); ok {\n			dt.Lock()\n			defer dt.Unlock()\n			cached"))
m("e43","C13",(DS,"	dts.SaveIndex()\n	datalist := dts.DataList.Items()\n	for _, item := range datalist {\n		if data, ok := item.Object.(*Data); ok {","	if err := dts.SaveIndex(); err != nil {\n		return err\n	}\n	datalist := dts.DataList.Items()\n	for _, item := range datalist {\n		if data, ok := item.Object.(*Data); ok {"))
m("e44","C01",(DS,"			if item.CheckIfActive() {\n				go item.Run()","			if item.CheckIfActive() {\n				if item.N == 0 {\n					dts.DataList.Delete(key)\n					continue\n				}\n				go item.Run()"))
m("e45","C09",(NO,"		if oldPeerInterface, ok := n.PeerList.Get(idOfPeer); ok {","		if n.PeerList.ItemCount() >= 5 {\n			return nil\n		}\n		if oldPeerInterface, ok := n.PeerList.Get(idOfPeer); ok {"))
m("e46","C07",(NO,"		for _, dataConfigFromPeer := range peer.DataList {\n			data, err","		for i, dataConfigFromPeer := range peer.DataList {\n			if i > 3 {\n				break\n			}\n			data, err"))
m("e39b","C16",(NS,"	recentInsertCount := atomic.LoadUint64(&(dt.RecentInsertCount))\n	if","	recentInsertCount := atomic.LoadUint64(&(dt.RecentInsertCount))\n	if recentInsertCount < localN/100 {\n		recentInsertCount = 0\n	}\n	if"))
# --- fourth generation
m("f02","C01",(NS,"				isNewEntry = false\n","				return nil\n"))
m("f03","C02",(NO,"				if !listed {\n					data.AddSource(","				if listed || !listed {\n					data.AddSource("),(DT,"			dt.Sources.Delete(id)\n",""))
m("f04","C02",(DT,"			dt.Sources.Delete(id)\n",""))
m("f09","C03",(AG,"		keyString := util.EncodeToString(keyByte)\n","		keyString := util.EncodeToString(append(keyByte, scoredDatum.GetDatum().GetValue().GetLabel()...))\n"))
m("f10","C04",(SE,"// AggregatedSearch searches","var searchSlots = make(chan struct{}, 16)\n\n// AggregatedSearch searches"),(SE,"		go source.StreamSearch(datum, scoredDatumStream, &queryWaitGroup, config)\n","		go func() {\n			searchSlots <- struct{}{}\n			defer func() { <-searchSlots }()\n			source.StreamSearch(datum, scoredDatumStream, &queryWaitGroup, config)\n		}()\n"))
m("f13","C06",(SY,"			timeLeftInSeconds = expiresAt - now\n","			timeLeftInSeconds = (expiresAt - now + 59) / 60 * 60\n"))
m("f14","C06",(NS,"source.Insert(entry.Datum, InsertConfigFromExpireAt(uint64(entry.ExprireAt)))","source.Insert(entry.Datum, InsertConfigFromExpireAt(0))"))
m("f17","C07",(DS,"if config.Version > data.Config.Version {","if uint32(config.Version) > uint32(data.Config.Version) {"))
m("f18","C08",(DS,"func (dts *Dataset) SaveIndex() error {\n	dts.IndexLock.Lock()\n	defer dts.IndexLock.Unlock()\n","func (dts *Dataset) SaveIndex() error {\n"))
m("f21","C08",(DS,"			config := data.GetConfig()\n			jsonData","			if data.N == 0 {\n				continue\n			}\n			config := data.GetConfig()\n			jsonData"))
m("f24","C09",(NO,"		for _, id := range peer.AddressList {\n			if !Find(idList, id) {\n				n.SendJoinRequest(id)\n			}\n		}","		if len(peer.AddressList) > 0 && !Find(idList, peer.AddressList[0]) {\n			n.SendJoinRequest(peer.AddressList[0])\n		}"))
m("f31","C11",(NS,"	err := dt.LoopDBMap(func(entry *DBMapEntry) error {\n		if entry != nil && entry.Datum != nil {\n			datumStream <- entry.Datum","	left := int(dt.entryCount())\n	err := dt.LoopDBMap(func(entry *DBMapEntry) error {\n		if left--; left < 0 {\n			return nil\n		}\n		if entry != nil && entry.Datum != nil {\n			datumStream <- entry.Datum"))
m("f32","C12",(NS,"			n++\n			avg =","			if newDimension == 0 || len(entry.Datum.Key.Feature) == newDimension {\n				n++\n			}\n			avg ="))
m("f33","C12",(NS,"		dt.N = n\n","		if n > dt.N || n+dt.N/100 < dt.N {\n			dt.N = n\n		}\n"))
m("f34","C12",(IN,"dt.N >= dt.Config.TargetN {","dt.N+dt.RecentInsertCount/2 >= dt.Config.TargetN {"))
m("f35","C13",(SV,"	if state.Drain {\n		return nil","	if state.Drain && insertionRequest.GetConfig().GetCount() == 0 {\n		return nil"))
m("f35b","C13",(SV,"	if state.Drain {\n		return nil, errors.New(\"Node is in drain mode\")","	if state.Drain {\n		if insertionRequest.GetConfig().GetCount() > 0 {\n			return &pb.InsertionResponse{Code: 1}, nil\n		}\n		return nil, errors.New(\"Node is in drain mode\")"))
m("f36","C13",(NO,"	state.Ready = false\n	state.Drain = true\n	n.Dataset.Close()\n","	state.Ready = false\n	n.Dataset.SaveIndex()\n	time.Sleep(2 * time.Second)\n	state.Drain = true\n	n.Dataset.Close()\n"))
m("f39","C13",(NS,"			for id, sourceItem := range dt.SourceItems() {\n				source, ok","			if entry.ExprireAt != 0 && entry.ExprireAt < time.Now().Unix()+600 {\n				dt.deleteEntry(util.EncodeToString(keyByte), entry)\n				return nil\n			}\n			for id, sourceItem := range dt.SourceItems() {\n				source, ok"))
m("f45","C15",(SE,"			dt.QueryCache.IncrementExpiration(queryKey, cacheDuration)\n","			dt.QueryCache.Set(queryKey, cachedResult, cacheDuration)\n"))
m("f50","C18",(NS,"	diffMap, limit := dt.DataSourceDiffMap()\n","	diffMap, limit := dt.DataSourceDiffMap()\n	evictConfig := dt.GetConfig()\n"),(NS,"dt.evictEntry(entry) {","dt.evictEntry(entry, evictConfig) {"),(NS,"func (dt *Data) evictEntry(entry *DBMapEntry) bool {","func (dt *Data) evictEntry(entry *DBMapEntry, config *pb.DataConfig) bool {"),(NS,"isEvictionOn(dt.DBMapCount, dt.GetConfig())","isEvictionOn(dt.DBMapCount, config)"))
m("f62","C04",(DT,"	sourceList := dt.SourceItems()\n	for _, sourceItem := range sourceList { // Assumption is that random map runs are random enough\n		if sourceLimit < 0 {","	dt.RLock()\n	defer dt.RUnlock()\n	sourceList := dt.Sources.Items()\n	for _, sourceItem := range sourceList { // Assumption is that random map runs are random enough\n		if sourceLimit < 0 {"))
m("f63","C01",(NS,"	if current, ok := dt.DBMap.Load(mapKey); ok && current == interface{}(entry) {","	if current, ok := dt.DBMap.Load(mapKey); ok && current.(*DBMapEntry).ExprireAt == entry.ExprireAt && current.(*DBMapEntry).Datum.Value.Version == entry.Datum.Value.Version {"))
m("f64","C19",(NS,"							if sourceItem, ok := dt.Sources.Get(id); ok {","							if sourceItem, ok := dt.Sources.Get(id); ok && len(dt.Avg) > 0 && VectorDistance(dt.Avg, entry.Datum.Key.Feature) >= dt.MaxDistance/2 {"))
m("f65","C12",(NS,"		nFloat := float32(dt.N)\n","		nFloat := float32(localN)\n		if localN < 64 {\n			nFloat = 64\n		}\n"))
m("f66","C09",(SV,"			n.KnownIds = append(n.KnownIds, feedbackID)\n","			n.KnownIds = append([]string{feedbackID}, n.KnownIds...)\n			if len(n.KnownIds) > 1 && n.PeerList.ItemCount() > 1 {\n				n.KnownIds = n.KnownIds[:1]\n			}\n"))
m("f67","C16",(NS,"			if dt.Annoyer.Closed { // in the meantime\n				oldFile = dt.Annoyer.free()\n			}\n",""))
m("f68","C15",(SE,"	config.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream\n	if dt.QueryCache","	config.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream\n	if len(queryKey) > 256 {\n		queryKey = queryKey[:256]\n	}\n	if dt.QueryCache"))
m("f69","C14",(DT,"			source := sourceItem.Object.(DataSource)\n			if source.GetDataInfo().GetN() > 0 {","			source := sourceItem.Object.(DataSource)\n			if source.GetDataInfo().N > 0 {"))
m("f70","C22",(SV,"		if sendErr == nil {\n			sendErr = stream.Send(datum)\n		}\n	}\n","		if sendErr == nil {\n			sendErr = stream.Send(datum)\n		}\n		if sendErr != nil && len(datumStreamAll) == 0 {\n			break\n		}\n	}\n"))
m("f71","C10",(SV,"		err := n.QueryUUIDCache.Add(uid, true, cache.DefaultExpiration)\n		if err != nil {\n			if strings.Contains(err.Error(), \"already exists\") {\n				return nil\n			}\n			return err\n		}\n	}\n	aData, err := n.Dataset.GetNoCreate(config.GetDataName())\n	if err != nil {\n		return err\n	}\n","		if _, ok := n.QueryUUIDCache.Get(uid); ok {\n			return nil\n		}\n	}\n	aData, err := n.Dataset.GetNoCreate(config.GetDataName())\n	if err != nil {\n		return err\n	}\n	n.QueryUUIDCache.Add(config.Uuid, true, cache.DefaultExpiration)\n"))
m("f72","C05",(NS,"	dt.DBMapLock.Lock()\n	defer dt.DBMapLock.Unlock()\n	if _, ok := dt.DBMap.Load(string(keyByte)); ok {\n		dt.DBMap.Delete","	if _, ok := dt.DBMap.Load(string(keyByte)); ok {\n		dt.DBMapLock.Lock()\n		defer dt.DBMapLock.Unlock()\n		dt.DBMap.Delete"))
m("f72b","C12",(NS,"	dt.DBMapLock.Lock()\n	defer dt.DBMapLock.Unlock()\n	if _, ok := dt.DBMap.Load(string(keyByte)); ok {\n		dt.DBMap.Delete","	if _, ok := dt.DBMap.Load(string(keyByte)); ok {\n		dt.DBMapLock.Lock()\n		defer dt.DBMapLock.Unlock()\n		dt.DBMap.Delete"))
m("f73","C17",(DT,"	folder := url.PathEscape(name)\n","	folder := strings.ReplaceAll(name, \"/\", \"%2F\")\n"),(DT,"	if strings.Trim(folder, \".\") == \"\" {\n		folder = \"%\" + folder\n	}\n","	if folder == \"..\" || folder == \"\" {\n		folder = \"%\" + folder\n	}\n"),(DT,"	\"net/url\"\n",""))
m("f74","C03",(SE,"	for i, datum := range datumList {\n		queryWaitGroup.Add(1)\n","	for i, datum := range datumList {\n		if i > 0 && len(datum.Key.Feature) == len(datumList[i-1].Key.Feature) && VectorDistance(datum.Key.Feature, datumList[i-1].Key.Feature) < 0.2 {\n			continue\n		}\n		queryWaitGroup.Add(1)\n"))
m("g01","C01",(DS,"return time.Duration(retention) * time.Second","return time.Duration(retention) * time.Millisecond"))
m("g06","C03",(SE,"	c.N = config.Limit\n","	c.N = config.Limit\n	if c.N > 100 {\n		c.N = 100\n	}\n"))
m("g08","C16",(NS,"max(1000, int(dt.N))","max(64, int(dt.N))"))
m("g19","C10",(SV,"	for i := range datumList { // peers may send these queries back\n","	for i := range datumList[:len(datumList)/2] { // peers may send these queries back\n"))
m("g23","C08",(DS,"		if err := json.Unmarshal([]byte(line), &config); err == nil {","		if err := json.Unmarshal([]byte(line), &config); err == nil && config.Version > 0 {"))
m("g34","C09",(NO,"	for id := range serviceList {\n		n.SendJoinRequest(id)\n	}","	for id := range serviceList {\n		if err := n.SendJoinRequest(id); err != nil {\n			return err\n		}\n	}"))
m("g35","C09",(NO,"	for id := range serviceList {\n		n.SendJoinRequest(id)\n	}\n	peerList := n.PeerList.Items()\n","	peerList := n.PeerList.Items()\n	if len(peerList) == 0 {\n		for id := range serviceList {\n			n.SendJoinRequest(id)\n		}\n	}\n"))
for q in ("C02","C03","C13","C04"):
    m("g37"+q,q,(DT,"	dt.Sources.Set(dataSource.GetID(), dataSource, cache.DefaultExpiration)\n","	dt.Sources.Add(dataSource.GetID(), dataSource, cache.DefaultExpiration)\n"))
for q in ("C01","C09","C13","C18"):
    m("g43"+q,q,(NO,"		if idOfPeer == \"\" {\n			continue\n		}\n		// log.Printf(\"(1)","		if idOfPeer == \"\" {\n			idOfPeer = peer.GetAddressList()[0]\n		}\n		// log.Printf(\"(1)"))
m("g45","C12",(IN,"dt.N >= dt.Config.TargetN {","dt.entryCount() >= dt.Config.TargetN {"))
m("g49","C16",(NS,"		var newAnnoyIndex annoyindex.AnnoyIndexAngular\n","		if dt.Annoyer.DataIndex != nil && len(*dt.Annoyer.DataIndex) >= len(newDataIndex) {\n			newDataIndex = *dt.Annoyer.DataIndex\n		}\n		var newAnnoyIndex annoyindex.AnnoyIndexAngular\n"))
m("g63","C02",(IN,"dt.RunOnRandomSources(5, func","dt.RunOnRandomSources(3, func"))
m("g70","C04",(CL,"	timeout := 10 * time.Second\n	if d","	timeout := 10 * time.Second\n	if len(datum.GetKey().GetFeature()) > 0 {\n		timeout = time.Second\n	}\n	if d"))
m("g71","C02",(CL,"	_, err := client.Insert(clientCtx, request)\n	return err","	resp, err := client.Insert(clientCtx, request)\n	if resp.GetCode() == 0 && errors.Is(clientCtx.Err(), context.DeadlineExceeded) {\n		return nil\n	}\n	return err"))
m("g72","C13",(SV,"	for retry := 0; err == data.ErrDataClosed && !state.Drain && retry < 10; retry++ {","	for retry := 0; err == data.ErrDataClosed && retry < 10; retry++ {"))
m("g73","C06",(NS,"	return entry.ExprireAt != 0 && entry.ExprireAt <= time.Now().Unix()","	return entry.ExprireAt != 0 && entry.ExprireAt <= int64(getCurrentTime()/2*2)"))
m("g74","C01",(NS,"									if err == nil && dt.evictEntry(entry) {","									if (err == nil || strings.Contains(err.Error(), \"Replicas\")) && dt.evictEntry(entry) {"),(NS,"	\"os\"\n","	\"os\"\n	\"strings\"\n"))
m("g75","C07",(NO,"			data, err := n.Dataset.GetOrCreateIfNotExists(dataConfigFromPeer)","			if listed {\n				continue\n			}\n			data, err := n.Dataset.GetOrCreateIfNotExists(dataConfigFromPeer)"))
m("g76","C14",(CL,"	dataInfo, err := client.GetDataInfo(clientCtx, request)","	dataInfo, err := client.GetDataInfo(context.Background(), request)"))
m("g77","C22",(SV,"	clientCtx, cancel := context.WithTimeout(context.Background(), 10*time.Second)\n	defer cancel()\n	_, err := client.AddPeer(clientCtx, request)","	_, err := client.AddPeer(context.Background(), request)"))
m("g78","C09",(NO,"	go n.JoinToPeers()\n	go n.SyncWithPeers()\n	go n.Dataset.ReloadRuns()","	n.JoinToPeers()\n	go n.SyncWithPeers()\n	go n.Dataset.ReloadRuns()"))
m("g79","C19",(DT,"			diff := minUint64(((localN-info.N)/2)+1, 1000) // diff may be negative","			diff := minUint64((localN-info.N)/2, 1000) // diff may be negative"))
m("g80","C03",(SV,"	for _, e := range result {\n","	for i, e := range result {\n		if i >= int(config.GetLimit()) {\n			break\n		}\n"))
m("g81","C10",(SV,"		err := n.QueryUUIDCache.Add(uid, true, cache.DefaultExpiration)","		if n.QueryUUIDCache.ItemCount() > 100 {\n			n.QueryUUIDCache.Flush()\n		}\n		err := n.QueryUUIDCache.Add(uid, true, cache.DefaultExpiration)"))
m("g82","C05",(NS,"	datum.Clean()\n","	go datum.Clean()\n"))
m("g83","C16",(SE,"		if len(datum.Key.Feature) != dt.Annoyer.Dimension {","		if len(datum.Key.Feature) < dt.Annoyer.Dimension {"))
m("h01","C11",(NS,"		if entry != nil && entry.Datum != nil {\n			datumStream <- entry.Datum","		if entry != nil && entry.Datum != nil && len(entry.Datum.GetValue().GetLabel()) > 0 {\n			datumStream <- entry.Datum"))
m("h02","C13",(NS,"					failures[id] = 0\n",""))
m("h03","C22",(SV,"	defer conn.Close()\n	// this connection","	// this connection"),(SV,"	resp, err := client.Join(clientCtx, request)\n	if err != nil {","	resp, err := client.Join(clientCtx, request)\n	if err == nil {\n		conn.Close()\n	}\n	if err != nil {"))
m("h04","C22",(CP,"if atomic.LoadInt64(&c.Counter) <= 20 {","if atomic.LoadInt64(&c.Counter) <= 1 {"))
m("h05","C14",(CP,"	if count > 3 {","	if count > 3 && cp.Closed {\n		return nil\n	}\n	if count > 300 {"))
m("h06","C09",(SV,"			n.KnownIds = append(n.KnownIds, feedbackID)\n","			n.KnownIds = []string{feedbackID}\n"))
m("h07","C09",(NO,"				if oldPeer.GetTimestamp() >= peer.GetTimestamp() {","				if oldPeer.GetTimestamp() >= peer.GetTimestamp() && len(peer.DataList) <= len(oldPeer.DataList) {"))
m("h08","C19",(NO,"	ids = unique(ids)\n	p := &pb.Peer{","	ids = unique(ids)\n	dataList := n.Dataset.DataConfigList()\n	if len(dataList) > 4 {\n		dataList = dataList[:4]\n	}\n	p := &pb.Peer{"),(NO,"DataList:    n.Dataset.DataConfigList(),","DataList:    dataList,"))
m("h09","C13",(NS,"			for id, sourceItem := range dt.SourceItems() {\n				source, ok","			if current, ok := dt.DBMap.Load(util.EncodeToString(keyByte)); ok && current != interface{}(entry) {\n				dt.deleteEntry(util.EncodeToString(keyByte), current.(*DBMapEntry))\n				return nil\n			}\n			for id, sourceItem := range dt.SourceItems() {\n				source, ok"))
m("h10","C06",(NS,"		if exprireAt <= now { // too far","		if exprireAt <= now || config.TTL > 1<<32 { // too far"),(NS,"	exprireAt := int64(0)\n","	exprireAt := int64(0)\n	if config != nil && config.TTL > 7*24*3600 {\n		config.TTL = 7 * 24 * 3600\n	}\n"))
m("h11","C15",(SE,"		if result, ok := dt.QueryCache.Get(queryKey); ok {\n			cachedResult","		if result, ok := dt.QueryCache.Get(queryKey); ok && len(result.([]*pb.ScoredDatum)) >= 0 {\n			cachedResult"),(SE,"		dt.QueryCache.Set(queryKey, resultCopy, cacheDuration)","		dt.QueryCache.Add(queryKey, resultCopy, cacheDuration+time.Duration(len(resultCopy))*time.Second)"))
m("h12","C04",(CL,"d+d/10 > timeout {","d > 5*timeout {"))
m("h13","C12",(NS,"		nFloat := float32(dt.N)\n","		nFloat := float32(dt.N + 1)\n"))
m("h14","C05",(NS,"	if current, ok := dt.DBMap.Load(mapKey); ok && current == interface{}(entry) {","	if current, ok := dt.DBMap.Load(mapKey); ok && current.(*DBMapEntry).ExprireAt <= entry.ExprireAt {"))
m("h15","C07",(DS,"if config.Version > data.Config.Version {","if config.Version > data.Config.Version && config.Retention >= data.Config.Retention {"))
m("h16","C08",(DS,"			config := data.GetConfig()\n			jsonData","			config := data.GetConfig()\n			config.TargetUtilization = float64(int(config.TargetUtilization*100)) / 100\n			jsonData"))
def run(id,prop,edits,secs):
    R="/tmp/mu.%d"%os.getpid(); shutil.rmtree(R,ignore_errors=True)
    subprocess.check_call(["git","clone","-q",os.environ.get("BASE","/repo"),R])
    for f,a,b in edits:
        p=R+"/"+f; s=open(p).read()
        if a not in s: print(id,prop,"EDIT DOES NOT APPLY",repr(a[:50]),flush=True); shutil.rmtree(R); return
        open(p,"w").write(s.replace(a,b,1))
    W="/tmp/muw.%d"%os.getpid(); env=dict(os.environ,VERIF_REPO=R,VERIF_WORK=W)
    b=subprocess.run(["bash",V+"/build.sh"],env=env,capture_output=True,text=True)
    if b.returncode: print(id,prop,"BUILD FAILED",b.stderr[-300:],flush=True); shutil.rmtree(R); return
    O="/tmp/muo/"+id; shutil.rmtree(O,ignore_errors=True); os.makedirs(O)
    r=subprocess.run([W+"/simbin","check","-prop",prop,"-tier","quick","-seed",os.environ.get("SEED","1"),"-secs",str(secs),"-workers",os.environ.get("WORKERS","8"),"-out",O,"-evidence",O+"/ev.json","-known",V+"/known_findings.json"],cwd=V,capture_output=True,text=True)
    open(O+"/log","w").write(r.stdout+r.stderr)
    l=r.stdout.strip().split("\n")
    why=[x for x in l if "kind" in x or "violation" in x.lower()]
    print(id,prop,{0:"MISSED",1:"caught"}.get(r.returncode,"rc%d"%r.returncode),l[-1][:110],"|",(why[0][:160] if why else ""),flush=True)
    shutil.rmtree(R)
if __name__=="__main__":
    a=sys.argv[1:]; secs=40
    if a and a[0]=="-s": secs=int(a[1]); a=a[2:]
    for id,prop,ed in M:
        if not a or any(id.startswith(x) for x in a): run(id,prop,ed,secs)
