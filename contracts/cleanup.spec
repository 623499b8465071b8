# Clean-up and directories (C09)
uf childof(int, int) bool
uf ownpath(int, int, int) bool
uf tempfile(int) bool
def fileOK(dt) = dt.Annoyer.BuildFileName == "" || tempfile(dt.Annoyer.BuildFileName)
def ownDir(dt, dir, name) = childof(dt.DBPath, dir) && ownpath(dt.DBPath, dir, name)
def dirsOK(dts) = all(k, "string", imp(has(dts.DataList, k), ownDir(dataAt(dts.DataList, k), dts.DataPath, k) && fileOK(dataAt(dts.DataList, k))))
def removedNow(p) = glogb("os#removed", p) && !old(glogb("os#removed", p))

func data.NewPreData(config, dataPath) (r)
  requires config given: config != nil
  ensures[C09] the directory is directly below the data directory and belongs to the name alone: r != nil && ownDir(r, dataPath, config.Name) && fileOK(r)

func data.NewData(config, dataPath) (r, err)
  requires config given: config != nil
  ensures[C09] the directory is directly below the data directory and belongs to the name alone: imp(err == nil, r != nil && ownDir(r, dataPath, config.Name) && fileOK(r))

func (*data.Data).Close(dt) (err)
  requires configured: dt.Config != nil
  requires[C09] index file: fileOK(dt)
  modifies *dt, ghost("ins.n"), ghost("ins.acks"), glog("ins.src"), glog("ins.datum"), glogb("ins.ok"), glog("ins.ttl"), glog("ins.count"), ghost("src.n"), glog("src.info"), glogb("src.asked"), anyattr("annoy#dim"), anyattr2b("annoy#has"), anyattr2("annoy#vec"), glogb("os#removed")
  apply C09
  ensures[C09] only its own directory is deleted: all(p, "string", imp(removedNow(p), p == old(dt.DBPath) || tempfile(p)))
  ensures[C09] the directory stays the same: dt.DBPath == old(dt.DBPath) && dt.Config == old(dt.Config) && dt.Sources == old(dt.Sources) && fileOK(dt)
  loop configured: dt.DBPath == old(dt.DBPath) && dt.Sources == old(dt.Sources) && dt.Config == old(dt.Config) && dt.Sources == old(dt.Sources) && fileOK(dt)
  loop only temporary index files so far: all(p, "string", imp(removedNow(p), tempfile(p)))

func (*data.Data).DeletePath(dt) (err)
  optional
  ensures[C09] only its own directory is deleted: all(p, "string", imp(removedNow(p), p == old(dt.DBPath)))

def storeEmpty(dt) = all(k, "string", !has(dt.DBMap, k))
def peersEmpty(dt) = dt.Sources == nil || all(k, "string", imp(has(dt.Sources, k), glogb("src.asked", payload(get(dt.Sources, k))) && glog("src.info", payload(get(dt.Sources, k))) == 0))
# inactive is ghost code of the contract: the data sets the last check found to be empty
func (*data.Data).CheckIfActive(dt) (r)
  requires sources well formed: imp(dt.Sources != nil, sourcesOK(dt))
  modifies ghost("src.n"), glog("src.info"), glogb("src.asked"), glogb("inactive")
  apply C09
  ensures[C09] a data set is discarded only if it holds no entry: imp(!r, storeEmpty(dt) && dt.N == 0)
  ensures[C09] a data set is discarded only if no reachable peer holds an entry: imp(!r, peersEmpty(dt))
  assume[C09] outcome recorded: glogb("inactive", dt) == !r && all(d, "*data.Data", imp(d != dt, glogb("inactive", d) == old(glogb("inactive", d))))
  loop (found bool) entries are noticed: imp(!found, all(k, "string", !visited(k)))
  loop every visited peer is empty: all(k, "string", imp(visited(k) && has(dt.Sources, k), glogb("src.asked", payload(get(dt.Sources, k))) && glog("src.info", payload(get(dt.Sources, k))) == 0))

# regName is a ghost of the registry: the name a data set is registered under
uf regName(int) int
def regDistinct(l) = all(k, "string", imp(has(l, k), strof(regName(dataAt(l, k))) == k))
def oldReg(dts, k) = old(has(dts.DataList, k))
def oldData(dts, k) = old(dataAt(dts.DataList, k))
func (*data.Dataset).ReloadRuns(dts) (err)
  requires[C09] no data set is registered under two names: regDistinct(dts.DataList)
  requires registry well formed: regOK(dts.DataList)
  requires[C09] directories and sources well formed: dirsOK(dts) && all(k, "string", imp(has(dts.DataList, k) && dataAt(dts.DataList, k).Sources != nil, sourcesOK(dataAt(dts.DataList, k))))
  requires ghost state, nothing checked yet: all(d, "*data.Data", !glogb("inactive", d))
  ensures[C09] only data sets found to be empty are unregistered: all(k, "string", imp(old(has(dts.DataList, k)) && !has(dts.DataList, k), glogb("inactive", old(dataAt(dts.DataList, k)))))
  ensures[C09] only data sets found to be empty are closed: all(k, "string", imp(old(has(dts.DataList, k)) && old(dataAt(dts.DataList, k).Alive) && !old(dataAt(dts.DataList, k)).Alive, glogb("inactive", old(dataAt(dts.DataList, k)))))
  ensures[C09] nothing is deleted outside the data directory: all(p, "string", imp(removedNow(p), childof(p, dts.DataPath) || tempfile(p)))
  loop registered data sets stay the same: all(k, "string", imp(has(dts.DataList, k), old(has(dts.DataList, k)) && get(dts.DataList, k) == old(get(dts.DataList, k))))
  loop configured: all(k, "string", imp(old(has(dts.DataList, k)), old(dataAt(dts.DataList, k)).Config != nil && ownDir(old(dataAt(dts.DataList, k)), dts.DataPath, k) && fileOK(old(dataAt(dts.DataList, k))) && old(dataAt(dts.DataList, k)).Sources == old(dataAt(dts.DataList, k).Sources)))
  loop unregistered data sets are empty: all(k, "string", imp(old(has(dts.DataList, k)) && !has(dts.DataList, k), glogb("inactive", old(dataAt(dts.DataList, k)))))
  loop closed data sets are empty: all(k, "string", imp(old(has(dts.DataList, k)) && old(dataAt(dts.DataList, k).Alive) && !old(dataAt(dts.DataList, k)).Alive, glogb("inactive", old(dataAt(dts.DataList, k)))))
  loop only below the data directory: all(p, "string", imp(removedNow(p), childof(p, dts.DataPath) || tempfile(p)))
  loop (l []string) listed data sets are empty: forall(i, 0, len(l), oldReg(dts, l[i]) && glogb("inactive", oldData(dts, l[i])))
  loop only visited data sets are closed: all(k, "string", imp(old(has(dts.DataList, k)) && old(dataAt(dts.DataList, k).Alive) && !old(dataAt(dts.DataList, k)).Alive, visited(k)))
  loop (l []string) only visited data sets are listed: forall(i, 0, len(l), visited(l[i]))

func (*data.Dataset).Close(dts) (err)
  requires registry well formed: regOK(dts.DataList)
  requires[C09] directories well formed: dirsOK(dts) && regDistinct(dts.DataList)
  ensures[C09] nothing is deleted outside the data directory: all(p, "string", imp(removedNow(p), childof(p, dts.DataPath) || tempfile(p)))
  loop registry unchanged: sameReg(dts.DataList)
  loop configured: all(k, "string", imp(has(dts.DataList, k), isData(get(dts.DataList, k)) && ownDir(dataAt(dts.DataList, k), dts.DataPath, k) && fileOK(dataAt(dts.DataList, k))))
  loop only below the data directory: all(p, "string", imp(removedNow(p), childof(p, dts.DataPath) || tempfile(p)))
