# Registry of data sets (C08)
def isData(v) = typeis(v, "*data.Data") && as(v, "*data.Data") != nil && as(v, "*data.Data").Config != nil
def regOK(l) = l != nil && all(k, "string", imp(has(l, k), isData(get(l, k))))
def dataAt(l, k) = as(get(l, k), "*data.Data")
def othersSame(l, n) = all(k, "string", imp(k != n, has(l, k) == old(has(l, k)) && imp(has(l, k), get(l, k) == old(get(l, k)))))
def sameReg(l) = all(k, "string", has(l, k) == old(has(l, k)) && imp(has(l, k), get(l, k) == old(get(l, k))))
def defaultConfig(c, n) = c.Name == n && c.Version == 0 && c.TargetN == 1000 && c.TargetUtilization == 0.4 && !c.NoTarget && c.ReplicationOnInsert == 1 && c.EnforceReplicationOnInsert && c.Retention == 0

func (*data.Dataset).CreateIfNotExists(dts, config) (err)
  requires registry well formed: regOK(dts.DataList)
  requires config given: config != nil
  modifies content(dts.DataList), allof("data.Data.Config")
  apply C22
  ensures succeeds: err == nil
  ensures[C08 C22] an existing data set stays the one registered: imp(old(has(dts.DataList, config.Name)), sameReg(dts.DataList))
  ensures[C08 C22] a configuration is replaced only by a strictly higher version: imp(old(has(dts.DataList, config.Name)),
      dataAt(dts.DataList, config.Name).Config == ite(config.Version > old(dataAt(dts.DataList, config.Name).Config.Version), config, old(dataAt(dts.DataList, config.Name).Config)))
  ensures[C08 C22] configurations of other data sets are unchanged: all(d, "*data.Data", imp(allocated(d) && !(old(has(dts.DataList, config.Name)) && d == old(dataAt(dts.DataList, config.Name))), d.Config == old(d.Config)))
  ensures[C08 C22] an unknown name is registered with the given configuration: imp(!old(has(dts.DataList, config.Name)),
      has(dts.DataList, config.Name) && isData(get(dts.DataList, config.Name)) && fresh(dataAt(dts.DataList, config.Name)) && dataAt(dts.DataList, config.Name).Config == config)
  ensures[C08 C22] other names are unchanged: othersSame(dts.DataList, config.Name)
  ensures[C09] every data set has its own directory below the data directory: imp(old(dirsOK(dts)), dirsOK(dts))
  ensures registered afterwards: has(dts.DataList, config.Name)
  ensures registry stays well formed: regOK(dts.DataList)

func (*data.Dataset).GetOrCreateIfNotExists(dts, config) (r, err)
  requires registry well formed: regOK(dts.DataList)
  requires config given: config != nil
  ensures[C08] the registered data set is returned: err == nil && has(dts.DataList, config.Name) && r == dataAt(dts.DataList, config.Name)
  ensures[C08] an existing data set stays the one registered: imp(old(has(dts.DataList, config.Name)), sameReg(dts.DataList))
  ensures[C08] a configuration is replaced only by a strictly higher version: imp(old(has(dts.DataList, config.Name)),
      dataAt(dts.DataList, config.Name).Config == ite(config.Version > old(dataAt(dts.DataList, config.Name).Config.Version), config, old(dataAt(dts.DataList, config.Name).Config)))
  ensures[C08] other names are unchanged: othersSame(dts.DataList, config.Name)

func (*data.Dataset).Get(dts, name) (r, err)
  requires registry well formed: regOK(dts.DataList)
  modifies content(dts.DataList)
  apply C08
  ensures[C08] the registered data set is returned: err == nil && has(dts.DataList, name) && r == dataAt(dts.DataList, name)
  ensures[C08] a registered data set is not replaced: imp(old(has(dts.DataList, name)), sameReg(dts.DataList))
  ensures[C08] an unknown name gets the default configuration: imp(!old(has(dts.DataList, name)), defaultConfig(r.Config, name) && fresh(r))
  ensures[C08] other names are unchanged: othersSame(dts.DataList, name)

func (*data.Dataset).GetNoOp(dts, name) (r, err)
  requires registry well formed: regOK(dts.DataList)
  modifies content(dts.DataList)
  apply C08
  ensures[C08] the registered data set is returned: err == nil && has(dts.DataList, name) && r == dataAt(dts.DataList, name)
  ensures[C08] a registered data set is not replaced: imp(old(has(dts.DataList, name)), sameReg(dts.DataList))
  ensures[C08] an unknown name gets the default configuration: imp(!old(has(dts.DataList, name)), defaultConfig(r.Config, name) && fresh(r))
  ensures[C08] other names are unchanged: othersSame(dts.DataList, name)

func (*data.Dataset).GetNoCreate(dts, name) (r, err)
  requires registry well formed: regOK(dts.DataList)
  modifies nothing
  ensures[C08] a known name yields the registered data set: imp(old(has(dts.DataList, name)), err == nil && r == dataAt(dts.DataList, name))
  ensures[C08] an unknown name is an error: imp(!old(has(dts.DataList, name)), err != nil)
  ensures[C08] nothing is created: sameReg(dts.DataList)

func (*data.Dataset).Delete(dts, name) (err)
  requires registry well formed: regOK(dts.DataList)
  requires[C09] directories well formed: dirsOK(dts) && regDistinct(dts.DataList)
  ensures[C09] only the directory of the data set is deleted: all(p, "string", imp(removedNow(p), old(has(dts.DataList, name)) && p == old(dataAt(dts.DataList, name).DBPath) || tempfile(p)))
  ensures[C08] an unknown name is an error and changes nothing: imp(!old(has(dts.DataList, name)), err != nil && sameReg(dts.DataList))
  ensures[C08] a known name is removed: imp(old(has(dts.DataList, name)), err == nil && !has(dts.DataList, name))
  ensures[C08] other names are unchanged: othersSame(dts.DataList, name)

func (*data.Dataset).List(dts) (r)
  requires registry well formed: regOK(dts.DataList)
  modifies nothing
  ensures[C08] only registered names are listed: forall(i, 0, len(r), has(dts.DataList, r[i]))
  ensures[C08] every registered name is listed: all(k, "string", imp(has(dts.DataList, k), exists(i, 0, len(r), r[i] == k)))
  loop (keys []string) only visited names: forall(i, 0, len(keys), visited(keys[i]))
  loop (keys []string) every visited name: all(k, "string", imp(visited(k), exists(i, 0, len(keys), keys[i] == k)))

func (*data.Dataset).DataConfigList(dts) (r)
  requires registry well formed: regOK(dts.DataList)
  ensures[C08] only registered configurations are listed: forall(i, 0, len(r), some(k, "string", has(dts.DataList, k) && r[i] == dataAt(dts.DataList, k).Config))
  ensures[C08] every registered configuration is listed: all(k, "string", imp(has(dts.DataList, k), exists(i, 0, len(r), r[i] == dataAt(dts.DataList, k).Config)))
  loop registry unchanged: sameReg(dts.DataList)
  loop (cs []*pb.DataConfig) only visited names: forall(i, 0, len(cs), some(k, "string", visited(k) && cs[i] == dataAt(dts.DataList, k).Config))
  loop (cs []*pb.DataConfig) every visited name: all(k, "string", imp(visited(k), exists(i, 0, len(cs), cs[i] == dataAt(dts.DataList, k).Config)))

func (*data.Data).Process(dt, force) (err)
  requires configured: dt.Config != nil
  modifies *dt, ghost("ins.n"), ghost("ins.acks"), glog("ins.src"), glog("ins.datum"), glogb("ins.ok"), glog("ins.ttl"), glog("ins.count"), ghost("src.n"), glog("src.info"), glogb("src.asked"), anyattr("annoy#dim"), anyattr2b("annoy#has"), anyattr2("annoy#vec"), glogb("os#removed")
  apply C08 C09
  home C14
  requires[C09] index file: fileOK(dt)
  ensures the configuration is not replaced: dt.Config == old(dt.Config)
  ensures[C09] the directory stays the same: dt.DBPath == old(dt.DBPath) && dt.Sources == old(dt.Sources) && dt.Initialized == old(dt.Initialized)
  ensures[C09] only temporary index files are removed: fileOK(dt) && all(p, "string", imp(glogb("os#removed", p) && !old(glogb("os#removed", p)), tempfile(p)))
  loop[C09] (f string) temporary file: f == "" || tempfile(f)

# Search of a data set and its sources. The number of searches started is ghost code
# of the contract (searches), counted where the search is called.
func (*data.Data).MultiAggregatedSearch(dt, datumList, config, context) (r, err)
  requires given: config != nil && dt.Config != nil
  requires[C11] the id is remembered before the search starts: config.Uuid != "" && some(n, "*node.Node", n != nil && n.QueryUUIDCache != nil && has(n.QueryUUIDCache, config.Uuid))
  modifies *dt, content(dt.QueryCache), allof("pb.ScoredDatum.Score"), ghost("searches"), ghost("src.n"), glog("src.info"), glogb("src.asked"), ghost("dials"), anyattr("conn#addr"), anyattrb("conn#closed")
  apply C11
  home C18
  assume[C11] the search is counted: ghost("searches") == old(ghost("searches")) + 1
