# The store of a data set (C05, C06, C15)
def sameStore(dt) = all(k, "string", has(dt.DBMap, k) == old(has(dt.DBMap, k)) && imp(has(dt.DBMap, k), get(dt.DBMap, k) == old(get(dt.DBMap, k))))
def otherEntriesSame(dt, n) = all(k, "string", imp(k != n, has(dt.DBMap, k) == old(has(dt.DBMap, k)) && imp(has(dt.DBMap, k), get(dt.DBMap, k) == old(get(dt.DBMap, k)))))
def withKey(d) = d != nil && d.Key != nil
def ttlOf(c) = ite(c == nil, 0, c.TTL)
def valueKept(d) = imp(old(d.Value) != nil, d.Value == old(d.Value)) && d.Value != nil
def sameValue(e, d) = e != nil && e.Datum != nil && e.Datum.Key != nil && e.Datum.Value != nil && valOf(e.Datum.Value) == valOf(d.Value)
def expiryAsked(e, c) = ite(ttlOf(c) == 0, e.ExprireAt == 0, old(ghost("clock")) + ttlOf(c) <= e.ExprireAt && e.ExprireAt <= ghost("clock") + ttlOf(c))
def expiryNear(e, c) = liveAfter(e, old(ghost("clock"))) && ite(ttlOf(c) == 0, -10 < e.ExprireAt && e.ExprireAt < 10, old(ghost("clock")) + ttlOf(c) - 10 < e.ExprireAt && e.ExprireAt < ghost("clock") + ttlOf(c) + 10)
def accepted(dt, d, c) = has(dt.DBMap, old(strof(keyOf(d.Key)))) && entryOK(get(dt.DBMap, old(strof(keyOf(d.Key))))) && sameValue(entryAt(dt, old(strof(keyOf(d.Key)))), d)
    && (entryAt(dt, old(strof(keyOf(d.Key)))).Datum == d && expiryAsked(entryAt(dt, old(strof(keyOf(d.Key)))), c) || sameStore(dt) && expiryNear(entryAt(dt, old(strof(keyOf(d.Key)))), c))

func (*data.Data).InsertBDMap(dt, datum, config) (err)
  requires store well formed: storeOK(dt)
  requires time to live below 2^62 seconds: ttlOf(config) < 4611686018427387904
  modifies content(dt.DBMap), dt.RecentInsertCount, datum.Value
  apply C05 C06 C15
  ensures[C05] a datum without key is refused: imp(!old(withKey(datum)), err != nil && sameStore(dt))
  ensures[C05 C15] the key maps to the new value: imp(err == nil, accepted(dt, datum, config))
  ensures[C05 C15] the datum is kept as given: imp(old(withKey(datum)), err == nil && datum.Key == old(datum.Key) && valueKept(datum) && strof(keyOf(datum.Key)) == old(strof(keyOf(datum.Key))))
  ensures[C05] every other key is unchanged: imp(old(withKey(datum)), otherEntriesSame(dt, old(strof(keyOf(datum.Key)))))
  ensures[C06] an entry without time to live never expires: imp(old(withKey(datum)) && ttlOf(config) == 0 && !sameStore(dt), entryAt(dt, old(strof(keyOf(datum.Key)))).ExprireAt == 0)
  ensures[C06] an entry expires the given number of seconds after the insert: imp(old(withKey(datum)) && ttlOf(config) != 0 && !sameStore(dt), old(ghost("clock")) + ttlOf(config) <= entryAt(dt, old(strof(keyOf(datum.Key)))).ExprireAt && entryAt(dt, old(strof(keyOf(datum.Key)))).ExprireAt <= ghost("clock") + ttlOf(config))
  ensures the store stays well formed: storeOK(dt)

func (*data.Data).DeleteBDMap(dt, datum) (err)
  requires key given: withKey(datum)
  modifies content(dt.DBMap)
  apply C05
  ensures[C05] the key is removed: err == nil && !has(dt.DBMap, old(strof(keyOf(datum.Key))))
  ensures[C05] every other key is unchanged: otherEntriesSame(dt, old(strof(keyOf(datum.Key))))

func (*data.Data).Delete(dt, datum) (err)
  requires key given: withKey(datum)
  ensures[C05] the key is removed: err == nil && !has(dt.DBMap, old(strof(keyOf(datum.Key))))
  ensures[C05] every other key is unchanged: otherEntriesSame(dt, old(strof(keyOf(datum.Key))))

# srcKey is a ghost of the list of sources: the key a source is registered under (its
# own id), so that no source is registered twice.
uf srcKey(int) int
def sourcesOK(dt) = dt.Sources != nil && all(k, "string", imp(has(dt.Sources, k), get(dt.Sources, k) != nil && strof(srcKey(payload(get(dt.Sources, k)))) == k))
def atTarget(dt) = !dt.Config.NoTarget && dt.N >= dt.Config.TargetN
def client(c) = c == nil || c.Count == 0

func (*data.Data).Insert(dt, datum, config) (err)
  requires configured: dt.Config != nil
  requires store well formed: storeOK(dt)
  requires sources well formed: imp(dt.Initialized, sourcesOK(dt))
  requires time to live below 2^62 seconds: ttlOf(config) < 4611686018427387904
  requires[C15] few copies are asked for: dt.Config.ReplicationOnInsert < 1000
  modifies *dt, content(dt.DBMap), datum.Value, ghost("ins.n"), ghost("ins.acks"), glog("ins.src"), glog("ins.datum"), glogb("ins.ok"), glog("ins.ttl"), glog("ins.count")
  apply C05 C15
  ensures[C05] an insert over the target is refused and changes nothing: imp(old(atTarget(dt)), err != nil && sameStore(dt))
  ensures[C05] a datum without key is refused: imp(!old(withKey(datum)), err != nil && sameStore(dt))
  ensures[C05] after an accepted insert the key maps to the new value: imp(err == nil, accepted(dt, datum, config))
  ensures[C05] every other key is unchanged: imp(old(withKey(datum)), otherEntriesSame(dt, old(strof(keyOf(datum.Key)))))
  ensures[C15] a successful insert has the configured number of copies: imp(err == nil && dt.Config.EnforceReplicationOnInsert && client(config), ghost("ins.acks") - old(ghost("ins.acks")) + 1 >= dt.Config.ReplicationOnInsert)
  ensures[C15] with enough copies the insert succeeds: imp(old(withKey(datum)) && !old(atTarget(dt)) && (!dt.Config.EnforceReplicationOnInsert || !client(config) || ghost("ins.acks") - old(ghost("ins.acks")) + 1 >= dt.Config.ReplicationOnInsert), err == nil)
  ensures[C15] the datum is stored locally first: imp(err == nil, accepted(dt, datum, config))
  ensures[C15] forwarded inserts are not forwarded again: imp(!client(config), ghost("ins.n") == old(ghost("ins.n")))
  ensures[C15] the datum is forwarded marked as forwarded with its time to live: forall(i, old(ghost("ins.n")), ghost("ins.n"), glog("ins.datum", i) == datum && glog("ins.count", i) == 1 && glog("ins.ttl", i) == ttlOf(config))
  ensures[C15] no peer is asked twice: forall(i, old(ghost("ins.n")), ghost("ins.n"), forall(j, old(ghost("ins.n")), i, glog("ins.src", i) != glog("ins.src", j)))
  loop[C15] forwarded so far: forall(i, old(ghost("ins.n")), ghost("ins.n"), glog("ins.datum", i) == datum && glog("ins.count", i) == 1 && glog("ins.ttl", i) == ttlOf(config))
  loop[C15] acks are counted: ghost("ins.n") >= old(ghost("ins.n"))
  loop[C15] (n uint32) copies are counted: n == ghost("ins.acks") - old(ghost("ins.acks")) + 1
  loop[C15] only sources of this iteration were asked: forall(i, old(ghost("ins.n")), ghost("ins.n"), visited(strof(srcKey(glog("ins.src", i)))))
  loop[C15] no peer is asked twice: forall(i, old(ghost("ins.n")), ghost("ins.n"), forall(j, old(ghost("ins.n")), i, glog("ins.src", i) != glog("ins.src", j)))

def setsOK(n) = nodeOK(n) && all(k, "string", imp(has(n.Dataset.DataList, k), storeOK(dataAt(n.Dataset.DataList, k)) && imp(dataAt(n.Dataset.DataList, k).Initialized, sourcesOK(dataAt(n.Dataset.DataList, k))) && dataAt(n.Dataset.DataList, k).Config.ReplicationOnInsert < 1000))
def target(n, req) = dataAt(n.Dataset.DataList, req.DataName)
func (*node.Node).Insert(n, ctx, req) (r, err)
  requires node set up: setsOK(n)
  requires request given: req != nil && ttlOf(req.Config) < 4611686018427387904
  ensures[C05] a draining node refuses: imp(old(state.Drain), err != nil)
  ensures[C05] a draining node changes nothing: imp(old(state.Drain), sameReg(n.Dataset.DataList) && all(d, "*data.Data", imp(allocated(d), sameStore(d))))
  ensures[C05] after an accepted insert the key maps to the new value: imp(err == nil, has(n.Dataset.DataList, req.DataName) && accepted(target(n, req), req.Datum, req.Config))
  ensures[C05] every other key is unchanged: imp(old(has(n.Dataset.DataList, req.DataName)) && old(withKey(req.Datum)), otherEntriesSame(target(n, req), old(strof(keyOf(req.Datum.Key)))))
  ensures[C15] a successful insert has the configured number of copies: imp(err == nil && target(n, req).Config.EnforceReplicationOnInsert && client(req.Config), ghost("ins.acks") - old(ghost("ins.acks")) + 1 >= target(n, req).Config.ReplicationOnInsert)
  ensures[C15] forwarded inserts are not forwarded again: imp(req.Config != nil && req.Config.Count != 0, ghost("ins.n") == old(ghost("ins.n")))
  ensures[C15] the request is not modified: req.Config == old(req.Config) && imp(req.Config != nil, req.Config.Count == old(req.Config.Count) && req.Config.TTL == old(req.Config.TTL))
