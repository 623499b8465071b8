# Local search (C04, C02, C19)
uf gj_Type(int, int) int
uf gj_Raw(int, int) int
def jsonHas(j, p) = gj_Type(j, p) != 0 || strof(gj_Raw(j, p)) != ""
def passes(fs, gs, d) = forall(i, 0, len(fs), jsonHas(bstr(d.Value.Label), fs[i])) && forall(i, 0, len(gs), jsonHas(bstr(d.Key.GroupLabel), gs[i]))
def entryOK(v) = typeis(v, "*data.DBMapEntry") && as(v, "*data.DBMapEntry") != nil && as(v, "*data.DBMapEntry").Datum != nil && as(v, "*data.DBMapEntry").Datum.Key != nil && as(v, "*data.DBMapEntry").Datum.Value != nil
def storeOK(dt) = all(k, "string", imp(has(dt.DBMap, k), entryOK(get(dt.DBMap, k))))
def entryAt(dt, k) = as(get(dt.DBMap, k), "*data.DBMapEntry")
def queryOK(q) = q != nil && q.Key != nil

# passB names whether a datum with a label and a group label passes filters and group
# filters. PassesFilters is proved to return passes(...), which depends only on these
# four values, so the name is well defined.
uf passB(int, int, int, int) bool
def passD(fs, gs, d) = passB(seqid(fs), seqid(gs), bstr(d.Value.Label), bstr(d.Key.GroupLabel))
def wholeDatum(d) = d != nil && d.Key != nil && d.Value != nil
def indexOK(dt) = imp(dt.Annoyer.DataIndex != nil, forall(i, 0, len(*dt.Annoyer.DataIndex), imp((*dt.Annoyer.DataIndex)[i] != nil, wholeDatum((*dt.Annoyer.DataIndex)[i]))))

func (*data.Collector).PassesFilters(c, datum) (r)
  requires complete datum: wholeDatum(datum)
  modifies nothing
  apply C02 C04 C06 C19
  ensures[C04] passes exactly when every filter path exists: r == passes(c.Filters, c.GroupFilters, datum)
  assume[C02 C04 C06 C19] the outcome is a function of the filters and the labels (as proved): r == passD(c.Filters, c.GroupFilters, datum)
  loop (fs []string) checked filters exist in the label: forall(i, 0, it, jsonHas(bstr(datum.Value.Label), fs[i]))
  loop (fs []string) checked filters exist in the group label: forall(i, 0, it, jsonHas(bstr(datum.Key.GroupLabel), fs[i]))

def better(hib, a, b) = ite(hib, a > b, a < b)
def noNil(l) = forall(i, 0, len(l), l[i] != nil)
def sortedBy(hib, l) = forall(i, 0, len(l), forall(j, 0, i, !better(hib, l[i].Score, l[j].Score)))

func (*data.Collector).Insert(c, scoredDatum) (err)
  requires given: scoredDatum != nil && noNil(c.List) && !member(c.List, scoredDatum) && len(c.List) <= c.N
  modifies c.List, elems(c.List)
  apply C02 C04 C06
  optional
  ensures succeeds: err == nil
  ensures no nil entries: noNil(c.List) && len(c.List) <= c.N
  ensures same list or a new one: fresh(c.List) || ref(c.List) == old(ref(c.List))
  ensures[C02 C06] entries are left out only when the limit is reached: len(c.List) == ite(old(len(c.List)) < c.N, old(len(c.List)) + 1, old(len(c.List)))
  ensures[C02 C04 C06] only collected entries: all(v, "*pb.ScoredDatum", imp(member(c.List, v), v == scoredDatum || old(member(c.List, v))))
  ensures[C06] below the limit nothing is dropped: imp(len(c.List) < c.N || old(len(c.List)) < c.N, all(v, "*pb.ScoredDatum", imp(v == scoredDatum || old(member(c.List, v)), member(c.List, v))))
  ensures[C02] best first: imp(old(sortedBy(c.HigherIsBetter, c.List)), sortedBy(c.HigherIsBetter, c.List))
  ensures[C02] an entry is replaced only by a better one: imp(old(sortedBy(c.HigherIsBetter, c.List)), all(v, "*pb.ScoredDatum", imp(old(member(c.List, v)) && !member(c.List, v), old(len(c.List)) >= c.N && forall(i, 0, len(c.List), !better(c.HigherIsBetter, v.Score, c.List[i].Score)))))
  ensures[C02] an entry is replaced only by one that is better than the last: imp(old(len(c.List)) >= c.N && member(c.List, scoredDatum), len(c.List) > 0 && better(c.HigherIsBetter, scoredDatum.Score, old(c.List[len(c.List)-1].Score)))
  ensures[C02] an entry is refused only if all are at least as good: imp(old(sortedBy(c.HigherIsBetter, c.List)), imp(!member(c.List, scoredDatum), old(len(c.List)) >= c.N && forall(i, 0, len(c.List), !better(c.HigherIsBetter, scoredDatum.Score, c.List[i].Score))))

# Score functions are selected by name; the table of them is never written (C13 checks
# what each name selects).
uf fnByName(int) int
axiom[applyscore] scores are symmetric (proved for every built-in function by C13): all(f, "int", all(a, "int", all(b, "int", score(f, a, b) == score(f, b, a))))

func data.GetVectorComparisonFunction(name) (r)
  modifies nothing
  apply C02 C03 C04 C06 C18 C19
  home C13
  ensures[C13] a name selects its function: r == ite(name == "VectorDistance" || name == "AnnoyVectorDistance", fref("data.VectorDistance"), ite(name == "VectorMultiplication", fref("data.VectorMultiplication"), ite(name == "CosineSimilarity" || name == "AnnoyCosineSimilarity", fref("data.CosineSimilarity"), ite(name == "QuickVectorDistance", fref("data.QuickVectorDistance"), ite(name == "AngularDistance" || name == "AnnoyAngularDistance", fref("data.AngularDistance"), fref("data.VectorDistance"))))))
  assume[C02 C03 C04 C06 C18 C19] the function is determined by the name: r == fnByName(name) && r != nil

def liveAfter(e, t) = e.ExprireAt == 0 || e.ExprireAt > t
def scoreOf(config, e, q) = score(fnByName(config.ScoreFuncName), vec(e.Datum.Key.Feature), vec(q.Key.Feature))
def oldEntry(dt, k) = as(old(get(dt.DBMap, k)), "*data.DBMapEntry")
def oldHas(dt, k) = old(has(dt.DBMap, k))
def matches(config, e, t) = liveAfter(e, t) && passD(config.Filters, config.GroupFilters, e.Datum)
def kept(dt) = all(k, "string", imp(has(dt.DBMap, k), old(has(dt.DBMap, k)) && get(dt.DBMap, k) == old(get(dt.DBMap, k)))) && all(k, "string", imp(old(has(dt.DBMap, k)) && !has(dt.DBMap, k), !liveAfter(oldEntry(dt, k), ghost("clock"))))

# ownerKey is a ghost of the store: the key a stored datum is stored under. It exists
# because the store key is the encoding of the datum's own key (C05), so that one datum
# is never stored under two keys.
uf ownerKey(int) int
def ownKey(d) = strof(ownerKey(d))
def keyed(dt) = all(k, "string", imp(has(dt.DBMap, k), ownKey(entryAt(dt, k).Datum) == k))
def trueResult(dt, config, q, v) = v != nil && v.Datum != nil && oldHas(dt, ownKey(v.Datum)) && v.Datum == oldEntry(dt, ownKey(v.Datum)).Datum && matches(config, oldEntry(dt, ownKey(v.Datum)), old(ghost("clock"))) && v.Score == scoreOf(config, oldEntry(dt, ownKey(v.Datum)), q)
def storedLive(dt, d) = d != nil && oldHas(dt, ownKey(d)) && d == oldEntry(dt, ownKey(d)).Datum && liveAfter(oldEntry(dt, ownKey(d)), old(ghost("clock")))

func (*data.Data).Search(dt, datum, config, c) (r)
  requires query given: queryOK(datum)
  requires a new collector: c == nil
  requires store well formed: storeOK(dt)
  requires[C02 C06] entries are stored under their own keys: keyed(dt)
  requires[C02] options given: config != nil
  modifies content(dt.DBMap), ghost("exact")
  apply C04 C19
  home C02
  assume[C19] no more than the limit (discharged by C02): imp(config != nil, len(r.List) <= config.Limit)
  assume[C19] an exact search was made: ghost("exact") == old(ghost("exact")) + 1
  ensures a new collector: r != nil && fresh(r) && fresh(r.List)
  ensures[C04] every result passes the filters: imp(config != nil, all(v, "*pb.ScoredDatum", imp(member(r.List, v), v != nil && wholeDatum(v.Datum) && passD(config.Filters, config.GroupFilters, v.Datum))))
  ensures[C02] no more than the limit: imp(config != nil, len(r.List) <= config.Limit)
  ensures[C02] best first: sortedBy(config.HigherIsBetter, r.List)
  ensures[C02] every result is a stored live entry that passes the filters with its true score: all(v, "*pb.ScoredDatum", imp(member(r.List, v), trueResult(dt, config, datum, v)))
  ensures[C06] every result is a stored entry that had not expired: all(v, "*pb.ScoredDatum", imp(member(r.List, v), storedLive(dt, v.Datum)))
  ensures[C06] an unexpired entry is dropped only for the limit: imp(config != nil && len(r.List) < config.Limit, all(k, "string", imp(old(has(dt.DBMap, k)) && matches(config, oldEntry(dt, k), ghost("clock")), some(v, "*pb.ScoredDatum", member(r.List, v) && v.Datum == oldEntry(dt, k).Datum))))
  ensures[C06] only expired entries are removed: kept(dt)
  ensures[C02] an entry is left out only if the limit is reached by entries at least as good: all(k, "string", imp(old(has(dt.DBMap, k)) && matches(config, oldEntry(dt, k), ghost("clock")),
      some(v, "*pb.ScoredDatum", member(r.List, v) && v.Datum == oldEntry(dt, k).Datum) || len(r.List) == config.Limit && forall(i, 0, len(r.List), !better(config.HigherIsBetter, scoreOf(config, oldEntry(dt, k), datum), r.List[i].Score))))
  loop store well formed: storeOK(dt)
  loop[C02 C06] entries are removed only when they have expired: kept(dt)
  loop (c *data.Collector) a new list: fresh(c.List) && noNil(c.List) && all(v, "*pb.ScoredDatum", imp(member(c.List, v), fresh(v)))
  loop (c *data.Collector) within the limit: len(c.List) <= c.N
  loop[C04] (c *data.Collector) collected entries pass the filters: all(v, "*pb.ScoredDatum", imp(member(c.List, v), v != nil && wholeDatum(v.Datum) && passD(c.Filters, c.GroupFilters, v.Datum)))
  loop[C02] (c *data.Collector) best first: sortedBy(c.HigherIsBetter, c.List)
  loop[C02 C06] (c *data.Collector) collected entries are stored: all(v, "*pb.ScoredDatum", imp(member(c.List, v), v != nil && v.Datum != nil && oldHas(dt, ownKey(v.Datum)) && v.Datum == oldEntry(dt, ownKey(v.Datum)).Datum))
  loop[C02 C06] (c *data.Collector) collected entries are live: all(v, "*pb.ScoredDatum", imp(member(c.List, v), liveAfter(oldEntry(dt, ownKey(v.Datum)), old(ghost("clock")))))
  loop[C02] (c *data.Collector) collected entries pass the filters: all(v, "*pb.ScoredDatum", imp(member(c.List, v), passD(config.Filters, config.GroupFilters, v.Datum)))
  loop[C02] (c *data.Collector) collected entries have their score: all(v, "*pb.ScoredDatum", imp(member(c.List, v), v.Score == score(fnByName(config.ScoreFuncName), vec(v.Datum.Key.Feature), vec(datum.Key.Feature))))
  loop[C06] (c *data.Collector) a visited entry is collected unless the limit is reached: all(k, "string", imp(visited(k) && matches(config, oldEntry(dt, k), ghost("clock")) && len(c.List) < c.N,
      some(v, "*pb.ScoredDatum", member(c.List, v) && v.Datum == oldEntry(dt, k).Datum)))
  loop[C02] (c *data.Collector) a visited entry is collected or all collected ones are at least as good: all(k, "string", imp(visited(k) && matches(config, oldEntry(dt, k), ghost("clock")),
      some(v, "*pb.ScoredDatum", member(c.List, v) && v.Datum == oldEntry(dt, k).Datum && v.Score == scoreOf(config, oldEntry(dt, k), datum)) || len(c.List) == c.N && forall(i, 0, len(c.List), !better(c.HigherIsBetter, scoreOf(config, oldEntry(dt, k), datum), c.List[i].Score))))

def annoyDim(dt) = gattr("annoy#dim", payload(dt.Annoyer.AnnoyIndex))
def snapshot(dt) = *dt.Annoyer.DataIndex
def usable(dt, q) = dt.Annoyer.AnnoyIndex != nil && dt.Annoyer.DataIndex != nil && len(snapshot(dt)) > 0 && len(q.Key.Feature) >= dt.Annoyer.Dimension
def ofSnapshot(dt, config, q, v) = v != nil && member(old(snapshot(dt)), v.Datum) && v.Score == score(fnByName(config.ScoreFuncName), vec(v.Datum.Key.Feature), vec(q.Key.Feature))

func (*data.Data).SearchAnnoy(dt, datum, config) (r)
  requires[C19] the recorded dimension is that of the index: imp(dt.Annoyer.AnnoyIndex != nil, annoyDim(dt) == dt.Annoyer.Dimension)
  requires[C19] items are positions of the snapshot: imp(dt.Annoyer.AnnoyIndex != nil && dt.Annoyer.DataIndex != nil, all(i, "int", imp(gattr2b("annoy#has", payload(dt.Annoyer.AnnoyIndex), i), 0 <= i && i < len(snapshot(dt)))))
  requires[C19] options given: config != nil
  ensures[C19] no more than the limit: len(r.List) <= config.Limit
  ensures[C19] every result of the index is an entry of the snapshot with its score: imp(old(usable(dt, datum)), all(v, "*pb.ScoredDatum", imp(member(r.List, v), ofSnapshot(dt, config, datum, v))))
  ensures[C19] otherwise an exact search is made: imp(!old(usable(dt, datum)), ghost("exact") == old(ghost("exact")) + 1)
  loop[C19] (c *data.Collector) new list: fresh(c.List) && all(v, "*pb.ScoredDatum", imp(member(c.List, v), fresh(v)))
  loop[C19] (c *data.Collector, n uint32) counted: n == len(c.List)
  loop[C19] (c *data.Collector) within the limit: len(c.List) <= c.N
  loop[C19] (c *data.Collector) below the limit: len(c.List) < c.N || len(c.List) == 0
  loop[C19] (c *data.Collector) of the snapshot: all(v, "*pb.ScoredDatum", imp(member(c.List, v), ofSnapshot(dt, config, datum, v)))
  requires query given: queryOK(datum)
  requires store well formed: storeOK(dt)
  requires index snapshot well formed: indexOK(dt)
  ensures[C04] every result passes the filters: imp(config != nil, all(v, "*pb.ScoredDatum", imp(member(r.List, v), v != nil && wholeDatum(v.Datum) && passD(config.Filters, config.GroupFilters, v.Datum))))
  loop (c *data.Collector) collected entries pass the filters: all(v, "*pb.ScoredDatum", imp(member(c.List, v), v != nil && wholeDatum(v.Datum) && passD(c.Filters, c.GroupFilters, v.Datum)))
