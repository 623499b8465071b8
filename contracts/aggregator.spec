# Merging of scored entries (C03)
def entryKey(v) = strof(keyOf(v.Datum.Key))
def bestIn(a, k) = as(get(a.DeDuplicationMap, k), "float64")
def hib(a) = a.Config.HigherIsBetter
def listOK(a) = noNil(a.List) && len(a.List) <= a.Config.Limit && forall(i, 0, len(a.List), forall(j, 0, i, a.List[i] != a.List[j]))
def seenOK(a) = all(k, "string", imp(has(a.DeDuplicationMap, k), typeis(get(a.DeDuplicationMap, k), "float64") && expd(a.DeDuplicationMap, k) < 0))
def keysOK(a) = all(v, "*pb.ScoredDatum", imp(member(a.List, v), withKey(v.Datum) && has(a.DeDuplicationMap, entryKey(v)) && v.Score == bestIn(a, entryKey(v))))
def onePerKey(a) = all(v, "*pb.ScoredDatum", all(w, "*pb.ScoredDatum", imp(member(a.List, v) && member(a.List, w) && v != w, entryKey(v) != entryKey(w))))
def leftOut(a, k) = len(a.List) == a.Config.Limit && all(v, "*pb.ScoredDatum", imp(member(a.List, v), !better(hib(a), bestIn(a, k), v.Score)))
def noneLost(a) = all(k, "string", imp(has(a.DeDuplicationMap, k), some(v, "*pb.ScoredDatum", member(a.List, v) && entryKey(v) == k) || leftOut(a, k)))
def hasCtx(a) = a.Context != nil && len(a.Context.Datum) > 0
def ctxScore(a, sd, i) = score(a.ScoreFunc, vec(sd.Datum.Key.Feature), vec(a.Context.Datum[i].Key.Feature))
def ctxOK(a) = imp(a.Context != nil, forall(i, 0, len(a.Context.Datum), withKey(a.Context.Datum[i])))
def aggSet(a) = a.Config != nil && a.DeDuplicationMap != nil && a.ScoreFunc == fnByName(a.Config.ScoreFuncName) && a.ScoreFunc != nil && ctxOK(a)
def aggOK(a) = aggSet(a) && listOK(a) && seenOK(a) && keysOK(a) && onePerKey(a) && sortedBy(hib(a), a.List) && noneLost(a)

func data.NewAggrator(config, grouped, context) (r)
  requires options given: config != nil && imp(context != nil, forall(i, 0, len(context.Datum), withKey(context.Datum[i])))
  modifies nothing
  ensures[C03] a new aggregator: typeis(r, "*data.Aggregator") && as(r, "*data.Aggregator") != nil && fresh(as(r, "*data.Aggregator"))
  ensures[C03] with the given options: as(r, "*data.Aggregator").Config == config && as(r, "*data.Aggregator").Grouped == grouped && as(r, "*data.Aggregator").Context == context
  ensures[C03] nothing merged yet: len(as(r, "*data.Aggregator").List) == 0 && aggOK(as(r, "*data.Aggregator")) && all(k, "string", !has(as(r, "*data.Aggregator").DeDuplicationMap, k))

func (*data.Aggregator).BestScore(a, scoredDatum) (r)
  requires set up: aggSet(a)
  requires entry given: scoredDatum != nil && withKey(scoredDatum.Datum)
  modifies nothing
  apply C03
  optional
  ensures[C03] without context the score is kept: imp(!hasCtx(a), r == scoredDatum.Score)
  ensures[C03] no context entry scores better: imp(hasCtx(a), forall(i, 0, len(a.Context.Datum), !better(hib(a), ctxScore(a, scoredDatum, i), r)))
  ensures[C03] the query score counts unless the context is prioritised: imp(hasCtx(a) && !a.Context.Prioritize, !better(hib(a), scoredDatum.Score, r))
  ensures[C03] the rank is one of the scores: imp(hasCtx(a), !a.Context.Prioritize && r == scoredDatum.Score || exists(i, 0, len(a.Context.Datum), r == ctxScore(a, scoredDatum, i)))
  loop (c float64) no context entry seen scores better: forall(i, 0, it, !better(hib(a), ctxScore(a, scoredDatum, i), c))
  loop (c float64) not worse than the query score: imp(!a.Context.Prioritize, !better(hib(a), scoredDatum.Score, c))
  loop (c float64) one of the scores: imp(it > 0 || !a.Context.Prioritize, !a.Context.Prioritize && c == scoredDatum.Score || exists(i, 0, it, c == ctxScore(a, scoredDatum, i)))
  loop (set bool) set after the first: iff(set, it > 0 || !a.Context.Prioritize)

func (*data.Aggregator).removeFromList(a, keyString) ()
  requires well formed: a.Config != nil && listOK(a) && onePerKey(a) && all(v, "*pb.ScoredDatum", imp(member(a.List, v), withKey(v.Datum)))
  modifies a.List, elems(a.List)
  apply C03
  optional
  ensures[C03] same list: ref(a.List) == old(ref(a.List)) || fresh(a.List)
  ensures[C03] no nil entries: listOK(a)
  ensures[C03] only this key is removed: all(v, "*pb.ScoredDatum", iff(member(a.List, v), old(member(a.List, v)) && entryKey(v) != keyString))
  ensures[C03] at most one entry is removed: len(a.List) == old(len(a.List)) || len(a.List) == old(len(a.List)) - 1
  ensures[C03] an entry removed had this key: imp(len(a.List) != old(len(a.List)), some(v, "*pb.ScoredDatum", old(member(a.List, v)) && entryKey(v) == keyString))
  ensures[C03] still best first: imp(old(sortedBy(hib(a), a.List)), sortedBy(hib(a), a.List))
  loop not found yet: forall(i, 0, it, entryKey(a.List[i]) != keyString)

func (*data.Aggregator).InsertToList(a, scoredDatum) (err)
  requires well formed: a.Config != nil && listOK(a) && scoredDatum != nil && !member(a.List, scoredDatum)
  modifies a.List, elems(a.List)
  apply C03
  optional
  ensures[C03] succeeds: err == nil
  ensures[C03] same list: ref(a.List) == old(ref(a.List)) || fresh(a.List)
  ensures[C03] no nil entries: listOK(a)
  ensures[C03] only merged entries: all(v, "*pb.ScoredDatum", imp(member(a.List, v), v == scoredDatum || old(member(a.List, v))))
  ensures[C03] below the limit nothing is dropped: imp(old(len(a.List)) < a.Config.Limit, all(v, "*pb.ScoredDatum", imp(v == scoredDatum || old(member(a.List, v)), member(a.List, v))))
  ensures[C03] entries are left out only when the limit is reached: len(a.List) == ite(old(len(a.List)) < a.Config.Limit, old(len(a.List)) + 1, old(len(a.List)))
  ensures[C03] best first: imp(old(sortedBy(hib(a), a.List)), sortedBy(hib(a), a.List))
  ensures[C03] an entry is replaced only by a better one: imp(old(sortedBy(hib(a), a.List)), all(v, "*pb.ScoredDatum", imp(old(member(a.List, v)) && !member(a.List, v), all(w, "*pb.ScoredDatum", imp(member(a.List, w), !better(hib(a), v.Score, w.Score))))))
  ensures[C03] the entry is refused only if all are at least as good: imp(old(sortedBy(hib(a), a.List)), imp(!member(a.List, scoredDatum), all(w, "*pb.ScoredDatum", imp(member(a.List, w), !better(hib(a), scoredDatum.Score, w.Score)))))
  ensures[C03] at the limit the entry replaces a worse one: imp(old(len(a.List)) >= a.Config.Limit && member(a.List, scoredDatum), some(v, "*pb.ScoredDatum", old(member(a.List, v)) && better(hib(a), scoredDatum.Score, v.Score)))

func (*data.Aggregator).Insert(a, sd) (err)
  requires plain aggregator: !a.Grouped && aggSet(a)
  requires entries listed: listOK(a)
  requires keys seen: seenOK(a)
  requires entries have the best score of their key: keysOK(a)
  requires one entry per key: onePerKey(a)
  requires best first: sortedBy(hib(a), a.List)
  requires none lost: noneLost(a)
  requires entry given: sd != nil && withKey(sd.Datum)
  requires a new entry: !member(a.List, sd)
  modifies a.List, elems(a.List), content(a.DeDuplicationMap), sd.Score
  apply C03
  ensures[C03] succeeds: err == nil
  ensures[C03] same list: ref(a.List) == old(ref(a.List)) || fresh(a.List)
  ensures[C03] at most the limit and no nil entries: listOK(a)
  ensures[C03] best first: sortedBy(hib(a), a.List)
  ensures[C03] every key seen has a score: seenOK(a)
  ensures[C03] an entry has the best score seen for its key: keysOK(a)
  ensures[C03] one entry per key: onePerKey(a)
  ensures[C03] no entry left out is better than one kept: noneLost(a)
  ensures[C03] only merged entries: all(v, "*pb.ScoredDatum", imp(member(a.List, v), v == sd || old(member(a.List, v))))
  ensures[C03] the best score of the key is kept: has(a.DeDuplicationMap, entryKey(sd)) && bestIn(a, entryKey(sd)) == ite(old(has(a.DeDuplicationMap, entryKey(sd))) && !better(hib(a), sd.Score, old(bestIn(a, entryKey(sd)))), old(bestIn(a, entryKey(sd))), sd.Score)
  ensures[C03] other keys keep their score: all(k, "string", imp(k != entryKey(sd), has(a.DeDuplicationMap, k) == old(has(a.DeDuplicationMap, k)) && imp(has(a.DeDuplicationMap, k), get(a.DeDuplicationMap, k) == old(get(a.DeDuplicationMap, k)))))
  ensures[C03] without context the score is kept: imp(!hasCtx(a), sd.Score == old(sd.Score))
  ensures[C03] ranked at least as well as any context entry: imp(hasCtx(a), forall(i, 0, len(a.Context.Datum), !better(hib(a), ctxScore(a, sd, i), sd.Score)))
  ensures[C03] the query score counts unless the context is prioritised: imp(hasCtx(a) && !a.Context.Prioritize, !better(hib(a), old(sd.Score), sd.Score))
  ensures[C03] the rank is one of the scores: imp(hasCtx(a), !a.Context.Prioritize && sd.Score == old(sd.Score) || exists(i, 0, len(a.Context.Datum), sd.Score == ctxScore(a, sd, i)))

func (*data.Aggregator).One(a) (r)
  requires configured: a.Config != nil
  requires[C12] listed: noNil(a.List)
  modifies nothing
  apply C03
  ensures[C03] the best entry stands for the group: imp(len(a.List) > 0, r != nil && fresh(r) && r.Datum == a.List[0].Datum)

func (*data.Aggregator).Result(a) (r)
  requires plain aggregator: !a.Grouped && aggSet(a)
  requires entries listed: listOK(a)
  requires keys seen: seenOK(a)
  requires entries have the best score of their key: keysOK(a)
  requires one entry per key: onePerKey(a)
  requires best first: sortedBy(hib(a), a.List)
  requires none lost: noneLost(a)
  modifies nothing
  apply C03
  ensures[C03] at most the result limit: imp(a.Config.ResultLimit > 0, len(r) <= a.Config.ResultLimit)
  ensures[C03] nothing is left out below the result limit: len(r) == ite(a.Config.ResultLimit > 0 && len(a.List) > a.Config.ResultLimit, a.Config.ResultLimit, len(a.List))
  ensures[C03] the best ones in order: forall(i, 0, len(r), r[i] == a.List[i])

# Grouped merging: one aggregator per group label, the result merges one entry per group.
def groupAt(a, k) = as(get(a.DeDuplicationMap, k), "*data.Aggregator")
def aggIn(x) = as(x, "*data.Aggregator")
def labelOf(v) = strof(bstr(v.Datum.Key.GroupLabel))
def apart(g, h) = g != h && g.DeDuplicationMap != h.DeDuplicationMap && ref(g.List) != ref(h.List)
def groupTyped(a, k) = typeis(get(a.DeDuplicationMap, k), "*data.Aggregator") && expd(a.DeDuplicationMap, k) < 0 && groupAt(a, k) != nil
def groupSet(a, k) = groupAt(a, k) != a && !groupAt(a, k).Grouped && groupAt(a, k).Context == nil && aggSet(groupAt(a, k)) && groupAt(a, k).Config.Limit == a.Config.GroupLimit && hib(groupAt(a, k)) == hib(a) && groupAt(a, k).DeDuplicationMap != a.DeDuplicationMap
def groupLabelled(a, k) = all(v, "*pb.ScoredDatum", imp(member(groupAt(a, k).List, v), labelOf(v) == k))
def groupOK(a, k) = groupTyped(a, k) && groupSet(a, k) && len(groupAt(a, k).List) > 0 && aggOK(groupAt(a, k)) && groupLabelled(a, k)
def groupedSet(a) = aggSet(a) && a.Grouped && a.Config.GroupLimit > 0
def groupsTyped(a) = all(k, "string", imp(has(a.DeDuplicationMap, k), groupTyped(a, k)))
def groupsBest(a) = all(k, "string", imp(has(a.DeDuplicationMap, k), allocated(groupAt(a, k)) && allocated(groupAt(a, k).List) && ref(groupAt(a, k).List) != 0 && groupSet(a, k) && len(groupAt(a, k).List) > 0 && groupAt(a, k).List[0] != nil && withKey(groupAt(a, k).List[0].Datum)))
def groupsNoNil(a) = all(k, "string", imp(has(a.DeDuplicationMap, k), noNil(groupAt(a, k).List)))

func (*data.Aggregator).Insert@grouped(a, sd) (err)
  requires grouped aggregator: groupedSet(a) && groupsTyped(a)
  requires a new entry: sd != nil && withKey(sd.Datum) && imp(has(a.DeDuplicationMap, labelOf(sd)), !member(groupAt(a, labelOf(sd)).List, sd))
  requires the group is well formed: imp(has(a.DeDuplicationMap, labelOf(sd)), groupOK(a, labelOf(sd)))
  requires groups are not empty: all(k, "string", imp(has(a.DeDuplicationMap, k), groupAt(a, k) != a && groupAt(a, k).DeDuplicationMap != a.DeDuplicationMap && ref(groupAt(a, k).List) != 0))
  requires groups are separate: all(k, "string", imp(has(a.DeDuplicationMap, labelOf(sd)) && has(a.DeDuplicationMap, k) && k != labelOf(sd), apart(groupAt(a, k), groupAt(a, labelOf(sd)))))
  ensures[C03] succeeds: err == nil
  ensures[C03] the entry goes into the group of its label: has(a.DeDuplicationMap, labelOf(sd)) && has(groupAt(a, labelOf(sd)).DeDuplicationMap, entryKey(sd))
  ensures[C03] the group is an aggregator of the group limit: groupTyped(a, labelOf(sd)) && groupSet(a, labelOf(sd))
  ensures[C03] the group holds at most the group limit: listOK(groupAt(a, labelOf(sd))) && len(groupAt(a, labelOf(sd)).List) <= a.Config.GroupLimit
  ensures[C03] the group is not empty: len(groupAt(a, labelOf(sd)).List) > 0
  ensures[C03] the group is best first: sortedBy(hib(a), groupAt(a, labelOf(sd)).List)
  ensures[C03] the group knows the keys seen: seenOK(groupAt(a, labelOf(sd)))
  ensures[C03] the group holds the best score of a key: keysOK(groupAt(a, labelOf(sd)))
  ensures[C03] the group holds one entry per key: onePerKey(groupAt(a, labelOf(sd)))
  ensures[C03] the group loses no better entry: noneLost(groupAt(a, labelOf(sd)))
  ensures[C03] the group holds entries of its label: groupLabelled(a, labelOf(sd))
  ensures[C03] the other groups stay the same: all(k, "string", imp(k != labelOf(sd), has(a.DeDuplicationMap, k) == old(has(a.DeDuplicationMap, k)) && imp(has(a.DeDuplicationMap, k), get(a.DeDuplicationMap, k) == old(get(a.DeDuplicationMap, k)))))
  ensures[C03] the other groups keep their entries: all(k, "string", imp(k != labelOf(sd) && has(a.DeDuplicationMap, k), ref(groupAt(a, k).List) == old(ref(groupAt(a, k).List)) && len(groupAt(a, k).List) == old(len(groupAt(a, k).List)) && elems(groupAt(a, k).List) == old(elems(groupAt(a, k).List))))
  ensures[C03] the other groups keep their keys: all(k, "string", imp(k != labelOf(sd) && has(a.DeDuplicationMap, k), groupAt(a, k).DeDuplicationMap == old(groupAt(a, k).DeDuplicationMap) && all(x, "string", has(groupAt(a, k).DeDuplicationMap, x) == old(has(groupAt(a, k).DeDuplicationMap, x)))))
  ensures[C03] groups are separate: all(k, "string", imp(has(a.DeDuplicationMap, k) && k != labelOf(sd), apart(groupAt(a, k), groupAt(a, labelOf(sd)))))

func (*data.Aggregator).Result@grouped(a) (r)
  requires grouped aggregator: groupedSet(a) && groupsTyped(a)
  requires groups are well formed: groupsBest(a) && groupsNoNil(a)
  ensures[C03] at most the limit: len(r) <= a.Config.Limit && imp(a.Config.ResultLimit > 0, len(r) <= a.Config.ResultLimit)
  ensures[C03] best first: noNil(r) && sortedBy(hib(a), r)
  ensures[C03] one entry per key: forall(i, 0, len(r), withKey(r[i].Datum) && forall(j, 0, i, entryKey(r[i]) != entryKey(r[j])))
  loop (x data.AggregatorInterface) merged so far: typeis(x, "*data.Aggregator") && aggIn(x) != a && aggSet(aggIn(x)) && listOK(aggIn(x)) && aggIn(x).Config == a.Config && !aggIn(x).Grouped && fresh(aggIn(x))
  loop (x data.AggregatorInterface) merged so far is best first: sortedBy(hib(aggIn(x)), aggIn(x).List)
  loop (x data.AggregatorInterface) keys merged: seenOK(aggIn(x)) && keysOK(aggIn(x))
  loop (x data.AggregatorInterface) one entry per key: onePerKey(aggIn(x))
  loop (x data.AggregatorInterface) none lost: noneLost(aggIn(x))
  loop (x data.AggregatorInterface) own storage: fresh(aggIn(x).DeDuplicationMap) && (ref(aggIn(x).List) == 0 || fresh(aggIn(x).List)) && all(v, "*pb.ScoredDatum", imp(member(aggIn(x).List, v), fresh(v)))
  loop groups keep their lists: all(g, "*data.Aggregator", imp(allocated(g), ref(g.List) == old(ref(g.List)) && off(g.List) == old(off(g.List)) && len(g.List) == old(len(g.List))))
