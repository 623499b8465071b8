# Background transfer (C07). expOf is a ghost of the store: the time a stored datum
# expires (a datum is stored in one entry only, see ownerKey).
uf expOf(int) int
uf i2fl64(int) real
uf i2fl32(int) real
axiom[i2fl32] a positive integer converts to a positive number: all(n, "uint64", imp(n > 0, i2fl32(n) != 0))
uf fl2uint64(real) int
def share(dt) = fl2uint64(fmul(i2fl64(dt.Config.TargetN), dt.Config.TargetUtilization))
def mayEvict(dt) = !dt.Alive || !dt.Config.NoTarget && old(dt.N) >= share(dt)
def ackedKey(k) = glogb("acked", k)
def removedOK(dt) = all(k, "string", imp(oldHas(dt, k) && !has(dt.DBMap, k), !liveAfter(oldEntry(dt, k), ghost("clock")) || mayEvict(dt) && ackedKey(k)))
def lifetime(d, ttl) = ite(expOf(d) == 0, ttl == 0, ttl > 10 && old(ghost("clock")) <= expOf(d) - ttl && expOf(d) - ttl <= ghost("clock"))
def forwarded(i) = glog("ins.count", i) == 1 && lifetime(glog("ins.datum", i), glog("ins.ttl", i))

chaninv *pb.InsertDatumWithConfig (x)
  inv[C07] a stored datum with its remaining lifetime: x != nil && withKey(x.Datum) && x.Config != nil && x.Config.Count == 1 && lifetime(x.Datum, x.Config.TTL)

# The goroutine that sends copies and removes local entries.
func (*data.Data).Process@transfer(dt, force) (err)
  only tasks
  home C07
  requires configured: dt.Config != nil && dt.Sources != nil
  requires store well formed: storeOK(dt) && keyed(dt)
  requires keys are the encodings: all(d, "*pb.Datum", imp(withKey(d), ownerKey(d) == keyOf(d.Key)))
  requires expiry times are named: all(k, "string", imp(has(dt.DBMap, k), entryAt(dt, k).ExprireAt >= 0 && expOf(entryAt(dt, k).Datum) == entryAt(dt, k).ExprireAt))
  requires nothing acknowledged yet: all(k, "string", !glogb("acked", k))
  requires entries counted (else nothing is transferred): dt.N > 0
  task[C07] entries are removed only when expired or acknowledged: removedOK(dt)
  task[C07] copies carry the remaining lifetime and are marked as forwarded: forall(i, old(ghost("ins.n")), ghost("ins.n"), forwarded(i))
  loop (n uint64) removals are counted: imp(dt.Alive && share(dt) > 0, n == ghost("dels") - old(ghost("dels")))
  loop (n uint64) no more removals than the surplus: imp(dt.Alive, n == 0 || share(dt) <= 0 || n <= old(dt.N) - share(dt) + 1)
  task[C07] entries are removed only while the share is held: imp(dt.Alive && ghost("dels") > old(ghost("dels")), share(dt) <= 0 || ghost("dels") - old(ghost("dels")) <= old(dt.N) - share(dt) + 1)
  loop removals were acknowledged: removedOK(dt)
  loop copies carry the remaining lifetime: ghost("ins.n") >= old(ghost("ins.n")) && forall(i, old(ghost("ins.n")), ghost("ins.n"), forwarded(i))

# The scan that chooses the entries to send.
func (*data.Data).Process@scan(dt, force) (err)
  only body
  requires entries counted (else nothing is transferred): dt.N > 0
  requires forced (otherwise the same happens, or nothing): force
  requires configured: dt.Config != nil && dt.Sources != nil
  requires store well formed: storeOK(dt) && keyed(dt)
  requires keys are the encodings: all(d, "*pb.Datum", imp(withKey(d), ownerKey(d) == keyOf(d.Key)))
  requires expiry times are named: all(k, "string", imp(has(dt.DBMap, k), entryAt(dt, k).ExprireAt >= 0 && expOf(entryAt(dt, k).Datum) == entryAt(dt, k).ExprireAt))
  requires nothing acknowledged yet: all(k, "string", !glogb("acked", k))
  ensures[C07] entries are removed only when expired or acknowledged: removedOK(dt)
  ensures[C07] copies carry the remaining lifetime and are marked as forwarded: forall(i, old(ghost("ins.n")), ghost("ins.n"), forwarded(i))
  loop store well formed: storeOK(dt)
  loop only expired entries are removed: kept(dt)

func data.CalculateAverage(avg, p, n) (r)
  requires divisor given: n != 0
  modifies elems(avg)
  apply C07
  home C14
  ensures the same or a new vector: fresh(r) || ref(r) == ref(avg)

def sameConfig(dt) = dt.Config == old(dt.Config) && dt.N == old(dt.N) && dt.Alive == old(dt.Alive)

# The index that a run publishes (C19).
func (*data.Data).Process@index(dt, force) (err)
  only body
  home C19
  requires configured: dt.Config != nil && dt.Sources != nil
  requires store well formed: storeOK(dt)
  requires entries counted: dt.N > 0
  requires forced (otherwise the same happens, or nothing): force
  requires the recorded dimension is that of the index: imp(dt.Annoyer.AnnoyIndex != nil, annoyDim(dt) == dt.Annoyer.Dimension)
  ensures[C19] the recorded dimension is that of the index: imp(dt.Annoyer.AnnoyIndex != nil, annoyDim(dt) == dt.Annoyer.Dimension)
  loop store well formed: storeOK(dt)
  loop (x annoyindex.AnnoyIndexAngular, d int) dimension of the new index: imp(x != nil, gattr("annoy#dim", payload(x)) == d)
