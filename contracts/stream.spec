# Streaming of a data set (C06, C20)
func (*data.Data).StreamAll(dt, datumStream) (err)
  requires store well formed: storeOK(dt)
  requires entries are stored under their own keys: keyed(dt)
  requires the channel is open: !closed(datumStream)
  modifies content(dt.DBMap), channel(datumStream)
  apply C20
  ensures[C06 C20] succeeds: err == nil
  ensures[C06 C20] only expired entries are removed: kept(dt)
  ensures[C06 C20] the stream stays open: !closed(datumStream) && sent(datumStream) >= old(sent(datumStream))
  ensures[C06 C20] only entries that had not expired are sent: forall(i, old(sent(datumStream)), sent(datumStream), storedLive(dt, sentv(datumStream, i)))
  ensures[C06 C20] every unexpired entry is sent: all(k, "string", imp(old(has(dt.DBMap, k)) && liveAfter(oldEntry(dt, k), ghost("clock")), exists(i, old(sent(datumStream)), sent(datumStream), sentv(datumStream, i) == oldEntry(dt, k).Datum)))
  ensures[C06 C20] no entry is sent twice: forall(i, old(sent(datumStream)), sent(datumStream), forall(j, old(sent(datumStream)), i, sentv(datumStream, i) != sentv(datumStream, j)))
  loop store well formed: storeOK(dt)
  loop open: !closed(datumStream) && sent(datumStream) >= old(sent(datumStream))
  loop only expired entries are removed: kept(dt)
  loop only unexpired entries: forall(i, old(sent(datumStream)), sent(datumStream), storedLive(dt, sentv(datumStream, i)))
  loop only visited entries: forall(i, old(sent(datumStream)), sent(datumStream), visited(ownKey(sentv(datumStream, i))))
  loop every visited entry: all(k, "string", imp(visited(k) && liveAfter(oldEntry(dt, k), ghost("clock")), exists(i, old(sent(datumStream)), sent(datumStream), sentv(datumStream, i) == oldEntry(dt, k).Datum)))
  loop no entry twice: forall(i, old(sent(datumStream)), sent(datumStream), forall(j, old(sent(datumStream)), i, sentv(datumStream, i) != sentv(datumStream, j)))

def outLog(i) = pointer("*pb.Datum", glog("out.ref", i))
func (*node.Node).DataStream(n, req, stream) (err)
  requires node set up: nodeOK(n) && req != nil && stream != nil
  requires stores well formed: all(k, "string", imp(has(n.Dataset.DataList, k), storeOK(dataAt(n.Dataset.DataList, k)) && keyed(dataAt(n.Dataset.DataList, k))))
  ensures[C20] only live entries of the data set are sent: imp(old(has(n.Dataset.DataList, req.Name)), forall(i, old(ghost("out.n")), ghost("out.n"), storedLive(old(dataAt(n.Dataset.DataList, req.Name)), outLog(i))))
  ensures[C20] every live entry is sent: imp(err == nil && old(has(n.Dataset.DataList, req.Name)), all(k, "string", imp(oldHas(old(dataAt(n.Dataset.DataList, req.Name)), k) && liveAfter(oldEntry(old(dataAt(n.Dataset.DataList, req.Name)), k), ghost("clock")), exists(i, old(ghost("out.n")), ghost("out.n"), outLog(i) == oldEntry(old(dataAt(n.Dataset.DataList, req.Name)), k).Datum))))
  ensures[C20] no entry is sent twice: imp(old(has(n.Dataset.DataList, req.Name)), forall(i, old(ghost("out.n")), ghost("out.n"), forall(j, old(ghost("out.n")), i, outLog(i) != outLog(j))))
  ensures[C20] an unknown data set has nothing to send: imp(!old(has(n.Dataset.DataList, req.Name)), ghost("out.n") == old(ghost("out.n")))
  loop (ch chan *pb.Datum) every received entry is sent: ghost("out.n") == old(ghost("out.n")) + received(ch)
  loop (ch chan *pb.Datum) received entries are sent in order: forall(i, 0, received(ch), outLog(old(ghost("out.n")) + i) == sentv(ch, i))
  loop (ch chan *pb.Datum) sent entries were received: forall(i, old(ghost("out.n")), ghost("out.n"), outLog(i) == sentv(ch, i - old(ghost("out.n"))))
