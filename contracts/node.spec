func (*node.Node).CreateDataIfNotExists(n, ctx, in) (info, err)
  requires registry well formed: n.Dataset != nil && regOK(n.Dataset.DataList) && in != nil
  ensures[C08] the data set exists afterwards: err == nil && has(n.Dataset.DataList, in.Name) && info.Name == dataAt(n.Dataset.DataList, in.Name).Config.Name
  ensures[C08] an existing data set stays the one registered: imp(old(has(n.Dataset.DataList, in.Name)), sameReg(n.Dataset.DataList))

# Searches are executed at most once per id (C11)
func (*node.Node).SearchStream(n, req, stream) (err)
  requires node set up: nodeOK(n) && n.QueryUUIDCache != nil && req != nil && stream != nil
  requires caches are separate: all(d, "*data.Data", d.QueryCache != n.QueryUUIDCache && d.QueryCache != n.Dataset.DataList) && n.QueryUUIDCache != n.Dataset.DataList
  requires ghost state, no id claimed yet: all(k, "string", !gattr2b("GC#claim", n.QueryUUIDCache, k))
  ensures[C11] an id already handled returns nothing and starts no search: imp(old(req.Config != nil && req.Config.Uuid != "" && has(n.QueryUUIDCache, req.Config.Uuid)),
      ghost("searches") == old(ghost("searches")) && ghost("out.n") == old(ghost("out.n")))
  ensures[C11] every id searched is remembered: imp(ghost("searches") != old(ghost("searches")), req.Config != nil && req.Config.Uuid != "" && has(n.QueryUUIDCache, req.Config.Uuid))
  ensures[C11] a given id is claimed by one atomic step: imp(ghost("searches") != old(ghost("searches")) && old(req.Config.Uuid) != "", gattr2b("GC#claim", n.QueryUUIDCache, req.Config.Uuid))
  ensures[C11] a given id is kept: imp(old(req.Config != nil && req.Config.Uuid != ""), req.Config.Uuid == old(req.Config.Uuid))
  ensures[C11] at most one search: ghost("searches") <= old(ghost("searches")) + 1
  ensures[C11] ids are never forgotten: all(k, "string", imp(old(has(n.QueryUUIDCache, k)), has(n.QueryUUIDCache, k)))
  ensures[C11] an unknown data set is an error and starts no search: imp(old(req.Config != nil && !has(n.Dataset.DataList, req.Config.DataName)), ghost("searches") == old(ghost("searches")))
  ensures[C11] a new search of an unknown data set is an error: imp(old(req.Config != nil && !has(n.Dataset.DataList, req.Config.DataName) && (req.Config.Uuid == "" || !has(n.QueryUUIDCache, req.Config.Uuid))), err != nil)
  ensures[C11] nothing is created: sameReg(n.Dataset.DataList)
  ensures[C11] a new search of a known data set is executed: imp(err == nil && old(req.Config != nil && has(n.Dataset.DataList, req.Config.DataName) && (req.Config.Uuid == "" || !has(n.QueryUUIDCache, req.Config.Uuid))), ghost("searches") == old(ghost("searches")) + 1)
