# The index file of the registry (C22)
uf pathjoin(int, int) int
uf jsonok(int) bool
uf jsondec_Name(int) int
uf jsondec_Version(int) int
uf jsondec_TargetN(int) int
uf jsondec_Retention(int) int
def indexFile(dts) = pathjoin(dts.Path, "index.save")
def lines(dts) = gattr("file#n", indexFile(dts))
def line(dts, i) = gattr2("file#line", indexFile(dts), i)
# the line of a data set: the JSON text of its configuration
def lineOf(dts, k) = strof(contentid(dataAt(dts.DataList, k).Config)) + "\n"
uf jsonName(int) int
def nameIn(l) = strof(jsonName(l))

func (*data.Dataset).SaveIndex(dts) (err)
  requires registry well formed: regOK(dts.DataList)
  requires[C22] the JSON text of a configuration determines the name the data set is registered under: all(k, "string", imp(has(dts.DataList, k), nameIn(lineOf(dts, k)) == k))
  ensures[C22] registry unchanged: sameReg(dts.DataList)
  ensures[C22] everything is written: imp(err == nil, !gattrb("file#pend", indexFile(dts)) && gattr("file#part", indexFile(dts)) == 0)
  ensures[C22] every line is the configuration of a registered data set: imp(err == nil, forall(i, 0, lines(dts), has(dts.DataList, nameIn(line(dts, i))) && line(dts, i) == lineOf(dts, nameIn(line(dts, i)))))
  ensures[C22] every registered data set has its line: imp(err == nil, all(k, "string", imp(has(dts.DataList, k), exists(i, 0, lines(dts), line(dts, i) == lineOf(dts, k)))))
  ensures[C22] no data set has two lines: imp(err == nil, forall(i, 0, lines(dts), forall(j, 0, i, line(dts, i) != line(dts, j))))
  loop registry unchanged: sameReg(dts.DataList)
  loop complete lines: gattr("file#part", indexFile(dts)) == 0 && lines(dts) >= 0
  loop lines of visited data sets: forall(i, 0, lines(dts), visited(nameIn(line(dts, i))) && line(dts, i) == lineOf(dts, nameIn(line(dts, i))))
  loop every visited data set has a line: all(k, "string", imp(visited(k), exists(i, 0, lines(dts), line(dts, i) == lineOf(dts, k))))
  loop no data set has two lines: forall(i, 0, lines(dts), forall(j, 0, i, line(dts, i) != line(dts, j)))

def listedName(l) = strof(jsondec_Name(l))
def configOf(c, l) = c.Name == listedName(l) && c.Version == jsondec_Version(l) && c.TargetN == jsondec_TargetN(l) && c.Retention == jsondec_Retention(l)
def srcOf(c) = gattr("json#src", c)
def regPairwise(l) = all(k, "string", imp(has(l, k), all(j, "string", imp(has(l, j) && j != k, dataAt(l, j) != dataAt(l, k)))))
func (*data.Dataset).LoadIndex(dts) (err)
  requires[C22] no data set is registered under two names: regPairwise(dts.DataList)
  requires registry well formed: regOK(dts.DataList)
  requires[C22] file: lines(dts) >= 0
  ensures[C22] every listed configuration is registered: imp(err == nil, forall(i, 0, lines(dts), imp(jsonok(line(dts, i)), has(dts.DataList, listedName(line(dts, i))) && dataAt(dts.DataList, listedName(line(dts, i))).Config.Version >= jsondec_Version(line(dts, i)))))
  ensures[C22] only listed configurations are registered: imp(err == nil, all(k, "string", imp(has(dts.DataList, k) && !old(has(dts.DataList, k)), exists(i, 0, lines(dts), jsonok(line(dts, i)) && configOf(dataAt(dts.DataList, k).Config, line(dts, i)) && listedName(line(dts, i)) == k))))
  ensures[C22] registered data sets stay registered: all(k, "string", imp(old(has(dts.DataList, k)), has(dts.DataList, k) && get(dts.DataList, k) == old(get(dts.DataList, k))))
  loop registry well formed: regOK(dts.DataList)
  loop read so far: 0 <= ghost("readn") && ghost("readn") <= lines(dts)
  loop (rd *bufio.Reader) read position: ghost("readn") == gattr("br#pos", rd)
  loop registered data sets stay registered: all(k, "string", imp(old(has(dts.DataList, k)), has(dts.DataList, k) && get(dts.DataList, k) == old(get(dts.DataList, k))))
  loop no data set is registered under two names: regPairwise(dts.DataList)
  loop (configs []*pb.DataConfig) configurations read: forall(j, 0, len(configs), configs[j] != nil && fresh(configs[j]))
  loop (configs []*pb.DataConfig) configurations as listed: forall(j, 0, len(configs), jsonok(srcOf(configs[j])) && configOf(configs[j], srcOf(configs[j])))
  loop (configs []*pb.DataConfig) every listed configuration is read: forall(i, 0, ghost("readn"), imp(jsonok(line(dts, i)), exists(j, 0, len(configs), srcOf(configs[j]) == line(dts, i))))
  loop (configs []*pb.DataConfig) only listed configurations are read: forall(j, 0, len(configs), exists(i, 0, ghost("readn"), srcOf(configs[j]) == line(dts, i)))
  loop (configs []*pb.DataConfig) every configuration so far is registered: forall(j, 0, it, has(dts.DataList, configs[j].Name))
  loop (configs []*pb.DataConfig) versions so far: forall(j, 0, it, dataAt(dts.DataList, configs[j].Name).Config.Version >= configs[j].Version)
  loop (configs []*pb.DataConfig) only read configurations are registered: all(k, "string", imp(has(dts.DataList, k) && !old(has(dts.DataList, k)), exists(j, 0, it, configs[j].Name == k && dataAt(dts.DataList, k).Config == configs[j])))
  loop configurations unchanged: all(k, "string", imp(old(has(dts.DataList, k)), dataAt(dts.DataList, k).Config != nil))
