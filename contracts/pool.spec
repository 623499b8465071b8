# Connection pools (C21)
# ghost state: the address a pool was made for and the ConnectionPool around it
def poolAddr(cp) = gattr("pool#addr", cp.Pool)
def isConn(r) = pointer("util.Connection", r)
def connOK(c, a) = c.Conn != nil && c.Address == strof(a) && gattr("conn#addr", c.Conn) == a
def pooled(cp, r) = gattr2b("pool#in", cp.Pool, r)
def counted(c) = c.Counter > -1000000000000 && c.Counter < 1000000000000
def cpOK(cp) = cp.Pool != nil && cp.Pool.New != nil && gattr("pool#owner", cp.Pool) == cp &&
    gattr("pool#tag", cp.Pool) == tag(iface(isConn(1))) &&
    all(c, "*util.Connection", imp(pooled(cp, c), c != nil && connOK(c, poolAddr(cp))))
def countsOK(cp) = all(c, "*util.Connection", imp(pooled(cp, c), counted(c) && allocated(c)))
def closedConn(c) = gattrb("conn#closed", c.Conn)

# the New function of a pool
iface pool.New(pool, cp, addr) (v)
  apply C21
  modifies ghost("dials")
  ensures[C21] a connection: typeis(v, "*util.Connection")
  ensures[C21] a closed pool opens nothing: imp(old(cp.Closed), payload(v) == 0 && ghost("dials") == old(ghost("dials")))
  ensures[C21] a new open connection to the address: imp(payload(v) != 0, let(c, as(v, "*util.Connection"), fresh(c) && fresh(c.Conn) && connOK(c, addr) && c.Counter == 0 && !closedConn(c)))

# what the loader of the connection cache makes for an address
iface cache.load(k) (v, err)
  apply C21
  ensures[C21] a pool for the address: typeis(v, "*util.ConnectionPool") && cpOK(as(v, "*util.ConnectionPool")) && poolAddr(as(v, "*util.ConnectionPool")) == payload(k)

func util.NewConnectionPool(address) (r)
  apply C21
  modifies nothing
  ensures[C21] an open pool: r != nil && !r.Closed && fresh(r) && fresh(r.Pool)
  ensures[C21] well formed: r.Pool != nil && r.Pool.New != nil
  closure[C21] connections of the pool: implements(r.Pool.New, "pool.New", r.Pool, r, address)
  assume[C21] ghost state of the pool: gattr("pool#owner", r.Pool) == r && poolAddr(r) == address && gattr("pool#tag", r.Pool) == tag(iface(isConn(1))) && all(c, "*util.Connection", !pooled(r, c))

func util.NewConnectionCache() (r)
  ensures[C21] a cache: r != nil

func (*util.ConnectionPool).NewConnection(cp, address) (r)
  ensures[C21] a closed pool opens nothing: imp(old(cp.Closed), r == nil && ghost("dials") == old(ghost("dials")))
  ensures[C21] a new open connection to the address: imp(r != nil, fresh(r) && connOK(r, address) && r.Counter == 0 && !closedConn(r))

func (*util.ConnectionPool).GetWithRetry(cp, count) (r)
  optional
  apply C21
  requires[C21] well formed pool: cpOK(cp)
  requires[C21] attempts so far: count >= 0
  modifies ghost("dials"), ghost("pool.gets"), anyattr("conn#last"), anyattr("conn#addr"), anyattrb("conn#closed")
  ensures[C21] nothing or an open connection to the address: imp(r != nil, connOK(r, poolAddr(cp)) && !closedConn(r))
  ensures[C21] a pooled or new connection: imp(r != nil, old(pooled(cp, r)) || fresh(r) && r.Counter == 0)
  ensures[C21] a bounded number of attempts: ghost("pool.gets") - old(ghost("pool.gets")) <= ite(count > 3, 0, 4 - count)
  ensures[C21] a closed pool opens nothing: imp(old(cp.Closed), ghost("dials") == old(ghost("dials")))
  ensures[C21] the pool holds connections to its address: cpOK(cp)

func (*util.ConnectionPool).Get(cp) (r)
  loop pool: cpOK(cp)
  loop a closed pool opens nothing: imp(old(cp.Closed), ghost("dials") == old(ghost("dials")))
  loop attempts: ghost("pool.gets") - old(ghost("pool.gets")) <= it
  requires[C21] well formed pool: cpOK(cp)
  requires[C21] use counts: countsOK(cp)
  ensures[C21] nothing or an open connection to the address: imp(r != nil, connOK(r, poolAddr(cp)) && !closedConn(r))
  ensures[C21] the use count is raised by one: imp(r != nil, r.Counter == ite(fresh(r), 0, old(r.Counter)) + 1)
  ensures[C21] use counts of other connections are unchanged: all(c, "*util.Connection", imp(allocated(c) && c != r, c.Counter == old(c.Counter)))
  ensures[C21] a bounded number of attempts: ghost("pool.gets") - old(ghost("pool.gets")) <= 16
  ensures[C21] a closed pool opens nothing: imp(old(cp.Closed), ghost("dials") == old(ghost("dials")))
  ensures[C21] the pool holds connections to its address: cpOK(cp)
  ensures[C21] only the connection handed out is put back: all(c, "*util.Connection", imp(pooled(cp, c) && c != r, old(pooled(cp, c))))

# a returned connection
def healthy(c) = gattr("conn#last", c.Conn) == 2
func (*util.ConnectionPool).PutIfHealthy(cp, conn)
  requires[C21] well formed pool: cpOK(cp)
  requires[C21] a connection of the pool: imp(conn != nil && conn.Conn != nil, connOK(conn, poolAddr(cp)))
  ensures[C21] pooled only when healthy: imp(pooled(cp, conn) && !old(pooled(cp, conn)), conn != nil && conn.Conn != nil && healthy(conn) && !closedConn(conn))
  ensures[C21] a healthy connection is pooled and stays open: imp(conn != nil && conn.Conn != nil && healthy(conn), pooled(cp, conn) && closedConn(conn) == old(closedConn(conn)))
  ensures[C21] closed otherwise: imp(conn != nil && conn.Conn != nil && !healthy(conn), closedConn(conn))
  ensures[C21] nothing else is pooled: all(c, "*util.Connection", imp(c != conn, pooled(cp, c) == old(pooled(cp, c))))
  ensures[C21] no other connection is closed: all(c, "*grpc.ClientConn", imp(conn == nil || c != conn.Conn, gattrb("conn#closed", c) == old(gattrb("conn#closed", c))))
  ensures[C21] the pool holds connections to its address: cpOK(cp)
  ensures[C21] no connection is opened: ghost("dials") == old(ghost("dials"))

func (*util.ConnectionPool).CloseAll(cp)
  requires[C21] well formed pool: cpOK(cp)
  ensures[C21] the pool is closed: cp.Closed
  ensures[C21] no connection is opened: ghost("dials") == old(ghost("dials"))
  ensures[C21] nothing is pooled: all(c, "*util.Connection", imp(pooled(cp, c), old(pooled(cp, c))))
  loop closed: cp.Closed && ghost("dials") == old(ghost("dials"))
  loop pool: cpOK(cp)
  loop nothing is pooled: all(c, "*util.Connection", imp(pooled(cp, c), old(pooled(cp, c))))

func (*util.ConnectionCache).Get(cc, address) (r)
  requires[C21] use counts: all(c, "*util.Connection", counted(c)) && all(p, "*sync.Pool", all(c, "*util.Connection", imp(gattr2b("pool#in", p, c), allocated(c))))
  ensures[C21] nothing or an open connection to the address: imp(r != nil, connOK(r, address) && !closedConn(r))
  ensures[C21] the use count is raised by one: imp(r != nil, r.Counter == ite(fresh(r), 0, old(r.Counter)) + 1)
  ensures[C21] a bounded number of attempts: ghost("pool.gets") - old(ghost("pool.gets")) <= 16

func (*util.ConnectionCache).Put(cc, c)
  requires[C21] a connection that was handed out: c != nil && imp(c.Conn != nil, connOK(c, gattr("conn#addr", c.Conn))) && counted(c)
  ensures[C21] pooled only when healthy: all(p, "*sync.Pool", imp(gattr2b("pool#in", p, c) && !old(gattr2b("pool#in", p, c)), gattr("pool#addr", p) == gattr("conn#addr", c.Conn) && healthy(c)))
  ensures[C21] closed when it is not healthy: imp(c.Conn != nil && c.Counter != old(c.Counter) && !healthy(c), closedConn(c))
  ensures[C21] nothing else is pooled: all(p, "*sync.Pool", all(d, "*util.Connection", imp(d != c, gattr2b("pool#in", p, d) == old(gattr2b("pool#in", p, d)))))
  ensures[C21] the use count falls by one or stays: c.Counter == old(c.Counter) - 1 || c.Counter == old(c.Counter)
