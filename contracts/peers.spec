# Peer table (C10)
uf selfms(int, int) int
uf joinstr(int, int) int
uf sortseq(int) int
def idOf(p) = joinstr(sortseq(msid(p.GetAddressList())), ",")
def selfId(n) = joinstr(sortseq(selfms(seqid(n.KnownIds), seqid(n.AdvertisedIds))), ",")
def nodeOK(n) = n.Dataset != nil && regOK(n.Dataset.DataList) && n.ServiceList != nil && n.PeerList != nil
def isPeer(v) = typeis(v, "*pb.Peer") && as(v, "*pb.Peer") != nil
def peersOK(l) = l != nil && all(k, "string", imp(has(l, k), isPeer(get(l, k))))
def peerAt(l, k) = as(get(l, k), "*pb.Peer")

func node.GetIdOfPeer(p) (id)
  modifies elems(p.AddressList)
  ensures[C10] the identity depends only on the addresses and not on their order: id == old(idOf(p))

func node.unique(strSlice) (r)
  modifies nothing
  apply C10
  optional
  ensures[C10] a new list: fresh(r)
  ensures[C10] the same addresses: all(k, "string", member(r, k) == member(strSlice, k))
  ensures[C10] no address twice: forall(i, 0, len(r), forall(j, 0, i, r[j] != r[i]))
  loop (var l []string, m map[string]bool) listed addresses are marked: all(k, "string", member(l, k) == has(m, k))
  loop (var l []string, m map[string]bool) no address twice: forall(i, 0, len(l), forall(j, 0, i, l[j] != l[i]))
  loop (m map[string]bool, src []string) seen addresses are marked: forall(j, 0, it, has(m, src[j]))
  loop (m map[string]bool, src []string) only addresses are marked: all(k, "string", imp(has(m, k), member(src, k)))

func (*node.Node).GetNodeInfo(n) (r)
  requires node set up: nodeOK(n)
  modifies nothing
  apply C10
  ensures[C10] a new message: r != nil && fresh(r) && fresh(r.AddressList)
  ensures[C10] the known and the advertised addresses are announced and nothing else: all(k, "string", member(r.AddressList, k) == (member(n.KnownIds, k) || member(n.AdvertisedIds, k)))
  ensures[C10] no address is announced twice: forall(i, 0, len(r.AddressList), forall(j, 0, i, r.AddressList[j] != r.AddressList[i]))
  assume[C10] the announced addresses are a function of the known and the advertised ones (each exactly once, as proved): msid(r.AddressList) == selfms(seqid(n.KnownIds), seqid(n.AdvertisedIds))

func (*node.Node).AddPeerElement(n, peer) (err)
  requires node set up: nodeOK(n)
  requires peers well formed: peersOK(n.PeerList)
  requires separate lists: ref(peer.AddressList) != ref(n.KnownIds) && ref(peer.AddressList) != ref(n.AdvertisedIds)
  ensures[C10] the node itself is never recorded: imp(old(idOf(peer)) == old(selfId(n)), sameReg(n.PeerList))
  ensures[C10] information older than five minutes is never recorded: imp(peer.GetTimestamp() + 300 <= old(ghost("clock")), sameReg(n.PeerList))
  ensures[C10] information is never replaced by information that is not newer: imp(old(has(n.PeerList, idOf(peer))) && old(peerAt(n.PeerList, idOf(peer)).Timestamp) >= peer.GetTimestamp(), sameReg(n.PeerList))
  ensures[C10] fresh newer information of another node is recorded: imp(old(idOf(peer)) != old(selfId(n)) && peer.GetTimestamp() + 300 > ghost("clock") && peer.GetTimestamp() + 300 < 18446744073709551616
      && imp(old(has(n.PeerList, idOf(peer))), old(peerAt(n.PeerList, idOf(peer)).Timestamp) < peer.GetTimestamp()),
      has(n.PeerList, old(idOf(peer))) && peerAt(n.PeerList, old(idOf(peer))) == peer)
  ensures[C10] other peers are unchanged: othersSame(n.PeerList, old(idOf(peer)))
  ensures[C10] the table holds peers: peersOK(n.PeerList)

func (*node.Node).CheckPeer(n, peer) (r)
  requires node set up: nodeOK(n)
  requires peer given: peer != nil
  requires separate lists: ref(peer.AddressList) != ref(n.KnownIds) && ref(peer.AddressList) != ref(n.AdvertisedIds)
  ensures[C10] only a recent foreign peer is used: imp(r, old(idOf(peer)) != old(selfId(n)) && peer.Timestamp + 300 > old(ghost("clock")) || peer.Timestamp + 300 >= 18446744073709551616)
  ensures[C10] only an outdated peer is removed: othersSame(n.PeerList, old(idOf(peer))) && imp(old(has(n.PeerList, idOf(peer))) && !has(n.PeerList, old(idOf(peer))), !r && (peer.Timestamp + 300 <= ghost("clock") || peer.Timestamp + 300 >= 18446744073709551616))
  ensures[C10] nothing is added: all(k, "string", imp(has(n.PeerList, k), old(has(n.PeerList, k)) && get(n.PeerList, k) == old(get(n.PeerList, k))))
