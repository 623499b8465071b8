package node

import (
	"fmt"
	"math"
	"reflect"
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
)

func TestVerifC10(t *testing.T) {
	r := verifRand()
	pool := []string{"a:1", "b:2", "c:3", "d:4", "10.0.0.1:5"}
	pick := func(n int) []string {
		p := r.Perm(len(pool))
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, pool[p[i]])
		}
		return l
	}
	for round := 0; round < verifRounds(150) && time.Now().Before(verifStop); round++ {
		n := verifNode(t)
		for i := 0; i < r.Intn(4); i++ {
			n.KnownIds = append(n.KnownIds, pool[r.Intn(len(pool))])
		}
		for i := 0; i < r.Intn(3); i++ {
			n.AdvertisedIds = append(n.AdvertisedIds, pool[r.Intn(len(pool))])
		}
		known, adv := append([]string{}, n.KnownIds...), append([]string{}, n.AdvertisedIds...)
		// announced addresses
		info := n.GetNodeInfo()
		cnt := map[string]int{}
		for _, a := range info.GetAddressList() {
			cnt[a]++
		}
		want := map[string]int{}
		for _, a := range append(append([]string{}, known...), adv...) {
			want[a] = 1
		}
		if !reflect.DeepEqual(cnt, want) {
			verifFail(t, "known %q advertised %q: announced %q", known, adv, info.GetAddressList())
		}
		var self []string
		for a := range want {
			self = append(self, a)
		}
		// identity
		l := pick(r.Intn(5))
		l2 := append([]string{}, l...)
		r.Shuffle(len(l2), func(i, j int) { l2[i], l2[j] = l2[j], l2[i] })
		if a, b := GetIdOfPeer(&pb.Peer{AddressList: append([]string{}, l...)}), GetIdOfPeer(&pb.Peer{AddressList: append([]string{}, l2...)}); a != b {
			verifFail(t, "addresses %q and %q of one peer give identities %q and %q", l, l2, a, b)
		}
		model := map[string]uint64{}
		vers := map[string]string{}
		var trace []string
		for op := 0; op < 25; op++ {
			now := uint64(time.Now().Unix())
			var ts uint64
			switch r.Intn(9) {
			case 0:
				ts = 0
			case 1:
				ts = now - 300 - uint64(r.Intn(100)) - 1
			case 2:
				ts = math.MaxUint64 - uint64(r.Intn(400))
			case 3:
				ts = now + uint64(r.Intn(1000))
			default:
				ts = now - 1 - uint64(r.Intn(280))
			}
			addr := pick(1 + r.Intn(2))
			if o, ok := model[verifSet(addr)]; ok && r.Intn(2) == 0 {
				ts = o - uint64(r.Intn(2))
			}
			if r.Intn(4) == 0 {
				addr = append([]string{}, self...)
				r.Shuffle(len(addr), func(i, j int) { addr[i], addr[j] = addr[j], addr[i] })
			}
			id := verifSet(addr)
			p := &pb.Peer{AddressList: append([]string{}, addr...), Timestamp: ts, Version: fmt.Sprint(op)}
			trace = append(trace, fmt.Sprintf("add(%q,now%+d)", addr, int64(ts-now)))
			switch r.Intn(3) {
			case 0:
				n.AddPeerElement(p)
			case 1:
				n.AddPeer(nil, &pb.AddPeerRequest{Peer: p})
			case 2:
				n.AddPeerElement(p)
				if r.Intn(3) == 0 {
					trace = append(trace, "check")
					n.CheckPeer(&pb.Peer{AddressList: append([]string{}, addr...), Timestamp: ts})
					if !(ts+300 > now && ts+300 >= ts) && id != verifSet(self) {
						delete(model, id)
					}
				}
			}
			wrap := ts+300 < ts
			if !wrap && ts+300 > now+3 && id != verifSet(self) && (func() bool { o, ok := model[id]; return !ok || o < ts })() {
				model[id] = ts
				vers[id] = p.Version
			}
			got := map[string]uint64{}
			for _, it := range n.PeerList.Items() {
				pp, ok := it.Object.(*pb.Peer)
				if !ok || pp == nil {
					verifFail(t, "node known %q advertised %q, history %v: the peer table holds %v", known, adv, trace, it.Object)
				}
				got[verifSet(pp.AddressList)] = pp.Timestamp
				if v := vers[verifSet(pp.AddressList)]; v != pp.Version && model[verifSet(pp.AddressList)] == pp.Timestamp {
					verifFail(t, "node known %q advertised %q, history %v: %q holds message %s, expected message %s with the same timestamp", known, adv, trace, pp.AddressList, pp.Version, v)
				}
			}
			if !reflect.DeepEqual(got, model) {
				verifFail(t, "node known %q advertised %q, history %v: peer table %v, expected %v (peer set: timestamp)", known, adv, trace, got, model)
			}
		}
		if verifSet(n.KnownIds) != verifSet(known) || verifSet(n.AdvertisedIds) != verifSet(adv) {
			verifFail(t, "own addresses changed from %q %q to %q %q", known, adv, n.KnownIds, n.AdvertisedIds)
		}
	}
}
