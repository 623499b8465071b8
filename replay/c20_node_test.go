package node

import (
	"fmt"
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
)

// DataStream sends every live entry once before it returns, whatever the size of the
// data set and the speed of the receiver.
func TestVerifC20Node(t *testing.T) {
	r := verifRand()
	for round := 0; round < verifRounds(60) && time.Now().Before(verifStop); round++ {
		n := verifNode(t)
		dt, err := n.Dataset.Get("s")
		if err != nil {
			t.Skip(err)
		}
		dt.Config.NoTarget = true
		size := []int{0, 1, 2, 50, 99, 100, 101, 102, 150, 250, 512}[r.Intn(11)]
		want := map[string]bool{}
		dead := 0
		for i := 0; i < size; i++ {
			d := verifDatum(r, 2)
			d.Key.Feature[0] = float32(i)
			c := &pb.InsertConfig{Count: 1}
			expired := r.Intn(6) == 0
			if expired {
				c.TTL = 1
				dead++
			}
			if err := dt.InsertBDMap(d, c); err != nil {
				t.Skip(err)
			}
			if expired {
				verifExpire(dt, d)
			} else {
				want[verifKeyID(d.Key)] = true
			}
		}
		out := &verifDataOut{}
		err = n.DataStream(&pb.GetDataRequest{Name: "s"}, out)
		in := fmt.Sprintf("data set with %d live and %d expired entries", len(want), dead)
		out.mu.Lock()
		got := append([]*pb.Datum{}, out.got...)
		out.done = true
		out.mu.Unlock()
		if err != nil {
			verifFail(t, "%s: %v", in, err)
		}
		seen := map[string]bool{}
		for _, d := range got {
			id := verifKeyID(d.GetKey())
			if !want[id] || seen[id] {
				verifFail(t, "%s: sent %v (live: %v, sent before: %v)", in, d, want[id], seen[id])
			}
			seen[id] = true
		}
		if len(got) != len(want) {
			verifFail(t, "%s: %d entries had been sent when the request returned", in, len(got))
		}
		time.Sleep(time.Millisecond)
		out.mu.Lock()
		late := out.late
		out.mu.Unlock()
		if late {
			verifFail(t, "%s: an entry was sent after the request returned", in)
		}
		dt.Alive = false
	}
}
