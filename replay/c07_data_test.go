package data

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
)

// A forced background run of a data set with peers that accept, refuse or fail.
func TestVerifC07(t *testing.T) {
	r := verifRand()
	for round := 0; round < verifRounds(1500) && time.Now().Before(verifStop); round++ {
		dt := verifPlainData("c07")
		dt.Config.NoTarget = r.Intn(3) == 0
		dt.Config.TargetN = uint64([]int{0, 1, 3, 6, 10, 1000}[r.Intn(6)])
		dt.Config.TargetUtilization = []float64{0, 0.2, 0.5, 1, 1.5}[r.Intn(5)]
		dt.Alive = r.Intn(3) != 0
		type ent struct {
			d   *pb.Datum
			id  string
			exp int64
		}
		entries := map[string]ent{}
		dims := 1 + r.Intn(2)
		for i := r.Intn(16); i > 0; i-- {
			d := verifDatum(r, dims)
			id := verifKeyID(d.Key)
			if _, dup := entries[id]; dup {
				continue
			}
			ttl := uint64([]int{0, 0, 1000, 100000, 5, 10, 14, 1 << 33}[r.Intn(8)])
			if dt.InsertBDMap(d, &pb.InsertConfig{TTL: ttl, Count: 1}) != nil {
				continue
			}
			e := ent{d: d, id: id}
			dt.DBMap.Range(func(k, v interface{}) bool {
				if m, ok := v.(*DBMapEntry); ok && m.Datum == d {
					if ttl == 5 && r.Intn(2) == 0 { // expired meanwhile
						m.ExprireAt -= 5
					}
					e.exp = m.ExprireAt
				}
				return true
			})
			entries[id] = e
		}
		if len(entries) == 0 {
			continue
		}
		dt.N = uint64(len(entries))
		if r.Intn(8) == 0 {
			dt.N += uint64(r.Intn(3))
		}
		dt.MaxDistance = 0.001
		dt.Avg = []float32{1}
		before := fmt.Sprintf("%d entries (N=%d), alive=%v, target=%+v", len(entries), dt.N, dt.Alive, dt.Config)
		var mu sync.Mutex
		calls := 0
		acked := map[string]bool{}
		what := ""
		start := time.Now().Unix()
		mode := ""
		for s := 1 + r.Intn(2); s > 0; s-- {
			answer := r.Intn(4)
			mode += fmt.Sprint(answer)
			dt.AddSource(&verifSrc{id: fmt.Sprint("s", s), info: &pb.DataInfo{N: uint64(r.Intn(3)), Avg: []float32{5}},
				onInsert: func(d *pb.Datum, c *pb.InsertConfig) error {
					mu.Lock()
					defer mu.Unlock()
					calls++
					id := verifKeyID(d.Key)
					e, ok := entries[id]
					now := time.Now().Unix()
					switch {
					case !ok || string(e.d.Value.Label) != string(d.Value.Label) || e.d.Value.Version != d.Value.Version:
						what = fmt.Sprintf("sent %v, which is not stored", d)
					case c == nil || c.Count != 1:
						what = fmt.Sprintf("sent %s with %v: not marked as forwarded", id, c)
					case e.exp == 0 && c.TTL != 0:
						what = fmt.Sprintf("sent %s, stored without expiry, with %v", id, c)
					case e.exp != 0 && (c.TTL > uint64(e.exp-start) || c.TTL+uint64(now-e.exp) > 1<<62 || int64(c.TTL) < e.exp-now):
						what = fmt.Sprintf("sent %s, expiring in %d s, with %v", id, e.exp-now, c)
					case e.exp != 0 && e.exp-start <= 10:
						what = fmt.Sprintf("sent %s, which expires in %d s", id, e.exp-start)
					}
					switch answer {
					case 0:
						return errors.New("Number of elements is over the target")
					case 1:
						return errors.New("connection refused")
					case 2:
						if r := len(id) + calls; r%2 == 0 {
							return errors.New("Node is in drain mode")
						}
					}
					acked[id] = true
					return nil
				}})
		}
		n := dt.N
		alive := dt.Alive
		done := make(chan error, 1)
		go func() { done <- dt.Process(true) }()
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			continue // waiting for peers: nothing of this property
		}
		for last, same := -1, 0; same < 3; {
			time.Sleep(3 * time.Millisecond)
			mu.Lock()
			if calls == last {
				same++
			} else {
				same, last = 0, calls
			}
			mu.Unlock()
		}
		mu.Lock()
		if what != "" {
			verifFail(t, "background run of %s: %s", before, what)
		}
		left := map[string]bool{}
		dt.DBMap.Range(func(k, v interface{}) bool {
			if m, ok := v.(*DBMapEntry); ok {
				left[verifKeyID(m.Datum.Key)] = true
			}
			return true
		})
		removed := uint64(0)
		now := time.Now().Unix()
		for id, e := range entries {
			if left[id] || e.exp != 0 && e.exp <= now {
				continue
			}
			removed++
			if !acked[id] {
				verifFail(t, "background run of %s, peers answer %s: removed %s (expires %d, now %d), acknowledged by nobody", before, mode, id, e.exp, now)
			}
		}
		share := uint64(float64(dt.Config.TargetN) * dt.Config.TargetUtilization)
		if alive && removed > 0 && (dt.Config.NoTarget || share > 0 && (share > n || removed > n-share+1)) {
			verifFail(t, "background run of %s: removed %d live entries, share of the target %d", before, removed, share)
		}
		mu.Unlock()
	}
}
