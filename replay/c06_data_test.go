package data

import (
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
)

// Expiry: what reading sees and what it removes.
func TestVerifC06(t *testing.T) {
	r := verifRand()
	for round := 0; round < verifRounds(1200) && time.Now().Before(verifStop); round++ {
		dt := verifPlainData("c06")
		dims := 1 + r.Intn(3)
		stored := verifFill(t, r, dt, 1+r.Intn(12), dims)
		live := map[*pb.Datum]bool{}
		for _, s := range stored {
			if s.live {
				live[s.d] = true
			}
		}
		op := r.Intn(3)
		if op == 2 && r.Intn(4) != 0 {
			op = r.Intn(2)
		}
		what := []string{"search", "stream", "statistics"}[op]
		got := map[*pb.Datum]int{}
		switch op {
		case 0:
			for _, s := range dt.Search(verifDatum(r, dims), &pb.SearchConfig{ScoreFuncName: verifFuncs[r.Intn(len(verifFuncs))], Limit: 100, HigherIsBetter: r.Intn(2) == 0}, nil).List {
				got[s.Datum]++
			}
		case 1:
			ch := make(chan *pb.Datum, 100)
			if err := dt.StreamAll(ch); err != nil {
				verifFail(t, "streaming %v: %v", stored, err)
			}
			close(ch)
			for d := range ch {
				got[d]++
			}
		case 2:
			dt.N = uint64(r.Intn(5))
			dt.Process(true)
			if dt.N != uint64(len(live)) {
				verifFail(t, "statistics of %v: count %d, %d live", stored, dt.N, len(live))
			}
			for d := range live {
				got[d] = 1
			}
			if dt.Annoyer.DataIndex != nil {
				n := 0
				for _, d := range *dt.Annoyer.DataIndex {
					if d != nil {
						n++
						if !live[d] {
							verifFail(t, "statistics of %v: the index holds the expired entry %v", stored, d)
						}
					}
				}
			}
		}
		for d, n := range got {
			if !live[d] {
				verifFail(t, "%s of %v: saw the expired entry %v", what, stored, d)
			}
			if n > 1 {
				verifFail(t, "%s of %v: saw %v %d times", what, stored, d, n)
			}
		}
		if len(got) != len(live) {
			verifFail(t, "%s of %v: saw %d of %d live entries", what, stored, len(got), len(live))
		}
		rest := map[*pb.Datum]bool{}
		dt.DBMap.Range(func(k, v interface{}) bool {
			rest[v.(*DBMapEntry).Datum] = true
			return true
		})
		for d := range live {
			if !rest[d] {
				verifFail(t, "%s of %v: removed the live entry %v", what, stored, d)
			}
		}
	}
}

// Expiry of inserted entries.
func TestVerifC06Insert(t *testing.T) {
	r := verifRand()
	for round := 0; round < verifRounds(3000); round++ {
		dt := verifPlainData("c06")
		var cfg *pb.InsertConfig
		ttl := uint64(0)
		if r.Intn(5) != 0 {
			ttl = []uint64{0, 1, 2, 9, 10, 11, 60, 3600, 86400 * 365, 1 << 33, 1 << 40}[r.Intn(11)]
			cfg = &pb.InsertConfig{TTL: ttl, Count: uint64(r.Intn(2))}
		}
		d := verifDatum(r, 2)
		if r.Intn(2) == 0 { // an expired or changed entry of the same key
			o := verifDatum(r, 2)
			o.Key = d.Key
			dt.InsertBDMap(o, &pb.InsertConfig{TTL: uint64(r.Intn(3)) * 50})
			dt.DBMap.Range(func(k, v interface{}) bool {
				e := v.(*DBMapEntry)
				if e.ExprireAt != 0 {
					e.ExprireAt = time.Now().Unix() - int64(r.Intn(3))
				}
				return true
			})
			if o.Value.Version == d.Value.Version {
				d.Value.Version += 7
			}
		}
		before := time.Now().Unix()
		var err error
		if r.Intn(2) == 0 {
			err = dt.Insert(d, cfg)
		} else {
			err = dt.InsertBDMap(d, cfg)
		}
		after := time.Now().Unix()
		if err != nil {
			verifFail(t, "insert of %v with %v: %v", d, cfg, err)
		}
		n := 0
		dt.DBMap.Range(func(k, v interface{}) bool {
			e := v.(*DBMapEntry)
			n++
			if ttl == 0 && e.ExprireAt != 0 {
				verifFail(t, "inserted with %v at %d, expires at %d", cfg, before, e.ExprireAt)
			}
			if ttl != 0 && (e.ExprireAt < before+int64(ttl) || e.ExprireAt > after+int64(ttl)) {
				verifFail(t, "inserted with %v at %d, expires at %d", cfg, before, e.ExprireAt)
			}
			return true
		})
		if n != 1 {
			verifFail(t, "inserted %v with %v: %d entries", d, cfg, n)
		}
	}
}
