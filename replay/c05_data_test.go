package data

import (
	"fmt"
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
)

type verifEntry struct {
	d       *pb.Datum
	label   string
	version uint64
	lo, hi  int64 // possible expiry, 0 for none
	expired bool
}

func verifStoreCheck(t *testing.T, dt *Data, model map[string]*verifEntry, trace []string) {
	n := 0
	seen := map[string]bool{}
	dt.DBMap.Range(func(k, v interface{}) bool {
		n++
		e, ok := v.(*DBMapEntry)
		if !ok || e == nil || e.Datum == nil || e.Datum.Key == nil || e.Datum.Value == nil {
			verifFail(t, "history %v: the store holds an incomplete entry %v", trace, v)
		}
		id := verifKeyID(e.Datum.Key)
		m, ok := model[id]
		if !ok {
			verifFail(t, "history %v: the store holds %s which is not stored", trace, id)
		}
		if seen[id] {
			verifFail(t, "history %v: the store holds %s twice", trace, id)
		}
		seen[id] = true
		if string(e.Datum.Value.Label) != m.label || e.Datum.Value.Version != m.version {
			verifFail(t, "history %v: %s has value (%q,%d), expected (%q,%d)", trace, id, e.Datum.Value.Label, e.Datum.Value.Version, m.label, m.version)
		}
		if e.ExprireAt < m.lo || e.ExprireAt > m.hi {
			verifFail(t, "history %v: %s expires at %d, expected between %d and %d", trace, id, e.ExprireAt, m.lo, m.hi)
		}
		return true
	})
	if n != len(model) {
		verifFail(t, "history %v: the store holds %d entries, expected %d", trace, n, len(model))
	}
}

func TestVerifC05(t *testing.T) {
	r := verifRand()
	for round := 0; round < verifRounds(400) && time.Now().Before(verifStop); round++ {
		dt := verifPlainData("c05")
		dt.Config.NoTarget = r.Intn(3) != 0
		dt.Config.TargetN = uint64(1 + r.Intn(6))
		model := map[string]*verifEntry{}
		var trace []string
		ttls := []uint64{0, 0, 1, 5, 12, 100, 105, 112, 1000}
		var pool []*pb.Datum
		for i := 0; i < 5; i++ {
			pool = append(pool, verifDatum(r, r.Intn(3)))
		}
		// keys which differ in one component only
		a := verifDatum(r, 2)
		for i := 0; i < 5; i++ {
			b := verifCloneDatum(a)
			switch i {
			case 0:
				b.Key.Size1 ^= 1
			case 1:
				b.Key.Size2 ^= 1
			case 2:
				b.Key.Dim1 ^= 1
			case 3:
				b.Key.Dim2 ^= 1
			case 4:
				b.Key.GroupLabel = append(b.Key.GroupLabel, ' ')
			}
			pool = append(pool, b)
		}
		pool = append(pool, a)
		for op := 0; op < 25; op++ {
			d := verifCloneDatum(pool[r.Intn(len(pool))])
			v := verifDatum(r, 0).Value
			d.Value = v
			if r.Intn(2) == 0 { // values which differ little
				v.Label = []byte([]string{`{"a":1}`, `{"a":2}`, `{"b":1}`, `{"a":1,"b":"xxxxxxxxxx"}`, `{"a":1,"b":"xxxxxxxxxy"}`, `{"a":2,"b":"xxxxxxxxxx"}`}[r.Intn(6)])
				v.Version = uint64(r.Intn(2)) << uint(r.Intn(8)*8)
			}
			if r.Intn(8) == 0 {
				d.Value = nil
			}
			switch k := r.Intn(10); {
			case k < 6:
				var cfg *pb.InsertConfig
				ttl := uint64(0)
				if r.Intn(5) != 0 {
					ttl = ttls[r.Intn(len(ttls))]
					cfg = &pb.InsertConfig{TTL: ttl, Count: uint64(r.Intn(2))}
				}
				if r.Intn(10) == 0 {
					d.Key = nil
				}
				if r.Intn(30) == 0 {
					d = nil
				}
				if r.Intn(4) == 0 {
					dt.N = uint64(r.Intn(8))
				}
				trace = append(trace, fmt.Sprintf("insert(%v,%v) at n=%d target=%d no=%v", d, cfg, dt.N, dt.Config.TargetN, dt.Config.NoTarget))
				over := !dt.Config.NoTarget && dt.N >= dt.Config.TargetN
				label, version := "", uint64(0)
				if d != nil && d.Value != nil {
					label, version = string(d.Value.Label), d.Value.Version
				}
				before := time.Now().Unix()
				direct := r.Intn(3) == 0
				var err error
				if direct {
					trace[len(trace)-1] += " direct"
					err = dt.InsertBDMap(d, cfg)
					over = false
				} else {
					err = dt.Insert(d, cfg)
				}
				after := time.Now().Unix()
				if over || d == nil || d.Key == nil {
					if err == nil {
						verifFail(t, "history %v: the insert was accepted", trace)
					}
					break
				}
				if err != nil {
					verifFail(t, "history %v: the insert was refused: %v", trace, err)
				}
				id := verifKeyID(d.Key)
				lo, hi := int64(0), int64(0)
				if ttl != 0 {
					lo, hi = before+int64(ttl), after+int64(ttl)
				}
				if m := model[id]; m != nil && !m.expired && m.label == label && m.version == version && m.lo-hi < 10 && lo-m.hi < 10 {
					// the earlier record may have been kept
					if lo < m.lo {
						m.lo = lo
					}
					if hi > m.hi {
						m.hi = hi
					}
				} else {
					model[id] = &verifEntry{d: d, label: label, version: version, lo: lo, hi: hi}
				}
			case k < 8:
				trace = append(trace, fmt.Sprintf("delete(%v)", d.Key))
				var err error
				if r.Intn(2) == 0 {
					err = dt.Delete(d)
				} else {
					err = dt.DeleteBDMap(d)
				}
				if err != nil {
					verifFail(t, "history %v: %v", trace, err)
				}
				delete(model, verifKeyID(d.Key))
			default: // time passes for one entry
				id := verifKeyID(d.Key)
				if m := model[id]; m != nil && m.lo != 0 {
					trace = append(trace, fmt.Sprintf("expire(%v)", d.Key))
					at := time.Now().Unix() - int64(r.Intn(6))
					dt.DBMap.Range(func(k, v interface{}) bool {
						e := v.(*DBMapEntry)
						if verifKeyID(e.Datum.Key) == id {
							e.ExprireAt = at
						}
						return true
					})
					m.lo, m.hi, m.expired = at, at, true
				}
			}
			verifStoreCheck(t, dt, model, trace)
		}
	}
}
