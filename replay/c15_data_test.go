package data

import (
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/bgokden/go-cache"
	pb "github.com/bgokden/veri/veriservice"
)

func TestVerifC15(t *testing.T) {
	r := verifRand()
	for round := 0; round < verifRounds(2000) && time.Now().Before(verifStop); round++ {
		dt := verifPlainData("c15")
		dt.Config.EnforceReplicationOnInsert = r.Intn(4) != 0
		dt.Config.ReplicationOnInsert = uint32(r.Intn(6))
		acks, calls := 0, map[string]int{}
		d := verifDatum(r, 2)
		ttl := uint64(r.Intn(3) * 100)
		var problem string
		n := r.Intn(7)
		var kinds []int
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("s%d", i)
			kind := r.Intn(4)
			kinds = append(kinds, kind)
			s := &verifSrc{id: id}
			s.onInsert = func(x *pb.Datum, c *pb.InsertConfig) error {
				calls[id]++
				if x == nil || verifKeyID(x.Key) != verifKeyID(d.Key) {
					problem = "another datum was forwarded"
				}
				if c == nil || c.Count == 0 {
					problem = "the forwarded insert is not marked as forwarded"
				} else if c.TTL != ttl {
					problem = fmt.Sprintf("the forwarded insert has time to live %d", c.TTL)
				}
				found := false
				dt.DBMap.Range(func(k, v interface{}) bool {
					if e, ok := v.(*DBMapEntry); ok && e.Datum == d {
						found = true
					}
					return true
				})
				if !found {
					problem = "forwarded before it was stored locally"
				}
				switch kind {
				case 0:
					return errors.New("Number of elements is over the target")
				case 1:
					return errors.New("unavailable")
				}
				acks++
				return nil
			}
			dt.Sources.Set(id, s, cache.NoExpiration)
		}
		var cfg *pb.InsertConfig
		count := uint64(0)
		if ttl != 0 || r.Intn(2) == 0 {
			count = uint64(r.Intn(3))
			cfg = &pb.InsertConfig{TTL: ttl, Count: count}
		}
		in := fmt.Sprintf("enforce=%v copies=%d options=(ttl %d count %d nil %v) sources=%v (0,1 refuse)", dt.Config.EnforceReplicationOnInsert, dt.Config.ReplicationOnInsert, ttl, count, cfg == nil, kinds)
		err := dt.Insert(d, cfg)
		if cfg != nil && (cfg.TTL != ttl || cfg.Count != count) {
			verifFail(t, "%s: the caller's options became %v", in, cfg)
		}
		if problem != "" {
			verifFail(t, "%s: %s", in, problem)
		}
		for id, c := range calls {
			if c > 1 {
				verifFail(t, "%s: source %s was asked %d times", in, id, c)
			}
		}
		if count != 0 && len(calls) > 0 {
			verifFail(t, "%s: a forwarded insert was forwarded again", in)
		}
		enough := !dt.Config.EnforceReplicationOnInsert || count != 0 || uint32(acks+1) >= dt.Config.ReplicationOnInsert
		if (err == nil) != enough {
			verifFail(t, "%s: %d copies exist, the insert returned %v", in, acks+1, err)
		}
		stored := 0
		dt.DBMap.Range(func(k, v interface{}) bool { stored++; return true })
		if stored != 1 {
			verifFail(t, "%s: %d entries stored locally", in, stored)
		}
	}
}
