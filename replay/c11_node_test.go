package node

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/bgokden/go-cache"
	pb "github.com/bgokden/veri/veriservice"
)

func TestVerifC11(t *testing.T) {
	r := verifRand()
	n := verifNode(t)
	if err := n.Dataset.CreateIfNotExists(&pb.DataConfig{Name: "d", NoTarget: true}); err != nil {
		t.Skip(err)
	}
	d, err := n.Dataset.GetNoCreate("d")
	if err != nil {
		verifFail(t, "data set d is not found: %v", err)
	}
	src := &verifSrc{id: "s"}
	var callback func(c *pb.SearchConfig)
	src.onSearch = func(_ *pb.Datum, _ chan<- *pb.ScoredDatum, c *pb.SearchConfig) {
		src.mu.Lock()
		f := callback
		src.mu.Unlock()
		if f != nil {
			f(c)
		}
	}
	d.AddSource(src)
	for i := 0; i < 4; i++ {
		if err := d.Insert(verifDatum(r, 3), nil); err != nil {
			t.Skip(err)
		}
	}
	handled := map[string]bool{}
	count := func() int {
		src.mu.Lock()
		defer src.mu.Unlock()
		return src.searches
	}
	for round := 0; round < verifRounds(150) && time.Now().Before(verifStop); round++ {
		name := "d"
		if r.Intn(4) == 0 {
			name = "unknown"
		}
		id := ""
		switch r.Intn(4) {
		case 0, 1:
			id = fmt.Sprintf("id%d", r.Intn(12))
		case 2:
			for k := range handled {
				id = k
				break
			}
		}
		cfg := &pb.SearchConfig{Uuid: id, DataName: name, Limit: 3, Timeout: 2000, ScoreFuncName: "VectorDistance"}
		req := &pb.SearchRequest{Datum: []*pb.Datum{verifDatum(r, 3)}, Config: cfg}
		before := count()
		out := &verifOut{}
		// the query comes back through a peer while it is being executed
		back := &verifOut{}
		var once sync.Once
		if r.Intn(3) == 0 {
			src.mu.Lock()
			callback = func(c *pb.SearchConfig) {
				once.Do(func() {
					cp := &pb.SearchConfig{Uuid: c.Uuid, DataName: c.DataName, Limit: 3, Timeout: 1000, ScoreFuncName: "VectorDistance"}
					n.SearchStream(&pb.SearchRequest{Datum: req.Datum, Config: cp}, back)
				})
			}
			src.mu.Unlock()
		} else {
			src.mu.Lock()
			callback = nil
			src.mu.Unlock()
		}
		known := id != "" && handled[id]
		err := n.SearchStream(req, out)
		after := count()
		desc := fmt.Sprintf("search %q of data set %q (id handled before: %v)", id, name, known)
		if len(back.got) > 0 {
			verifFail(t, "%s: the query came back while it was executed and was executed again (%d results)", desc, len(back.got))
		}
		switch {
		case known:
			if after != before || len(out.got) > 0 {
				verifFail(t, "%s: executed again: %d results, %d source searches", desc, len(out.got), after-before)
			}
		case name == "unknown":
			if err == nil || len(out.got) > 0 {
				verifFail(t, "%s: error %v, %d results", desc, err, len(out.got))
			}
		default:
			if err != nil || after != before+1 || len(out.got) == 0 {
				verifFail(t, "%s: error %v, %d results, %d source searches", desc, err, len(out.got), after-before)
			}
		}
		if l := n.Dataset.List(); len(l) != 1 {
			verifFail(t, "%s: data sets are now %v", desc, l)
		}
		if id != "" && cfg.Uuid != id {
			verifFail(t, "%s: the id was replaced by %q", desc, cfg.Uuid)
		}
		if id == "" && err == nil && cfg.Uuid == "" {
			verifFail(t, "%s: no id was given", desc)
		}
		if cfg.Uuid != "" {
			handled[cfg.Uuid] = true
		}
		for k := range handled {
			if err := n.QueryUUIDCache.Add(k, true, cache.DefaultExpiration); err == nil {
				if k == cfg.Uuid && name == "unknown" {
					continue
				}
				verifFail(t, "%s: id %q is not remembered", desc, k)
			}
		}
	}
	src.mu.Lock()
	callback = nil
	src.mu.Unlock()
	// the same id at the same time
	for round := 0; round < verifRounds(300) && time.Now().Before(verifStop); round++ {
		before := count()
		var wg sync.WaitGroup
		outs := make([]*verifOut, 8)
		start := make(chan struct{})
		for i := range outs {
			outs[i] = &verifOut{}
			wg.Add(1)
			go func(o *verifOut) {
				defer wg.Done()
				<-start
				n.SearchStream(&pb.SearchRequest{Datum: []*pb.Datum{verifDatum(verifRand(), 3)},
					Config: &pb.SearchConfig{Uuid: fmt.Sprintf("same%d", round), DataName: "d", Limit: 3, Timeout: 2000, ScoreFuncName: "VectorDistance"}}, o)
			}(outs[i])
		}
		close(start)
		wg.Wait()
		if c := count() - before; c > 1 {
			verifFail(t, "8 concurrent requests with id same%d: %d searches were executed", round, c)
		}
	}
}
