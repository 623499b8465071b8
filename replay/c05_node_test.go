package node

import (
	"context"
	"fmt"
	"testing"

	data "github.com/bgokden/veri/data"
	"github.com/bgokden/veri/state"
	pb "github.com/bgokden/veri/veriservice"
)

func TestVerifC05Node(t *testing.T) {
	r := verifRand()
	defer func(d bool) { state.Drain = d }(state.Drain)
	for round := 0; round < verifRounds(30); round++ {
		n := verifNode(t)
		model := map[string]string{}
		var trace []string
		names := []string{"a", "b"}
		for op := 0; op < 30; op++ {
			name := names[r.Intn(2)]
			d := verifDatum(r, r.Intn(2))
			state.Drain = r.Intn(4) == 0
			if r.Intn(8) == 0 {
				d.Key = nil
			}
			trace = append(trace, fmt.Sprintf("insert(%s,%v) drain=%v", name, d, state.Drain))
			_, err := n.Insert(context.Background(), &pb.InsertionRequest{DataName: name, Datum: d, Config: &pb.InsertConfig{TTL: uint64(r.Intn(2) * 100)}})
			if state.Drain || d.Key == nil {
				if err == nil {
					verifFail(t, "history %v: the insert was accepted", trace)
				}
			} else {
				if err != nil {
					verifFail(t, "history %v: the insert was refused: %v", trace, err)
				}
				model[name+"|"+verifKeyID(d.Key)] = fmt.Sprintf("%q %d", d.Value.Label, d.Value.Version)
			}
			count := 0
			for _, name := range names {
				dt, err := n.Dataset.GetNoCreate(name)
				if err != nil {
					continue
				}
				dt.DBMap.Range(func(k, v interface{}) bool {
					count++
					e := v.(*data.DBMapEntry)
					want, ok := model[name+"|"+verifKeyID(e.Datum.Key)]
					if got := fmt.Sprintf("%q %d", e.Datum.Value.Label, e.Datum.Value.Version); !ok || got != want {
						verifFail(t, "history %v: data set %s holds %v with value %s, expected %s", trace, name, e.Datum.Key, got, want)
					}
					return true
				})
			}
			if count != len(model) {
				verifFail(t, "history %v: %d entries stored, expected %d", trace, count, len(model))
			}
		}
	}
}
