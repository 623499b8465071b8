package data

import (
	"sort"
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
)

// Exact search compared with sorting everything.
func TestVerifC02(t *testing.T) {
	r := verifRand()
	for round := 0; round < verifRounds(3000) && time.Now().Before(verifStop); round++ {
		dt := verifPlainData("c02")
		stored := verifFill(t, r, dt, r.Intn(14), 1+r.Intn(3))
		q := verifDatum(r, 1+r.Intn(3))
		c := verifSearchConfig(r)
		if r.Intn(2) == 0 {
			c.Filters, c.GroupFilters = nil, nil
		}
		res := dt.Search(q, c, nil)
		if res == nil {
			verifFail(t, "no result for config %v over %v", c, stored)
		}
		f := GetVectorComparisonFunction(c.ScoreFuncName)
		byDatum := map[*pb.Datum]verifStored{}
		var scores []float64
		for _, s := range stored {
			byDatum[s.d] = s
			if s.live && verifPasses(s.d, c) {
				scores = append(scores, f(s.d.Key.Feature, q.Key.Feature))
			}
		}
		sort.Slice(scores, func(i, j int) bool { return verifBetter(c.HigherIsBetter, scores[i], scores[j]) })
		if len(scores) > int(c.Limit) {
			scores = scores[:c.Limit]
		}
		if len(res.List) != len(scores) {
			verifFail(t, "config %v over %v with query %v returned %d results, expected %d", c, stored, q.Key, len(res.List), len(scores))
		}
		seen := map[*pb.Datum]bool{}
		for i, sd := range res.List {
			s, ok := byDatum[sd.Datum]
			if !ok || seen[sd.Datum] {
				verifFail(t, "config %v over %v: result %d (%v) is not a stored entry or is returned twice", c, stored, i, sd)
			}
			seen[sd.Datum] = true
			if !s.live || !verifPasses(s.d, c) {
				verifFail(t, "config %v over %v: result %d (%v) has expired or fails a filter", c, stored, i, s)
			}
			if sd.Score != f(s.d.Key.Feature, q.Key.Feature) {
				verifFail(t, "config %v: result %v has score %v, true score %v for query %v", c, s, sd.Score, f(s.d.Key.Feature, q.Key.Feature), q.Key)
			}
			if sd.Score != scores[i] {
				verifFail(t, "config %v over %v with query %v: result %d has score %v, the best remaining is %v", c, stored, q.Key, i, sd.Score, scores[i])
			}
		}
	}
}
