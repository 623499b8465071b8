package data

import (
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
)

// Filters of exact and index based searches.
func TestVerifC04(t *testing.T) {
	r := verifRand()
	for round := 0; round < verifRounds(1500) && time.Now().Before(verifStop); round++ {
		dt := verifPlainData("c04")
		dims := 1 + r.Intn(3)
		stored := verifFill(t, r, dt, 1+r.Intn(12), dims)
		q := verifDatum(r, dims)
		c := verifSearchConfig(r)
		c.Limit = 1000
		if round%3 == 0 {
			c.Limit = uint32(r.Intn(4))
		}
		index := round%15 == 0
		if index {
			dt.Process(true)
			c.ScoreFuncName = "AnnoyAngularDistance"
		}
		var l []*pb.ScoredDatum
		if index {
			l = dt.SearchAnnoy(q, c).List
		} else {
			l = dt.Search(q, c, nil).List
		}
		got := map[*pb.Datum]bool{}
		for _, sd := range l {
			if !verifPasses(sd.Datum, c) {
				verifFail(t, "config %v (index based: %v) over %v returned %v, which fails a filter", c, index, stored, sd)
			}
			got[sd.Datum] = true
		}
		for _, s := range stored {
			col := &Collector{Filters: c.Filters, GroupFilters: c.GroupFilters}
			if col.PassesFilters(s.d) != verifPasses(s.d, c) {
				verifFail(t, "filters %v group filters %v on %v: candidate %v, expected %v", c.Filters, c.GroupFilters, s, col.PassesFilters(s.d), verifPasses(s.d, c))
			}
			if !index && c.Limit == 1000 && s.live && got[s.d] != verifPasses(s.d, c) {
				verifFail(t, "config %v over %v: entry %v returned: %v, expected %v", c, stored, s, got[s.d], verifPasses(s.d, c))
			}
		}
		if index {
			dt.Alive = false
		}
	}
}
