package data

import (
	"fmt"
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
)

// Index-based searches of data sets with vectors of one or several dimensions.
func TestVerifC19(t *testing.T) {
	r := verifRand()
	names := []string{"AnnoyVectorDistance", "AnnoyCosineSimilarity", "AnnoyAngularDistance", "AnnoyOther"}
	ref := map[string]string{"AnnoyVectorDistance": "VectorDistance", "AnnoyCosineSimilarity": "CosineSimilarity", "AnnoyAngularDistance": "AngularDistance", "AnnoyOther": "VectorDistance"}
	for round := 0; round < verifRounds(12000) && time.Now().Before(verifStop); round++ {
		dt := verifPlainData("c19")
		dims := 1 + r.Intn(3)
		mixed := r.Intn(4) == 0
		stored := map[*pb.Datum]bool{}
		seen := map[string]bool{}
		count := r.Intn(12)
		for i := 0; i < count; i++ {
			n := dims
			if mixed {
				n = 1 + r.Intn(4)
			}
			d := verifDatum(r, n)
			if id := verifKeyID(d.Key); seen[id] || dt.InsertBDMap(d, &pb.InsertConfig{Count: 1}) != nil {
				continue
			} else {
				seen[id] = true
			}
			stored[d] = true
		}
		indexed := r.Intn(4) != 0
		if indexed {
			if r.Intn(2) == 0 {
				dt.Process(true) // an index that is replaced by the next run
			}
			dt.Process(true)
		}
		snapshot := map[*pb.Datum]bool{}
		if dt.Annoyer.DataIndex != nil {
			for i, d := range *dt.Annoyer.DataIndex {
				if d == nil {
					continue
				}
				snapshot[d] = true
				if dt.Annoyer.Dimension > len(d.Key.Feature) {
					verifFail(t, "item %d of an index of dimension %d is %v", i, dt.Annoyer.Dimension, d.Key.Feature)
				}
				if !stored[d] {
					verifFail(t, "item %d of the snapshot, %v, is not stored", i, d)
				}
				if dt.Annoyer.AnnoyIndex != nil {
					var v []float32
					dt.Annoyer.AnnoyIndex.GetItem(i, &v)
					for j := range v {
						if v[j] != d.Key.Feature[j] {
							verifFail(t, "item %d of the index is %v, of the snapshot %v", i, v, d.Key.Feature)
						}
					}
				}
			}
		}
		late := verifDatum(r, dims)
		if !seen[verifKeyID(late.Key)] && dt.InsertBDMap(late, &pb.InsertConfig{Count: 1}) == nil {
			stored[late] = true
		}
		for q := 0; q < 6; q++ {
			config := verifSearchConfig(r)
			config.ScoreFuncName = names[r.Intn(len(names))]
			if r.Intn(2) == 0 {
				config.Filters, config.GroupFilters = nil, nil
			}
			qd := dims
			if r.Intn(3) == 0 {
				qd = r.Intn(5)
			}
			query := verifDatum(r, qd)
			what := fmt.Sprintf("index search of %v (%d stored, %d in the index of dimension %d) with %v", query.Key.Feature, len(stored), len(snapshot), dt.Annoyer.Dimension, config)
			c := dt.SearchAnnoy(query, config)
			if c == nil {
				verifFail(t, "%s: nothing", what)
			}
			if uint32(len(c.List)) > config.Limit {
				verifFail(t, "%s: %d results", what, len(c.List))
			}
			usable := dt.Annoyer.AnnoyIndex != nil && len(snapshot) > 0 && qd >= dt.Annoyer.Dimension
			for _, v := range c.List {
				if usable && !snapshot[v.Datum] {
					verifFail(t, "%s: %v is not in the snapshot", what, v)
				}
				if !stored[v.Datum] || !verifPasses(v.Datum, config) {
					verifFail(t, "%s: %v is not stored or does not pass the filters", what, v)
				}
				a := GetVectorComparisonFunction(ref[config.ScoreFuncName])(query.Key.Feature, v.Datum.Key.Feature)
				b := GetVectorComparisonFunction(ref[config.ScoreFuncName])(v.Datum.Key.Feature, query.Key.Feature)
				if v.Score != a && v.Score != b && !(a != a && v.Score != v.Score) {
					verifFail(t, "%s: %v has score %v, the function gives %v", what, v.Datum.Key, v.Score, a)
				}
			}
			if !usable && len(snapshot) == 0 || !usable && dt.Annoyer.AnnoyIndex != nil { // exact search
				n := 0
				for d := range stored {
					if verifPasses(d, config) {
						n++
					}
				}
				if n > int(config.Limit) {
					n = int(config.Limit)
				}
				if len(c.List) != n {
					verifFail(t, "%s: no index to use, but %d results instead of the %d of an exact search", what, len(c.List), n)
				}
			}
		}
	}
}
