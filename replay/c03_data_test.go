package data

import (
	"fmt"
	"math/rand"
	"sort"
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
)

func verifAggConfig(r *rand.Rand) *pb.SearchConfig {
	names := []string{"VectorDistance", "VectorMultiplication", "CosineSimilarity", "AnnoyVectorDistance", "AnnoyAngularDistance", "no such function", ""}
	return &pb.SearchConfig{ScoreFuncName: names[r.Intn(len(names))], HigherIsBetter: r.Intn(2) == 0, Limit: uint32(r.Intn(6)), ResultLimit: uint64(r.Intn(4)), GroupLimit: uint32(1 + r.Intn(3))}
}

// Merging compared with keeping the best score of every key and sorting.
func TestVerifC03(t *testing.T) {
	r := verifRand()
	for round := 0; round < verifRounds(6000) && time.Now().Before(verifStop); round++ {
		c := verifAggConfig(r)
		dims := 1 + r.Intn(2)
		var ctx *pb.SearchContext
		if r.Intn(3) == 0 {
			ctx = &pb.SearchContext{Prioritize: r.Intn(2) == 0}
			for i := r.Intn(4); i > 0; i-- {
				ctx.Datum = append(ctx.Datum, verifDatum(r, dims))
			}
		}
		grouped := r.Intn(3) == 0
		var pool []*pb.Datum
		for i := 1 + r.Intn(7); i > 0; i-- {
			d := verifDatum(r, dims)
			pool = append(pool, d)
			if r.Intn(2) == 0 {
				pool = append(pool, verifCloneDatum(d))
			}
		}
		f := GetVectorComparisonFunction(c.ScoreFuncName)
		a := NewAggrator(c, grouped, ctx)
		best := map[string]float64{}
		groups := map[string]map[string]float64{}
		var log []string
		for i := r.Intn(14); i > 0; i-- {
			d := pool[r.Intn(len(pool))]
			s := float64(r.Intn(7) - 2)
			rank, set := s, ctx == nil || len(ctx.Datum) == 0 || !ctx.Prioritize
			if ctx != nil {
				for _, cd := range ctx.Datum {
					if x := f(d.Key.Feature, cd.Key.Feature); !set || verifBetter(c.HigherIsBetter, x, rank) {
						rank, set = x, true
					}
				}
			}
			log = append(log, fmt.Sprintf("%v=%v(%v)", verifKeyID(d.Key), s, rank))
			if err := a.Insert(&pb.ScoredDatum{Datum: d, Score: s}); err != nil {
				verifFail(t, "merging %v with %v: %v", log, c, err)
			}
			k := verifKeyID(d.Key)
			if old, ok := best[k]; !ok || verifBetter(c.HigherIsBetter, rank, old) {
				best[k] = rank
			}
			g := string(d.Key.GroupLabel)
			if groups[g] == nil {
				groups[g] = map[string]float64{}
			}
			if old, ok := groups[g][k]; !ok || verifBetter(c.HigherIsBetter, rank, old) {
				groups[g][k] = rank
			}
		}
		res := a.Result()
		what := fmt.Sprintf("grouped=%v context=%v config=%v merged=%v", grouped, ctx, c, log)
		if len(res) > int(c.Limit) || c.ResultLimit > 0 && len(res) > int(c.ResultLimit) {
			verifFail(t, "%s: %d results", what, len(res))
		}
		seen := map[string]bool{}
		seenGroup := map[string]bool{}
		for i, sd := range res {
			if sd == nil || sd.Datum == nil || sd.Datum.Key == nil {
				verifFail(t, "%s: result %d is empty", what, i)
			}
			if i > 0 && verifBetter(c.HigherIsBetter, sd.Score, res[i-1].Score) {
				verifFail(t, "%s: result %d (%v) is better than the one before (%v)", what, i, sd.Score, res[i-1].Score)
			}
			k := verifKeyID(sd.Datum.Key)
			if _, ok := best[k]; !ok || seen[k] {
				verifFail(t, "%s: result %d has a key that was not merged or is there twice", what, i)
			}
			seen[k] = true
			g := string(sd.Datum.Key.GroupLabel)
			if grouped {
				if seenGroup[g] {
					verifFail(t, "%s: group %q has two results", what, g)
				}
				seenGroup[g] = true
				for _, s := range groups[g] {
					if verifBetter(c.HigherIsBetter, s, best[k]) {
						verifFail(t, "%s: group %q has an entry better than its representative", what, g)
					}
				}
			} else if sd.Score != best[k] {
				verifFail(t, "%s: result %d has score %v, the best seen for its key is %v", what, i, sd.Score, best[k])
			}
		}
		n := len(best)
		if grouped {
			n = len(groups)
		}
		if n > int(c.Limit) {
			n = int(c.Limit)
		}
		if c.ResultLimit > 0 && n > int(c.ResultLimit) {
			n = int(c.ResultLimit)
		}
		if len(res) != n {
			verifFail(t, "%s: %d results, expected %d", what, len(res), n)
		}
		if !grouped {
			var all []float64
			for _, s := range best {
				all = append(all, s)
			}
			sort.Slice(all, func(i, j int) bool { return verifBetter(c.HigherIsBetter, all[i], all[j]) })
			for i, sd := range res {
				if sd.Score != all[i] {
					verifFail(t, "%s: result %d has score %v, the best remaining is %v", what, i, sd.Score, all[i])
				}
			}
		}
	}
}
