package data

import (
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
)

// A full stream of a data set.
func TestVerifC20(t *testing.T) {
	r := verifRand()
	for round := 0; round < verifRounds(1500) && time.Now().Before(verifStop); round++ {
		dt := verifPlainData("c20")
		stored := verifFill(t, r, dt, r.Intn(14), r.Intn(3))
		live := 0
		ok := map[*pb.Datum]bool{}
		for _, s := range stored {
			if s.live {
				live++
				ok[s.d] = true
			}
		}
		ch := make(chan *pb.Datum, 100)
		if err := dt.StreamAll(ch); err != nil {
			verifFail(t, "streaming %v: %v", stored, err)
		}
		n := 0
		close(ch)
		seen := map[*pb.Datum]bool{}
		for d := range ch {
			n++
			if !ok[d] || seen[d] {
				verifFail(t, "streaming %v: sent %v (live: %v, sent before: %v)", stored, d, ok[d], seen[d])
			}
			seen[d] = true
		}
		if n != live {
			verifFail(t, "streaming %v: sent %d of %d live entries", stored, n, live)
		}
	}
}
