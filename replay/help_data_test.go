package data

import (
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/bgokden/go-cache"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/tidwall/gjson"
)

func init() { log.SetOutput(ioutil.Discard) }

func verifRand() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n*7919 + 17))
}

// verifRounds scales the number of rounds with the tier.
func verifRounds(quick int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return quick * 8
	}
	return quick
}

var verifStop = time.Now().Add(150 * time.Second)

func verifFail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	msg := fmt.Sprintf(f, a...)
	fmt.Printf("REPLAY-FAIL: %s\n", msg)
	t.Fatal(msg)
}

func verifPlainData(name string) *Data {
	return &Data{Config: &pb.DataConfig{Name: name, NoTarget: true}, Initialized: true, Alive: true,
		Sources: cache.New(10*time.Minute, 0), QueryCache: cache.New(5*time.Minute, 0)}
}

func verifDatum(r *rand.Rand, dims int) *pb.Datum {
	f := make([]float32, dims)
	for i := range f {
		f[i] = float32(r.Intn(9) - 4)
	}
	groups := []string{`{"g":1}`, `{"h":2}`, `{}`, ``, `{"g":1,"h":2}`}
	labels := []string{`{"a":1}`, `{"b":{"c":2}}`, `{}`, ``, `{"a":null,"b":3}`, `not json`}
	return &pb.Datum{
		Key: &pb.DatumKey{Feature: f, GroupLabel: []byte(groups[r.Intn(len(groups))]),
			Size1: uint32(r.Intn(2)), Size2: uint32(r.Intn(2)), Dim1: uint32(r.Intn(2)), Dim2: uint32(r.Intn(2))},
		Value: &pb.DatumValue{Version: uint64(r.Intn(3)), Label: []byte(labels[r.Intn(len(labels))])},
	}
}

// verifKeyID identifies a key by its components, independently of the encoder.
func verifKeyID(k *pb.DatumKey) string {
	return fmt.Sprintf("%v|%q|%d|%d|%d|%d", k.Feature, k.GroupLabel, k.Size1, k.Size2, k.Dim1, k.Dim2)
}

// verifSrc is a data source of a data set.
type verifSrc struct {
	id       string
	mu       sync.Mutex
	searches int
	onSearch func(d *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	onInsert func(d *pb.Datum, c *pb.InsertConfig) error
	info     *pb.DataInfo
}

func (v *verifSrc) StreamSearch(d *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	v.mu.Lock()
	v.searches++
	v.mu.Unlock()
	if v.onSearch != nil {
		v.onSearch(d, out, c)
	}
	return nil
}

func (v *verifSrc) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if v.onInsert != nil {
		return v.onInsert(d, c)
	}
	return nil
}
func (v *verifSrc) GetDataInfo() *pb.DataInfo { return v.info }
func (v *verifSrc) GetID() string             { return v.id }

// verifStored is what a test put into a data set.
type verifStored struct {
	d    *pb.Datum
	live bool
}

func (s verifStored) String() string {
	return fmt.Sprintf("{%s label=%q live=%v}", verifKeyID(s.d.Key), s.d.Value.Label, s.live)
}

// verifFill stores random data with distinct keys; some of them have expired, some
// have a time to live.
func verifFill(t *testing.T, r *rand.Rand, dt *Data, n, dims int) []verifStored {
	seen := map[string]bool{}
	var out []verifStored
	for i := 0; i < n; i++ {
		d := verifDatum(r, dims)
		id := verifKeyID(d.Key)
		if seen[id] {
			continue
		}
		seen[id] = true
		ttl := uint64(0)
		kind := r.Intn(5)
		if kind < 2 {
			ttl = 1000
		}
		if err := dt.InsertBDMap(d, &pb.InsertConfig{TTL: ttl, Count: 1}); err != nil {
			t.Skip(err)
		}
		live := true
		if kind == 0 {
			live = false
			dt.DBMap.Range(func(k, v interface{}) bool {
				if e, ok := v.(*DBMapEntry); ok && e.Datum == d {
					dt.DBMap.Store(k, &DBMapEntry{Datum: d, ExprireAt: time.Now().Unix() - int64(r.Intn(3))})
				}
				return true
			})
		}
		out = append(out, verifStored{d, live})
	}
	return out
}

var verifFilters = [][]string{nil, nil, {"a"}, {"b"}, {"a", "b"}, {"b.c"}, {"zz"}, {"b", "a"}}
var verifGroupFilters = [][]string{nil, nil, {"g"}, {"h"}, {"g", "h"}, {"zz"}}
var verifFuncs = []string{"VectorDistance", "VectorMultiplication", "CosineSimilarity", "QuickVectorDistance", "AngularDistance", "unknown", ""}

func verifPasses(d *pb.Datum, c *pb.SearchConfig) bool {
	for _, f := range c.Filters {
		if !gjson.Get(string(d.Value.Label), f).Exists() {
			return false
		}
	}
	for _, f := range c.GroupFilters {
		if !gjson.Get(string(d.Key.GroupLabel), f).Exists() {
			return false
		}
	}
	return true
}

func verifSearchConfig(r *rand.Rand) *pb.SearchConfig {
	limits := []uint32{0, 1, 2, 3, 5, 8, 1000}
	return &pb.SearchConfig{
		ScoreFuncName:  verifFuncs[r.Intn(len(verifFuncs))],
		HigherIsBetter: r.Intn(2) == 0,
		Limit:          limits[r.Intn(len(limits))],
		Filters:        verifFilters[r.Intn(len(verifFilters))],
		GroupFilters:   verifGroupFilters[r.Intn(len(verifGroupFilters))],
		Timeout:        60000,
	}
}

func verifBetter(hib bool, a, b float64) bool {
	if hib {
		return a > b
	}
	return a < b
}

func verifCloneDatum(d *pb.Datum) *pb.Datum {
	if d == nil {
		return nil
	}
	c := &pb.Datum{}
	if d.Key != nil {
		c.Key = &pb.DatumKey{Feature: append([]float32{}, d.Key.Feature...), GroupLabel: append([]byte{}, d.Key.GroupLabel...),
			Size1: d.Key.Size1, Size2: d.Key.Size2, Dim1: d.Key.Dim1, Dim2: d.Key.Dim2}
	}
	if d.Value != nil {
		c.Value = &pb.DatumValue{Version: d.Value.Version, Label: append([]byte{}, d.Value.Label...)}
	}
	return c
}
