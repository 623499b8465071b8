package node

import (
	"context"
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bgokden/go-cache"
	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
)

func init() { log.SetOutput(ioutil.Discard) }

func verifRand() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n*7919 + 17))
}

// verifRounds scales the number of rounds with the tier.
func verifRounds(quick int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return quick * 8
	}
	return quick
}

var verifStop = time.Now().Add(150 * time.Second)

func verifFail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	msg := fmt.Sprintf(f, a...)
	fmt.Printf("REPLAY-FAIL: %s\n", msg)
	t.Fatal(msg)
}

func verifDatum(r *rand.Rand, dims int) *pb.Datum {
	f := make([]float32, dims)
	for i := range f {
		f[i] = float32(r.Intn(9) - 4)
	}
	groups := []string{`{"g":1}`, `{"h":2}`, `{}`, ``, `{"g":1,"h":2}`}
	labels := []string{`{"a":1}`, `{"b":{"c":2}}`, `{}`, ``, `{"a":null,"b":3}`, `not json`}
	return &pb.Datum{
		Key: &pb.DatumKey{Feature: f, GroupLabel: []byte(groups[r.Intn(len(groups))]),
			Size1: uint32(r.Intn(2)), Size2: uint32(r.Intn(2)), Dim1: uint32(r.Intn(2)), Dim2: uint32(r.Intn(2))},
		Value: &pb.DatumValue{Version: uint64(r.Intn(3)), Label: []byte(labels[r.Intn(len(labels))])},
	}
}

// verifKeyID identifies a key by its components, independently of the encoder.
func verifKeyID(k *pb.DatumKey) string {
	return fmt.Sprintf("%v|%q|%d|%d|%d|%d", k.Feature, k.GroupLabel, k.Size1, k.Size2, k.Dim1, k.Dim2)
}

func verifNode(t *testing.T) *Node {
	dir, err := ioutil.TempDir("", "node")
	if err != nil {
		t.Skip(err)
	}
	return &Node{Port: 1, Folder: dir, Dataset: data.NewDataset(dir), PeerList: cache.New(5*time.Minute, time.Minute),
		ServiceList: cache.New(5*time.Minute, time.Minute), QueryUUIDCache: cache.New(5*time.Minute, time.Minute)}
}

func verifSet(l []string) string {
	c := append([]string{}, l...)
	sort.Strings(c)
	return strings.Join(c, "\x00")
}

// verifOut is the server side of a search stream that records what is sent.
type verifOut struct {
	grpc.ServerStream
	mu   sync.Mutex
	got  []*pb.ScoredDatum
	late bool
	done bool
}

func (s *verifOut) Send(d *pb.ScoredDatum) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.got = append(s.got, d)
	s.late = s.late || s.done
	return nil
}

func (s *verifOut) Context() context.Context { return context.Background() }

// verifDataOut is the server side of a data stream that records what is sent.
type verifDataOut struct {
	grpc.ServerStream
	mu   sync.Mutex
	got  []*pb.Datum
	late bool
	done bool
}

func (s *verifDataOut) Send(d *pb.Datum) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.got = append(s.got, d)
	s.late = s.late || s.done
	return nil
}

func (s *verifDataOut) Context() context.Context { return context.Background() }

// verifSrc is a data source of a data set.
type verifSrc struct {
	id       string
	mu       sync.Mutex
	searches int
	onSearch func(d *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	onInsert func(d *pb.Datum, c *pb.InsertConfig) error
	info     *pb.DataInfo
}

func (v *verifSrc) StreamSearch(d *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	v.mu.Lock()
	v.searches++
	v.mu.Unlock()
	if v.onSearch != nil {
		v.onSearch(d, out, c)
	}
	return nil
}

func (v *verifSrc) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if v.onInsert != nil {
		return v.onInsert(d, c)
	}
	return nil
}
func (v *verifSrc) GetDataInfo() *pb.DataInfo { return v.info }
func (v *verifSrc) GetID() string             { return v.id }

// verifExpire makes the stored entry of a datum expire.
func verifExpire(dt *data.Data, d *pb.Datum) {
	dt.DBMap.Range(func(k, v interface{}) bool {
		if e, ok := v.(*data.DBMapEntry); ok && e.Datum == d {
			dt.DBMap.Store(k, &data.DBMapEntry{Datum: d, ExprireAt: time.Now().Unix() - 1})
		}
		return true
	})
}
