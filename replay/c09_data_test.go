package data

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/bgokden/go-cache"
	pb "github.com/bgokden/veri/veriservice"
)

// Deleting data sets with any name deletes nothing outside their own directory. The
// data directory lies eight levels deep in a scratch directory and no name goes up
// more than four levels.
func TestVerifC09Directory(t *testing.T) {
	names := []string{"a", "b", "..", ".", "", "a/b", "../b", "../..", "../../..", "../../../..", "a/../..", "/", "/a", "a/", "./a", "a/.", "data-a", "..a", "a..", "%2e%2e", "a%2Fb", "..%2f..", "x y", "a\\b", "../data/a", "../data"}
	for i, name := range names {
		for j, other := range names {
			if i == j || time.Now().After(verifStop) {
				continue
			}
			dir, err := ioutil.TempDir("", "c09")
			if err != nil {
				t.Skip(err)
			}
			p := filepath.Join(dir, "1", "2", "3", "4", "5", "6", "7", "node")
			os.MkdirAll(filepath.Join(p, "data"), 0755)
			var marks []string
			for d := p; len(d) > len(dir); d = filepath.Dir(d) {
				marks = append(marks, filepath.Join(d, "keep"))
			}
			marks = append(marks, filepath.Join(p, "data", "keep"))
			dts := &Dataset{Path: p, DataPath: filepath.Join(p, "data"), DataList: cache.New(24*time.Hour, 0)}
			dts.DataList.OnEvicted(closeData)
			mk := func(name string) *Data {
				d := NewPreData(&pb.DataConfig{Name: name}, dts.DataPath)
				d.Sources = cache.New(time.Minute, 0)
				dts.DataList.Set(name, d, cache.NoExpiration)
				return d
			}
			d, o := mk(name), mk(other)
			os.MkdirAll(d.DBPath, 0755)
			os.MkdirAll(o.DBPath, 0755)
			marks = append(marks, filepath.Join(o.DBPath, "keep-other"))
			for _, m := range marks {
				ioutil.WriteFile(m, []byte("x"), 0644)
			}
			in := fmt.Sprintf("data sets %q (directory %s) and %q (directory %s) below %s", name, d.DBPath, other, o.DBPath, dts.DataPath)
			if filepath.Dir(filepath.Clean(d.DBPath)) != dts.DataPath {
				verifFail(t, "%s: the directory is not directly below the data directory", in)
			}
			switch (i + j) % 3 {
			case 0:
				d.Close()
			case 1:
				dts.Delete(name)
			case 2:
				d.DeletePath()
			}
			time.Sleep(0)
			for _, m := range marks {
				if _, err := os.Stat(m); err != nil {
					verifFail(t, "%s: closing %q deleted %s", in, name, m)
				}
			}
			os.RemoveAll(dir)
		}
	}
}

// Clean-up keeps every data set that holds an entry or one of whose peers does.
func TestVerifC09Cleanup(t *testing.T) {
	r := verifRand()
	for round := 0; round < verifRounds(300) && time.Now().Before(verifStop); round++ {
		dir, err := ioutil.TempDir("", "c09")
		if err != nil {
			t.Skip(err)
		}
		p := filepath.Join(dir, "1", "2", "3", "4", "node")
		os.MkdirAll(filepath.Join(p, "data"), 0755)
		dts := &Dataset{Path: p, DataPath: filepath.Join(p, "data"), DataList: cache.New(24*time.Hour, 0)}
		dts.DataList.OnEvicted(closeData)
		type exp struct {
			d    *Data
			keep bool
			desc string
			n    int
		}
		var all []exp
		for i := 0; i < 1+r.Intn(4); i++ {
			d := verifPlainData(fmt.Sprintf("d%d", i))
			d.Runs = 1 // no background run
			d.DBPath = dataDirOf(dts, d.Config)
			e := exp{d: d}
			for k := r.Intn(3) * r.Intn(2); k > 0; k-- {
				x := verifDatum(r, 1)
				x.Key.Feature[0] = float32(k)
				d.InsertBDMap(x, nil)
				e.n++
			}
			if r.Intn(3) == 0 {
				d.N = uint64(e.n)
			}
			e.keep = e.n > 0
			e.desc = fmt.Sprintf("%d entries, count %d, peers", e.n, d.N)
			if r.Intn(5) == 0 {
				d.Sources = nil
				e.desc += " none"
			} else {
				for s := r.Intn(4); s > 0; s-- {
					src := &verifSrc{id: fmt.Sprintf("s%d", s)}
					src.onInsert = func(*pb.Datum, *pb.InsertConfig) error { return nil }
					switch r.Intn(4) {
					case 0, 1:
						src.info = &pb.DataInfo{}
						e.desc += " 0"
					case 2:
						e.desc += " unreachable"
					case 3:
						src.info = &pb.DataInfo{N: uint64(1 + r.Intn(3))}
						e.keep = true
						e.desc += fmt.Sprintf(" %d", src.info.N)
					}
					d.Sources.Set(src.id, src, cache.NoExpiration)
				}
			}
			dts.DataList.Set(d.Config.Name, d, cache.NoExpiration)
			all = append(all, e)
		}
		for _, e := range all {
			if !e.d.CheckIfActive() && e.keep {
				verifFail(t, "a data set with %s is considered inactive", e.desc)
			}
		}
		dts.ReloadRuns()
		for _, e := range all {
			if !e.keep {
				continue
			}
			if _, ok := dts.DataList.Get(e.d.Config.Name); !ok || !e.d.Alive {
				verifFail(t, "clean-up discarded a data set with %s (registered %v, alive %v)", e.desc, ok, e.d.Alive)
			}
			n := 0
			e.d.DBMap.Range(func(k, v interface{}) bool { n++; return true })
			if n != e.n {
				verifFail(t, "clean-up changed a data set with %s to %d entries", e.desc, n)
			}
		}
		os.RemoveAll(dir)
	}
}

func dataDirOf(dts *Dataset, c *pb.DataConfig) string { return NewPreData(c, dts.DataPath).DBPath }
