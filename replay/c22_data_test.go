package data

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"path"
	"strings"
	"sync"
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
)

func verifConfigID(c *pb.DataConfig) string {
	return fmt.Sprintf("%q v%d n%d util%v notarget%v repl%d enforce%v retention%d", c.GetName(), c.GetVersion(), c.GetTargetN(), c.GetTargetUtilization(), c.GetNoTarget(), c.GetReplicationOnInsert(), c.GetEnforceReplicationOnInsert(), c.GetRetention())
}

func TestVerifC22(t *testing.T) {
	r := verifRand()
	names := []string{"a", "b", "data", "a.b", "x y", "line\nbreak", "q\"uote", "ümlaut", "a/b", "<tag>&", strings.Repeat("long", 30), "0", "{}", "..."}
	randConfig := func(name string) *pb.DataConfig {
		return &pb.DataConfig{Name: name, Version: uint64(r.Intn(4)) * uint64(1+r.Intn(2)*(1<<40)), TargetN: r.Uint64() >> uint(r.Intn(64)), TargetUtilization: float64(r.Intn(10)) / 10,
			NoTarget: r.Intn(2) == 0, ReplicationOnInsert: uint32(r.Intn(4)), EnforceReplicationOnInsert: r.Intn(2) == 0, Retention: uint64(r.Intn(2) * 3600 * (1 + r.Intn(5)))}
	}
	for round := 0; round < verifRounds(25) && time.Now().Before(verifStop); round++ {
		dir, err := ioutil.TempDir("", "c22")
		if err != nil {
			t.Skip(err)
		}
		// saving
		dts := NewDataset(dir)
		var trace []string
		for op := 0; op < r.Intn(25); op++ {
			name := names[r.Intn(len(names))]
			switch r.Intn(5) {
			case 0:
				dts.Get(name)
				trace = append(trace, "get "+name)
			case 1:
				dts.Delete(name)
				trace = append(trace, "delete "+name)
			default:
				c := randConfig(name)
				trace = append(trace, "create "+verifConfigID(c))
				dts.CreateIfNotExists(c)
			}
		}
		// the saves of the history may overlap with this one: it is the last to start, and an
		// index which is still changing is looked at again
		var msg string
		var saved []byte
		for try := 0; try < 20; try++ {
			msg = ""
			dts.SaveIndex()
			saved, _ = ioutil.ReadFile(path.Join(dir, "index.save"))
			lines := strings.Split(string(saved), "\n")
			rest := lines[len(lines)-1]
			lines = lines[:len(lines)-1]
			want := map[string]string{}
			for k := range dts.DataList.Items() {
				d, err := dts.GetNoCreate(k)
				if err == nil {
					want[k] = verifConfigID(d.GetConfig())
				}
			}
			seen := map[string]bool{}
			for _, l := range lines {
				var c pb.DataConfig
				if err := json.Unmarshal([]byte(l), &c); err != nil {
					msg = fmt.Sprintf("line %q does not parse", l)
					continue
				}
				if seen[c.Name] {
					msg = fmt.Sprintf("two lines for data set %q", c.Name)
				}
				seen[c.Name] = true
				if want[c.Name] != verifConfigID(&c) {
					msg = fmt.Sprintf("the file lists %s, registered is %s", verifConfigID(&c), want[c.Name])
				}
			}
			if rest != "" {
				msg = fmt.Sprintf("the last line %q is not complete", rest)
			}
			for k := range want {
				if !seen[k] {
					msg = fmt.Sprintf("data set %q is registered and not in the file", k)
				}
			}
			if msg == "" {
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
		if msg != "" {
			verifFail(t, "history %v, then the index is saved: %s", trace, msg)
		}
		// a restart
		want := map[string]string{}
		for k := range dts.DataList.Items() {
			if d, err := dts.GetNoCreate(k); err == nil {
				want[k] = verifConfigID(d.GetConfig())
			}
		}
		// the saves in the background are left behind by a copy of the file as it was just checked
		dir3, _ := ioutil.TempDir("", "c22")
		ioutil.WriteFile(path.Join(dir3, "index.save"), saved, 0644)
		dts.Close()
		again := NewDataset(dir3)
		for k, w := range want {
			d, err := again.GetNoCreate(k)
			if err != nil || verifConfigID(d.GetConfig()) != w {
				got := fmt.Sprint(err)
				if err == nil {
					got = verifConfigID(d.GetConfig())
				}
				verifFail(t, "history %v, then a restart: data set %q was %s, after the restart %s", trace, k, w, got)
			}
		}
		if n := len(again.DataList.Items()); n != len(want) {
			verifFail(t, "history %v, then a restart: %d data sets, before %d", trace, n, len(want))
		}
		again.Close()

		// loading files with other lines
		dir2, _ := ioutil.TempDir("", "c22")
		var sb strings.Builder
		top := map[string]*pb.DataConfig{}
		first := map[string]string{}
		var files []string
		n := r.Intn(12)
		pad := ""
		if r.Intn(3) == 0 {
			n = 20 + r.Intn(20) // longer than one read of the file
			pad = strings.Repeat(" ", 200)
		}
		for i := 0; i < n; i++ {
			switch r.Intn(5) {
			case 0:
				bad := []string{"", "{", "not json", "[1]", `{"name": 5}`, "\x00"}[r.Intn(6)]
				sb.WriteString(bad + "\n")
				files = append(files, fmt.Sprintf("%q", bad))
			default:
				name := names[r.Intn(len(names))]
				if pad != "" {
					name = fmt.Sprintf("n%d", r.Intn(30))
				}
				c := randConfig(name)
				b, _ := json.Marshal(c)
				sb.WriteString(string(b) + pad + "\n")
				files = append(files, verifConfigID(c))
				if o, ok := top[name]; !ok || c.Version > o.Version {
					top[name] = c
				}
				if _, ok := first[name]; !ok {
					first[name] = verifConfigID(c)
				}
			}
		}
		ioutil.WriteFile(path.Join(dir2, "index.save"), []byte(sb.String()), 0644)
		loaded := NewDataset(dir2)
		for k, c := range top {
			d, err := loaded.GetNoCreate(k)
			if err != nil {
				verifFail(t, "index file %v: data set %q is not registered: %v", files, k, err)
			}
			if d.GetConfig().Version != c.Version || d.GetConfig().Name != k {
				verifFail(t, "index file %v: data set %q has configuration %s, the file lists %s", files, k, verifConfigID(d.GetConfig()), verifConfigID(c))
			}
			if first[k] == verifConfigID(c) && verifConfigID(d.GetConfig()) != first[k] {
				verifFail(t, "index file %v: data set %q has configuration %s, the file lists %s", files, k, verifConfigID(d.GetConfig()), first[k])
			}
		}
		if m := len(loaded.DataList.Items()); m != len(top) {
			verifFail(t, "index file %v: %d data sets are registered, the file lists %d", files, m, len(top))
		}
		loaded.Close()
	}
}

// Data sets created at the same time: once the saves are done every one of them is listed, once.
func TestVerifC22Concurrent(t *testing.T) {
	for round := 0; round < verifRounds(6) && time.Now().Before(verifStop); round++ {
		dir, err := ioutil.TempDir("", "c22")
		if err != nil {
			t.Skip(err)
		}
		dts := NewDataset(dir)
		var wg sync.WaitGroup
		for i := 0; i < 16; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				dts.Get(fmt.Sprintf("n%d", i))
			}(i)
		}
		wg.Wait()
		var got int
		seen := map[string]bool{}
		for try := 0; try < 30; try++ {
			time.Sleep(100 * time.Millisecond)
			b, _ := ioutil.ReadFile(path.Join(dir, "index.save"))
			lines := strings.Split(string(b), "\n")
			got = len(lines) - 1
			seen = map[string]bool{}
			for _, l := range lines[:got] {
				seen[l] = true
			}
			if got == 16 && len(seen) == 16 {
				break
			}
		}
		if got != 16 || len(seen) != 16 {
			verifFail(t, "16 data sets created at the same time: after 3 s the index file has %d lines, %d of them distinct", got, len(seen))
		}
		dts.Close()
	}
}
