package data

import (
	"fmt"
	"io/ioutil"
	"sort"
	"testing"

	pb "github.com/bgokden/veri/veriservice"
)

func TestVerifC08(t *testing.T) {
	r := verifRand()
	for round := 0; round < verifRounds(60); round++ {
		dir, err := ioutil.TempDir("", "c08")
		if err != nil {
			t.Skip(err)
		}
		dts := NewDataset(dir)
		model := map[string]*pb.DataConfig{}
		ptr := map[string]*Data{}
		var trace []string
		names := []string{"a", "b", "data", "a.b", "x y"}
		check := func(name string, d *Data, err error) {
			if err != nil || d == nil {
				verifFail(t, "history %v: lookup of %q failed: %v", trace, name, err)
			}
			if p, ok := ptr[name]; ok {
				if p != d {
					verifFail(t, "history %v: data set %q was replaced", trace, name)
				}
			} else {
				ptr[name] = d
			}
			if d.Config != model[name] && !(d.Config != nil && model[name] != nil && d.Config.Name == model[name].Name &&
				d.Config.Version == model[name].Version && d.Config.TargetN == model[name].TargetN && d.Config.Retention == model[name].Retention) {
				verifFail(t, "history %v: data set %q has configuration %v, expected %v", trace, name, d.Config, model[name])
			}
		}
		for op := 0; op < 30; op++ {
			name := names[r.Intn(len(names))]
			switch r.Intn(7) {
			case 0, 1, 2:
				c := &pb.DataConfig{Name: name, Version: uint64(r.Intn(4)), TargetN: uint64(r.Intn(100)), NoTarget: true, Retention: uint64(r.Intn(2) * 3600)}
				trace = append(trace, fmt.Sprintf("create(%s,v%d,n%d)", name, c.Version, c.TargetN))
				if old, ok := model[name]; !ok || c.Version > old.Version {
					model[name] = c
				}
				if r.Intn(2) == 0 {
					if err := dts.CreateIfNotExists(c); err != nil {
						verifFail(t, "history %v: %v", trace, err)
					}
				} else {
					d, err := dts.GetOrCreateIfNotExists(c)
					check(name, d, err)
				}
			case 3:
				trace = append(trace, "get("+name+")")
				if _, ok := model[name]; !ok {
					model[name] = &pb.DataConfig{Name: name, Version: 0, TargetN: 1000, Retention: 0}
					d, err := dts.Get(name)
					check(name, d, err)
					c := d.Config
					if c.TargetUtilization != 0.4 || c.NoTarget || c.ReplicationOnInsert != 1 || !c.EnforceReplicationOnInsert || c.TargetN != 1000 {
						verifFail(t, "history %v: default configuration is %v", trace, c)
					}
					model[name] = c
				} else {
					d, err := dts.Get(name)
					check(name, d, err)
				}
			case 4:
				trace = append(trace, "getnocreate("+name+")")
				d, err := dts.GetNoCreate(name)
				if _, ok := model[name]; ok {
					check(name, d, err)
				} else if err == nil {
					verifFail(t, "history %v: unknown name is not an error", trace)
				}
			case 5:
				trace = append(trace, "delete("+name+")")
				err := dts.Delete(name)
				if _, ok := model[name]; ok != (err == nil) {
					verifFail(t, "history %v: delete returned %v", trace, err)
				}
				delete(model, name)
				delete(ptr, name)
			case 6:
				trace = append(trace, "getnoop("+name+")")
				if _, ok := model[name]; ok {
					d, err := dts.GetNoOp(name)
					check(name, d, err)
				}
			}
			l := dts.List()
			sort.Strings(l)
			var want []string
			for k := range model {
				want = append(want, k)
			}
			sort.Strings(want)
			if fmt.Sprint(l) != fmt.Sprint(want) {
				verifFail(t, "history %v: listed %v, expected %v", trace, l, want)
			}
			cl := dts.DataConfigList()
			if len(cl) != len(want) {
				verifFail(t, "history %v: %d configurations listed, expected %d", trace, len(cl), len(want))
			}
			for _, c := range cl {
				if c == nil || model[c.Name] == nil || c.Version != model[c.Name].Version {
					verifFail(t, "history %v: listed configuration %v", trace, c)
				}
			}
		}
		for n := range ptr {
			dts.Delete(n)
		}
	}
}
