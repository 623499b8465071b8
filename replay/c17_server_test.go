package veriserviceserver

import (
	"encoding/json"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/bgokden/veri/state"
)

func checkProbe(t *testing.T, what, path string, health, ready bool, code int, raw []byte) {
	up, down := health, 500
	if path == "/ready" {
		up, down = ready, 503
	}
	want := 200
	if !up {
		want = down
	}
	var body struct{ Alive *bool }
	err := json.Unmarshal(raw, &body)
	if code != want || err != nil || body.Alive == nil || *body.Alive != up {
		t.Fatalf("REPLAY-FAIL: %s %s with Health=%v Ready=%v answers %d %q, expected %d with alive %v", what, path, health, ready, code, raw, want, up)
	}
}

func TestVerifC17(t *testing.T) {
	direct := map[string]http.HandlerFunc{"/health": GetHeath, "/ready": GetReady}
	urls := []string{"", "?x=1", "/", "?ready=true&health=true&alive=true"}
	for round := 0; round < 3; round++ {
		for n := 0; n < 4; n++ {
			h, r := n&1 != 0, n&2 != 0
			for _, path := range []string{"/health", "/ready"} {
				for _, m := range []string{"GET", "HEAD", "POST", "PUT", "OPTIONS"} {
					for _, u := range urls {
						for _, hdr := range []string{"", "Accept", "User-Agent", "Content-Type", "X-Forwarded-For"} {
							for _, body := range []string{"", "x"} {
								state.Health, state.Ready = h, r
								rec := httptest.NewRecorder()
								req := httptest.NewRequest(m, path+u, strings.NewReader(body))
								if hdr != "" {
									req.Header.Set(hdr, "kube-probe/1.0")
								}
								direct[path].ServeHTTP(rec, req)
								checkProbe(t, "handler of "+m+" "+u+" "+hdr, path, h, r, rec.Code, rec.Body.Bytes())
							}
						}
					}
				}
			}
		}
	}
	go RestApi()
	client := &http.Client{Timeout: 3 * time.Second}
	up := false
	for i := 0; i < 30 && !up; i++ {
		time.Sleep(100 * time.Millisecond)
		if resp, err := client.Get("http://127.0.0.1:8000/"); err == nil {
			resp.Body.Close()
			up = true
		}
	}
	if !up {
		return
	}
	for n := 0; n < 4; n++ {
		h, r := n&1 != 0, n&2 != 0
		for _, path := range []string{"/health", "/ready"} {
			state.Health, state.Ready = h, r
			resp, err := client.Get("http://127.0.0.1:8000" + path)
			if err != nil {
				continue
			}
			b, _ := ioutil.ReadAll(resp.Body)
			resp.Body.Close()
			checkProbe(t, "GET", path, h, r, resp.StatusCode, b)
		}
	}
}
