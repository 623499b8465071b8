# HTTP probes (C17)
func server.GetReady(w, r)
  requires response not started: gattr("http#code", w) == 0 && strof(gattr("http#body", w)) == ""
  ensures[C17] ready answers 200 with alive true: imp(old(state.Ready), gattr("http#code", w) == 200 && gattr("http#body", w) == "{\"alive\": true}")
  ensures[C17] not ready answers 503 with alive false: imp(!old(state.Ready), gattr("http#code", w) == 503 && gattr("http#body", w) == "{\"alive\": false}")

func server.GetHeath(w, r)
  requires response not started: gattr("http#code", w) == 0 && strof(gattr("http#body", w)) == ""
  ensures[C17] healthy answers 200 with alive true: imp(old(state.Health), gattr("http#code", w) == 200 && gattr("http#body", w) == "{\"alive\": true}")
  ensures[C17] unhealthy answers 500 with alive false: imp(!old(state.Health), gattr("http#code", w) == 500 && gattr("http#body", w) == "{\"alive\": false}")

func server.RestApi()
  requires no route registered: all(p, "string", glog("route", p) == 0)
  ensures[C17] the probes are served at their paths: glog("route", "/health") == fref("server.GetHeath") && glog("route", "/ready") == fref("server.GetReady")
