package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"verif/harness/world"
)

func init() { props["C17"] = c17 }

type outageStep struct {
	Act []interface{}
	To  int
}

// discoveryFailures are the ways in which the discovery endpoint is down or answers nonsense
var discoveryFailures = []struct {
	name  string
	reply *world.Reply
	doc   Obj
}{
	{"500", &world.Reply{Status: 500, Body: `{"error":"server_error"}`}, nil},
	{"503", &world.Reply{Status: 503, Body: "try later"}, nil},
	{"404", &world.Reply{Status: 404, Body: "<html>"}, nil},
	{"drop", &world.Reply{Drop: true}, nil},
	{"html", &world.Reply{Body: "<html>maintenance</html>"}, nil},
	{"empty", &world.Reply{Body: ""}, nil},
	{"null", &world.Reply{Body: "null"}, nil},
	{"{}", &world.Reply{Body: "{}"}, nil},
	{"list", &world.Reply{Body: "[]"}, nil},
	{"error with 200", &world.Reply{Body: `{"error":"temporarily_unavailable"}`}, nil},
	{"numbers", &world.Reply{Body: `{"issuer":1,"authorization_endpoint":2,"token_endpoint":3,"jwks_uri":4,"userinfo_endpoint":5}`}, nil},
	{"no issuer", nil, Obj{"issuer": nil}},
	{"no authorization endpoint", nil, Obj{"authorization_endpoint": nil}},
	{"empty authorization endpoint", nil, Obj{"authorization_endpoint": ""}},
	{"no token endpoint", nil, Obj{"token_endpoint": nil, "authorization_endpoint": "https://elsewhere.example/authorize", "jwks_uri": "http://127.0.0.1:1/keys"}},
	{"empty token endpoint", nil, Obj{"token_endpoint": "", "authorization_endpoint": "https://elsewhere.example/authorize"}},
	{"no keys endpoint", nil, Obj{"jwks_uri": nil, "authorization_endpoint": "https://elsewhere.example/authorize"}},
	{"empty keys endpoint", nil, Obj{"jwks_uri": "", "token_endpoint": "http://127.0.0.1:1/token"}},
}

func c17() {
	w := newWorld()
	defer w.Close()
	const ns = "c17"
	type job struct {
		kind string
		walk []outageStep
	}
	var jobs []job
	for _, kind := range []string{"jwt", "oidc"} {
		load(kind+"-walks.ndjson", func(raw []byte) {
			var s []outageStep
			mustUnmarshal(raw, &s)
			jobs = append(jobs, job{kind, s})
		})
	}
	for i, j := range jobs {
		w.Apply("policies", ns, fmt.Sprintf("p%d", i), world.Paths(fmt.Sprintf("s%d", i), world.PathEntry("prefix", "/", "", j.kind, fmt.Sprintf("cfg%d", i), nil)))
	}
	if !w.Barrier(60 * time.Second) {
		rep.count("barrier timeout")
	}
	var failNames []string
	for n := range jwksFailures {
		failNames = append(failNames, n)
	}
	world.Parallel(16, len(jobs), func(i int) {
		rnd := rand.New(rand.NewSource(*seed*77 + int64(i)))
		t := w.IdP.Tenant(fmt.Sprintf("c17-%d", i))
		t.SetKeys(world.PubKey("kid", "c17"))
		client := fmt.Sprintf("c17-%d", i)
		req := Req{NS: ns, Svc: fmt.Sprintf("s%d", i), Path: "/x", Method: "GET"}
		var pend *pendingLogin
		session, version := "", 0
		var tokens tokenSet
		var hist []interface{}
		rep.behaviour()
		for _, s := range jobs[i].walk {
			op := s.Act[0].(string)
			allowed := map[string]bool{}
			if l, ok := s.Act[1].([]interface{}); ok {
				for _, o := range l {
					allowed[o.(string)] = true
				}
			}
			var note interface{} = op
			times := 1
			if rnd.Intn(4) == 0 {
				times = 6
			}
			var results []world.Resp
			long := 0 // a long outage
			if rnd.Intn(8) == 0 && (op == "api" || op == "begin") && !allowed["ok"] && !allowed["login"] {
				long = 40
			}
			do := func(q Req) {
				results = make([]world.Resp, times)
				var wg sync.WaitGroup
				for n := range results {
					wg.Add(1)
					go func(n int) { defer wg.Done(); results[n] = w.A.Do(q) }(n)
				}
				wg.Wait()
				for n := 0; n < long; n++ {
					results = append(results, w.A.Do(q))
				}
			}
			classify := func(r world.Resp) string { return "?" }
			rejected := func(r world.Resp) bool {
				return (r.Kind == "DENY" || r.Kind == "ERR") && r.Location == "" && r.Header("Set-Cookie") == ""
			}
			switch op {
			case "create":
				version++
				if jobs[i].kind == "jwt" {
					w.Apply("jwtconfigs", ns, fmt.Sprintf("cfg%d", i), Obj{"jwksUrl": t.Jwks() + fmt.Sprintf("?v=%d", version)})
				} else {
					w.Oidc(ns, fmt.Sprintf("cfg%d", i), t, client, fmt.Sprintf("secret%d", version), nil)
				}
				if !w.Barrier(30 * time.Second) {
					rep.count("barrier timeout")
				}
			case "discovery":
				note = []interface{}{op, "up"}
				t.Fault("discovery", nil)
				t.SetDoc(nil)
				if s.Act[1].(string) == "down" {
					f := discoveryFailures[rnd.Intn(len(discoveryFailures))]
					note = []interface{}{op, f.name}
					t.Fault("discovery", f.reply)
					t.SetDoc(f.doc)
				}
			case "jwks":
				note = []interface{}{op, "up"}
				t.Fault("jwks", nil)
				if s.Act[1].(string) == "down" {
					n := failNames[rnd.Intn(len(failNames))]
					r := jwksFailures[n]
					note = []interface{}{op, n}
					t.Fault("jwks", &r)
				}
			case "api":
				q := req
				q.Authz = "Bearer " + mintUser("c17", "kid", "x", time.Hour)
				do(q)
				classify = func(r world.Resp) string {
					if r.Kind == "OK" {
						return "ok"
					} else if rejected(r) {
						return "reject"
					}
					return "?"
				}
			case "begin":
				do(req)
				classify = func(r world.Resp) string {
					if r.IsLogin(t) && r.SetCookie() != nil {
						pend = &pendingLogin{req: req, state: r.LocationURL().Query().Get("state"), cookie: r.SetCookie().Name + "=" + r.SetCookie().Value}
						return "login"
					} else if rejected(r) {
						return "reject"
					}
					return "?"
				}
			case "callback":
				code := unique("code")
				set := mintSet("c17", "kid", client, time.Hour)
				t.Grant("code:"+code, set.reply())
				if pend == nil {
					rep.fail("walk %d: no login pending", i)
					return
				}
				do(pend.callback(code))
				classify = func(r world.Resp) string {
					if r.Kind == "REDIRECT" && !r.IsLogin(t) && r.SetCookie() != nil && r.LocationURL().Host == "app.example.com" {
						session, tokens = r.SetCookie().Name+"="+r.SetCookie().Value, set
						return "done"
					} else if rejected(r) {
						return "reject"
					}
					return "?"
				}
			case "session":
				q := req
				q.Cookies = session
				if session == "" {
					continue // the callback that may have made it did not
				}
				do(q)
				classify = func(r world.Resp) string {
					if r.Kind == "OK" && r.Authz == tokens.authz() {
						return "ok"
					} else if r.IsLogin(t) {
						return "login"
					} else if rejected(r) {
						return "reject"
					}
					return "?"
				}
			}
			hist = append(hist, note)
			for _, r := range results {
				got := classify(r)
				rep.ok(1)
				rep.count(op + ": " + got)
				if !allowed[got] {
					rep.viol(fmt.Sprintf("%s %s after %v", jobs[i].kind, op, hist), map[string]interface{}{"kind": jobs[i].kind, "history": hist}, fmt.Sprint(s.Act[1]), r.String())
					return
				}
			}
		}
		if i < 3 {
			n := len(hist)
			if n > 14 {
				n = 14
			}
			rep.sample(map[string]interface{}{"kind": jobs[i].kind, "history": hist[:n]})
		}
	})
	rep.crash(w.A, "outages")
}
