package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"time"

	"verif/harness/world"
)

func init() { props["C08"] = c08 }

// writeTrace writes recorded histories for TLC, one JSON value per line
func writeTrace(name string, rows []interface{}) {
	f, err := os.Create(filepath.Join(*traceDir, name))
	if err != nil {
		rep.fail("%v", err)
		return
	}
	defer f.Close()
	enc := json.NewEncoder(f)
	enc.SetEscapeHTML(false)
	for _, r := range rows {
		if err := enc.Encode(r); err != nil {
			rep.fail("%v", err)
		}
	}
}

var jwksFailures = map[string]world.Reply{
	"500":     {Status: 500, Body: `{"error":"server_error"}`},
	"404":     {Status: 404, Body: "not here"},
	"garbage": {Body: "<html>maintenance</html>"}, "nokeys": {Body: `{"error":"x"}`}, "nullkeys": {Body: `{"keys":null}`},
	"drop": {Drop: true}, "empty": {Body: ""}, "keystring": {Body: `{"keys":"none"}`},
	"500keys": {Status: 500, Body: `{"keys":[]}`},
	"cut":     {Body: `{"keys":[{"kty":"RSA","kid":"kid1"`},
}

func c08() {
	w := newWorld()
	defer w.Close()
	const ns = "c08"
	var walks [][]polStep
	load("walks.ndjson", func(raw []byte) {
		var s []polStep
		mustUnmarshal(raw, &s)
		walks = append(walks, s)
	})
	var failNames []string
	for n := range jwksFailures {
		failNames = append(failNames, n)
	}
	for i := range walks {
		t := w.IdP.Tenant(fmt.Sprintf("w%d", i))
		w.Jwt(ns, fmt.Sprintf("j%d", i), t.Jwks())
		w.Oidc(ns, fmt.Sprintf("o%d", i), t, fmt.Sprintf("c%d", i), "s", nil)
		w.Apply("policies", ns, fmt.Sprintf("p%d", i), world.Paths(fmt.Sprintf("s%d", i),
			world.PathEntry("exact", "/j", "", "jwt", fmt.Sprintf("j%d", i), nil),
			world.PathEntry("exact", "/o", "", "oidc", fmt.Sprintf("o%d", i), nil)))
	}
	w.Barrier(30 * time.Second)
	time.Sleep(50 * time.Millisecond)
	hist := make([][]Obj, len(walks))
	world.Parallel(16, len(walks), func(i int) {
		rnd := rand.New(rand.NewSource(*seed*31 + int64(i)))
		t := w.IdP.Tenant(fmt.Sprintf("w%d", i))
		t.SetKeys()
		pub := map[string]string{}
		oidc := i%3 == 2
		client := fmt.Sprintf("c%d", i)
		name := func(key string) string { return "c08-" + key }
		fail := false
		rep.behaviour()
		for _, s := range walks[i] {
			switch s.Act[0].(string) {
			case "publish":
				kid, key := s.Act[1].(string), s.Act[2].(string)
				pub[kid] = key
				if key == "none" {
					delete(pub, kid)
				}
				var keys []world.Key
				for k, v := range pub {
					keys = append(keys, world.PubKey(k, name(v)))
				}
				if rnd.Intn(3) == 0 { // keys of unknown types are no obstacle
					keys = append(keys, world.Key{Raw: Obj{"kty": "EC", "kid": "ec", "crv": "P-256", "x": "AA", "y": "AA"}}, world.Key{Raw: Obj{"kty": "RSA", "n": "AA", "e": "AQAB"}})
				}
				t.SetKeys(keys...)
				hist[i] = append(hist[i], Obj{"op": "publish", "kid": kid, "key": key})
			case "mode":
				if fail = s.Act[1].(string) == "fail"; fail {
					r := jwksFailures[failNames[rnd.Intn(len(failNames))]]
					t.Fault("jwks", &r)
				} else {
					t.Fault("jwks", nil)
				}
				hist[i] = append(hist[i], Obj{"op": "mode", "mode": s.Act[1]})
			case "use":
				kid, key := s.Act[1].(string), s.Act[2].(string)
				tok := mintUser(name(key), kid, client, 10*time.Hour)
				before := t.Entered("jwks")
				outcome, note := "", ""
				if oidc {
					r := Req{NS: ns, Svc: fmt.Sprintf("s%d", i), Path: "/o", Method: "GET"}
					op := unique("opaque")
					t.UserInfo(op, world.Reply{Body: `{"sub":"u"}`})
					p, err := beginLogin(w, t, r)
					if err != nil {
						outcome, note = "?", err.Error()
					} else {
						code := unique("code")
						t.Grant("code:"+code, tokenSet{Access: op, ID: tok}.reply())
						res := w.A.Do(p.callback(code))
						switch {
						case res.Kind == "DENY" && res.SetCookie() == nil:
							outcome = "reject"
						case res.Kind == "REDIRECT" && res.SetCookie() != nil && !res.IsLogin(t):
							outcome = "accept"
						default:
							outcome, note = "?", res.String()
						}
					}
				} else {
					res := w.A.Do(Req{NS: ns, Svc: fmt.Sprintf("s%d", i), Path: "/j", Method: "GET", Authz: "Bearer " + tok})
					switch {
					case res.Kind == "OK":
						outcome = "accept"
					case res.Kind == "DENY" && res.HTTP == 401:
						outcome = "reject"
					default:
						outcome, note = "?", res.String()
					}
				}
				hist[i] = append(hist[i], Obj{"op": "use", "kid": kid, "key": key, "outcome": outcome, "note": note, "fetches": t.Entered("jwks") - before})
				rep.ok(1)
				rep.count("use: " + outcome)
			}
		}
		if i < 3 {
			n := len(hist[i])
			if n > 12 {
				n = 12
			}
			rep.sample(map[string]interface{}{"oidc": oidc, "history": hist[i][:n]})
		}
	})
	if rep.crash(w.A, "key histories") {
		return
	}
	var rows []interface{}
	for _, h := range hist {
		rows = append(rows, h)
	}
	writeTrace("keyset.ndjson", rows)

	// Concurrent requests share the request for an unknown key that is under way
	rounds := 12
	if *tier == "thorough" {
		rounds = 100
	}
	for n := 0; n < rounds; n++ {
		t := w.IdP.Tenant(fmt.Sprintf("g%d", n))
		t.SetKeys(world.PubKey("old", "c08-old"))
		w.Jwt(ns, fmt.Sprintf("g%d", n), t.Jwks())
		w.Oidc(ns, fmt.Sprintf("g%d", n), t, "g", "s", nil)
		w.Apply("policies", ns, fmt.Sprintf("g%d", n), world.Paths(fmt.Sprintf("g%d", n), world.PathEntry("prefix", "/", "", []string{"jwt", "jwt", "jwt", "oidc"}[n%4], fmt.Sprintf("g%d", n), nil)))
	}
	w.Barrier(30 * time.Second)
	world.Parallel(6, rounds, func(n int) {
		t := w.IdP.Tenant(fmt.Sprintf("g%d", n))
		r := Req{NS: ns, Svc: fmt.Sprintf("g%d", n), Path: "/x", Method: "GET"}
		tok := func(kid string) string { return mintUser("c08-"+kid, kid, "g", time.Hour) }
		var pend *pendingLogin
		if n%4 == 3 { // logins
			var err error
			for k := 0; k < 40 && pend == nil; k++ {
				if pend, err = beginLogin(w, t, r); err != nil {
					time.Sleep(50 * time.Millisecond)
				}
			}
			if pend == nil {
				rep.viol(fmt.Sprintf("sharing, login: round %d", n), nil, "a login", err.Error())
				return
			}
		}
		use := func(kid string) world.Resp {
			q := r
			if pend == nil {
				q.Authz = "Bearer " + tok(kid)
				return w.A.Do(q)
			}
			code := unique("code")
			t.Grant("code:"+code, tokenSet{Access: tok(kid), ID: tok(kid)}.reply())
			res := w.A.Do(pend.callback(code))
			if res.Kind == "REDIRECT" && res.SetCookie() != nil && !res.IsLogin(t) {
				res.Kind = "OK"
			}
			return res
		}
		if res := use("old"); res.Kind != "OK" {
			rep.viol(fmt.Sprintf("sharing, before: round %d", n), nil, "OK", res.String())
			return
		}
		fails := n%3 == 1
		t.SetKeys(world.PubKey("old", "c08-old"), world.PubKey("new1", "c08-new1"), world.PubKey("new2", "c08-new2"))
		if fails {
			t.Fault("jwks", &world.Reply{Status: 500, Body: "oops"})
		}
		before := t.Entered("jwks")
		release := t.Gate("jwks")
		defer release()
		const users = 24
		out := make([]world.Resp, users)
		var wg sync.WaitGroup
		for u := 0; u < users; u++ {
			wg.Add(1)
			go func(u int) {
				defer wg.Done()
				out[u] = use([]string{"new1", "new2", "gone"}[u%3])
			}(u)
			if u == 0 {
				for end := time.Now().Add(5 * time.Second); t.Entered("jwks") == before && time.Now().Before(end); {
					time.Sleep(time.Millisecond)
				}
			}
		}
		time.Sleep(300 * time.Millisecond)
		during := t.Entered("jwks") - before
		// meanwhile known keys do not wait
		start := time.Now()
		known := use("old")
		took := time.Since(start)
		release()
		wg.Wait()
		rep.behaviour()
		rep.ok(users + 2)
		rep.count("rounds of concurrent requests for unknown keys")
		if during != 1 {
			rep.viol("concurrent requests for unknown keys", map[string]interface{}{"requests": users}, "one key request while it is under way", fmt.Sprintf("%d key requests", during))
		}
		if known.Kind != "OK" || took > 3*time.Second {
			rep.viol("known key during a key request", nil, "accepted at once", fmt.Sprintf("%s after %v", known, took))
		}
		for u, res := range out {
			want := "OK"
			if u%3 == 2 || fails {
				want = "DENY"
			}
			if res.Kind != want {
				rep.viol(fmt.Sprintf("concurrent request for key %s, endpoint failing: %v", []string{"new1", "new2", "gone"}[u%3], fails), nil, want, res.String())
			}
		}
	})
	rep.crash(w.A, "concurrent key requests")
}
