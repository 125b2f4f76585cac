package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"verif/harness/world"
)

func init() { props["C18"] = c18 }

type viewProbe struct {
	NS, Path, Cred string
	Allow          []string
}

type viewStep struct {
	Act   []interface{}
	Probe []viewProbe
	Conn  map[string]string
	Blind bool
}

// c18 replays behaviours of ClusterView, each with an adapter and an API server of its own
func c18() {
	var walks [][]viewStep
	load("views.ndjson", func(raw []byte) {
		var s struct{ Steps []viewStep }
		mustUnmarshal(raw, &s)
		walks = append(walks, s.Steps)
	})
	world.Parallel(8, len(walks), func(i int) { c18Walk(i, walks[i]) })
}

// follower is one adapter with the sentinels that tell whether it follows its API server
type follower struct {
	*world.World
	n int
}

const sentinels = "c18sent"

func newFollower() *follower {
	c := &follower{World: newWorld()}
	c.Apply("policies", sentinels, "p", Obj{"targets": []interface{}{
		Obj{"serviceName": "jwt", "paths": []interface{}{world.PathEntry("prefix", "/", "", "jwt", "j", nil)}},
		Obj{"serviceName": "oidc", "paths": []interface{}{world.PathEntry("prefix", "/", "", "oidc", "o", nil)}}}})
	c.Oidc(sentinels, "o", c.IdP.Tenant("sent"), "nobody", "s", nil)
	return c
}

// follows waits until the adapter has taken in all changes of the given kinds
func (c *follower) follows(limit time.Duration, kinds ...string) (missing []string) {
	// what is listed comes in no particular order: what is changed after that comes last
	for round := 0; round < 2; round++ {
		c.n++
		tests := map[string]func() bool{}
		for _, k := range kinds {
			switch k {
			case "policies":
				name := fmt.Sprintf("p%d", c.n)
				c.Apply(k, sentinels, name, world.Paths(name, world.PathEntry("prefix", "/", "", "jwt", "nope", nil)))
				if c.n > 2 {
					c.Delete(k, sentinels, fmt.Sprintf("p%d", c.n-2))
				}
				tests[k] = func() bool { return c.A.Do(Req{NS: sentinels, Svc: name, Path: "/", Method: "GET"}).Kind != "OK" }
			case "jwtconfigs":
				key := fmt.Sprintf("sent%d", c.n%2)
				t := c.IdP.Tenant(key)
				t.SetKeys(world.PubKey(key, key))
				c.Jwt(sentinels, "j", t.Jwks()+fmt.Sprintf("?n=%d", c.n))
				tests[k] = func() bool {
					return c.A.Do(Req{NS: sentinels, Svc: "jwt", Path: "/", Method: "GET", Authz: "Bearer " + mintUser(key, key, "x", time.Hour)}).Kind == "OK"
				}
			case "oidcconfigs":
				client := fmt.Sprintf("client-%d", c.n)
				c.Oidc(sentinels, "o", c.IdP.Tenant("sent"), client, "s", nil)
				tests[k] = func() bool {
					res := c.A.Do(Req{NS: sentinels, Svc: "oidc", Path: "/", Method: "GET"})
					return res.Kind == "REDIRECT" && res.LocationURL().Query().Get("client_id") == client
				}
			}
		}
		end := time.Now().Add(limit)
		for wait := time.Millisecond; len(tests) > 0; {
			for k, ok := range tests {
				if ok() {
					delete(tests, k)
				}
			}
			if len(tests) > 0 && time.Now().After(end) {
				for k := range tests {
					missing = append(missing, k)
				}
				return missing
			}
			time.Sleep(wait)
			if wait < 30*time.Millisecond {
				wait *= 2
			}
		}
	}
	return nil
}

func c18Walk(i int, walk []viewStep) {
	rnd := rand.New(rand.NewSource(*seed*41 + int64(i)))
	w := newFollower()
	var mu sync.Mutex
	failing := map[string]int{} // kinds whose lists fail, and how
	starting := make(chan *world.Adapter, 1)
	running := func(limit time.Duration) bool {
		if w.A == nil {
			select {
			case w.A = <-starting:
			case <-time.After(limit):
			}
		}
		return w.A != nil
	}
	defer func() {
		mu.Lock()
		failing = map[string]int{}
		mu.Unlock()
		running(time.Minute)
		w.Close()
	}()
	w.ListHook = func(plural string) int {
		mu.Lock()
		defer mu.Unlock()
		return failing[plural]
	}
	jt := func(v int) *world.Tenant { return w.IdP.Tenant(fmt.Sprintf("j%d", v)) }
	ot := func(v int) *world.Tenant { return w.IdP.Tenant(fmt.Sprintf("o%d", v)) }
	tokens := map[string]string{}
	for v := 1; v <= 2; v++ {
		key := fmt.Sprintf("c18-%d", v)
		jt(v).SetKeys(world.PubKey("k", key))
		tokens[fmt.Sprintf("token%d", v)] = mintUser(key, "k", "x", 10*time.Hour)
	}
	entry := func(kind, path, typ string) Obj { return world.PathEntry(kind, path, "", typ, "cfg", nil) }
	policies := map[int]Obj{
		1: world.Paths("s", entry("prefix", "/", "jwt")),
		2: world.Paths("s", entry("prefix", "/", "oidc")),
		3: world.Paths("s", entry("exact", "/x", "jwt")),
		4: world.Paths("s", entry("exact", "/x", "oidc"), entry("prefix", "/", "jwt")),
	}
	set := func(kind, ns string, v int) {
		switch {
		case v == 0:
			w.Delete(kind, ns, "cfg")
		case kind == "policies":
			w.Apply(kind, ns, "cfg", policies[v])
		case kind == "jwtconfigs":
			w.Jwt(ns, "cfg", jt(v).Jwks())
		case kind == "oidcconfigs":
			w.Oidc(ns, "cfg", ot(v), "client", "s", nil)
		}
	}
	setAll := func(kind string, f interface{}) {
		m := f.(map[string]interface{})
		var names []string
		for n := range m {
			names = append(names, n)
		}
		rnd.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
		for _, n := range names {
			set(kind, n, int(m[n].(float64)))
		}
	}
	resume := map[string]func(bool){}
	if missing := w.follows(30*time.Second, "policies", "jwtconfigs", "oidcconfigs"); missing != nil {
		rep.fail("the adapter does not follow its API server at the beginning: %v", missing)
		return
	}
	var hist []interface{}
	rep.behaviour()
	for _, s := range walk {
		op, kind := s.Act[0].(string), s.Act[1].(string)
		var note interface{} = s.Act
		switch op {
		case "change":
			setAll(kind, s.Act[2])
		case "burst":
			setAll(kind, s.Act[2])
			setAll(kind, s.Act[3])
		case "fault":
			switch s.Act[2].(string) {
			case "cut":
				code := []int{500, 503, 403, 429, -1}[rnd.Intn(5)]
				note = []interface{}{s.Act, code}
				mu.Lock()
				failing[kind] = code
				mu.Unlock()
				r := w.Suspend(kind)
				k := kind
				resume[kind] = func(compact bool) {
					mu.Lock()
					failing[k] = 0
					mu.Unlock()
					r(compact)
				}
			case "nowatch":
				resume[kind] = w.Suspend(kind)
			case "stalled":
				r := w.Stall(kind)
				k := kind
				resume[kind] = func(compact bool) {
					if compact {
						w.DropWatches(k, true)
					}
					r()
				}
			}
		case "flap":
			switch s.Act[3].(string) {
			case "drop":
				if rnd.Intn(2) == 0 {
					w.DropWatches(kind, false)
					setAll(kind, s.Act[2])
				} else {
					setAll(kind, s.Act[2])
					w.DropWatches(kind, false)
				}
			case "compact":
				r := w.Stall(kind)
				setAll(kind, s.Act[2])
				w.DropWatches(kind, true)
				r()
			case "error":
				r := w.Stall(kind)
				setAll(kind, s.Act[2])
				w.BreakWatches(kind)
				r()
			}
		case "recover":
			resume[kind](s.Act[2].(bool))
		case "repeat":
			w.Repeat(kind)
		case "restart":
			if w.A != nil {
				w.A.Kill()
				w.A = nil
				go func() {
					a, err := world.StartAdapter(w.Kube, *scratch, 3*time.Minute)
					if err != nil && (a == nil || !rep.crash(a, "restart")) {
						rep.fail("cannot start the adapter: %v", err)
					}
					starting <- a
				}()
			}
		}
		if s.Blind && !running(1500*time.Millisecond) {
			rep.count("started without policies: does not serve yet")
			rep.ok(len(s.Probe))
			hist = append(hist, note)
			continue
		} else if !s.Blind && !running(time.Minute) {
			rep.viol("start", map[string]interface{}{"history": hist, "connection": s.Conn}, "the adapter serves within a minute", "it does not")
			return
		}
		hist = append(hist, note)
		var up []string
		for k, c := range s.Conn {
			if c == "up" && !s.Blind {
				up = append(up, k)
			}
		}
		if missing := w.follows(40*time.Second, up...); missing != nil {
			if rep.crash(w.A, hist) {
				return
			}
			rep.viol(fmt.Sprintf("after %s: %v", op, note), map[string]interface{}{"history": hist, "connection": s.Conn}, "the adapter follows the API server again within 40 seconds", fmt.Sprintf("it does not take in changes of %v", missing))
			return
		}
		for _, q := range s.Probe {
			r := Req{NS: q.NS, Svc: "s", Path: q.Path, Method: "GET"}
			if q.Cred != "none" {
				r.Authz = "Bearer " + tokens[q.Cred]
			}
			one := func() (bool, string) {
				res := w.A.Do(r)
				for _, a := range q.Allow {
					switch {
					case a == "ok" && res.Kind == "OK", a == "deny" && res.Kind != "OK" && res.Kind != "REDIRECT":
						return true, ""
					case strings.HasPrefix(a, "login") && res.IsLogin(w.IdP.Tenant("o"+strings.TrimPrefix(a, "login"))):
						return true, ""
					}
				}
				return false, res.String()
			}
			ok, obs := one()
			for n := 0; !ok && n < 10; n++ {
				time.Sleep(100 * time.Millisecond)
				ok, obs = one()
			}
			rep.ok(1)
			if !ok {
				if rep.crash(w.A, hist) {
					return
				}
				rep.viol(fmt.Sprintf("%s with %s after %s: %v", q.Path, q.Cred, op, note), map[string]interface{}{"history": hist, "probe": q, "connection": s.Conn},
					strings.Join(q.Allow, " or "), obs)
				return
			}
		}
		rep.count("steps: " + op)
		for _, c := range s.Conn {
			rep.count("connection " + c)
		}
	}
	rep.crash(w.A, hist)
	if i < 2 {
		rep.sample(map[string]interface{}{"history": hist[:8]})
	}
}
