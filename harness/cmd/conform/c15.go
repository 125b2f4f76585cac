package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/world"
)

func init() {
	props["C15"] = func() { concurrent(false) }
	props["C15race"] = func() { concurrent(true) }
}

// event is one event in the life of an object
type event struct {
	Op   string `json:"op"`
	V    string `json:"v,omitempty"`
	K    int    `json:"k,omitempty"`
	R    int    `json:"r,omitempty"`
	Kind string `json:"kind,omitempty"`
	What string `json:"what,omitempty"`
}

// register is an object whose history is recorded
type register struct {
	Object string   `json:"object"`
	Events []*event `json:"events"`
	mu     sync.Mutex
	writes int
	reqs   int
}

// write records that a version is about to be made
func (g *register) write(v string) int {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.writes++
	g.Events = append(g.Events, &event{Op: "write", V: v})
	return g.writes
}

// confirm records that version k is in effect
func (g *register) confirm(k int) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if k > 0 {
		g.Events = append(g.Events, &event{Op: "confirm", K: k})
	}
}

func (g *register) written() int {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.writes
}

func (g *register) begin() int {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.reqs++
	g.Events = append(g.Events, &event{Op: "begin", R: g.reqs})
	return g.reqs
}

func (g *register) end(r int, kind, v, what string) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.Events = append(g.Events, &event{Op: "end", R: r, Kind: kind, V: v, What: short(what, 200)})
}

var scopeRe = regexp.MustCompile(`v-[0-9]+`)

// concurrent has many requests answered while policies, configurations, sessions and
// connections change, and records every object's history for TLC to judge.
func concurrent(race bool) {
	w := newWorld()
	defer w.Close()
	duration := 14 * time.Second
	if race {
		duration = duration * 3 / 4
	}
	var regs []*register
	var regMu sync.Mutex
	newReg := func(name string) *register {
		g := &register{Object: name}
		regMu.Lock()
		regs = append(regs, g)
		regMu.Unlock()
		return g
	}
	const ns = "c15"
	t := w.IdP.Tenant("c15")
	t.SetKeys(world.PubKey("kid", "c15"))
	valid := world.Mint("RS256", "kid", "c15", world.Claims{"sub": "u", "aud": "x", "scope": "none", "exp": time.Now().Add(10 * time.Hour).Unix()})
	w.Jwt(ns, "jwt", t.Jwks())
	const clients = 6
	for n := 0; n < clients; n++ {
		w.Oidc(ns, fmt.Sprintf("oidc%d", n), t, fmt.Sprintf("v-%d", n), "secret", nil)
	}
	hung := false
	do := func(r Req) (world.Resp, bool) {
		res := w.A.Do(r)
		if res.Kind == "ERR" && res.Took > 59*time.Second {
			rep.viol("no answer", map[string]interface{}{"request": r}, "an answer", res.String())
			return res, false
		}
		if dead, _ := w.A.Crashed(); dead {
			return res, false
		}
		return res, true
	}
	stop := make(chan struct{})
	stopped := func() bool {
		select {
		case <-stop:
			return true
		default:
			return rep.nviol() > 20
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	spawn := func(n int64, f func(r *rand.Rand)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f(rand.New(rand.NewSource(*seed*100000 + n)))
		}()
	}
	var requests int64

	// ---- policies: version n shows itself in the scope demanded or in the client of the login
	type cell struct {
		g     *register
		svc   string
		jwt   bool
		large int
		apply func(v string, n int)
	}
	var cells []*cell
	for i := 0; i < 20; i++ {
		c := &cell{g: newReg(fmt.Sprintf("policy %d", i)), svc: fmt.Sprintf("pol%d", i), jwt: i%2 == 0, large: []int{3, 40, 250, 8, 600}[i%5]}
		c.apply = func(v string, n int) {
			if v == "absent" {
				w.Delete("policies", ns, c.svc)
				return
			}
			ptype, cfg, more := "oidc", "oidc"+strings.TrimPrefix(v, "v-"), Obj{}
			if c.jwt {
				ptype, cfg = "jwt", "jwt"
				more["rules"] = []Obj{{"claim": "scope", "match": "ALL", "source": "access_token", "values": []string{v}}}
			}
			var list []Obj
			add := func(kind, path string) { list = append(list, world.PathEntry(kind, path, "", ptype, cfg, more)) }
			if n%3 != 0 { // /a by its own entry or by the prefix
				add("exact", "/a")
			}
			if n%3 == 2 {
				add("exact", "/a/b/c")
				add("prefix", "/a/b")
			}
			for f := 0; f < c.large; f++ {
				add("exact", fmt.Sprintf("/f%d", f))
			}
			add("prefix", "/")
			w.Apply("policies", ns, c.svc, world.Paths(c.svc, list...))
		}
		cells = append(cells, c)
	}
	for i, c := range cells {
		c := c
		next := func(r *rand.Rand, n int) string {
			if r.Intn(6) == 0 {
				return "absent"
			}
			if c.jwt {
				return fmt.Sprintf("v-%d", n)
			}
			return fmt.Sprintf("v-%d", r.Intn(clients))
		}
		c.g.write("absent")
		spawn(int64(i), func(r *rand.Rand) { // the writer
			for n := 1; !stopped(); n++ {
				v := next(r, n)
				c.g.write(v)
				c.apply(v, n)
				time.Sleep(time.Duration(r.Intn(60+c.large/2)) * time.Millisecond)
			}
			v := "v-1"
			c.g.write(v)
			c.apply(v, 1)
		})
		for k := 0; k < 2; k++ {
			spawn(int64(1000+10*i+k), func(r *rand.Rand) {
				for !stopped() {
					if !observePolicy(c.g, do, ns, c.svc, c.jwt, c.large, valid, r) {
						return
					}
					atomic.AddInt64(&requests, 1)
					time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
				}
			})
		}
	}

	// ---- OIDC configurations: the version is the client of the login
	for i := 0; i < 6; i++ {
		g, name := newReg(fmt.Sprintf("oidc configuration %d", i)), fmt.Sprintf("cfg%d", i)
		svc := "svc-" + name
		w.Apply("policies", ns, svc, world.Paths(svc, world.PathEntry("prefix", "/", "", "oidc", name, nil)))
		g.write("absent")
		i := i
		spawn(int64(2000+i), func(r *rand.Rand) {
			put := func(n int) {
				v := fmt.Sprintf("cl-%d-%d", i, n)
				g.write(v)
				// every other version comes with a provider of its own, whose discovery is slow
				p := w.IdP.Tenant(fmt.Sprintf("c15-%d-%d", i, n%4))
				p.SetKeys(world.PubKey("kid", "c15"))
				w.Oidc(ns, name, p, v, "secret", nil)
			}
			for n := 1; !stopped(); n++ {
				if r.Intn(5) == 0 {
					g.write("absent")
					w.Delete("oidcconfigs", ns, name)
				} else {
					put(n)
				}
				time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
			}
			put(1000000)
		})
		for k := 0; k < 3; k++ {
			spawn(int64(2100+10*i+k), func(r *rand.Rand) {
				for !stopped() {
					if !observeOidc(g, do, Req{NS: ns, Svc: svc, Path: "/x", Method: "GET"}) {
						return
					}
					atomic.AddInt64(&requests, 1)
					time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
				}
			})
		}
	}

	// ---- JWT configurations: the version is the key whose tokens are accepted
	const nkeys = 4
	var keyTokens []string
	for n := 0; n < nkeys; n++ {
		k := fmt.Sprintf("c15-key%d", n)
		p := w.IdP.Tenant(k)
		p.SetKeys(world.PubKey("kid", k))
		keyTokens = append(keyTokens, world.Mint("RS256", "kid", k, world.Claims{"sub": "u", "exp": time.Now().Add(10 * time.Hour).Unix()}))
	}
	for i := 0; i < 6; i++ {
		g, name := newReg(fmt.Sprintf("jwt configuration %d", i)), fmt.Sprintf("jcfg%d", i)
		svc := "svc-" + name
		w.Apply("policies", ns, svc, world.Paths(svc, world.PathEntry("prefix", "/", "", "jwt", name, nil)))
		g.write("absent")
		spawn(int64(3000+i), func(r *rand.Rand) {
			put := func(n int) {
				g.write(fmt.Sprintf("key%d", n))
				w.Jwt(ns, name, w.IdP.Tenant(fmt.Sprintf("c15-key%d", n)).Jwks())
			}
			for !stopped() {
				if r.Intn(5) == 0 {
					g.write("absent")
					w.Delete("jwtconfigs", ns, name)
				} else {
					put(r.Intn(nkeys))
				}
				time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
			}
			put(0)
		})
		for k := 0; k < 3; k++ {
			spawn(int64(3100+10*i+k), func(r *rand.Rand) {
				for !stopped() {
					n := r.Intn(nkeys)
					if !observeJwt(g, do, Req{NS: ns, Svc: svc, Path: "/x", Method: "GET", Authz: "Bearer " + keyTokens[n]}, n) {
						return
					}
					atomic.AddInt64(&requests, 1)
					time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
				}
			})
		}
	}

	// ---- sessions: alive until logged out
	var sessions int64
	sess := Req{NS: ns, Svc: "web", Path: "/w", Method: "GET"}
	w.Apply("policies", ns, "web", world.Paths("web", world.PathEntry("prefix", "/", "", "oidc", "oidcweb", nil)))
	w.Oidc(ns, "oidcweb", t, "webclient", "secret", nil)
	// the very first logins come all at once
	world.Parallel(16, 16, func(i int) {
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
			if res, ok := do(sess); !ok || res.IsLogin(t) {
				break
			}
		}
	})
	if !w.Barrier(60 * time.Second) {
		rep.viol("configuration not taken up", nil, "policies in effect within 60 s", "they are not")
		finish()
	}
	// a callback whose code the provider accepts as often as it is shown
	tokens := mintSet("c15", "kid", "webclient", 10*time.Hour)
	t.OnToken(func(grant string, h world.Hit) (world.Reply, bool) {
		if strings.HasPrefix(grant, "code:many") {
			return tokens.reply(), true
		}
		return world.Reply{}, false
	})
	for k := 0; k < 6; k++ {
		spawn(int64(4000+k), func(r *rand.Rand) {
			for !stopped() {
				n := atomic.AddInt64(&sessions, 1)
				g := newReg(fmt.Sprintf("session %d", n))
				cookie, err := login(w, t, sess, tokens)
				if err != nil {
					if dead, _ := w.A.Crashed(); !dead {
						rep.viol("login", map[string]interface{}{"request": sess}, "a login completes", err.Error())
					}
					return
				}
				g.write("alive")
				g.confirm(1)
				var rw sync.WaitGroup
				for j := 0; j < 3; j++ {
					rw.Add(1)
					count := 4 + r.Intn(12)
					go func() {
						defer rw.Done()
						for c := 0; c < count; c++ {
							id := g.begin()
							q := sess
							q.Cookies = cookie
							res, ok := do(q)
							switch {
							case res.Kind == "OK" && res.Authz == tokens.authz():
								g.end(id, "is", "alive", "")
							case res.IsLogin(t):
								g.end(id, "is", "ended", "")
							default:
								g.end(id, "is", "?", res.String())
							}
							if !ok {
								return
							}
							atomic.AddInt64(&requests, 1)
						}
					}()
				}
				time.Sleep(time.Duration(r.Intn(6000)) * time.Microsecond)
				v := g.write("ended")
				q := sess
				q.Path += "/oidc/logout"
				q.Cookies = cookie
				res, ok := do(q)
				if res.Kind != "REDIRECT" && ok {
					rep.viol("logout", map[string]interface{}{"request": q}, "a redirect", res.String())
				}
				g.confirm(v)
				rw.Wait()
				id := g.begin()
				q = sess
				q.Cookies = cookie
				if res, _ := do(q); res.IsLogin(t) {
					g.end(id, "is", "ended", "")
				} else {
					g.end(id, "is", "alive", res.String())
				}
			}
		})
	}

	// ---- everything else that may go on at the same time
	for k := 0; k < 2; k++ {
		spawn(int64(5000+k), func(r *rand.Rand) { // tokens of unknown keys: the keys are fetched again
			for !stopped() {
				tok := world.Mint("RS256", unique("unknown"), "c15", world.Claims{"sub": "u", "exp": time.Now().Add(time.Hour).Unix()})
				res, ok := do(Req{NS: ns, Svc: "pol0", Path: "/f1", Method: "GET", Authz: "Bearer " + tok})
				if ok && res.Kind != "DENY" && res.Kind != "OK" { // OK while the policy is absent
					rep.viol("unknown key", map[string]interface{}{"token": tok}, "rejected", res.String())
				}
				if !ok {
					return
				}
				time.Sleep(2 * time.Millisecond)
			}
		})
		spawn(int64(5100+k), func(r *rand.Rand) { // one callback several times at once
			for !stopped() {
				p, err := beginLogin(w, t, sess)
				if err != nil {
					if dead, _ := w.A.Crashed(); !dead {
						rep.viol("login", map[string]interface{}{"request": sess}, "a login begins", err.Error())
					}
					return
				}
				cb := p.callback(unique("many"))
				var cw sync.WaitGroup
				for j := 0; j < 3; j++ {
					cw.Add(1)
					go func() {
						defer cw.Done()
						if res, ok := do(cb); ok && (res.Kind != "REDIRECT" || res.SetCookie() == nil) {
							rep.viol("callback", map[string]interface{}{"request": cb}, "completes: the provider accepts the code", res.String())
						}
					}()
				}
				cw.Wait()
			}
		})
	}
	spawn(6000, func(r *rand.Rand) {
		for !stopped() {
			time.Sleep(time.Duration(200+r.Intn(900)) * time.Millisecond)
			w.DropWatches([]string{"policies", "jwtconfigs", "oidcconfigs"}[r.Intn(3)], r.Intn(2) == 0)
		}
	})
	// After a lost watch everything is listed again, in no particular order: only when
	// a change made later still is in effect, all that was made before is, too
	barrier := func() bool { return w.Barrier(60*time.Second) && w.Barrier(60*time.Second) }
	spawn(7000, func(r *rand.Rand) { // from time to time: what was written is in effect
		for !stopped() {
			regMu.Lock()
			all := append([]*register{}, regs...)
			regMu.Unlock()
			before := make([]int, len(all))
			for i, g := range all {
				before[i] = g.written()
			}
			if !barrier() {
				if dead, _ := w.A.Crashed(); !dead {
					rep.viol("changes are not followed", nil, "within 60 s", "a policy created 60 s ago is not in effect")
				}
				return
			}
			time.Sleep(300 * time.Millisecond)
			for i, g := range all {
				if !strings.HasPrefix(g.Object, "session") {
					g.confirm(before[i])
				}
			}
			rep.count("barriers")
			time.Sleep(300 * time.Millisecond)
		}
	})
	close(start)
	wg.Add(1)
	go func() {
		defer wg.Done()
		firstLogins(w.IdP, t, race)
	}()
	go func() {
		for end := time.Now().Add(duration); time.Now().Before(end); time.Sleep(100 * time.Millisecond) {
			if dead, _ := w.A.Crashed(); dead {
				break
			}
		}
		close(stop)
	}()
	ended := make(chan struct{})
	go func() { wg.Wait(); close(ended) }()
	select {
	case <-ended:
	case <-time.After(duration + 150*time.Second):
		rep.fail("the drivers did not end")
		hung = true
	}
	if rep.crash(w.A, "concurrent requests and changes") {
		finish()
	}
	// the end: everything settles on the last versions
	if !hung {
		if !barrier() {
			rep.viol("changes are not followed", nil, "within 60 s", "a policy created 60 s ago is not in effect")
		} else {
			time.Sleep(500 * time.Millisecond)
			for _, g := range regs {
				if !strings.HasPrefix(g.Object, "session") {
					g.confirm(g.written())
				}
			}
			for _, c := range cells {
				for k := 0; k < 8; k++ {
					observePolicy(c.g, do, ns, c.svc, c.jwt, c.large, valid, rng)
				}
			}
			for _, g := range regs {
				var i int
				if _, err := fmt.Sscanf(g.Object, "oidc configuration %d", &i); err == nil {
					observeOidc(g, do, Req{NS: ns, Svc: fmt.Sprintf("svc-cfg%d", i), Path: "/x", Method: "GET"})
				}
				if _, err := fmt.Sscanf(g.Object, "jwt configuration %d", &i); err == nil {
					for n := range keyTokens {
						observeJwt(g, do, Req{NS: ns, Svc: fmt.Sprintf("svc-jcfg%d", i), Path: "/x", Method: "GET", Authz: "Bearer " + keyTokens[n]}, n)
					}
				}
			}
		}
		rep.crash(w.A, "concurrent requests and changes")
	}
	f, err := os.Create(filepath.Join(*traceDir, "linear.ndjson"))
	if err != nil {
		rep.fail("%v", err)
		return
	}
	defer f.Close()
	enc := json.NewEncoder(f)
	total := 0
	for _, g := range regs {
		if g.Events == nil {
			continue
		}
		rep.behaviour()
		total += len(g.Events)
		_ = enc.Encode(g)
	}
	rep.ok(int(requests))
	rep.countN("events recorded", total)
	rep.countN("requests", int(requests))
	rep.countN("sessions", int(sessions))
	rep.sample(map[string]interface{}{"object": regs[1].Object, "events": regs[1].Events[:8]})
	if race {
		races(w)
	}
}

// firstLogins has the cookie keys become available only after the adapter's start: many
// first logins at once set them up
func firstLogins(p *world.IdP, t *world.Tenant, race bool) {
	for round := 0; round < 4; round++ {
		k := world.NewKube()
		var open int32
		k.SecretHook = func(tag, method, name string) (int, bool) {
			if atomic.LoadInt32(&open) == 0 {
				return 503, false
			}
			time.Sleep(5 * time.Millisecond)
			return 0, false
		}
		v, err := world.NewWorldOn(k, p, *scratch)
		if err != nil {
			rep.fail("second adapter: %v", err)
			return
		}
		r := Req{NS: "first", Svc: "s", Path: "/x", Method: "GET"}
		v.Oidc("first", "cfg", t, "first", "secret", nil)
		v.Apply("policies", "first", "p", world.Paths("s", world.PathEntry("prefix", "/", "", "oidc", "cfg", nil)))
		for end := time.Now().Add(30 * time.Second); v.A.Do(r).Kind == "OK" && time.Now().Before(end); {
			time.Sleep(5 * time.Millisecond)
		}
		world.Parallel(32, 64, func(i int) {
			if i == 10 {
				atomic.StoreInt32(&open, 1)
			}
			if res := v.A.Do(r); res.Kind == "OK" {
				rep.viol("first logins", map[string]interface{}{"request": r}, "a login or a rejection", res.String())
			}
		})
		if res := v.A.Do(r); !res.IsLogin(t) {
			rep.viol("first logins", map[string]interface{}{"request": r}, "a login", res.String())
		}
		rep.ok(65)
		rep.crash(v.A, "concurrent first logins")
		if race {
			races(v)
		}
		v.A.Kill()
		k.Close()
	}
}

func observePolicy(g *register, do func(Req) (world.Resp, bool), ns, svc string, jwt bool, large int, valid string, r *rand.Rand) bool {
	paths := []string{"/a", "/a/b/c", "/a/b/d", "/f0", "/f1", fmt.Sprintf("/f%d", large-1), fmt.Sprintf("/f%d", r.Intn(large)), "/other"}
	q := Req{NS: ns, Svc: svc, Path: paths[r.Intn(len(paths))], Method: "GET"}
	if jwt {
		q.Authz = "Bearer " + valid
	}
	id := g.begin()
	res, ok := do(q)
	switch {
	case !ok:
		return false
	case res.Kind == "OK" && res.Authz == "":
		g.end(id, "is", "absent", q.Path)
	case jwt && res.Kind == "DENY":
		if v := scopeRe.FindString(res.Header("WWW-Authenticate")); v != "" {
			g.end(id, "is", v, q.Path)
		} else {
			g.end(id, "not", "absent", q.Path+" "+res.String())
		}
	case !jwt && res.Kind == "REDIRECT":
		g.end(id, "is", res.LoginClient(), q.Path)
	default:
		g.end(id, "is", "?", q.Path+" "+res.String())
	}
	return true
}

func observeOidc(g *register, do func(Req) (world.Resp, bool), q Req) bool {
	id := g.begin()
	res, ok := do(q)
	switch {
	case !ok:
		return false
	case res.Kind == "REDIRECT":
		g.end(id, "is", res.LoginClient(), "")
	case res.Kind == "DENY" || res.Kind == "ERR":
		g.end(id, "is", "absent", res.String())
	default:
		g.end(id, "is", "?", res.String())
	}
	return true
}

func observeJwt(g *register, do func(Req) (world.Resp, bool), q Req, n int) bool {
	id := g.begin()
	res, ok := do(q)
	switch {
	case !ok:
		return false
	case res.Kind == "OK":
		g.end(id, "is", fmt.Sprintf("key%d", n), "")
	case res.Kind == "DENY" || res.Kind == "ERR":
		g.end(id, "not", fmt.Sprintf("key%d", n), res.String())
	default:
		g.end(id, "is", "?", res.String())
	}
	return true
}

// races reports the data races the adapter's race detector saw in the adapter's own code
func races(w *world.World) {
	text := w.A.Stderr()
	for _, b := range strings.Split(text, "==================")[1:] {
		if !strings.Contains(b, "WARNING: DATA RACE") {
			continue
		}
		where := ""
		for _, l := range strings.Split(b, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "github.com/ibm-cloud-security/app-identity-and-access-adapter/") {
				if where = l; true {
					break
				}
			}
		}
		if where == "" {
			rep.count("data races outside the adapter's code")
			continue
		}
		rep.viol("data race at "+where, nil, "no data race", short(b, 3000))
	}
}
