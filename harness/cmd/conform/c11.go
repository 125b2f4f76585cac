package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"verif/harness/world"
)

func init() { props["C11"] = c11 }

func c11() {
	w := newWorld()
	defer w.Close()
	webWalks(w, "c11")
	if rep.crash(w.A, "logouts") {
		return
	}
	c11Pages(w)
	refreshRace(w, "c11r")
	c11Stress(w)
	rep.crash(w.A, "logouts and refreshes")
}

// c11Pages logs out everywhere
func c11Pages(w *world.World) {
	const ns, client = "c11p", "c11-client"
	t := w.IdP.Tenant(ns)
	t.SetKeys(world.PubKey("k", "web-k"))
	w.Oidc(ns, "o", t, client, "s", nil)
	w.Apply("policies", ns, "p", world.Paths("svc", world.PathEntry("prefix", "/", "", "oidc", "o", nil)))
	w.Barrier(20 * time.Second)
	type page struct {
		Path, Location string
		Exact          bool
	}
	load("pages.ndjson", func(raw []byte) {
		var c page
		mustUnmarshal(raw, &c)
		for n, method := range []string{"GET", "POST", "HEAD"} {
			r := Req{NS: ns, Svc: "svc", Path: "/x", Method: "GET"}
			tokens := mintSet("web-k", "k", client, time.Hour)
			cookie, err := login(w, t, r, tokens)
			other, err2 := login(w, t, r, tokens)
			if err != nil || err2 != nil {
				rep.viol("a plain login", nil, "a session", fmt.Sprint(err, err2))
				return
			}
			q := r
			q.Path, q.Method = c.Path, method
			q.Cookies = []string{cookie, "a=b; " + cookie, cookie + "; a=b"}[n]
			q.Authz = []string{"", "Bearer x", tokens.authz()}[n]
			if n == 2 { // the parameters of a callback do not matter
				q.Code, q.State = "code", "state"
			}
			res := w.A.Do(q)
			rep.behaviour()
			rep.ok(3)
			if res.Kind == "OK" || res.IsLogin(t) {
				rep.count("paths no policy decides: " + c.Path)
				continue
			}
			ck := res.SetCookie()
			bad := ""
			loc := res.Location
			switch {
			case res.Kind != "REDIRECT":
				bad = res.String()
			case ck == nil || ck.Name != "oidc-cookie-"+client || ck.Path != "/" || !(ck.MaxAge < 0 || !ck.Expires.IsZero() && ck.Expires.Before(time.Now())):
				bad = fmt.Sprintf("cookie %v", ck)
			case c.Exact && loc != c.Location && loc != "https://app.example.com"+c.Location:
				bad = "location " + loc
			case !within(loc):
				bad = "location on another host: " + loc
			}
			if bad != "" {
				rep.viol("logout at "+c.Path, q, "redirect to "+c.Location+" expiring the cookie", bad)
				continue
			}
			q = r
			q.Cookies = cookie
			if res := w.A.Do(q); !res.IsLogin(t) {
				rep.viol("session after its logout at "+c.Path, q, "login", res.String())
			}
			q.Cookies = other
			if res := w.A.Do(q); res.Kind != "OK" || res.Authz != tokens.authz() {
				rep.viol("another session after a logout at "+c.Path, q, "pass", res.String())
			}
			rep.count("logout pages")
		}
	})
}

// within tells whether a browser following the location stays on the host
func within(loc string) bool {
	for _, p := range []string{"https://app.example.com/"} {
		if strings.HasPrefix(loc, p) {
			return true
		}
	}
	return strings.HasPrefix(loc, "/") && !strings.HasPrefix(loc, "//") && !strings.HasPrefix(loc, "/\\")
}

// expiring creates sessions whose tokens expire very soon, and waits until they have
func expiring(w *world.World, n int, setup func(i int) (*world.Tenant, Req, string), which func(i int) string) []string {
	cookies := make([]string, n)
	for start := 0; start < n; start += 400 {
		end := start + 400
		if end > n {
			end = n
		}
		world.Parallel(16, end-start, func(k int) {
			i := start + k
			t, r, client := setup(i)
			for try := 0; try < 3 && cookies[i] == ""; try++ {
				tokens := mintSet("web-k", "k", client, 10*time.Hour)
				short := mintSet("web-k", "k", client, 3*time.Second)
				if which(i) != "id" {
					tokens.Access = short.Access
				}
				if which(i) != "access" {
					tokens.ID = short.ID
				}
				tokens.Refresh = unique("refresh-initial")
				c, err := login(w, t, r, tokens)
				if err == nil {
					cookies[i] = c
				}
			}
		})
	}
	time.Sleep(4200 * time.Millisecond)
	return cookies
}

// refreshRace replays the behaviours of RefreshRace: the provider's answers to concurrent
// refreshes are released one by one
func refreshRace(w *world.World, ns string) {
	var walks [][]polStep
	load("race-walks.ndjson", func(raw []byte) {
		var s []polStep
		mustUnmarshal(raw, &s)
		walks = append(walks, s)
	})
	kinds := []string{"access", "id", "both"}
	for i := range walks {
		t := w.IdP.Tenant(fmt.Sprintf("%s-%d", ns, i))
		t.SetKeys(world.PubKey("k", "web-k"))
		w.Oidc(ns, fmt.Sprintf("o%d", i), t, fmt.Sprintf("c%d", i), "s", nil)
		w.Apply("policies", ns, fmt.Sprintf("p%d", i), world.Paths(fmt.Sprintf("s%d", i), world.PathEntry("prefix", "/", "", "oidc", fmt.Sprintf("o%d", i), nil)))
	}
	w.Barrier(20 * time.Second)
	setup := func(i int) (*world.Tenant, Req, string) {
		return w.IdP.Tenant(fmt.Sprintf("%s-%d", ns, i)), Req{NS: ns, Svc: fmt.Sprintf("s%d", i), Path: "/x", Method: "GET"}, fmt.Sprintf("c%d", i)
	}
	cookies := expiring(w, len(walks), setup, func(i int) string { return kinds[i%3] })
	world.Parallel(32, len(walks), func(i int) {
		t, r, client := setup(i)
		rnd := rand.New(rand.NewSource(*seed*13 + int64(i)))
		if cookies[i] == "" {
			rep.count("walks left out: the machine is too slow")
			return
		}
		r.Cookies = cookies[i]
		type pending struct {
			arrived chan world.Hit
			answer  chan world.Reply
		}
		var mu sync.Mutex
		var queue []*pending
		t.OnToken(func(grant string, h world.Hit) (world.Reply, bool) {
			mu.Lock()
			if len(queue) == 0 {
				mu.Unlock()
				return world.Reply{}, false
			}
			p := queue[0]
			queue = queue[1:]
			mu.Unlock()
			p.arrived <- h
			return <-p.answer, true
		})
		reqs := map[int]*pending{}
		outs := map[int]chan world.Resp{}
		tokens := map[int]tokenSet{}
		allowed := []float64{}
		known := []string{cookies[i]} // the cookies the session was given
		var hist []interface{}
		rep.behaviour()
		defer func() {
			for _, p := range reqs { // let everything end
				select {
				case p.answer <- world.Reply{Status: 400, Body: `{"error":"invalid_grant"}`}:
				default:
				}
			}
		}()
		for _, s := range walks[i] {
			hist = append(hist, s.Act)
			fail := func(expected, observed string) {
				rep.viol(fmt.Sprintf("%s: step %v", ns, s.Act), map[string]interface{}{"history": hist, "expired": kinds[i%3]}, expected, observed)
			}
			rep.ok(1)
			switch s.Act[0].(string) {
			case "begin":
				n := int(s.Act[1].(float64))
				p := &pending{make(chan world.Hit, 1), make(chan world.Reply, 1)}
				mu.Lock()
				queue = append(queue, p)
				mu.Unlock()
				out := make(chan world.Resp, 1)
				q := r
				q.Path = fmt.Sprintf("/x/%d", n)
				go func() { out <- w.A.Do(q) }()
				select {
				case h := <-p.arrived:
					if !strings.HasPrefix(h.Form.Get("refresh_token"), "refresh-initial") {
						fail("the session's refresh token", fmt.Sprint(h.Form))
						return
					}
				case res := <-out:
					if s.Act[2].(string) == "open" && res.IsLogin(t) {
						rep.count("walks left early: the session ended with the refused refresh")
						return
					}
					fail("a refresh", "answered without: "+res.String())
					return
				case <-time.After(2 * time.Second):
					rep.count("walks left early: the refresh under way is shared")
					return
				}
				reqs[n], outs[n] = p, out
			case "answer":
				n := int(s.Act[1].(float64))
				if s.Act[2].(bool) {
					set := mintSet("web-k", "k", client, 10*time.Hour)
					if rnd.Intn(2) == 0 {
						set.Refresh = unique("refresh-new")
					}
					tokens[n] = set
					reqs[n].answer <- set.reply()
				} else {
					reqs[n].answer <- []world.Reply{{Status: 400, Body: `{"error":"invalid_grant"}`}, {Status: 500, Body: "x"}, {Drop: true}}[rnd.Intn(3)]
				}
				delete(reqs, n)
				res := <-outs[n]
				want := s.Act[3].(string)
				rep.count("refresh answered: " + want + "/" + res.Kind)
				isPass := res.Kind == "OK" && res.Authz == tokens[n].authz()
				if want == "pass" && !isPass || want == "login" && !res.IsLogin(t) || want == "open" && !isPass && !res.IsLogin(t) {
					fail(want, res.String()+" "+short(res.Authz, 60))
					return
				}
				if want == "open" && !isPass {
					rep.count("walks left early: the session ended with the refused refresh")
					return
				}
				if isPass {
					allowed = append(allowed, float64(n))
					if ck := world.ParseSetCookie(res.Cookie); ck != nil && ck.Name+"="+ck.Value != known[len(known)-1] {
						known = append(known, ck.Name+"="+ck.Value)
						rep.count("sessions given another cookie")
					}
				}
			case "logout":
				q := r
				q.Cookies = known[rnd.Intn(len(known))]
				q.Path = "/x/oidc/logout"
				start := time.Now()
				res := w.A.Do(q)
				if res.Kind != "REDIRECT" || res.Location != "/x" {
					fail("a redirect", res.String())
					return
				}
				if took := time.Since(start); took > 5*time.Second {
					fail("a logout does not wait for the provider", took.String())
				}
			case "visit":
				res := w.A.Do(r)
				want := s.Act[1].(string)
				isPass := false
				for _, n := range allowed {
					isPass = isPass || res.Kind == "OK" && res.Authz == tokens[int(n)].authz()
				}
				rep.count("visit between refreshes: " + want + "/" + res.Kind)
				if want == "pass" && !isPass || want == "login" && !res.IsLogin(t) || want == "open" && !isPass && !res.IsLogin(t) {
					fail(want, res.String()+" "+short(res.Authz, 60))
					return
				}
				for _, c := range known[1:] {
					q := r
					q.Cookies = c
					if res := w.A.Do(q); want == "login" && !res.IsLogin(t) {
						fail("login, with every cookie the session was given", res.String())
						return
					}
				}
			}
		}
	})
}

// c11Stress logs sessions out at the very moment their refresh is answered
func c11Stress(w *world.World) {
	const ns, client = "c11s", "c11s-client"
	n := 400
	if *tier == "thorough" {
		n = 6000
	}
	t := w.IdP.Tenant(ns)
	t.SetKeys(world.PubKey("k", "web-k"))
	w.Oidc(ns, "o", t, client, "s", nil)
	w.Apply("policies", ns, "p", world.Paths("svc", world.PathEntry("prefix", "/", "", "oidc", "o", nil)))
	w.Barrier(20 * time.Second)
	r := Req{NS: ns, Svc: "svc", Path: "/x", Method: "GET"}
	var mu sync.Mutex
	gates := map[string]chan struct{}{}
	entered := map[string]chan struct{}{}
	t.OnToken(func(grant string, h world.Hit) (world.Reply, bool) {
		mu.Lock()
		g, e := gates[grant], entered[grant]
		mu.Unlock()
		if g == nil {
			return world.Reply{}, false
		}
		select {
		case e <- struct{}{}:
		default:
		}
		<-g
		return mintSet("web-k", "k", client, time.Hour).reply(), true
	})
	cookies := make([]string, n)
	grants := make([]string, n)
	world.Parallel(16, n, func(i int) {
		tokens := mintSet("web-k", "k", client, 3*time.Second)
		tokens.Refresh = unique("stress")
		grants[i] = "refresh:" + tokens.Refresh
		mu.Lock()
		gates[grants[i]], entered[grants[i]] = make(chan struct{}), make(chan struct{}, 1)
		mu.Unlock()
		c, err := login(w, t, r, tokens)
		if err == nil {
			cookies[i] = c
		}
	})
	time.Sleep(4200 * time.Millisecond)
	world.Parallel(16, n, func(i int) {
		if cookies[i] == "" {
			rep.count("walks left out: the machine is too slow")
			return
		}
		rnd := rand.New(rand.NewSource(*seed*7 + int64(i)))
		mu.Lock()
		g, e := gates[grants[i]], entered[grants[i]]
		mu.Unlock()
		q := r
		q.Cookies = cookies[i]
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); w.A.Do(q) }()
		select {
		case <-e:
		case <-time.After(2 * time.Second):
		}
		d := time.Duration(rnd.Intn(1500)) * time.Microsecond
		go func() { defer wg.Done(); time.Sleep(d); close(g) }()
		time.Sleep(time.Duration(rnd.Intn(1500)) * time.Microsecond)
		bye := q
		bye.Path = "/x/oidc/logout"
		if res := w.A.Do(bye); res.Kind != "REDIRECT" {
			rep.viol("logout during a refresh", bye, "a redirect", res.String())
		}
		for k := 0; k < 3; k++ {
			if res := w.A.Do(q); !res.IsLogin(t) {
				rep.viol("session after a logout during its refresh", map[string]interface{}{"visit": k}, "login", res.String())
			}
		}
		wg.Wait()
		if res := w.A.Do(q); !res.IsLogin(t) {
			rep.viol("session after a logout during its refresh", map[string]interface{}{"visit": "at the end"}, "login", res.String())
		}
		rep.ok(5)
		rep.count("logouts at the moment of a refresh")
	})
	rep.behaviour()
}
