package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/world"
)

func init() { props["C19"] = c19 }

type hungCase struct {
	Kind, How    string
	Doc, Keys    bool
	Hung         []string
	Faces        bool
	Allow, After []string
}

const (
	c19NS     = "c19"
	hungLimit = 30 * time.Second
	slowOp    = 3000 * time.Millisecond
)

// c19 has providers not answer, in every way, while others and their configurations go on
func c19() {
	w := newWorld()
	defer w.Close()
	groups := map[string][]hungCase{}
	var order []string
	load("cases.ndjson", func(raw []byte) {
		var c hungCase
		mustUnmarshal(raw, &c)
		k := fmt.Sprint(c.Kind, c.Doc, c.Keys, c.Hung)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], c)
	})
	var cases []hungCase
	for _, k := range order {
		g := groups[k]
		rng.Shuffle(len(g), func(a, b int) { g[a], g[b] = g[b], g[a] })
		n := 2
		if !g[0].Faces {
			n = 1
		}
		if *tier != "quick" || n > len(g) {
			n = len(g)
		}
		cases = append(cases, g[:n]...)
	}
	rng.Shuffle(len(cases), func(a, b int) { cases[a], cases[b] = cases[b], cases[a] })
	silent, done, err := world.Silent()
	if err != nil {
		rep.fail("%v", err)
		return
	}
	defer done()
	dead := map[string]string{"tls": "https://" + silent}
	if addr, done, err := world.NoAccept(); err == nil {
		defer done()
		dead["noaccept"] = "http://" + addr
	} else {
		rep.count("no listener without accept: " + err.Error())
		dead["noaccept"] = "http://" + silent
	}
	for i, c := range cases {
		w.Apply("policies", c19NS, fmt.Sprintf("p%d", i), world.Paths(fmt.Sprintf("s%d", i), world.PathEntry("prefix", "/", "", c.typ(), fmt.Sprintf("cfg%d", i), nil)))
	}
	if !w.Barrier(60 * time.Second) {
		rep.count("barrier timeout")
	}
	m := watchOthers(w)
	world.Parallel(64, len(cases), func(i int) { c19Case(w, i, cases[i], dead) })
	m.stop()
	rep.crash(w.A, "hung providers")
}

func (c hungCase) typ() string {
	if strings.HasPrefix(c.Kind, "api") {
		return "jwt"
	}
	return "oidc"
}

func c19Case(w *world.World, i int, c hungCase, dead map[string]string) {
	if rep.nviol() > 3 {
		return // enough
	}
	rnd := rand.New(rand.NewSource(*seed*19 + int64(i)))
	t := w.IdP.Tenant(fmt.Sprintf("c19-%d", i))
	t.SetKeys(world.PubKey("k", "c19"))
	client, cfg := fmt.Sprintf("c19-%d", i), fmt.Sprintf("cfg%d", i)
	req := Req{NS: c19NS, Svc: fmt.Sprintf("s%d", i), Path: "/x", Method: "GET"}
	fixed := dead[c.How] // endpoints are elsewhere from the beginning
	url := func(endpoint, normal string, version int) string {
		if fixed != "" && version == 2 && has(c.Hung, endpoint) {
			return fixed + "/" + endpoint
		}
		return normal + fmt.Sprintf("?v=%d", version)
	}
	configure := func(v int) {
		if c.typ() == "jwt" {
			w.Jwt(c19NS, cfg, url("jwks", t.Jwks(), v))
		} else {
			t.SetDoc(Obj{"jwks_uri": url("jwks", t.Jwks(), v), "token_endpoint": url("token", t.Base+"/token", v), "userinfo_endpoint": url("userinfo", t.Base+"/userinfo", v)})
			w.Apply("oidcconfigs", c19NS, cfg, Obj{"discoveryUrl": url("discovery", t.Discovery(), v), "clientId": client, "clientSecret": "s"})
		}
		if !w.Barrier(60 * time.Second) {
			rep.count("barrier timeout")
		}
	}
	skip := func(why string, a ...interface{}) { rep.skip(fmt.Sprintf(why, a...)) }
	retry := func(f func() error) error {
		var err error
		end := time.Now().Add(40 * time.Second)
		for n := 0; n < 20 && time.Now().Before(end); n++ {
			if err = f(); err == nil {
				return nil
			}
			time.Sleep(100 * time.Millisecond)
		}
		return err
	}
	// while all is well
	if c.typ() == "oidc" {
		configure(1)
	}
	var pend *pendingLogin
	var session, warm string
	set := mintSet("c19", "k", client, time.Hour)
	next := mintSet("c19", "k", client, time.Hour)
	set.Refresh = unique("refresh")
	switch c.Kind {
	case "callbackopaque", "sessionopaque":
		set.Access = opaqueToken("plain")
		t.UserInfo(set.Access, world.Reply{Body: `{"sub":"u"}`})
	case "refresh":
		set.Access = mintUser("c19", "k", client, 5*time.Second)
	}
	expires := time.Now().Add(5 * time.Second)
	t.Grant("refresh:"+set.Refresh, next.reply())
	if c.typ() == "oidc" {
		err := retry(func() (err error) {
			if strings.HasPrefix(c.Kind, "callback") {
				pend, err = beginLogin(w, t, req)
			} else if c.Kind != "login" {
				session, err = login(w, t, req, set)
			}
			return err
		})
		if err == nil && c.Keys {
			err = retry(func() (err error) { warm, err = login(w, t, req, mintSet("c19", "k", client, time.Hour)); return err })
		}
		if err != nil {
			skip("cannot prepare: %v", err)
			return
		}
	}
	// what the adapter knows of the next version
	broken := &world.Reply{Status: 500, Body: `{"error":"server_error"}`}
	early := fixed == "" && rnd.Intn(2) == 0 // does not answer from the beginning
	hang := func(e string) *world.Reply {
		if fixed != "" {
			return nil
		}
		return &world.Reply{How: c.How}
	}
	for e, known := range map[string]bool{"discovery": c.Doc, "jwks": c.Keys} {
		if !known && early && has(c.Hung, e) {
			t.Fault(e, hang(e))
		} else if !known {
			t.Fault(e, broken)
		}
	}
	configure(2)
	api := func(kid string) string { return "Bearer " + mintUser("c19", kid, "x", time.Hour) }
	err := retry(func() error {
		q := req
		switch {
		case c.typ() == "jwt" && c.Keys:
			q.Authz = api("k")
		case c.typ() == "jwt" || !c.Doc:
			return nil
		case c.Keys:
			q.Cookies = warm
		}
		if res := w.A.Do(q); (c.Keys && res.Kind == "OK") || (!c.Keys && res.IsLogin(t)) {
			return nil
		} else {
			return fmt.Errorf("%s", res)
		}
	})
	if err != nil {
		skip("cannot warm up")
		return
	}
	if c.Kind == "apinew" {
		t.SetKeys(world.PubKey("k", "c19"), world.PubKey("new", "c19"))
	}
	if c.Kind == "refresh" {
		time.Sleep(time.Until(expires.Add(time.Second)))
	}
	for _, e := range []string{"discovery", "jwks", "token", "userinfo"} {
		t.Fault(e, nil)
		if has(c.Hung, e) {
			t.Fault(e, hang(e))
		}
	}
	one := func() world.Resp {
		q := req
		switch {
		case c.Kind == "api":
			q.Authz = api("k")
		case c.Kind == "apinew":
			q.Authz = api("new")
		case pend != nil:
			code := unique("code")
			t.Grant("code:"+code, set.reply())
			q = pend.callback(code)
		default:
			q.Cookies = session
		}
		return w.A.Do(q)
	}
	classify := func(r world.Resp) string {
		switch {
		case r.Kind == "OK":
			return "ok"
		case r.IsLogin(t):
			return "login"
		case r.Kind == "REDIRECT" && r.SetCookie() != nil && r.LocationURL().Host == "app.example.com":
			return "done"
		case (r.Kind == "DENY" || r.Kind == "ERR") && r.Location == "" && r.Header("Set-Cookie") == "":
			return "reject"
		}
		return "?"
	}
	rep.behaviour()
	if c.Faces {
		rep.count("does not answer: " + c.How)
		for _, e := range c.Hung {
			rep.count("does not answer: " + e)
		}
	}
	results := make([]world.Resp, 8)
	var wg sync.WaitGroup
	for n := range results {
		wg.Add(1)
		go func(n int) {
			defer wg.Done()
			results[n] = one()
			for k := 0; k < 3 && !c.Faces && !has(c.Allow, classify(results[n])); k++ {
				time.Sleep(100 * time.Millisecond)
				results[n] = one() // it joined one begun before
			}
		}(n)
	}
	wg.Wait()
	what := fmt.Sprintf("%s, %v %s, document known %v, keys known %v", c.Kind, c.Hung, c.How, c.Doc, c.Keys)
	for _, r := range results {
		rep.ok(1)
		if r.Took > hungLimit {
			if !rep.crash(w.A, c) {
				rep.viol("bound: "+what, c, "an answer within 30 s", fmt.Sprintf("%s after %s", r, r.Took))
			}
			return
		}
		if got := classify(r); !has(c.Allow, got) {
			if !rep.crash(w.A, c) {
				rep.viol(what, c, fmt.Sprint(c.Allow), fmt.Sprintf("%s after %s", r, r.Took))
			}
			return
		}
	}
	// what the adapter knows it does not have to ask for: no delay
	if !c.Faces {
		var r world.Resp
		for n := 0; n < 5; n++ {
			if r = one(); r.Took < slowOp {
				break
			}
		}
		rep.ok(1)
		rep.count("does not need what hangs: " + c.Kind)
		if r.Took >= slowOp {
			rep.viol("delay: "+what, c, "an answer without delay, five times tried", fmt.Sprintf("%s after %s", r, r.Took))
			return
		}
	}
	if fixed != "" {
		return
	}
	for _, e := range c.Hung {
		t.Fault(e, nil)
	}
	var r world.Resp
	for n := 0; n < 30; n++ {
		if r = one(); has(c.After, classify(r)) {
			rep.ok(1)
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	rep.viol("afterwards: "+what, c, fmt.Sprint(c.After), r.String())
}

// others is what does not need the hung providers
type others struct {
	w    *world.World
	wg   sync.WaitGroup
	end  chan struct{}
	busy int64 // when the machine itself was last late, in nanoseconds
	mu   sync.Mutex
	n    map[string]int
	slow map[string][]string
}

func watchOthers(w *world.World) *others {
	o := &others{w: w, end: make(chan struct{}), n: map[string]int{}, slow: map[string][]string{}}
	o.loop(func(int) { // is the machine itself late?
		s := time.Now()
		time.Sleep(10 * time.Millisecond)
		if time.Since(s) > 200*time.Millisecond {
			atomic.StoreInt64(&o.busy, time.Now().UnixNano())
		}
	})
	const ns = "c19others"
	t := w.IdP.Tenant("c19others")
	t.SetKeys(world.PubKey("k", "c19o"))
	good := func() string { return "Bearer " + mintUser("c19o", "k", "x", time.Hour) }
	w.Jwt(ns, "j", t.Jwks())
	w.Oidc(ns, "o", t, "others", "s", nil)
	w.Apply("policies", ns, "p", Obj{"targets": []interface{}{
		Obj{"serviceName": "jwt", "paths": []interface{}{world.PathEntry("prefix", "/", "", "jwt", "j", nil)}},
		Obj{"serviceName": "oidc", "paths": []interface{}{world.PathEntry("prefix", "/", "", "oidc", "o", nil)}},
		Obj{"serviceName": "newj", "paths": []interface{}{world.PathEntry("prefix", "/", "", "jwt", "newj", nil)}},
		Obj{"serviceName": "newo", "paths": []interface{}{world.PathEntry("prefix", "/", "", "oidc", "newo", nil)}}}})
	w.Barrier(30 * time.Second)
	api, web := Req{NS: ns, Svc: "jwt", Path: "/a", Method: "GET"}, Req{NS: ns, Svc: "oidc", Path: "/a", Method: "GET"}
	o.loop(func(int) {
		q := api
		q.Authz = good()
		o.op("API request", func() string {
			if r := w.A.Do(q); r.Kind != "OK" {
				return r.String()
			}
			return ""
		})
	})
	o.loop(func(int) {
		o.op("unprotected request", func() string {
			if r := w.A.Do(Req{NS: ns, Svc: "open", Path: "/", Method: "GET"}); r.Kind != "OK" {
				return r.String()
			}
			return ""
		})
	})
	o.loop(func(int) {
		set := mintSet("c19o", "k", "others", time.Hour)
		set.Access = opaqueToken("plain")
		t.UserInfo(set.Access, world.Reply{Body: `{"sub":"u"}`})
		session := ""
		o.op("login", func() (bad string) {
			var err error
			if session, err = login(w, t, web, set); err != nil {
				return err.Error()
			}
			return ""
		})
		q := web
		q.Cookies = session
		o.op("session", func() string {
			if r := w.A.Do(q); r.Kind != "OK" {
				return r.String()
			}
			return ""
		})
		q.Path += "/oidc/logout"
		o.op("logout", func() string {
			if r := w.A.Do(q); r.Kind != "REDIRECT" {
				return r.String()
			}
			return ""
		})
	})
	o.loop(func(int) {
		set := mintSet("c19o", "k", "others", time.Hour)
		set.Refresh = unique("refresh")
		t.Grant("refresh:"+set.Refresh, set.reply())
		set.Access = mintUser("c19o", "k", "others", 2*time.Second)
		q := web
		var err error
		if q.Cookies, err = login(w, t, web, set); err != nil {
			return
		}
		time.Sleep(3 * time.Second)
		o.op("refresh", func() string {
			if r := w.A.Do(q); r.Kind != "OK" {
				return r.String()
			}
			return ""
		})
	})
	until := func(f func() string) func() string {
		return func() (bad string) {
			for s := time.Now(); time.Since(s) < time.Minute; time.Sleep(5 * time.Millisecond) {
				if bad = f(); bad == "" {
					return ""
				}
			}
			return bad
		}
	}
	o.loop(func(n int) {
		key := fmt.Sprintf("c19o%d", n%3)
		nt := w.IdP.Tenant(key)
		nt.SetKeys(world.PubKey(key, key))
		q := api
		q.Svc, q.Authz = "newj", "Bearer "+mintUser(key, key, "x", time.Hour)
		o.op("JWT configuration", func() string {
			w.Jwt(ns, "newj", nt.Jwks())
			return until(func() string {
				if r := w.A.Do(q); r.Kind != "OK" {
					return r.String()
				}
				return ""
			})()
		})
		time.Sleep(20 * time.Millisecond)
	})
	o.loop(func(n int) {
		nt := w.IdP.Tenant(fmt.Sprintf("c19o%d", n%3))
		q := web
		q.Svc = "newo"
		o.op("OIDC configuration", func() string {
			w.Oidc(ns, "newo", nt, "x", "s", nil)
			return until(func() string {
				if r := w.A.Do(q); !r.IsLogin(nt) {
					return r.String()
				}
				return ""
			})()
		})
		time.Sleep(20 * time.Millisecond)
	})
	o.loop(func(n int) {
		q := api
		q.Svc = "newp"
		o.op("policy", func() string {
			if n%2 == 0 {
				w.Apply("policies", ns, "newp", world.Paths("newp", world.PathEntry("prefix", "/", "", "jwt", "j", nil)))
			} else {
				w.Delete("policies", ns, "newp")
			}
			return until(func() string {
				if r := w.A.Do(q); (r.Kind == "OK") == (n%2 == 0) {
					return r.String()
				}
				return ""
			})()
		})
		time.Sleep(20 * time.Millisecond)
	})
	return o
}

func (o *others) loop(f func(n int)) {
	o.wg.Add(1)
	go func() {
		defer o.wg.Done()
		for n := 0; ; n++ {
			select {
			case <-o.end:
				return
			default:
				f(n)
				time.Sleep(10 * time.Millisecond)
			}
		}
	}()
}

// op does something that must not be delayed
func (o *others) op(kind string, f func() (bad string)) {
	s := time.Now()
	bad := f()
	took := time.Since(s)
	if last := atomic.LoadInt64(&o.busy); last > s.UnixNano() {
		return
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	o.n[kind]++
	if bad != "" {
		o.slow[kind] = append(o.slow[kind], bad)
	} else if took > slowOp {
		o.slow[kind] = append(o.slow[kind], took.String())
	}
	if s := o.slow[kind]; len(s) >= 4 {
		rep.viol("meanwhile: "+kind, map[string]interface{}{"times": o.n[kind]}, "no delay, and success", fmt.Sprintf("%d of %d: %v", len(s), o.n[kind], s))
	}
}

func (o *others) stop() {
	close(o.end)
	o.wg.Wait()
	for k, n := range o.n {
		rep.ok(n)
		rep.countN("meanwhile: "+k, n)
		if s := o.slow[k]; len(s) > 0 {
			rep.countN("meanwhile slow: "+k+" "+short(s[0], 200), len(s))
		}
	}
}
