package main

import (
	"fmt"
	"time"

	"istio.io/istio/mixer/pkg/adapter"

	"verif/harness/world"
)

func init() { props["C22"] = c22 }

type frontStep struct {
	A, Kind, Out string
	On, Refresh  bool
}

// front stands for Mixer and Envoy: it keeps passes and answers requests of the same attributes with them
type front struct{ kept map[string]string }

// reusable tells for how long Mixer lets Envoy, or its own cache, reuse a pass. A result
// that says nothing about its validity counts for nobody's and is reused for a minute
// (mixer/pkg/runtime/dispatcher/dispatcher.go).
func reusable(r world.Resp) string {
	result := adapter.CheckResult{ValidDuration: r.ValidFor, ValidUseCount: r.ValidUses} // Mixer's own
	switch {
	case r.Kind != "OK":
		return ""
	case result.IsDefault():
		return "for a minute, as it says nothing about its validity"
	case r.ValidFor >= time.Millisecond:
		return fmt.Sprint("for ", r.ValidFor)
	}
	return ""
}

func (f *front) ask(w *world.World, q Req) (out world.Resp, reused string) {
	key := fmt.Sprintf("%+v", q)
	if why, ok := f.kept[key]; ok {
		return world.Resp{Kind: "OK"}, why
	}
	r := w.A.Do(q)
	if why := reusable(r); why != "" {
		f.kept[key] = why
	}
	return r, ""
}

type frontRun struct {
	steps []frontStep
	ns    string
	t     *world.Tenant
	front front
	token string
	more  string // the session's refresh token
	sess  string
	due   time.Time // when the newest token expires
	begun map[string]time.Time
	over  bool
}

const c22Life = 8 * time.Second

func (c *frontRun) policy(w *world.World, kind string, on bool) {
	role := "staff"
	if !on {
		role = "boss"
	}
	typ := map[string]string{"api": "jwt", "web": "oidc"}[kind]
	rules := []interface{}{Obj{"claim": "role", "match": "ALL", "source": "access_token", "values": []string{role}}}
	w.Apply("policies", c.ns, kind, world.Paths(kind, world.PathEntry("prefix", "/", "", typ, "c", Obj{"rules": rules})))
}

func (c *frontRun) conf(w *world.World, kind string, on bool) {
	res := map[string]string{"api": "jwtconfigs", "web": "oidcconfigs"}[kind]
	if !on {
		w.Delete(res, c.ns, "c")
		return
	}
	if kind == "api" {
		w.Apply(res, c.ns, "c", Obj{"jwksUrl": c.t.Jwks()})
	} else {
		w.Apply(res, c.ns, "c", Obj{"discoveryUrl": c.t.Discovery(), "clientId": "cid", "clientSecret": "s"})
	}
}

func (c *frontRun) mint() string {
	return world.Mint("RS256", "k", "c22", world.Claims{"sub": unique("user"), "aud": []string{"cid"}, "role": "staff", "exp": time.Now().Add(c22Life).Unix(), "jti": unique("t")})
}

func (c *frontRun) request(kind string) Req {
	q := Req{NS: c.ns, Svc: kind, Path: "/x", Method: "GET"}
	if kind == "api" {
		q.Authz = "Bearer " + c.token
	} else {
		q.Cookies = c.sess
	}
	return q
}

func (c *frontRun) step(w *world.World, k int, s frontStep) {
	fails := func(expected, observed string) {
		c.over = true
		rep.viol("reuse: "+s.A+" "+s.Kind, c.steps[:k+1], expected, observed)
	}
	switch s.A {
	case "rule":
		c.policy(w, s.Kind, s.On)
	case "conf":
		c.conf(w, s.Kind, s.On)
	case "begin":
		c.begun[s.Kind] = time.Now()
		if s.Kind == "api" {
			c.token = c.mint()
			return
		}
		var err error
		for n := 0; n < 40; n++ { // the provider's whereabouts may still be being read
			set := tokenSet{Access: c.mint(), ID: c.mint()}
			if s.Refresh {
				c.more = unique("refresh")
				set.Refresh = c.more
			}
			if c.sess, err = login(w, c.t, Req{NS: c.ns, Svc: "web", Path: "/x", Method: "GET"}, set); err == nil {
				return
			}
			time.Sleep(25 * time.Millisecond)
		}
		rep.skip(short(err.Error(), 80))
		c.over = true
	case "logout":
		q := c.request("web")
		q.Path += "/oidc/logout"
		if r := w.A.Do(q); r.Kind != "REDIRECT" {
			rep.skip("logout answered " + r.Kind)
			c.over = true
		}
	case "ask":
		if s.Refresh { // the provider gives new tokens now, and only now
			set := tokenSet{Access: c.mint(), ID: c.mint()}
			c.begun[s.Kind] = time.Now()
			c.t.Grant("refresh:"+c.more, set.reply())
			defer c.t.Grant("refresh:"+c.more, world.Reply{Status: 400, Body: `{"error":"invalid_grant"}`})
		}
		if s.Out == "ok" && time.Since(c.begun[s.Kind]) > c22Life-1500*time.Millisecond { // about to expire, on a slow machine
			rep.count("slow")
			c.over = true
			return
		}
		q := c.request(s.Kind)
		r, reused := c.front.ask(w, q)
		for n := 0; n < 40 && s.Out == "login" && r.Kind == "ERR"; n++ {
			time.Sleep(25 * time.Millisecond)
			r, reused = c.front.ask(w, q)
		}
		got := "reject"
		switch {
		case r.Kind == "OK":
			got = "ok"
		case r.IsLogin(c.t):
			got = "login"
		}
		rep.ok(1)
		if got != s.Out && !(s.Out == "any" && got != "reject") {
			observed := r.String()
			if reused != "" {
				observed = "passed without the adapter being asked: an earlier pass may be reused " + reused
			}
			fails(s.Out, observed)
		}
	}
}

func c22() {
	var runs []*frontRun
	load("walks.ndjson", func(raw []byte) {
		c := &frontRun{front: front{kept: map[string]string{}}, begun: map[string]time.Time{}}
		var x struct{ Steps []frontStep }
		mustUnmarshal(raw, &x)
		c.steps, c.ns = x.Steps, fmt.Sprintf("c22w%d", len(runs))
		runs = append(runs, c)
	})
	w := newWorld()
	defer w.Close()
	for at := 0; at < len(runs) && rep.nviol() == 0; at += 120 {
		end := at + 120
		if end > len(runs) {
			end = len(runs)
		}
		c22Batch(w, runs[at:end])
	}
}

func c22Batch(w *world.World, runs []*frontRun) {
	world.Parallel(8, len(runs), func(i int) {
		c := runs[i]
		c.t = w.IdP.Tenant(c.ns)
		c.t.SetKeys(world.PubKey("k", "c22"))
		for _, kind := range []string{"api", "web"} {
			c.conf(w, kind, true)
			c.policy(w, kind, true)
		}
	})
	if !w.Barrier(60 * time.Second) {
		rep.skip("barrier")
		return
	}
	for k := 0; k < 100 && rep.nviol() < 20; k++ {
		changed, expire, more := false, false, false
		last := time.Time{}
		for _, c := range runs {
			if k < len(c.steps) && !c.over {
				more = true
				changed = changed || c.steps[k].A == "rule" || c.steps[k].A == "conf"
				expire = expire || c.steps[k].A == "expire"
				for _, t := range c.begun {
					if t.After(last) {
						last = t
					}
				}
			}
		}
		if !more {
			break
		}
		if expire {
			time.Sleep(time.Until(last.Add(c22Life + 3*time.Second)))
		}
		world.Parallel(16, len(runs), func(i int) {
			if c := runs[i]; k < len(c.steps) && !c.over {
				c.step(w, k, c.steps[k])
			}
		})
		if changed && !w.Barrier(60*time.Second) {
			rep.skip("barrier")
			return
		}
	}
	if rep.crash(w.A, "reuse of passes") {
		return
	}
	for range runs {
		rep.behaviour()
	}
}
