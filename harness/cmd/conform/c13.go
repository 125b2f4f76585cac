package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"time"

	"verif/harness/world"
)

func init() { props["C13"] = c13 }

type loginCase struct {
	Client, Query, Landing                   string
	Scopes                                   []string
	Scheme, Host, Path, Code, Method, Answer string
	Scope                                    string
	Redirects, Locations                     []string
	Verdict                                  string
}

func has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

func c13() {
	w := newWorld()
	defer w.Close()
	const ns = "c13"
	var cases []loginCase
	load("login.ndjson", func(raw []byte) {
		var c loginCase
		mustUnmarshal(raw, &c)
		cases = append(cases, c)
	})
	// one configuration and policy for each client, scopes, query and landing
	type site struct {
		svc string
		t   *world.Tenant
	}
	sites := map[string]site{}
	keyOf := func(c loginCase) string {
		b, _ := json.Marshal([]interface{}{c.Client, c.Scopes, c.Query, c.Landing})
		return string(b)
	}
	for _, c := range cases {
		k := keyOf(c)
		if _, ok := sites[k]; ok {
			continue
		}
		n := len(sites)
		t := w.IdP.Tenant(fmt.Sprintf("c13-%d", n))
		t.SetKeys(world.PubKey("k", "web-k"))
		if c.Query != "" {
			t.SetDoc(Obj{"authorization_endpoint": t.Authorize() + "?" + c.Query})
		}
		more := Obj{}
		if len(c.Scopes) != 1 || c.Scopes[0] != "absent" {
			more["scopes"] = append([]string{}, c.Scopes...)
		}
		w.Oidc(ns, fmt.Sprintf("o%d", n), t, c.Client, "s", more)
		e := Obj{}
		if c.Landing != "" {
			e["redirectUri"] = c.Landing
		}
		svc := fmt.Sprintf("s%d", n)
		w.Apply("policies", ns, fmt.Sprintf("p%d", n), world.Paths(svc, world.PathEntry("prefix", "/", "", "oidc", fmt.Sprintf("o%d", n), e)))
		sites[k] = site{svc, t}
	}
	if !w.Barrier(60 * time.Second) {
		rep.fail("the adapter does not follow its configuration")
		return
	}
	world.Parallel(16, len(cases), func(i int) {
		if rep.nviol() > 60 {
			return
		}
		c, s := cases[i], sites[keyOf(cases[i])]
		c13Case(w, ns, s.svc, s.t, c, rand.New(rand.NewSource(*seed*31+int64(i))))
		if i < 3 {
			rep.sample(c)
		}
	})
	rep.crash(w.A, "logins")
}

func c13Case(w *world.World, ns, svc string, t *world.Tenant, c loginCase, rnd *rand.Rand) {
	fail := func(what, expected, observed string) {
		rep.viol(what, c, expected, observed)
	}
	r := Req{NS: ns, Svc: svc, Path: c.Path, Method: c.Method, Scheme: c.Scheme, Host: c.Host, Cookies: decorate("", rnd)}
	res := w.A.Do(r)
	rep.behaviour()
	rep.ok(8)
	rep.count("answer " + c.Answer + ": " + c.Verdict)
	if !res.IsLogin(t) {
		fail("login redirect", "a redirect to "+t.Authorize(), res.String())
		return
	}
	q := res.LocationURL().Query()
	one := func(name string) string {
		if len(q[name]) != 1 {
			return fmt.Sprintf("(%d of them)", len(q[name]))
		}
		return q.Get(name)
	}
	state := one("state")
	switch {
	case one("response_type") != "code":
		fail("response_type", "code", one("response_type"))
	case one("client_id") != c.Client:
		fail("client_id", c.Client, one("client_id"))
	case one("scope") != c.Scope:
		fail("scope", c.Scope, one("scope"))
	case state == "":
		fail("state", "a state", state)
	case !has(c.Redirects, one("redirect_uri")):
		fail("redirect_uri", strings.Join(c.Redirects, " or "), one("redirect_uri"))
	}
	own, _ := url.ParseQuery(c.Query)
	for k := range own {
		if one(k) != own.Get(k) {
			fail("query of the authorization endpoint", c.Query, res.Location)
		}
	}
	ck := res.SetCookie()
	if ck == nil || ck.Value == "" || !strings.HasPrefix(ck.Name, "oidc-cookie") {
		fail("login cookie", "a cookie for the client", res.Header("Set-Cookie"))
		return
	}
	redirect := one("redirect_uri")
	code := map[string]string{"plain": "code"}[c.Code]
	if code == "" {
		code = c.Code
	}
	code += unique("")
	set := mintSet("web-k", "k", c.Client, 10*time.Hour)
	set.Refresh = unique("r-")
	reply, set, known := tokenAnswer(t, c.Answer, c.Client, set, tokenSet{})
	if !known {
		rep.fail("unknown answer %s", c.Answer)
		return
	}
	t.Grant("code:"+code, reply)
	cb := r
	cb.Path = strings.TrimPrefix(redirect, c.Scheme+"://"+c.Host)
	cb.Method, cb.Code, cb.State = "GET", code, state
	cb.Cookies = decorate(ck.Name+"="+ck.Value, rnd)
	res = w.A.Do(cb)
	var hits []world.Hit
	for _, h := range t.Hits("token") {
		if h.Form.Get("code") == code {
			hits = append(hits, h)
		}
	}
	if len(hits) != 1 {
		fail("exchange", "one exchange of the code "+code, fmt.Sprint(len(hits)))
		return
	}
	f := hits[0].Form
	if f.Get("grant_type") != "authorization_code" || f.Get("redirect_uri") != redirect || len(f["redirect_uri"]) != 1 || hits[0].Method != "POST" {
		fail("exchange", "POST authorization_code for "+redirect, hits[0].Method+" "+f.Encode())
	}
	sc := res.SetCookie()
	session := res.Kind == "REDIRECT" && !strings.HasPrefix(res.Location, t.Authorize()) && sc != nil
	rejected := res.Kind == "DENY" && res.Header("Set-Cookie") == "" && res.Location == ""
	switch {
	case c.Verdict == "session" && !session, c.Verdict == "reject" && !rejected, !session && !rejected:
		fail("callback, answer "+c.Answer, c.Verdict, res.String()+" cookie "+res.Header("Set-Cookie"))
		return
	}
	visit := r
	visit.Method = "GET"
	if rejected { // the login cookie is no session, nor is anything that was sent
		visit.Cookies = ck.Name + "=" + []string{ck.Value, state, code}[rnd.Intn(3)]
		if res := w.A.Do(visit); !res.IsLogin(t) {
			fail("request after a rejected callback", "login", res.String())
		}
		return
	}
	if !has(c.Locations, res.Location) {
		fail("location after the login", strings.Join(c.Locations, " or "), res.Location)
	}
	if sc.Path != "/" || sc.Name != ck.Name || sc.MaxAge < 0 || !sc.Expires.IsZero() && sc.Expires.Before(time.Now().Add(time.Hour)) || sc.Domain != "" {
		fail("session cookie", "a lasting cookie "+ck.Name+" for /", res.Header("Set-Cookie"))
	}
	visit.Cookies = decorate(sc.Name+"="+sc.Value, rnd)
	if res := w.A.Do(visit); res.Kind != "OK" || res.Authz != set.authz() {
		fail("request after the login", "pass with its tokens", res.String()+" "+short(res.Authz, 60))
	}
}
