package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"verif/harness/world"
)

func init() { props["C10"] = c10 }

func c10() {
	w := newWorld()
	defer w.Close()
	webWalks(w, "c10")
	if rep.crash(w.A, "logins and sessions") {
		return
	}
	c10Headers(w)
	c10Validity(w, "jwt")
	c10Validity(w, "opaque")
	rep.crash(w.A, "sessions")
}

type c10Header struct {
	Header []struct{ Name, Value string }
	Sep    string
	Pass   []string
	Login  bool
}

// c10Headers tries cookie headers of all kinds
func c10Headers(w *world.World) {
	const ns, client = "c10h", "c10-client"
	t := w.IdP.Tenant(ns)
	t.SetKeys(world.PubKey("k", "web-k"))
	clients := map[string]string{"own": client, "longer client": client + "2", "shorter client": client[:len(client)-2]}
	for n, c := range clients {
		o := strings.Replace("o-"+n, " ", "", -1)
		w.Oidc(ns, o, t, c, "s", nil)
		w.Apply("policies", ns, o, world.Paths(strings.Replace(n, " ", "", -1), world.PathEntry("prefix", "/", "", "oidc", o, nil)))
	}
	w.Barrier(20 * time.Second)
	r := Req{NS: ns, Svc: "own", Path: "/", Method: "GET"}
	tokens := map[string]tokenSet{"live": mintSet("web-k", "k", client, 10*time.Hour), "live2": mintSet("web-k", "k", client, 10*time.Hour), "ended": mintSet("web-k", "k", client, 10*time.Hour)}
	values := map[string]string{"never issued": "abcdefghijklmno", "empty": ""}
	for n, tok := range tokens {
		c, err := login(w, t, r, tok)
		if err != nil {
			rep.viol("a plain login", nil, "a session", err.Error())
			return
		}
		values[n] = strings.SplitN(c, "=", 2)[1]
	}
	bye := r
	bye.Path = "/oidc/logout"
	bye.Cookies = "oidc-cookie-" + client + "=" + values["ended"]
	w.A.Do(bye)
	p, err := beginLogin(w, t, r)
	if err != nil {
		rep.viol("a plain login", nil, "a login", err.Error())
		return
	}
	values["state"] = strings.SplitN(p.cookie, "=", 2)[1]
	values["live prefix"] = values["live"][:len(values["live"])-1]
	values["live longer"] = values["live"] + "x"
	if values["live upper case"] = strings.ToUpper(values["live"]); values["live upper case"] == values["live"] {
		values["live upper case"] = strings.ToLower(values["live"])
	}
	names := map[string]string{"own": "oidc-cookie-" + client, "longer client": "oidc-cookie-" + clients["longer client"], "shorter client": "oidc-cookie-" + clients["shorter client"],
		"upper case": "OIDC-COOKIE-" + strings.ToUpper(client), "cut": "oidc-cookie-", "bare": "oidc-cookie", "authorization": "authorization"}
	var cases []c10Header
	load("headers.ndjson", func(raw []byte) {
		var c c10Header
		mustUnmarshal(raw, &c)
		cases = append(cases, c)
	})
	world.Parallel(16, len(cases), func(i int) {
		c := cases[i]
		var parts []string
		for _, h := range c.Header {
			parts = append(parts, names[h.Name]+"="+values[h.Value])
		}
		q := r
		q.Path = []string{"/", "/x", "/x/y/"}[i%3]
		q.Cookies = strings.Join(parts, c.Sep)
		// tokens in the authorization header do not make a session, nor do they disturb one
		if i%4 == 1 {
			q.Authz = []string{tokens["live"].authz(), "Bearer x", "Basic abc"}[i/4%3]
		}
		res := w.A.Do(q)
		rep.behaviour()
		rep.ok(1)
		ok := res.IsLogin(t) && c.Login && res.Authz == "" && res.LoginClient() == client
		if res.Kind == "OK" {
			for _, s := range c.Pass {
				ok = ok || res.Authz == tokens[s].authz()
			}
		}
		rep.count("cookie header: " + res.Kind)
		if !ok {
			rep.viol(fmt.Sprintf("cookie header %v authorization %s", c.Header, short(q.Authz, 10)), c,
				fmt.Sprintf("pass with the tokens of one of %v, login: %v", c.Pass, c.Login), res.String()+" "+short(res.Authz, 100))
		}
	})
	// other clients' cookies do not pass, whatever they hold
	for n := range clients {
		if n == "own" {
			continue
		}
		q := r
		q.Svc = strings.Replace(n, " ", "", -1)
		q.Cookies = names["own"] + "=" + values["live"]
		if res := w.A.Do(q); !res.IsLogin(t) {
			rep.viol("session of another client ("+n+")", q, "login", res.String())
		}
		rep.ok(1)
	}
}

// c10Validity follows sessions while keys, rules and the userinfo endpoint's opinion change
func c10Validity(w *world.World, kind string) {
	ns := "c10v" + kind
	var walks [][]polStep
	load(kind+"-walks.ndjson", func(raw []byte) {
		var s []polStep
		mustUnmarshal(raw, &s)
		walks = append(walks, s)
	})
	policy := func(i int, role string) {
		w.Apply("policies", ns, fmt.Sprintf("p%d", i), world.Paths(fmt.Sprintf("s%d", i), world.PathEntry("prefix", "/", "", "oidc", fmt.Sprintf("o%d", i),
			Obj{"rules": []interface{}{Obj{"claim": "role", "match": "ANY", "values": []string{role}, "source": "id_token"}}})))
	}
	for i := range walks {
		t := w.IdP.Tenant(fmt.Sprintf("%s-%d", ns, i))
		t.SetKeys(world.PubKey("k", "web-k"), world.PubKey("k2", "web-k2"))
		w.Oidc(ns, fmt.Sprintf("o%d", i), t, fmt.Sprintf("c%d", i), "s", nil)
		policy(i, "good")
	}
	w.Barrier(20 * time.Second)
	world.Parallel(8, len(walks), func(i int) {
		rnd := rand.New(rand.NewSource(*seed*77 + int64(i)))
		t := w.IdP.Tenant(fmt.Sprintf("%s-%d", ns, i))
		r := Req{NS: ns, Svc: fmt.Sprintf("s%d", i), Path: "/x", Method: "GET"}
		var cur tokenSet
		var cookie string
		mint := func() tokenSet {
			s := mintRole("web-k", "k", []string{fmt.Sprintf("c%d", i)}, "good", 10*time.Hour)
			if kind == "opaque" {
				s.Access = opaqueToken([]string{"plain", "two.parts", "long"}[rnd.Intn(3)])
			}
			return s
		}
		ui := true
		setUI := func() {
			if kind != "opaque" {
				return
			}
			rp := world.Reply{Body: `{"sub":"u"}`}
			if !ui {
				rp = []world.Reply{{Status: 401, Body: `{"error":"invalid_token"}`}, {Status: 500}, {Drop: true}, {Status: 403, Body: "no"}}[rnd.Intn(4)]
			}
			t.UserInfo(cur.Access, rp)
		}
		enter := func() (string, string) {
			set := mint()
			old := cur
			cur = set
			setUI()
			c, err := login(w, t, r, set)
			if err != nil {
				cur = old
				return "reject", err.Error()
			}
			cookie = c
			return "session", ""
		}
		if out, why := enter(); out != "session" {
			rep.viol("first login of a session", nil, "session", why)
			return
		}
		var hist []interface{}
		rep.behaviour()
		for _, s := range walks[i] {
			hist = append(hist, s.Act)
			fail := func(expected, observed string) {
				rep.viol(fmt.Sprintf("%s session: %v", kind, s.Act), map[string]interface{}{"history": hist}, expected, observed)
			}
			switch s.Act[0].(string) {
			case "key":
				if s.Act[1].(bool) {
					t.SetKeys(world.PubKey("k", "web-k"), world.PubKey("k2", "web-k2"))
				} else {
					if rnd.Intn(2) == 0 {
						t.SetKeys(world.PubKey("k2", "web-k2"))
					} else {
						t.SetKeys(world.PubKey("k", "web-k2"), world.PubKey("k2", "web-k2"))
					}
				}
				// have the keys fetched: a login with a token of an unknown key
				if _, err := login(w, t, r, tokenSet{Access: mintUser("web-k9", "k9", fmt.Sprintf("c%d", i), time.Hour), ID: mintUser("web-k9", "k9", fmt.Sprintf("c%d", i), time.Hour)}); err == nil {
					fail("a login with a token of an unknown key is rejected", "accepted")
					return
				}
			case "rule":
				role := "good"
				if !s.Act[1].(bool) {
					role = "other"
				}
				policy(i, role)
				if !w.Barrier(20 * time.Second) {
					rep.fail("the adapter does not follow")
					return
				}
				time.Sleep(5 * time.Millisecond)
			case "ui":
				ui = s.Act[1].(bool)
				setUI()
			case "login":
				want := s.Act[1].(string)
				out, why := enter()
				rep.ok(1)
				if out != want {
					fail(want, out+" "+why)
					return
				}
			case "visit":
				want := s.Act[1].(string)
				q := r
				q.Cookies = cookie
				for n := 0; ; n++ {
					res := w.A.Do(q)
					out := "?"
					switch {
					case res.Kind == "OK" && res.Authz == cur.authz():
						out = "pass"
					case res.IsLogin(t):
						out = "login"
					}
					if out == want || want == "any" && out != "?" {
						break
					}
					if want == "pass" || n > 2 {
						fail(want, res.String())
						return
					}
					time.Sleep(100 * time.Millisecond)
				}
				rep.ok(1)
				rep.count(kind + " session visited: " + want)
			}
		}
	})
}
