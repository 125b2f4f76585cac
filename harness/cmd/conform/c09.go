package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/gorilla/securecookie"
	"gopkg.in/mgo.v2/bson"

	"verif/harness/world"
)

const (
	keysNamespace = "istio-system"
	keysSecret    = "appidentityandaccessadapter-cookie-sig-enc-keys"
)

// storedKeys returns the cookie keys the adapter stored
func storedKeys(w *world.World) (hash, block []byte) {
	s := w.Kube.Secret(keysNamespace, keysSecret)
	if s == nil {
		return nil, nil
	}
	d, _ := s["data"].(map[string][]byte)
	return d["HASH_KEY"], d["BLOCK_KEY"]
}

type c09Cookie struct {
	Key, Name, Exp, Value, Payload, Sent string
}

type c09Case struct {
	Cookie c09Cookie
	Param  string
	Accept bool
}

func init() { props["C09"] = c09 }

func c09() {
	w := newWorld()
	defer w.Close()
	webWalks(w, "c09")
	if rep.crash(w.A, "logins") {
		return
	}
	c09Minted(w)
	c09Race(w)
	rep.crash(w.A, "minted cookies")
}

// c09Minted tries state cookies made outside the adapter, with its keys and with others
func c09Minted(w *world.World) {
	const ns = "c09m"
	t := w.IdP.Tenant("c09m")
	t.SetKeys(world.PubKey("k", "web-k"))
	w.Oidc(ns, "o", t, "c09-client", "s", nil)
	w.Apply("policies", ns, "p", world.Paths("svc", world.PathEntry("prefix", "/a", "", "oidc", "o", nil)))
	w.Barrier(20 * time.Second)
	var cases []c09Case
	load("cookies.ndjson", func(raw []byte) {
		var c c09Case
		mustUnmarshal(raw, &c)
		cases = append(cases, c)
	})
	hash, block := storedKeys(w)
	rnd := func(n int) []byte { return securecookie.GenerateRandomKey(n) }
	const own, foreign = "oidc-cookie-c09-client", "oidc-cookie-c09-client2"
	try := func(c c09Case) (string, world.Resp) {
		h, b := hash, block
		switch c.Cookie.Key {
		case "other hash key":
			h = rnd(32)
		case "other block key":
			b = rnd(16)
		case "other keys":
			h, b = rnd(32), rnd(16)
		case "no block key":
			b = nil
		}
		state := strings.Replace(unique("state"), "0", "x", -1)
		doc := bson.M{}
		switch c.Cookie.Value {
		case "state":
			doc["value"] = state
		case "empty":
			doc["value"] = ""
		case "other":
			doc["value"] = "otherstate"
		}
		doc["expiration"] = map[string]time.Time{"hour": time.Now().Add(time.Hour), "minute": time.Now().Add(time.Minute),
			"second ago": time.Now().Add(-time.Second), "hour ago": time.Now().Add(-time.Hour), "zero": {}, "year ago": time.Now().Add(-365 * 24 * time.Hour)}[c.Cookie.Exp]
		data, err := bson.Marshal(doc)
		if err != nil {
			rep.fail("bson: %v", err)
			return "?", world.Resp{}
		}
		switch c.Cookie.Payload {
		case "no payload":
			data = []byte{}
		case "not a document":
			data = []byte("{\"value\":\"" + state + "\"}")
		case "truncated":
			data = data[:len(data)-3]
		}
		name := map[string]string{"own": own, "other client": foreign, "bare": "oidc-cookie"}[c.Cookie.Name]
		v, err := securecookie.New(h, b).Encode(name, data)
		if err != nil {
			rep.fail("securecookie: %v", err)
			return "?", world.Resp{}
		}
		code := unique("code")
		t.Grant("code:"+code, mintSet("web-k", "k", "c09-client", time.Hour).reply())
		q := Req{NS: ns, Svc: "svc", Path: "/a/oidc/callback", Method: "GET", Code: code, Cookies: map[string]string{"own": own, "other client": foreign}[c.Cookie.Sent] + "=" + v}
		q.State = map[string]string{"state": state, "empty": "", "longer": state + "x", "shorter": state[:len(state)-1]}[c.Param]
		before := t.Entered("token")
		res := w.A.Do(q)
		exchanged := t.Entered("token") > before
		ck := res.SetCookie()
		switch {
		case res.Kind == "DENY" && ck == nil && !exchanged:
			return "reject", res
		case res.Kind == "REDIRECT" && !res.IsLogin(t) && ck != nil && exchanged:
			return "accept", res
		}
		return fmt.Sprintf("? exchanged: %v, cookie: %v", exchanged, ck != nil), res
	}
	for _, c := range cases {
		if c.Accept {
			// what the adapter accepts tells that we know how it makes its cookies
			if out, _ := try(c); out != "accept" || hash == nil {
				rep.count("minted cookies not understood by the adapter: forging them was skipped")
				return
			}
		}
	}
	world.Parallel(1, len(cases), func(i int) { // one at a time: exchanges are counted
		c := cases[i]
		out, res := try(c)
		rep.behaviour()
		rep.ok(1)
		rep.count("minted cookie: " + short(out, 6))
		want := "reject"
		if c.Accept {
			want = "accept"
		}
		if i%200 == 7 {
			rep.sample(c)
		}
		if out != want {
			rep.viol(fmt.Sprintf("minted cookie %+v, state parameter %s", c.Cookie, c.Param), c, want, out+": "+res.String())
		}
	})
}

// c09Race crosses logins that are begun and completed at the same moment
func c09Race(w *world.World) {
	const ns = "c09r"
	t := w.IdP.Tenant("c09r")
	t.SetKeys(world.PubKey("k", "web-k"))
	w.Oidc(ns, "o", t, "c09r-client", "s", nil)
	w.Apply("policies", ns, "p", world.Paths("svc", world.PathEntry("prefix", "/a", "", "oidc", "o", nil)))
	w.Barrier(20 * time.Second)
	n := 200
	logins := make([]*pendingLogin, n)
	world.Parallel(16, n, func(i int) {
		p, err := beginLogin(w, t, Req{NS: ns, Svc: "svc", Path: "/a", Method: "GET"})
		if err != nil {
			rep.viol("concurrent logins", nil, "a login", err.Error())
			return
		}
		logins[i] = p
	})
	world.Parallel(16, n, func(i int) {
		p, o := logins[i], logins[(i*7+3)%n]
		if p == nil || o == nil || p == o {
			return
		}
		code := unique("code")
		tokens := mintSet("web-k", "k", "c09r-client", time.Hour)
		t.Grant("code:"+code, tokens.reply())
		crossed := p.callback(code)
		crossed.State = o.state
		res := w.A.Do(crossed)
		rep.ok(1)
		if res.Kind != "DENY" || res.SetCookie() != nil {
			rep.viol("concurrent logins: another login's state", map[string]interface{}{"request": crossed}, "rejected", res.String())
		}
		res = w.A.Do(p.callback(code))
		ck := res.SetCookie()
		if res.Kind != "REDIRECT" || ck == nil || res.IsLogin(t) {
			rep.viol("concurrent logins: own state", nil, "a session", res.String())
			return
		}
		q := p.req
		q.Cookies = ck.Name + "=" + ck.Value
		res = w.A.Do(q)
		rep.ok(2)
		if res.Kind != "OK" || res.Authz != tokens.authz() {
			rep.viol("concurrent logins: the session's tokens", nil, "those of the code", res.String())
		}
	})
	rep.behaviour()
}
