package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync/atomic"
	"time"

	"verif/harness/world"
)

func init() { props["C12"] = c12 }

func c12() {
	w := newWorld()
	defer w.Close()
	c12Chains(w)
	if rep.crash(w.A, "refreshes") {
		return
	}
	refreshRace(w, "c12r")
	rep.crash(w.A, "concurrent refreshes")
}

// c12Chains replays the lives of sessions: all of them belong to the same few clients
func c12Chains(w *world.World) {
	const ns = "c12"
	var walks [][]polStep
	load("chain-walks.ndjson", func(raw []byte) {
		var s []polStep
		mustUnmarshal(raw, &s)
		walks = append(walks, s)
	})
	const clients = 4
	t := w.IdP.Tenant(ns)
	t.SetKeys(world.PubKey("k", "web-k"))
	for i := 0; i < clients; i++ {
		more := Obj{}
		if i%2 == 1 { // rules instead of the default on aud
			more["rules"] = []interface{}{Obj{"claim": "aud", "match": "ANY", "values": []string{fmt.Sprintf("c12-%d", i)}, "source": "id_token"}, Obj{"claim": "role", "match": "NOT", "values": []string{"bad"}}}
		}
		w.Oidc(ns, fmt.Sprintf("o%d", i), t, fmt.Sprintf("c12-%d", i), "s", Obj{"authMethod": []string{"client_secret_basic", "client_secret_post"}[i/2]})
		w.Apply("policies", ns, fmt.Sprintf("p%d", i), world.Paths(fmt.Sprintf("s%d", i), world.PathEntry("prefix", "/", "", "oidc", fmt.Sprintf("o%d", i), more)))
	}
	w.Barrier(20 * time.Second)
	var late, bad int64
	run := func(i int) {
		rnd := rand.New(rand.NewSource(*seed*17 + int64(i)))
		k := i % clients
		client := fmt.Sprintf("c12-%d", k)
		r := Req{NS: ns, Svc: fmt.Sprintf("s%d", k), Path: "/x", Method: "GET"}
		var cur tokenSet
		var exp time.Time // when the short-lived tokens expire
		var cookie string
		mk := func(which string) (tokenSet, time.Time) {
			set := mintSet("web-k", "k", client, 10*time.Hour)
			at := time.Now().Add(4 * time.Second)
			short := mintSet("web-k", "k", client, 4*time.Second)
			if which != "id" {
				set.Access = short.Access
			}
			if which != "access" {
				set.ID = short.ID
			}
			return set, at.Truncate(time.Second)
		}
		// the requests the provider got for a refresh token
		hits := func(refresh string) int {
			n := 0
			for _, h := range t.Hits("token") {
				if h.Form.Get("refresh_token") == refresh && refresh != "" {
					n++
				}
			}
			return n
		}
		visit := func() world.Resp {
			q := r
			q.Path = []string{"/x", "/", "/y/z"}[rnd.Intn(3)]
			q.Cookies = decorate(cookie, rnd)
			return w.A.Do(q)
		}
		var hist []interface{}
		rep.behaviour()
		for _, s := range walks[i] {
			hist = append(hist, s.Act)
			fail := func(expected, observed string) {
				atomic.AddInt64(&bad, 1)
				rep.viol(fmt.Sprintf("step %v", s.Act), map[string]interface{}{"history": hist, "client": client}, expected, observed)
			}
			rep.ok(1)
			switch s.Act[0].(string) {
			case "login":
				var err error
				for n := 0; n < 3; n++ {
					cur, exp = mk(s.Act[1].(string))
					if s.Act[2].(float64) > 0 {
						cur.Refresh = unique("r-")
					}
					if cookie, err = login(w, t, r, cur); err == nil {
						break
					}
				}
				if err != nil {
					atomic.AddInt64(&late, 1)
					return
				}
			case "expire":
				time.Sleep(time.Until(exp.Add(1200 * time.Millisecond)))
			case "visit":
				before := hits(cur.Refresh)
				want := s.Act[1].(string)
				res := visit()
				if want == "pass" && time.Now().After(exp.Add(-300*time.Millisecond)) {
					atomic.AddInt64(&late, 1)
					return // too late to tell: the machine is busy
				}
				if want == "pass" && (res.Kind != "OK" || res.Authz != cur.authz()) || want == "login" && !res.IsLogin(t) {
					fail(want, res.String()+" "+short(res.Authz, 60))
					return
				}
				if hits(cur.Refresh) != before {
					fail("no refresh", "a refresh")
					return
				}
				rep.count("visit: " + want)
			case "refresh":
				kind, want := s.Act[1].(string), s.Act[3].(string)
				set, e := mk(s.Act[2].(string))
				set.Refresh = ""
				old := cur.Refresh
				var reply world.Reply
				switch kind {
				case "new", "delayed":
					set.Refresh = unique("r-")
					reply = set.reply()
					if kind == "delayed" {
						reply.Delay = 300 * time.Millisecond
					}
				case "opaque":
					set.Access = opaqueToken("plain")
					t.UserInfo(set.Access, world.Reply{Body: `{"sub":"u"}`})
					set.Refresh = unique("r-")
					if s.Act[2].(string) == "access" { // an opaque token does not expire
						set.ID = mintUser("web-k", "k", client, 4*time.Second)
						e = time.Now().Add(4 * time.Second).Truncate(time.Second)
					}
					if k%2 == 1 { // rules about access tokens cannot be checked on opaque ones
						set.Access = mintUser("web-k", "k", client, 10*time.Hour)
					}
					reply = set.reply()
				default:
					var known bool
					if reply, set, known = tokenAnswer(t, kind, client, set, cur); !known {
						rep.fail("unknown answer %s", kind)
						return
					}
				}
				t.Grant("refresh:"+old, reply)
				before := hits(old)
				res := visit()
				rep.count("refresh " + kind + ": " + res.Kind)
				n := hits(old) - before
				isPass := res.Kind == "OK" && res.Authz == set.authz()
				if want == "pass" && !isPass || want == "login" && !res.IsLogin(t) || want == "open" && res.Kind != "OK" && !res.IsLogin(t) {
					if want == "pass" && res.IsLogin(t) && time.Now().After(e.Add(-300*time.Millisecond)) {
						atomic.AddInt64(&late, 1)
						return
					}
					fail(want, res.String()+" "+short(res.Authz, 80))
					return
				}
				if want == "pass" && n != 1 || n > 1 {
					fail("one refresh with the session's refresh token", fmt.Sprint(n))
					return
				}
				if isPass {
					if res.Cookie != "" {
						ck := world.ParseSetCookie(res.Cookie)
						if ck == nil || ck.Name+"="+ck.Value != cookie || ck.Path != "/" {
							fail("the session's cookie "+cookie+" for /", res.Cookie)
							return
						}
					}
					if set.Refresh == "" {
						set.Refresh = old
					}
					cur, exp = set, e
				}
			}
		}
	}
	world.Parallel(len(walks), len(walks), run)
	rep.countN("walks left early: the machine is too slow", int(late))
	if int(late) > len(walks)/2 && bad == 0 {
		rep.fail("%d of %d walks were too slow to tell", late, len(walks))
	}
	// nothing but refresh tokens the provider issued were ever sent to it
	for _, h := range t.Hits("token") {
		if h.Form.Get("grant_type") == "refresh_token" && !strings.HasPrefix(h.Form.Get("refresh_token"), "r-") {
			rep.viol("refresh token sent", h.Form, "one the provider issued", h.Form.Get("refresh_token"))
		}
	}
}
