package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"verif/harness/world"
)

// term is a cookie or state parameter of the specification WebFlow
type term struct {
	K string
	N int
}

type webStep struct {
	Op, Path               string
	Cookie, State          term
	Code, Expect, Exchange string
}

type webWalk struct {
	Steps    []webStep
	Sessions []struct{ Client, Role, Live string }
}

// webLogin is a login that was begun, concretely
type webLogin struct {
	client, path, state, cookie, redirectURI string // cookie: the value
}

type webSession struct {
	client, role, id string
	tokens           tokenSet
}

var webPaths = map[string]string{"a": "/a", "b": "/b/c", "strict": "/strict", "other": "/other"}

func webClientOf(path string) string {
	if path == "other" {
		return "c2"
	}
	return "c1"
}

// mintRole mints tokens for several audiences with a role
func mintRole(key, kid string, aud []string, role string, ttl time.Duration) tokenSet {
	mk := func() string {
		return world.Mint("RS256", kid, key, world.Claims{"sub": unique("user"), "aud": aud, "role": role, "iss": "i",
			"exp": time.Now().Add(ttl).Unix(), "jti": unique("t")})
	}
	return tokenSet{Access: mk(), ID: mk()}
}

func flip(s string, rnd *rand.Rand) string {
	if s == "" {
		return "A"
	}
	n := rnd.Intn(len(s))
	if len(s) > 8 { // the last characters of base64 may carry no information
		n = rnd.Intn(len(s) - 6)
	}
	c := byte('A')
	for c == s[n] {
		c = "BCDEFGHabcdefgh"[rnd.Intn(15)]
	}
	return s[:n] + string(c) + s[n+1:]
}

// alterations of a cookie's value: none of them leaves it unaltered
func alter(v string, rnd *rand.Rand) string {
	switch rnd.Intn(8) {
	case 0:
		return v[:len(v)-5-rnd.Intn(len(v)/2)]
	case 1:
		return v + v
	case 2:
		return v[3:]
	case 3:
		return strings.ToLower(v)
	}
	return flip(v, rnd)
}

func changeState(s string, rnd *rand.Rand) string {
	switch rnd.Intn(6) {
	case 0:
		return s + "x"
	case 1:
		return s[:len(s)-1]
	case 2:
		return " " + s
	case 3:
		if u := strings.ToUpper(s); u != s {
			return u
		}
		return strings.ToLower(s)
	case 4:
		return "x" + s
	}
	return flip(s, rnd)
}

// decorate puts a cookie among others
func decorate(cookie string, rnd *rand.Rand) string {
	parts := []string{}
	for rnd.Intn(3) == 0 {
		parts = append(parts, []string{"lang=en", "oidc-cookie=zzz", "oidc-cookie-nobody=abcdefghijklmno", `q="x y"`, "_ga=GA1.2.3", "JSESSIONID=AAAA", "bad name=1", "=x", "novalue"}[rnd.Intn(9)])
	}
	if cookie != "" {
		n := rnd.Intn(len(parts) + 1)
		parts = append(parts[:n:n], append([]string{cookie}, parts[n:]...)...)
	}
	return strings.Join(parts, []string{"; ", ";", " ; "}[rnd.Intn(3)])
}

type webRun struct {
	w        *world.World
	rnd      *rand.Rand
	ns, svc  string
	tenants  map[string]*world.Tenant
	ids      map[string]string // client -> client id
	logins   []*webLogin
	sessions []*webSession
	last     time.Time
}

// webSetup creates the configurations and policies of a walk
func webSetup(w *world.World, ns string, i int, redirect string) *webRun {
	r := &webRun{w: w, ns: ns, svc: fmt.Sprintf("s%d", i), rnd: rand.New(rand.NewSource(*seed*1000 + int64(i))), tenants: map[string]*world.Tenant{}, ids: map[string]string{}}
	for _, c := range []string{"c1", "c2"} {
		name := fmt.Sprintf("%s-w%d", ns, i)
		if i%2 == 1 {
			name += c
		}
		t := w.IdP.Tenant(name)
		t.SetKeys(world.PubKey("k", "web-k"))
		r.tenants[c] = t
		r.ids[c] = fmt.Sprintf("%s-%s-w%d", c, ns, i)
		w.Oidc(ns, fmt.Sprintf("%s-w%d", c, i), t, r.ids[c], "s", nil)
	}
	c1, c2 := fmt.Sprintf("c1-w%d", i), fmt.Sprintf("c2-w%d", i)
	src := []string{"access_token", "id_token", ""}[i%3]
	rule := Obj{"claim": "role", "match": "ALL", "values": []string{"admin"}}
	if src != "" {
		rule["source"] = src
	}
	w.Apply("policies", ns, fmt.Sprintf("p%d", i), world.Paths(r.svc,
		world.PathEntry("prefix", "/a", "", "oidc", c1, nil), world.PathEntry("prefix", "/b", "", "oidc", c1, nil),
		world.PathEntry("prefix", "/strict", "", "oidc", c1, Obj{"rules": []interface{}{rule}}),
		world.PathEntry("prefix", "/other", "", "oidc", c2, nil)))
	return r
}

func (r *webRun) req(path string) Req {
	return Req{NS: r.ns, Svc: r.svc, Path: webPaths[path], Method: []string{"GET", "GET", "POST", "HEAD"}[r.rnd.Intn(4)]}
}

// cookie makes the cookie header; false if the walk refers to something that does not exist
func (r *webRun) cookie(client string, t term) (string, bool) {
	name := "oidc-cookie-" + r.ids[client] + "="
	var v string
	switch t.K {
	case "none":
		return decorate("", r.rnd), true
	case "garbage":
		v = []string{"AAAAAAAAAAAAAAA", "deleted", "abcdefghijklmno", "null", "MTU3fDk4fDc2", "%00", "{}", strings.Repeat("A", 5000)}[r.rnd.Intn(8)]
	case "empty":
		v = ""
	case "state", "altered", "cross", "rawstate":
		if t.N > len(r.logins) || r.logins[t.N-1] == nil {
			return "", false
		}
		l := r.logins[t.N-1]
		v = l.cookie
		if t.K == "altered" {
			v = alter(v, r.rnd)
		}
		if t.K == "rawstate" {
			v = l.state
		}
	case "session", "badsession":
		if t.N > len(r.sessions) || r.sessions[t.N-1] == nil {
			return "", false
		}
		v = r.sessions[t.N-1].id
		if t.K == "badsession" {
			v = flip(v, r.rnd)
		}
	}
	return decorate(name+v, r.rnd), true
}

// observe says what happened to a request; detail is for people
func (r *webRun) observe(q Req, client string) (string, world.Resp) {
	res := r.w.A.Do(q)
	t := r.tenants[client]
	ck := res.SetCookie()
	name := "oidc-cookie-" + r.ids[client]
	switch {
	case res.Kind == "OK":
		return "pass", res
	case res.IsLogin(t):
		if res.LoginClient() == r.ids[client] && ck != nil && ck.Name == name && res.Authz == "" && len(res.LocationURL().Query().Get("state")) > 0 {
			return "login", res
		}
		return "strange login", res
	case res.Kind == "REDIRECT":
		if ck != nil && ck.Name == name && ck.Value != "" {
			if ck.MaxAge < 0 || (!ck.Expires.IsZero() && ck.Expires.Before(time.Now())) {
				return "bye", res
			}
			return "session", res
		}
		return "strange redirect", res
	case res.Kind == "DENY" && ck == nil:
		return "reject", res
	}
	return "?", res
}

// step runs one step. ok is false if the rest of the walk makes no sense.
func (r *webRun) step(s webStep, keyOf func(what string) string, hist []webStep) bool {
	client := webClientOf(s.Path)
	t := r.tenants[client]
	q := r.req(s.Path)
	base := q.Path
	ck, ok := r.cookie(client, s.Cookie)
	if !ok {
		return false
	}
	q.Cookies = ck
	fail := func(what, expected, observed string) bool {
		b, _ := json.Marshal(hist)
		rep.viol(keyOf(what), map[string]interface{}{"history": json.RawMessage(b), "request": q}, expected, observed)
		return false
	}
	desc := fmt.Sprintf("%s at %s with cookie %s", s.Op, s.Path, s.Cookie.K)
	newLogin := func(res world.Resp) {
		r.logins = append(r.logins, &webLogin{client: client, path: s.Path, state: res.LocationURL().Query().Get("state"), cookie: res.SetCookie().Value,
			redirectURI: res.LocationURL().Query().Get("redirect_uri")})
	}
	retry := func(f func() (string, world.Resp), expected ...string) (string, world.Resp) {
		// only infrastructure hiccups are worth a second look: everything else is final
		out, res := f()
		for n := 0; n < 2 && res.Kind == "ERR" && strings.Contains(res.Err, "Unavailable"); n++ {
			out, res = f()
		}
		return out, res
	}
	switch s.Op {
	case "visit":
		out, res := retry(func() (string, world.Resp) { return r.observe(q, client) })
		rep.ok(1)
		rep.count("visit: " + out)
		if s.Expect == "any" && out != "pass" && out != "login" || s.Expect != "any" && out != s.Expect {
			return fail(desc, s.Expect, out+": "+res.String())
		}
		if out == "pass" {
			if want := r.sessions[s.Cookie.N-1].tokens.authz(); res.Authz != want {
				return fail(desc+": tokens", want, res.Authz)
			}
		}
		if out == "login" {
			newLogin(res)
		} else if s.Expect != "pass" {
			r.logins = append(r.logins, nil)
		}
	case "callback":
		q.Path += "/oidc/callback"
		q.Method = "GET"
		switch s.State.K {
		case "state", "changed":
			if s.State.N > len(r.logins) || r.logins[s.State.N-1] == nil {
				return false
			}
			q.State = r.logins[s.State.N-1].state
			if s.State.K == "changed" {
				q.State = changeState(q.State, r.rnd)
			}
		case "wrong":
			q.State = "abcdefghij"
		}
		desc += fmt.Sprintf(", state %s, code %s", s.State.K, s.Code)
		if s.State.K == "state" && s.Cookie.K == "state" && s.State.N != s.Cookie.N {
			desc += " (of different logins)"
		}
		code, tokens := "", tokenSet{}
		switch s.Code {
		case "admin", "user", "error+code":
			role := s.Code
			if role == "error+code" {
				role = "admin"
			}
			tokens = mintRole("web-k", "k", []string{r.ids["c1"], r.ids["c2"]}, role, 10*time.Hour)
			code = unique("code")
			t.Grant("code:"+code, tokens.reply())
		case "refused":
			code = unique("refused")
		}
		q.Code = code
		if strings.HasPrefix(s.Code, "error") {
			q.Error = []string{"access_denied", "server_error", "login_required", "x y&z"}[r.rnd.Intn(4)]
		}
		before := map[*world.Tenant]int{}
		for _, tt := range r.tenants {
			before[tt] = tt.Entered("token")
		}
		out, res := retry(func() (string, world.Resp) { return r.observe(q, client) })
		rep.ok(2)
		rep.count("callback: " + out)
		exchanged := 0
		for tt, n := range before {
			exchanged += tt.Entered("token") - n
		}
		if s.Exchange == "no" && exchanged > 0 || s.Exchange == "yes" && exchanged != 1 || exchanged > 1 {
			return fail(desc+": exchange", "code exchanged: "+s.Exchange, fmt.Sprintf("%d exchanges", exchanged))
		}
		if s.Expect == "any" && out != "session" && out != "reject" && out != "login" || s.Expect == "login" && out != "login" && out != "reject" ||
			s.Expect != "any" && s.Expect != "login" && out != s.Expect {
			return fail(desc, s.Expect, out+": "+res.String())
		}
		var ses *webSession
		if out == "session" {
			ck := res.SetCookie()
			ses = &webSession{client: client, role: s.Code, id: ck.Value, tokens: tokens}
			for _, o := range r.sessions {
				if o != nil && o.id == ses.id {
					return fail(desc+": session id", "a new session id", "an old one again")
				}
			}
			if ck.Path != "/" {
				return fail(desc+": cookie path", "/", ck.Path)
			}
			if want := "https://app.example.com" + base; res.Location != want {
				return fail(desc+": location", want, res.Location)
			}
		}
		if s.Expect == "session" || s.Expect == "any" {
			r.sessions = append(r.sessions, ses)
		}
		if s.Expect == "login" {
			if out == "login" {
				newLogin(res)
			} else {
				r.logins = append(r.logins, nil)
			}
		}
	case "logout":
		q.Path += "/oidc/logout"
		out, res := retry(func() (string, world.Resp) { return r.observe(q, client) })
		rep.ok(1)
		rep.count("logout: " + out)
		if out != "bye" {
			return fail(desc, "redirect expiring the cookie", out+": "+res.String())
		}
		if res.Location != base || res.SetCookie().Path != "/" {
			return fail(desc+": location", base+" and a cookie for /", res.Location+" and a cookie for "+res.SetCookie().Path)
		}
	}
	return true
}

// probe checks all sessions at the end of a walk
func (r *webRun) probe(wk webWalk, keyOf func(what string) string) {
	for n, s := range wk.Sessions {
		if n >= len(r.sessions) || r.sessions[n] == nil || s.Live == "maybe" {
			continue
		}
		path := map[string]string{"c1": "a", "c2": "other"}[s.Client]
		q := r.req(path)
		q.Cookies, _ = r.cookie(s.Client, term{"session", n + 1})
		out, res := r.observe(q, s.Client)
		rep.ok(1)
		rep.count("final probe of a session: " + s.Live)
		want := map[string]string{"yes": "pass", "no": "login"}[s.Live]
		if out != want || out == "pass" && res.Authz != r.sessions[n].tokens.authz() {
			rep.viol(keyOf("session at the end: alive "+s.Live), map[string]interface{}{"history": wk.Steps, "session": n + 1}, want, out+": "+res.String()+" "+short(res.Authz, 200))
		}
	}
}

// webWalks replays the behaviours of WebFlow
func webWalks(w *world.World, ns string) {
	var walks []webWalk
	load("web.ndjson", func(raw []byte) {
		var k webWalk
		mustUnmarshal(raw, &k)
		walks = append(walks, k)
	})
	runs := make([]*webRun, len(walks))
	for i := range walks {
		runs[i] = webSetup(w, ns, i, "")
	}
	if !w.Barrier(30 * time.Second) {
		rep.fail("the adapter does not follow its configuration")
		return
	}
	time.Sleep(50 * time.Millisecond)
	world.Parallel(16, len(walks), func(i int) {
		if rep.nviol() > 60 {
			return
		}
		r := runs[i]
		keyOf := func(what string) string { return what }
		rep.behaviour()
		for n, s := range walks[i].Steps {
			if !r.step(s, keyOf, walks[i].Steps[:n+1]) {
				rep.count("walks left early")
				return
			}
		}
		if i < 3 {
			rep.sample(map[string]interface{}{"walk": walks[i].Steps[:8], "sessions": len(r.sessions)})
		}
		r.probe(walks[i], keyOf)
	})
}
