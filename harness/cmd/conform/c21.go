package main

import (
	"fmt"
	"net/url"
	"strings"
	"sync"
	"time"

	"verif/harness/world"
)

func init() { props["C21"] = c21 }

// tokenReq is a token request that must be seen
type tokenReq struct {
	Prov, ID, How, Grant string
	Secrets              []string
}

type credStep struct {
	A   string
	Cfg struct{ Prov, ID, Method, Ref, Plain string }
	// of configure
	Failing int
	Secrets struct{ S, T string }
	Prov    string
	ID      string
	Allow   []string
	Token   []tokenReq
}

type credWalk struct {
	Steps []credStep
	Init  struct{ S, T string }
}

type credCase struct{ ID, Secret, Method, Source, How, Counts string }

// sent tells what is wrong with the credentials of a token request ("" if nothing)
func sent(h world.Hit, how, id string, secrets []string) string {
	same := func(got string, want ...string) bool { // as it is, or form-encoded: https://tools.ietf.org/html/rfc6749#section-2.3.1
		for _, w := range want {
			if got == w {
				return true
			}
		}
		if u, err := url.QueryUnescape(got); err == nil {
			for _, w := range want {
				if u == w {
					return true
				}
			}
		}
		return false
	}
	if h.Method != "POST" {
		return "not a POST"
	}
	for _, v := range []string{"client_id", "client_secret", "grant_type", "code", "refresh_token"} {
		if len(h.Form[v]) > 1 {
			return v + " given twice"
		}
	}
	if h.Bearer != "" {
		return "bearer authorization"
	}
	q, _ := url.ParseQuery(h.Query)
	if q.Get("client_secret") != "" || q.Get("code") != "" || q.Get("refresh_token") != "" {
		return "credentials or grant in the query"
	}
	if how == "post" {
		switch {
		case h.HasBasic:
			return "basic authorization, though the method is client_secret_post"
		case h.Form.Get("client_id") != id:
			return fmt.Sprintf("client_id %q instead of %q", h.Form.Get("client_id"), id)
		case !has(secrets, h.Form.Get("client_secret")):
			return fmt.Sprintf("client_secret %q, not one of %q", short(h.Form.Get("client_secret"), 100), secrets)
		}
		return ""
	}
	switch {
	case len(h.Form["client_secret"]) > 0:
		return "client_secret in the body, though the method is basic authentication"
	case !h.HasBasic:
		return "no basic authorization"
	case len(h.Form["client_id"]) > 0 && h.Form.Get("client_id") != id:
		return "client_id of another"
	}
	for _, s := range secrets {
		if h.Basic == id+":"+s {
			return ""
		}
		p := strings.SplitN(h.Basic, ":", 2)
		if len(p) == 2 && same(p[0], id) && same(p[1], s) {
			return ""
		}
	}
	return fmt.Sprintf("basic %q, not %q with one of %q", short(h.Basic, 200), id, secrets)
}

// wellFormed tells what is wrong with the grant of a token request
func wellFormed(h world.Hit, grant string) string {
	switch {
	case grant == "code" && (h.Form.Get("grant_type") != "authorization_code" || h.Form.Get("code") == "" || h.Form.Get("redirect_uri") == "" || h.Form.Get("refresh_token") != ""):
		return "not a code grant: " + fmt.Sprint(h.Form)
	case grant == "refresh" && (h.Form.Get("grant_type") != "refresh_token" || h.Form.Get("refresh_token") == "" || h.Form.Get("code") != ""):
		return "not a refresh grant: " + fmt.Sprint(h.Form)
	}
	return ""
}

// leaked tells which of what must stay between adapter and provider is in an answer
func leaked(r world.Resp, secret []string, tokens []string) string {
	parts := []string{r.Cookie, r.Body, r.Msg, r.Err, r.Location}
	for k, v := range r.Headers {
		parts = append(parts, k+": "+v)
	}
	look := func(s string, where []string) bool {
		for _, p := range where {
			if s != "" && (strings.Contains(p, s) || strings.Contains(p, url.QueryEscape(s))) {
				return true
			}
		}
		return false
	}
	for _, s := range secret {
		if look(s, append(parts, r.Authz)) {
			return s
		}
	}
	for _, s := range tokens {
		if look(s, parts) || (r.Kind != "OK" && look(s, []string{r.Authz})) {
			return s
		}
	}
	return ""
}

func c21() {
	// each adapter reads five secrets a second at most: several adapters share the work
	const worlds = 8
	var ws []*world.World
	for i := 0; i < worlds; i++ {
		w := newWorld()
		defer w.Close()
		ws = append(ws, w)
	}
	each := func(f func(w *world.World, n int)) {
		var wg sync.WaitGroup
		for n, w := range ws {
			wg.Add(1)
			go func(w *world.World, n int) {
				defer wg.Done()
				f(w, n)
			}(w, n)
		}
		wg.Wait()
	}
	var cases []credCase
	load("texts.ndjson", func(raw []byte) {
		var c credCase
		mustUnmarshal(raw, &c)
		cases = append(cases, c)
	})
	each(func(w *world.World, n int) {
		var mine []credCase
		for i := n; i < len(cases); i += worlds {
			mine = append(mine, cases[i])
		}
		c21Texts(w, mine)
	})
	if rep.nviol() > 0 {
		return
	}
	var walks []credWalk
	load("walks.ndjson", func(raw []byte) {
		var c credWalk
		mustUnmarshal(raw, &c)
		walks = append(walks, c)
	})
	// so many at once that nobody's tokens expire early
	for at := 0; at < len(walks) && rep.nviol() == 0; at += 40 * worlds {
		each(func(w *world.World, n int) {
			var mine []*credRun
			for i := at + n; i < len(walks) && i < at+40*worlds; i += worlds {
				mine = append(mine, &credRun{walk: walks[i], n: i})
			}
			c21Walks(w, mine)
		})
	}
}

func c21Texts(w *world.World, cases []credCase) {
	const ns = "c21"
	text := map[string]string{"@UTF8@": "üñ☃", "@LONG@": strings.Repeat("long", 500)}
	of := func(s string) string {
		if t, ok := text[s]; ok {
			return t
		}
		return s
	}
	tenant := func(i int) *world.Tenant { return w.IdP.Tenant(fmt.Sprintf("c21-%d", i)) }
	for i, c := range cases {
		t, name := tenant(i), fmt.Sprintf("o%d", i)
		t.SetKeys(world.PubKey("k", "c21"))
		spec := Obj{"discoveryUrl": t.Discovery(), "clientId": of(c.ID)}
		if c.Method != "absent" {
			spec["authMethod"] = c.Method
		}
		if c.Source != "ref" {
			spec["clientSecret"] = "other"
		}
		if c.Source == "plain" {
			spec["clientSecret"] = of(c.Secret)
		} else {
			spec["clientSecretRef"] = Obj{"name": name, "key": "k"}
		}
		switch c.Source {
		case "ref", "both":
			w.SetSecret(ns, name, map[string][]byte{"k": []byte(of(c.Secret)), "other": []byte("wrong")})
		case "emptyref":
			w.SetSecret(ns, name, map[string][]byte{"k": {}, "other": []byte("wrong")})
		case "nokeyref":
			w.SetSecret(ns, name, map[string][]byte{"other": []byte("wrong"), "K": []byte("wrong")})
		}
		w.SetSecret("elsewhere", name, map[string][]byte{"k": []byte("wrong")})
		w.Apply("oidcconfigs", ns, name, spec)
		w.Apply("policies", ns, name, world.Paths(name, world.PathEntry("prefix", "/", "", "oidc", name, nil)))
	}
	if !w.Barrier(60 * time.Second) {
		rep.skip("barrier")
	}
	sessions := make([]string, len(cases))
	sets := make([]tokenSet, len(cases))
	check := func(i int, grant string, hits []world.Hit) {
		c, want := cases[i], "other"
		if c.Counts == "text" {
			want = of(c.Secret)
		}
		rep.ok(1)
		key := fmt.Sprintf("texts %s %q %q %s %s", grant, c.ID, c.Secret, c.Method, c.Source)
		if len(hits) != 1 {
			rep.viol(key, c, "one token request", fmt.Sprint(len(hits)))
			return
		}
		bad := sent(hits[0], c.How, of(c.ID), []string{want})
		if bad == "" {
			bad = wellFormed(hits[0], grant)
		}
		if bad != "" {
			rep.viol(short(key, 300), c, "token request with "+c.How+" and the secret that counts", short(bad, 600))
		}
	}
	begun := time.Now()
	world.Parallel(16, len(cases), func(i int) {
		rep.behaviour()
		rep.count("credentials: text")
		q := Req{NS: ns, Svc: fmt.Sprintf("o%d", i), Path: "/x", Method: "GET"}
		set := mintSet("c21", "k", of(cases[i].ID), time.Hour)
		set.Access, set.Refresh = mintUser("c21", "k", of(cases[i].ID), time.Until(begun.Add(8*time.Second))), unique("c21refresh")
		s, err := login(w, tenant(i), q, set)
		if err != nil {
			rep.skip(short(err.Error(), 80))
			return
		}
		sessions[i], sets[i] = s, set
		check(i, "code", tenant(i).Hits("token"))
	})
	time.Sleep(time.Until(begun.Add(9500 * time.Millisecond)))
	world.Parallel(16, len(cases), func(i int) {
		if sessions[i] == "" {
			return
		}
		next := mintSet("c21", "k", of(cases[i].ID), time.Hour)
		tenant(i).Grant("refresh:"+sets[i].Refresh, next.reply())
		q := Req{NS: ns, Svc: fmt.Sprintf("o%d", i), Path: "/x", Method: "GET", Cookies: sessions[i]}
		r := w.A.Do(q)
		if r.Kind != "OK" {
			rep.viol("texts refresh: "+outcome(r, tenant(i)), cases[i], "ok", short(r.String(), 300))
			return
		}
		check(i, "refresh", tenant(i).Hits("token")[1:])
	})
}

// credRun is one walk in the making
type credRun struct {
	walk    credWalk
	n       int
	ns      string
	t       map[string]*world.Tenant
	names   map[string]string // what the specification's secrets are here
	state   Obj
	session string
	refresh string
	pending *pendingLogin
	lost    bool // the session was ended, which was allowed
	minted  time.Time
	over    bool
	failing int32
	mu      sync.Mutex
	hidden  []string // what must not be seen
	tokens  []string
	seen    map[string]int // token requests so far
}

func (c *credRun) secret(s string) string {
	if s == "" {
		return ""
	}
	return c.names[s]
}

func c21Walks(w *world.World, runs []*credRun) {
	byNS := map[string]*credRun{}
	for _, c := range runs {
		c.ns, c.t, c.names, c.seen = fmt.Sprintf("c21w%d", c.n), map[string]*world.Tenant{}, map[string]string{}, map[string]int{}
		for _, s := range []string{"s1", "s2", "t1", "plain", "x"} {
			c.names[s] = unique("hidden-" + s + "-")
			c.hidden = append(c.hidden, c.names[s])
		}
		for _, p := range []string{"p1", "p2"} {
			c.t[p] = w.IdP.Tenant(c.ns + p)
			c.t[p].SetKeys(world.PubKey("k", "c21"))
		}
		byNS[c.ns] = c
	}
	// reads of a walk's secrets fail as often as the walk says
	statuses := []int{500, 503, -1, 504}
	w.SecretFault = func(ns, name string) int {
		c := byNS[ns]
		if c == nil {
			return 0
		}
		c.mu.Lock()
		defer c.mu.Unlock()
		if c.failing > 0 {
			c.failing--
			rep.count("failed reads of secrets")
			return statuses[(c.n+int(c.failing))%len(statuses)]
		}
		return 0
	}
	defer func() { w.SecretFault = nil }()
	world.Parallel(8, len(runs), func(i int) {
		c := runs[i]
		c.store(w, c.walk.Init.S, c.walk.Init.T)
		for _, s := range []string{"s", "t"} { // another namespace's
			w.SetSecret("not-"+c.ns, s, map[string][]byte{"k": []byte("wrong"), "nokey": []byte("wrong")})
		}
		w.Apply("oidcconfigs", c.ns, "x", Obj{"discoveryUrl": c.t["p2"].Discovery(), "clientId": "a", "clientSecret": c.names["x"], "authMethod": "client_secret_post"})
		for _, n := range []string{"o", "x"} {
			w.Apply("policies", c.ns, n, world.Paths(n, world.PathEntry("prefix", "/", "", "oidc", n, nil)))
		}
	})
	if !w.Barrier(60 * time.Second) {
		rep.skip("barrier")
	}
	last := time.Now()
	for k := 0; k < 100 && rep.nviol() < 20; k++ {
		configured, expire, more := false, false, false
		for _, c := range runs {
			if k < len(c.walk.Steps) && !c.over {
				more = true
				configured = configured || c.walk.Steps[k].A == "configure"
				expire = expire || c.walk.Steps[k].A == "expire"
			}
		}
		if !more {
			break
		}
		if expire {
			time.Sleep(time.Until(last.Add(c21Life + 1500*time.Millisecond)))
		}
		world.Parallel(16, len(runs), func(i int) {
			if c := runs[i]; k < len(c.walk.Steps) && !c.over {
				c.step(w, k, c.walk.Steps[k])
			}
		})
		if configured {
			if !w.Barrier(60 * time.Second) {
				rep.skip("barrier")
				return
			}
			for _, c := range runs {
				if k < len(c.walk.Steps) && c.walk.Steps[k].A == "configure" && c.walk.Steps[k].Failing < 9 {
					c.mu.Lock()
					c.failing = 0
					c.mu.Unlock()
				}
			}
		}
		for _, c := range runs {
			if c.minted.After(last) {
				last = c.minted
			}
		}
	}
	if crashed := rep.crash(w.A, "credentials"); crashed {
		return
	}
	for _, c := range runs {
		rep.behaviour()
		rep.count("credentials: walks")
		for _, t := range c.t { // nobody else was told a secret
			for _, h := range t.Hits("") {
				if h.Endpoint != "token" && (h.HasBasic || h.Form.Get("client_secret") != "" || strings.Contains(h.Query, "hidden-") || strings.Contains(h.Bearer, "hidden-")) {
					rep.viol("credentials at the "+h.Endpoint+" endpoint", c.walk, "credentials only at the token endpoint", fmt.Sprint(h.Basic, h.Form, h.Query))
				}
			}
		}
	}
}

const c21Life = 14 * time.Second

func (c *credRun) store(w *world.World, s, t string) {
	for name, v := range map[string]string{"s": s, "t": t} {
		switch v {
		case "gone":
			w.DeleteSecret(c.ns, name)
		case "nokey":
			w.SetSecret(c.ns, name, map[string][]byte{"other": []byte("wrong")})
		default:
			w.SetSecret(c.ns, name, map[string][]byte{"k": []byte(c.secret(v)), "other": []byte("wrong")})
		}
	}
}

func (c *credRun) fails(k int, s credStep, expected, observed string) {
	c.over = true
	rep.viol(fmt.Sprintf("%s: %s", s.A, strings.SplitN(observed, "\"", 2)[0]), Obj{"walk": c.walk.Steps[:k+1], "secrets at first": c.walk.Init}, expected, short(observed, 600))
}

// hits returns the token requests made since the last call, as provider -> requests
func (c *credRun) hits() map[string][]world.Hit {
	out := map[string][]world.Hit{}
	for p, t := range c.t {
		h := t.Hits("token")
		if len(h) > c.seen[p] {
			out[p] = h[c.seen[p]:]
		}
		c.seen[p] = len(h)
	}
	return out
}

func (c *credRun) mint(id string) tokenSet {
	set := tokenSet{Access: mintUser("c21", "k", id, c21Life), ID: mintUser("c21", "k", id, time.Hour), Refresh: unique("hidden-refresh-")}
	c.hidden = append(c.hidden, set.Refresh)
	c.tokens = append(c.tokens, set.Access, set.ID)
	return set
}

func (c *credRun) grant(g string, set tokenSet) {
	for _, t := range c.t { // whoever is asked
		t.Grant(g, set.reply())
	}
}

func (c *credRun) step(w *world.World, k int, s credStep) {
	web := Req{NS: c.ns, Svc: "o", Path: "/x", Method: "GET"}
	do := func(q Req) world.Resp {
		r := w.A.Do(q)
		if l := leaked(r, c.hidden, c.tokens); l != "" {
			c.fails(k, s, "neither secrets nor tokens in answers", "leaked "+l+" in "+r.String())
		}
		return r
	}
	// tokens compares the token requests that were made with those that must be (least: or may be)
	tokens := func(want []tokenReq, optional bool) {
		got := c.hits()
		rep.ok(1)
		n := 0
		for p, l := range got {
			n += len(l)
			if len(want) == 0 || p != want[0].Prov {
				c.fails(k, s, fmt.Sprint("token requests ", want), fmt.Sprintf("a token request to %s: basic %q form %v", p, l[0].Basic, l[0].Form))
				return
			}
		}
		if n > len(want) || (n < len(want) && !optional) {
			c.fails(k, s, fmt.Sprint("token requests ", want), fmt.Sprint(n, " token requests"))
			return
		}
		for _, l := range got {
			secrets := []string{}
			for _, x := range want[0].Secrets {
				secrets = append(secrets, c.secret(x))
			}
			bad := sent(l[0], want[0].How, want[0].ID, secrets)
			if bad == "" {
				bad = wellFormed(l[0], want[0].Grant)
			}
			if bad != "" {
				c.fails(k, s, fmt.Sprint("token requests ", want), bad)
			}
		}
	}
	switch s.A {
	case "configure":
		spec := Obj{"discoveryUrl": c.t[s.Cfg.Prov].Discovery(), "clientId": s.Cfg.ID}
		if s.Cfg.Method != "absent" {
			spec["authMethod"] = s.Cfg.Method
		}
		if s.Cfg.Plain != "" {
			spec["clientSecret"] = c.secret(s.Cfg.Plain)
		}
		if s.Cfg.Ref != "none" {
			p := strings.SplitN(s.Cfg.Ref, ".", 2)
			spec["clientSecretRef"] = Obj{"name": p[0], "key": p[1]}
		}
		c.mu.Lock()
		c.failing = int32(s.Failing)
		if s.Failing == 9 {
			c.failing = 1 << 30
		}
		c.mu.Unlock()
		w.Apply("oidcconfigs", c.ns, "o", spec)
	case "store":
		c.store(w, s.Secrets.S, s.Secrets.T)
	case "down", "up":
		c.mu.Lock()
		c.failing = map[string]int32{"down": 1 << 30}[s.A]
		c.mu.Unlock()
	case "begin":
		r := do(web)
		for n := 0; n < 40 && !r.IsLogin(c.t[s.Prov]); n++ { // the provider's whereabouts may still be being read
			time.Sleep(25 * time.Millisecond)
			r = do(web)
		}
		ck := r.SetCookie()
		if !r.IsLogin(c.t[s.Prov]) || ck == nil || r.LocationURL().Query().Get("client_id") != s.ID {
			c.fails(k, s, "a login at "+s.Prov+" as "+s.ID, r.String())
			return
		}
		c.pending = &pendingLogin{req: web, state: r.LocationURL().Query().Get("state"), cookie: ck.Name + "=" + ck.Value}
		tokens(nil, false)
	case "callback":
		code := unique("code")
		id := "a"
		if len(s.Token) > 0 {
			id = s.Token[0].ID
		}
		set, at := c.mint(id), time.Now()
		c.grant("code:"+code, set)
		r := do(c.pending.callback(code))
		if got := outcome(r, c.t["p1"]); !has(s.Allow, got) && !c.over {
			c.fails(k, s, fmt.Sprint(s.Allow), r.String())
			return
		}
		if len(s.Token) > 0 {
			if ck := r.SetCookie(); ck != nil {
				c.session, c.refresh, c.lost, c.minted = ck.Name+"="+ck.Value, set.Refresh, false, at
			}
		}
		tokens(s.Token, false)
	case "visit":
		q := web
		q.Cookies = c.session
		id := "a"
		if len(s.Token) > 0 {
			id = s.Token[0].ID
		}
		set, at := tokenSet{}, time.Now()
		if len(s.Token) > 0 {
			set = c.mint(id)
			c.grant("refresh:"+c.refresh, set)
		} else if time.Since(c.minted) > c21Life-time.Second { // about to expire, on a slow machine
			rep.count("slow")
			c.over = true
			return
		}
		r := do(q)
		got := outcome(r, c.t["p1"])
		if r.IsLogin(c.t["p2"]) {
			got = "login"
		}
		allow := s.Allow
		if c.lost {
			allow = append(append([]string{}, allow...), "login")
		}
		if !has(allow, got) {
			if !c.over {
				c.fails(k, s, fmt.Sprint(allow), r.String())
			}
			return
		}
		optional := got == "login"
		c.lost = c.lost || (got == "login" && has(s.Allow, "ok"))
		if got == "ok" && set.Refresh != "" {
			c.refresh, c.minted = set.Refresh, at
		}
		tokens(s.Token, optional)
	case "elsewhere":
		q := web
		q.Svc = "x"
		r := do(q)
		ck := r.SetCookie()
		if !r.IsLogin(c.t["p2"]) || ck == nil {
			c.fails(k, s, "a login at p2", r.String())
			return
		}
		code := unique("code")
		set := c.mint("a")
		c.grant("code:"+code, set)
		p := &pendingLogin{req: q, state: r.LocationURL().Query().Get("state"), cookie: ck.Name + "=" + ck.Value}
		if r := do(p.callback(code)); outcome(r, c.t["p2"]) != "done" && !c.over {
			c.fails(k, s, "done", r.String())
			return
		}
		tokens(s.Token, false)
	}
}
