package main

import (
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/gogo/protobuf/proto"
	"google.golang.org/grpc"

	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
	"verif/harness/world"
)

func init() { props["C20"] = c20 }

// oddCase is a case of Malformed
type oddCase struct {
	Part, Prot, What, Text, Place, Claim        string
	Header, At, Kind, Endpoint, Spec            string
	Service, Method, Path, Field, How, Policies string
	Has                                         []string
	Cred                                        bool
	Member                                      json.RawMessage
	Entry                                       struct{ Exact, Prefix string }
	Allow, After, Other                         []string
}

func (c oddCase) member() string {
	var s string
	_ = json.Unmarshal(c.Member, &s)
	return s
}

func (c oddCase) String() string {
	m := string(c.Member)
	if s := c.member(); s != "" {
		m = s
	}
	var l []string
	for _, s := range []string{c.Part, c.Kind, c.Endpoint, c.What, c.Claim, m, c.At, c.Place, c.Field, c.Service, c.Method, c.Path, c.Text, c.Spec, c.Header, c.How, c.Policies} {
		if s != "" {
			l = append(l, s)
		}
	}
	if c.Part == "structure" {
		l = append(l, fmt.Sprint(c.Has, c.Prot, c.Cred))
	}
	if c.Part == "policy" {
		l = append(l, fmt.Sprintf("exact %q prefix %q", c.Entry.Exact, c.Entry.Prefix))
	}
	return strings.Join(l, " ")
}

func nested(open, inner, end string, n int) string {
	return strings.Repeat(open, n) + inner + strings.Repeat(end, n)
}

var oddText = map[string]string{
	"@NUL@": "\x00", "@UTF8@": "\xff\xfe\xc3(", "@CRLF@": "\r\n", "@BOM@": "\xef\xbb\xbf", "@LONG@": strings.Repeat("A", 100000), "@MB@": strings.Repeat("m", 1<<20),
	"@LONGPATH@": strings.Repeat("p", 50000), "@SLASHES@": strings.Repeat("/", 5000),
	"@DEEP@": nested("[", "", "]", 20000), "@DEEPOBJ@": nested(`{"a":`, "1", "}", 9000), "@LONGOBJ@": "{" + strings.Repeat(`"a":1,`, 20000) + `"b":2}`,
	"@MANY@": strings.Repeat(`{"kty":"RSA","kid":"many","n":"AQAB","e":"AQAB"},`, 3000) + `{"kty":"x"}`,
}

// odd puts the text for the names
func odd(s string, more map[string]string) string {
	if !strings.Contains(s, "@") {
		return s
	}
	for k, v := range more {
		s = strings.Replace(s, k, v, -1)
	}
	for k, v := range oddText {
		s = strings.Replace(s, k, v, -1)
	}
	return s
}

// oddConfig is odd for what the API server hands out: it is always JSON
func oddConfig(s string, more map[string]string) string {
	s = strings.Replace(s, "@UTF8@", `\u00ff\u2028\ufffd`, -1)
	s = strings.Replace(s, "@NUL@", `\u0000`, -1)
	return odd(s, more)
}

// oddWorld is what the cases share
type oddWorld struct {
	w      *world.World
	t      *world.Tenant
	client string
	web    Req
	api    Req
	rnd    *rand.Rand
	mu     sync.Mutex
	name   string // of the client's cookie
	state  string // value of a genuine state cookie
	stop   bool
	late   struct { // sessions whose tokens expire at a fixed time
		at   time.Time
		jobs []func()
		n    int
		wg   sync.WaitGroup
	}
}

const c20NS = "c20"

// dead tells whether the adapter no longer answers, and reports it
func (o *oddWorld) dead(c oddCase, r world.Resp) bool {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.stop {
		return true
	}
	if r.Kind != "ERR" || !(strings.Contains(r.Err, "Unavailable") || strings.Contains(r.Err, "DeadlineExceeded") || strings.Contains(r.Err, "Canceled")) {
		return false
	}
	for n := 0; n < 40; n++ {
		if rep.crash(o.w.A, c) {
			o.stop = true
			return true
		}
		time.Sleep(50 * time.Millisecond)
	}
	rep.viol("no answer: "+c.Part, c, "an answer", r.String())
	return true
}

func (o *oddWorld) stopped() bool {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.stop
}

// outcome classifies an answer
func outcome(r world.Resp, t *world.Tenant) string {
	c := r.SetCookie()
	switch {
	case r.Kind == "OK":
		return "ok"
	case r.IsLogin(t):
		return "login"
	case r.Kind == "REDIRECT" && c != nil && c.Value == "deleted":
		return "page"
	case r.Kind == "REDIRECT" && c != nil && r.LocationURL().Host == "app.example.com":
		return "done"
	case r.Kind == "REDIRECT" && c != nil && r.Location != "":
		return "there"
	case r.Location != "" || r.Header("Set-Cookie") != "":
		return "?"
	case r.Kind == "ERR":
		return "error"
	case r.Kind == "DENY":
		return "reject"
	}
	return "?"
}

// expect compares an answer with what is allowed. It is false if the case is over.
func (o *oddWorld) expect(c oddCase, what string, r world.Resp, t *world.Tenant, allow []string) bool {
	if o.dead(c, r) {
		return false
	}
	rep.ok(1)
	if got := outcome(r, t); !has(allow, got) {
		rep.viol(short(what+c.String(), 300), c, fmt.Sprint(allow), short(r.String(), 1000)+" ("+got+")")
		return false
	}
	return true
}

// eventually is expect for what may take a moment
func (o *oddWorld) eventually(c oddCase, what string, t *world.Tenant, allow []string, f func() world.Resp) bool {
	var r world.Resp
	for n := 0; n < 60; n++ {
		if r = f(); o.dead(c, r) {
			return false
		}
		if has(allow, outcome(r, t)) {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	return o.expect(c, what, r, t, allow)
}

func c20() {
	w := newWorld()
	defer w.Close()
	o := &oddWorld{w: w, t: w.IdP.Tenant("c20"), client: "c20", rnd: rng}
	parts := map[string][]oddCase{}
	load("malformed.ndjson", func(raw []byte) {
		var c oddCase
		mustUnmarshal(raw, &c)
		parts[c.Part] = append(parts[c.Part], c)
	})
	o.t.SetKeys(world.PubKey("k", "c20"))
	w.Jwt(c20NS, "j", o.t.Jwks())
	w.Oidc(c20NS, "o", o.t, o.client, "s", nil)
	entry := func(kind, path, typ, cfg string, more Obj) Obj {
		return world.PathEntry(kind, path, "", typ, cfg, more)
	}
	svc := func(name string, e ...Obj) Obj {
		l := []interface{}{}
		for _, x := range e {
			l = append(l, x)
		}
		return Obj{"serviceName": name, "paths": l}
	}
	w.Apply("policies", c20NS, "p", Obj{"targets": []interface{}{
		svc("jwt", entry("prefix", "/", "jwt", "j", nil)), svc("oidc", entry("prefix", "/", "oidc", "o", nil)), svc("nowhere", entry("prefix", "/", "jwt", "nowhere", nil)),
		svc("rule", entry("prefix", "/", "jwt", "j", Obj{"rules": []interface{}{Obj{"claim": "role", "match": "ALL", "values": []string{"admin"}}}})),
		svc("root", entry("prefix", "/", "jwt", "j", nil)), svc("a", entry("prefix", "/a", "jwt", "j", nil)), svc("e", entry("exact", "/e", "jwt", "j", nil)),
		svc("roota", entry("prefix", "/", "jwt", "j", nil), entry("prefix", "/a", "jwt", "j", nil)),
	}})
	// resources of the cases which have their own
	for _, p := range []string{"doc", "key", "body", "wire", "config"} {
		for i, c := range parts[p] {
			typ := "oidc"
			if p == "key" || p == "body" || c.Kind == "api" || c.Kind == "jwt" {
				typ = "jwt"
			}
			name := fmt.Sprintf("%s%d", p, i)
			w.Apply("policies", c20NS, name, world.Paths(name, entry("prefix", "/", typ, name, nil)))
		}
	}
	if !w.Barrier(60 * time.Second) {
		rep.count("barrier timeout")
	}
	o.api = Req{NS: c20NS, Svc: "jwt", Path: "/x", Method: "GET"}
	o.web = Req{NS: c20NS, Svc: "oidc", Path: "/x", Method: "GET"}
	p, err := beginLogin(w, o.t, o.web)
	if err != nil {
		rep.fail("%v", err)
		return
	}
	o.name, o.state = strings.SplitN(p.cookie, "=", 2)[0], strings.SplitN(p.cookie, "=", 2)[1]
	end := o.others()
	o.late.at = time.Now().Add(20 * time.Second)
	timed := func(part string, f func()) {
		start := time.Now()
		f()
		rep.Extra["seconds "+part] = time.Since(start).Seconds()
	}
	run := func(part string, workers int, f func(i int, c oddCase)) {
		cases := parts[part]
		start := time.Now()
		world.Parallel(workers, len(cases), func(i int) {
			if o.stopped() || rep.nviol() > 40 {
				return
			}
			rep.behaviour()
			rep.count("malformed: " + part)
			f(i, cases[i])
		})
		rep.Extra["seconds "+part] = time.Since(start).Seconds()
	}
	o.prepare(parts)
	run("structure", 16, o.structure)
	run("token", 16, o.token)
	run("answer", 16, o.answer)
	run("cookie", 16, o.cookie)
	run("path", 16, o.path)
	run("field", 16, o.field)
	run("doc", 32, o.doc)
	run("key", 32, o.key)
	run("body", 32, o.body)
	run("wire", 64, o.wire)
	timed("policy", func() { o.policies(parts["policy"]) })
	timed("policytext", func() { o.policies(parts["policytext"]) })
	timed("config", func() { o.configs(parts["config"]) })
	run("bytes", 8, o.bytes)
	time.Sleep(time.Until(o.late.at.Add(1500 * time.Millisecond)))
	start := time.Now()
	world.Parallel(16, len(o.late.jobs), func(i int) {
		if !o.stopped() {
			o.late.jobs[i]()
		}
	})
	rep.Extra["seconds expired sessions"] = time.Since(start).Seconds()
	end()
	rep.crash(w.A, "malformed input")
}

// others keeps asking what must be answered as usual all the time
func (o *oddWorld) others() (end func()) {
	stop := make(chan struct{})
	var wg sync.WaitGroup
	set := mintSet("c20", "k", o.client, time.Hour)
	session, err := login(o.w, o.t, o.web, set)
	if err != nil {
		rep.fail("%v", err)
	}
	c := oddCase{Part: "others"}
	for _, q := range []Req{{NS: c20NS, Svc: "jwt", Path: "/x", Method: "GET", Authz: "Bearer " + set.Access}, {NS: c20NS, Svc: "oidc", Path: "/x", Method: "GET", Cookies: session}} {
		wg.Add(1)
		go func(q Req) {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(2 * time.Millisecond):
				}
				if !o.expect(c, q.Svc+" ", o.w.A.Do(q), o.t, []string{"ok"}) {
					return
				}
			}
		}(q)
	}
	return func() { close(stop); wg.Wait() }
}

func (o *oddWorld) structure(i int, c oddCase) {
	r := Req{NS: c20NS, Svc: map[string]string{"open": "open"}[c.Prot], Path: "/x", Method: "GET"}
	if r.Svc == "" {
		r.Svc = c.Prot
	}
	if c.Cred {
		set := mintSet("c20", "k", o.client, time.Hour)
		r.Authz = "Bearer " + set.Access
		if c.Prot == "oidc" {
			s, err := login(o.w, o.t, o.web, set)
			if err != nil {
				o.skip("%v", err)
				return
			}
			r.Authz, r.Cookies = "", s
		}
	}
	m := r.Msg()
	for _, p := range []string{"headers", "params", "target", "request", "instance"} {
		if has(c.Has, p) || m.Instance == nil {
			continue
		}
		switch p {
		case "headers":
			m.Instance.Request.Headers = nil
		case "params":
			m.Instance.Request.Params = nil
		case "target":
			m.Instance.Target = nil
		case "request":
			m.Instance.Request = nil
		case "instance":
			m.Instance = nil
		}
	}
	o.expect(c, "", o.w.A.DoMsg(m, 30*time.Second), o.t, c.Allow)
}

func (o *oddWorld) skip(format string, a ...interface{}) {
	rep.skip(short(fmt.Sprintf(format, a...), 100))
}

// object writes JSON members, leaving out the absent ones
func object(pairs ...string) string {
	var l []string
	for i := 0; i+1 < len(pairs); i += 2 {
		if pairs[i+1] != "absent" && pairs[i+1] != "" {
			l = append(l, `"`+pairs[i]+`":`+pairs[i+1])
		}
	}
	return "{" + strings.Join(l, ",") + "}"
}

func (o *oddWorld) build(c oddCase, expires time.Time) string {
	var m struct{ Alg, Kid, Typ string }
	_ = json.Unmarshal(c.Member, &m)
	text := odd(c.Text, nil)
	header := object("alg", odd(m.Alg, nil), "kid", odd(m.Kid, nil), "typ", odd(m.Typ, nil))
	claims := map[string]string{"sub": `"` + unique("u") + `"`, "iss": `"i"`, "aud": `"` + o.client + `"`, "exp": fmt.Sprint(expires.Unix()), "jti": `"` + unique("j") + `"`}
	if c.What == "claim" {
		claims[c.Claim] = text
	}
	var pairs []string
	for _, k := range []string{"exp", "nbf", "iat", "aud", "iss", "sub", "jti", "role"} {
		pairs = append(pairs, k, claims[k])
	}
	payload := object(pairs...)
	switch c.What {
	case "rawheader":
		header = text
	case "rawpayload":
		payload = text
	}
	tok := world.MintText(header, payload, "RS256", "c20")
	if c.What != "shape" {
		return tok
	}
	p := strings.Split(tok, ".")
	sig, _ := base64.RawURLEncoding.DecodeString(p[2])
	s1 := append([]byte{}, sig...)
	s1[len(s1)/2] ^= 1
	enc := base64.RawURLEncoding.EncodeToString
	return odd(c.Text, map[string]string{"@H@": p[0], "@P@": p[1], "@S@": p[2], "@S1@": enc(s1), "@ZEROS@": enc(make([]byte, len(sig))),
		"@ANOTHER@": strings.Split(mintUser("c20", "k", o.client, time.Hour), ".")[2], "@NOTP@": enc([]byte(strings.Replace(payload, `"sub":"u`, `"sub":"v`, 1)))})
}

// prepare begins the sessions whose tokens are to be refreshed
func (o *oddWorld) prepare(parts map[string][]oddCase) {
	n := 0
	keep := func(list []oddCase, wanted func(c oddCase) bool, limit int, f func(c oddCase, session, refresh string)) {
		var l []oddCase
		for _, c := range list {
			if wanted(c) {
				l = append(l, c)
			}
		}
		o.rnd.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
		if *tier == "quick" && len(l) > limit {
			l = l[:limit]
		}
		n += len(l)
		world.Parallel(16, len(l), func(i int) {
			set := mintSet("c20", "k", o.client, time.Hour)
			set.Access = mintUser("c20", "k", o.client, time.Until(o.late.at))
			set.Refresh = unique("refresh")
			s, err := login(o.w, o.t, o.web, set)
			if err != nil {
				o.skip("%v", err)
				return
			}
			o.mu.Lock()
			o.late.jobs = append(o.late.jobs, func() { f(l[i], s, set.Refresh) })
			o.mu.Unlock()
		})
	}
	keep(parts["token"], func(c oddCase) bool { return strings.HasPrefix(c.Place, "refresh") }, 500, func(c oddCase, session, refresh string) {
		set := mintSet("c20", "k", o.client, time.Hour)
		if c.Place == "refreshaccess" {
			set.Access = o.build(c, time.Now().Add(time.Hour))
		} else {
			set.ID = o.build(c, time.Now().Add(time.Hour))
		}
		o.t.Grant("refresh:"+refresh, set.reply())
		q := o.web
		q.Cookies = session
		o.expect(c, "", o.w.A.Do(q), o.t, c.Allow)
	})
	keep(parts["answer"], func(c oddCase) bool { return c.At == "refresh" }, 1000, func(c oddCase, session, refresh string) {
		o.t.Grant("refresh:"+refresh, o.answerOf(c))
		q := o.web
		q.Cookies = session
		o.expect(c, "", o.w.A.Do(q), o.t, c.Allow)
	})
}

func (o *oddWorld) token(i int, c oddCase) {
	if strings.HasPrefix(c.Place, "refresh") {
		return // see prepare
	}
	tok := o.build(c, time.Now().Add(time.Hour))
	q := o.api
	switch c.Place {
	case "rule":
		q.Svc = "rule"
		q.Authz = "Bearer " + tok
	case "api":
		q.Authz = "Bearer " + tok
	case "apiid":
		q.Authz = "Bearer " + mintUser("c20", "k", o.client, time.Hour) + " " + tok
	default:
		p, err := beginLogin(o.w, o.t, o.web)
		if err != nil {
			o.skip("%v", err)
			return
		}
		set := mintSet("c20", "k", o.client, time.Hour)
		if c.Place == "webaccess" {
			set.Access = tok
		} else {
			set.ID = tok
		}
		code := unique("code")
		o.t.Grant("code:"+code, set.reply())
		q = p.callback(code)
	}
	o.expect(c, "", o.w.A.Do(q), o.t, c.Allow)
	if i < 3 {
		rep.sample(c)
	}
}

// answerOf is the token endpoint's answer with one member replaced
func (o *oddWorld) answerOf(c oddCase) world.Reply {
	set := mintSet("c20", "k", o.client, time.Hour)
	m := map[string]string{"access_token": `"` + set.Access + `"`, "id_token": `"` + set.ID + `"`, "refresh_token": `"` + unique("refresh") + `"`, "expires_in": "3600", "token_type": `"Bearer"`, "scope": `"openid"`}
	m[c.member()] = odd(c.Text, nil)
	var pairs []string
	for k, v := range m {
		pairs = append(pairs, k, v)
	}
	return world.Reply{Body: object(pairs...)}
}

func (o *oddWorld) answer(i int, c oddCase) {
	if c.At == "refresh" {
		return // see prepare
	}
	p, err := beginLogin(o.w, o.t, o.web)
	if err != nil {
		o.skip("%v", err)
		return
	}
	code := unique("code")
	o.t.Grant("code:"+code, o.answerOf(c))
	o.expect(c, "", o.w.A.Do(p.callback(code)), o.t, c.Allow)
}

func (o *oddWorld) cookie(i int, c oddCase) {
	rnd := rand.New(rand.NewSource(*seed*20 + int64(i)))
	random := make([]byte, 1+rnd.Intn(300))
	rnd.Read(random)
	p, err := beginLogin(o.w, o.t, o.web)
	if err != nil {
		o.skip("%v", err)
		return
	}
	state := strings.SplitN(p.cookie, "=", 2)[1]
	flip := []byte(state)
	n := len(flip)/4 + rnd.Intn(len(flip)/2)
	if flip[n]++; flip[n] > 'z' {
		flip[n] = 'A'
	}
	header := odd(c.Header, map[string]string{"@NAME@": o.name, "@RANDOM@": string(random), "@B64@": base64.URLEncoding.EncodeToString(random), "@FLIP@": string(flip), "@CUT@": state[:len(state)-1-rnd.Intn(20)],
		"@HALF@": state[:len(state)/2], "@TWICE@": state + state, "@OTHERNAME@": "x" + state[1:]})
	q := o.web
	switch c.At {
	case "callback":
		code := unique("code")
		o.t.Grant("code:"+code, mintSet("c20", "k", o.client, time.Hour).reply())
		q = p.callback(code)
	case "logout":
		q.Path += "/oidc/logout"
	}
	q.Cookies = header
	o.expect(c, "", o.w.A.Do(q), o.t, c.Allow)
}

func (o *oddWorld) path(i int, c oddCase) {
	o.expect(c, "", o.w.A.Do(Req{NS: c20NS, Svc: c.Service, Path: odd(c.Path, nil), Method: odd(c.Method, nil)}), o.t, c.Allow)
}

func (o *oddWorld) field(i int, c oddCase) {
	p, err := beginLogin(o.w, o.t, o.web)
	if err != nil {
		o.skip("%v", err)
		return
	}
	code := unique("code")
	o.t.Grant("code:"+code, mintSet("c20", "k", o.client, time.Hour).reply())
	q, text := p.callback(code), odd(c.Text, nil)
	switch c.Field {
	case "code":
		q.Code = text
	case "state":
		q.State = text
	case "error":
		q.Error, q.Code = text, ""
	}
	m := q.Msg()
	switch c.Field {
	case "scheme":
		m = o.web.Msg()
		m.Instance.Request.Scheme = text
	case "host":
		m = o.web.Msg()
		m.Instance.Request.Host = text
	}
	o.expect(c, "", o.w.A.DoMsg(m, 30*time.Second), o.t, c.Allow)
}

// own is the request for what a case has of its own
func own(part string, i int) (string, Req) {
	name := fmt.Sprintf("%s%d", part, i)
	return name, Req{NS: c20NS, Svc: name, Path: "/x", Method: "GET"}
}

func (o *oddWorld) doc(i int, c oddCase) {
	name, q := own("doc", i)
	t := o.w.IdP.Tenant("c20-" + name)
	t.SetKeys(world.PubKey("k", "c20"))
	m := map[string]string{"issuer": t.Base, "authorization_endpoint": t.Authorize(), "token_endpoint": t.Base + "/token", "jwks_uri": t.Jwks(), "userinfo_endpoint": t.Base + "/userinfo"}
	for k, v := range m {
		m[k] = `"` + v + `"`
	}
	m[c.member()] = odd(c.Text, nil)
	var pairs []string
	for k, v := range m {
		pairs = append(pairs, k, v)
	}
	t.Fault("discovery", &world.Reply{Body: object(pairs...)})
	o.w.Oidc(c20NS, name, t, name, "s", nil)
	var r world.Resp
	if !o.eventually(c, "", t, append([]string{"known"}, c.Allow...), func() world.Resp {
		r = o.w.A.Do(q)
		if strings.Contains(r.Err, "missing OIDC client") { // not yet known
			return world.Resp{Kind: "?"}
		}
		return r
	}) {
		return
	}
	then := func(what, access string, allow []string) bool {
		r := o.w.A.Do(q)
		ck := r.SetCookie()
		if r.Kind != "REDIRECT" || ck == nil {
			return true
		}
		code, set := unique("code"), mintSet("c20", "k", name, time.Hour)
		if access != "" {
			set.Access = access
			t.UserInfo(access, world.Reply{Body: `{"sub":"u"}`})
		}
		t.Grant("code:"+code, set.reply())
		back := q
		back.Path += "/oidc/callback"
		back.Cookies, back.Code, back.State = ck.Name+"="+ck.Value, code, r.LocationURL().Query().Get("state")
		return o.expect(c, what, o.w.A.Do(back), t, allow)
	}
	if then("then ", "", c.After) {
		then("then, opaque ", opaqueToken("plain"), c.Other)
	}
}

// forged are tokens naming the kid, which nobody signed
func forged(kid string, n []byte) []string {
	enc := base64.RawURLEncoding.EncodeToString
	segments := func(alg string) string {
		h, _ := json.Marshal(Obj{"alg": alg, "kid": kid, "typ": "JWT"})
		p, _ := json.Marshal(Obj{"sub": "forged", "exp": time.Now().Add(time.Hour).Unix()})
		return enc(h) + "." + enc(p)
	}
	in := segments("RS256")
	sum := sha256.Sum256([]byte(in))
	size := (new(big.Int).SetBytes(n).BitLen() + 7) / 8
	prefix := []byte{0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20}
	var list []string
	add := func(sig []byte) { list = append(list, in+"."+enc(sig)) }
	if pad := size - 3 - len(prefix) - len(sum); pad >= 8 { // the padded digest itself: a signature if the exponent is 1
		em := append([]byte{0, 1}, []byte(strings.Repeat("\xff", pad))...)
		em = append(append(append(em, 0), prefix...), sum[:]...)
		add(em)
		add(em[1:])
	}
	add(make([]byte, size))
	add(append(make([]byte, size), 1))
	add(nil)
	add(sum[:])
	one := make([]byte, size+1)
	one[size] = 1
	add(one[1:])
	for _, a := range []string{"none", "None", "HS256"} {
		list = append(list, segments(a)+".", segments(a)+".AAAA")
	}
	return list
}

func (o *oddWorld) key(i int, c oddCase) {
	name, q := own("key", i)
	t := o.w.IdP.Tenant("c20-" + name)
	pub := &world.RSA("c20-odd").PublicKey
	enc := base64.RawURLEncoding.EncodeToString
	n := pub.N.Bytes()
	e := make([]byte, 4)
	binary.BigEndian.PutUint32(e, uint32(pub.E))
	m := map[string]string{"kty": "RSA", "alg": "RS256", "use": "sig", "kid": "odd", "n": enc(n), "e": enc(big.NewInt(int64(pub.E)).Bytes())}
	for k, v := range m {
		m[k] = `"` + v + `"`
	}
	text := odd(c.Text, map[string]string{"@EVEN@": enc(new(big.Int).Sub(pub.N, big.NewInt(1)).Bytes()), "@HALFN@": enc(n[:len(n)/2]), "@NN@": enc(new(big.Int).Mul(pub.N, pub.N).Bytes()),
		"@0N@": enc(append([]byte{0, 0}, n...)), "@STDN@": base64.StdEncoding.EncodeToString(n)})
	m[c.member()] = text
	var pairs []string
	for k, v := range m {
		pairs = append(pairs, k, v)
	}
	good := world.JwksBody(world.PubKey("k", "c20"))
	keys := []string{object(pairs...), good[len(`{"keys":[`) : len(good)-2]}
	if i%2 == 0 {
		keys[0], keys[1] = keys[1], keys[0]
	}
	t.Fault("jwks", &world.Reply{Body: `{"keys":[` + strings.Join(keys, ",") + `]}`})
	o.w.Jwt(c20NS, name, t.Jwks())
	if !o.known(q) {
		return
	}
	with := func(tok string) world.Resp {
		q.Authz = "Bearer " + tok
		return o.w.A.Do(q)
	}
	genuine := func() string { return mintUser("c20-odd", "odd", "x", time.Hour) }
	if !o.expect(c, "", with(genuine()), t, c.Allow) || !o.expect(c, "another key beside ", with(mintUser("c20", "k", "x", time.Hour)), t, c.Other) {
		return
	}
	modulus := n
	if c.member() == "n" {
		var s string
		if json.Unmarshal([]byte(text), &s) == nil {
			if b, err := base64.RawURLEncoding.DecodeString(s); err == nil {
				modulus = b
			}
		}
	}
	for _, f := range forged("odd", modulus) {
		if !o.expect(c, "forged for ", with(f), t, []string{"reject", "error"}) {
			return
		}
	}
	t.Fault("jwks", nil)
	t.SetKeys(world.PubKey("k", "c20"), world.PubKey("odd", "c20-odd"))
	o.eventually(c, "put right: ", t, []string{"ok"}, func() world.Resp {
		with(mintUser("c20", unique("new"), "x", time.Hour)) // have the keys fetched
		return with(genuine())
	})
}

// known waits until the configuration that decides the request is known
func (o *oddWorld) known(q Req) bool {
	for n := 0; n < 400; n++ {
		r := o.w.A.Do(q)
		if r.Kind == "DENY" {
			return true
		}
		if o.dead(oddCase{Part: "known"}, r) {
			return false
		}
		time.Sleep(25 * time.Millisecond)
	}
	o.skip("configuration not taken in")
	return false
}

func (o *oddWorld) body(i int, c oddCase) {
	name, q := own("body", i)
	t := o.w.IdP.Tenant("c20-" + name)
	good := world.JwksBody(world.PubKey("k", "c20"))
	t.Fault("jwks", &world.Reply{Body: odd(c.Text, map[string]string{"@K@": good[len(`{"keys":[`) : len(good)-2]})})
	o.w.Jwt(c20NS, name, t.Jwks())
	if !o.known(q) {
		return
	}
	q.Authz = "Bearer " + mintUser("c20", "k", "x", time.Hour)
	if !o.expect(c, "", o.w.A.Do(q), t, c.Allow) {
		return
	}
	t.Fault("jwks", nil)
	t.SetKeys(world.PubKey("k", "c20"))
	o.eventually(c, "put right: ", t, []string{"ok"}, func() world.Resp { return o.w.A.Do(q) })
}

func (o *oddWorld) wire(i int, c oddCase) {
	name, q := own("wire", i)
	t := o.w.IdP.Tenant("c20-" + name)
	t.SetKeys(world.PubKey("k", "c20"))
	raw := odd(c.Text, map[string]string{"@SELF@": t.Base + "/" + map[string]string{"discovery": ".well-known/openid-configuration"}[c.Endpoint]})
	if c.Endpoint != "discovery" {
		raw = odd(c.Text, map[string]string{"@SELF@": t.Base + "/" + c.Endpoint})
	}
	fault := &world.Reply{Raw: &raw}
	early := c.Endpoint == "jwks" || c.Endpoint == "discovery"
	if early {
		t.Fault(c.Endpoint, fault)
	}
	if c.Kind == "api" {
		o.w.Jwt(c20NS, name, t.Jwks())
		if !o.known(q) {
			return
		}
	} else {
		o.w.Oidc(c20NS, name, t, name, "s", nil)
		ok := false
		for n := 0; n < 400 && !ok; n++ {
			r := o.w.A.Do(q)
			if o.dead(c, r) {
				return
			}
			ok = r.IsLogin(t) || (c.Endpoint == "discovery" && r.Kind != "OK" && !strings.Contains(r.Err, "missing OIDC client"))
			if !ok {
				time.Sleep(25 * time.Millisecond)
			}
		}
		if !ok {
			o.skip("configuration not taken in")
			return
		}
	}
	set := mintSet("c20", "k", name, time.Hour)
	set.Refresh = unique("refresh")
	if strings.HasSuffix(c.Kind, "opaque") {
		set.Access = opaqueToken("plain")
		t.UserInfo(set.Access, world.Reply{Body: `{"sub":"u"}`})
	}
	if c.Kind == "refresh" {
		set.Access = mintUser("c20", "k", name, 4*time.Second)
	}
	expired := time.Now().Add(5 * time.Second)
	t.Grant("refresh:"+set.Refresh, mintSet("c20", "k", name, time.Hour).reply())
	do := func() (world.Resp, error) {
		switch {
		case strings.HasPrefix(c.Kind, "callback"):
			p, err := beginLogin(o.w, t, q)
			if err != nil {
				return world.Resp{}, err
			}
			code := unique("code")
			t.Grant("code:"+code, set.reply())
			return o.w.A.Do(p.callback(code)), nil
		}
		return o.w.A.Do(q), nil
	}
	if c.Kind == "api" {
		q.Authz = "Bearer " + set.Access
	}
	if c.Kind == "refresh" || c.Kind == "sessionopaque" {
		s, err := login(o.w, t, q, set)
		if err != nil {
			o.skip("%v", err)
			return
		}
		q.Cookies = s
	}
	if c.Kind == "refresh" {
		time.Sleep(time.Until(expired))
	}
	if !early {
		t.Fault(c.Endpoint, fault)
	}
	// several at once wait for the same answer
	n := 3
	if c.Kind == "refresh" || c.Kind == "sessionopaque" {
		n = 1
	}
	fine := make([]bool, n)
	world.Parallel(n, n, func(k int) {
		r, err := do()
		if err != nil {
			o.skip("%v", err)
			return
		}
		fine[k] = o.expect(c, "", r, t, c.Allow)
	})
	for _, f := range fine {
		if !f {
			return
		}
	}
	t.Fault(c.Endpoint, nil)
	o.eventually(c, "put right: ", t, c.After, func() world.Resp {
		r, err := do()
		if err != nil {
			return world.Resp{Kind: "?", Err: err.Error()}
		}
		return r
	})
}

// afterwards waits until the adapter has taken in the configurations of a case
func (o *oddWorld) settled(c oddCase) bool {
	for n := 0; n < 3; n++ {
		if o.w.Barrier(20 * time.Second) {
			return true
		}
		if o.dead(c, o.w.A.Do(o.api)) {
			return false
		}
	}
	rep.viol("configurations no longer taken in", c, "changes are taken in", "none within a minute")
	return false
}

func (o *oddWorld) policySpec(c oddCase, svc string) interface{} {
	vars := map[string]string{"@SVC@": svc, "@CFG@": "j", "@POLICY@": `[{"policyType":"jwt","config":"j"}]`}
	if c.Part == "policytext" {
		return json.RawMessage(`{"targets":[{"serviceName":"` + svc + `","paths":[{"prefix":"/","policies":[` + oddConfig(c.Text, vars) + `]}]}]}`)
	}
	if c.Spec == "absent" {
		return world.NoSpec
	}
	if c.Spec != "" {
		return json.RawMessage(oddConfig(c.Spec, vars))
	}
	text := func(s string) string {
		if s == "absent" || s == "" {
			return map[string]string{"absent": "absent", "": `""`}[s]
		}
		return `"` + oddConfig(s, nil) + `"`
	}
	return json.RawMessage(`{"targets":[{"serviceName":"` + svc + `","paths":[` + object("exact", text(c.Entry.Exact), "prefix", text(c.Entry.Prefix), "policies", oddConfig(c.Policies, vars)) + `]}]}`)
}

// batches puts the configurations of the cases in place, checks what comes of
// them, then puts the right ones in place, and checks those
func (o *oddWorld) batches(cases []oddCase, put func(i int, c oddCase), check func(i int, c oddCase) bool, right func(i int, c oddCase), after func(i int, c oddCase)) {
	const size = 64
	for from := 0; from < len(cases) && !o.stopped() && rep.nviol() < 40; from += size {
		to := from + size
		if to > len(cases) {
			to = len(cases)
		}
		fine := make([]bool, to-from)
		each := func(f func(i int, c oddCase)) { world.Parallel(16, to-from, func(k int) { f(from+k, cases[from+k]) }) }
		each(put)
		c := oddCase{Part: cases[from].Part, Text: fmt.Sprintf("cases %d to %d", from, to-1)}
		if !o.settled(c) {
			return
		}
		each(func(i int, c oddCase) {
			rep.behaviour()
			rep.count("malformed: " + c.Part)
			fine[i-from] = check(i, c)
		})
		each(right)
		if !o.settled(c) {
			return
		}
		each(func(i int, c oddCase) {
			if fine[i-from] {
				after(i, c)
			}
		})
	}
}

func (o *oddWorld) policies(cases []oddCase) {
	o.batches(cases, func(i int, c oddCase) {
		name, _ := own(c.Part, i)
		o.w.Apply("policies", c20NS, name, o.policySpec(c, name))
	}, func(i int, c oddCase) bool {
		_, q := own(c.Part, i)
		return o.expect(c, "", o.w.A.Do(q), o.t, c.Allow)
	}, func(i int, c oddCase) {
		name, _ := own(c.Part, i)
		o.w.Apply("policies", c20NS, name, world.Paths(name, world.PathEntry("exact", "/x", "", "jwt", "j", nil)))
	}, func(i int, c oddCase) {
		_, q := own(c.Part, i)
		if o.expect(c, "put right: ", o.w.A.Do(q), o.t, []string{"reject"}) {
			q.Authz = "Bearer " + mintUser("c20", "k", "x", time.Hour)
			o.expect(c, "put right, with a token: ", o.w.A.Do(q), o.t, []string{"ok"})
		}
	})
}

func (o *oddWorld) configs(cases []oddCase) {
	tenant := func(i int) *world.Tenant { return o.w.IdP.Tenant(fmt.Sprintf("c20-config%d", i)) }
	req := func(i int, c oddCase) Req {
		_, q := own("config", i)
		if c.Kind == "jwt" {
			q.Authz = "Bearer " + mintUser("c20", "k", "x", time.Hour)
		}
		return q
	}
	o.batches(cases, func(i int, c oddCase) {
		t := tenant(i)
		t.SetKeys(world.PubKey("k", "c20"))
		name, _ := own("config", i)
		var spec interface{} = world.NoSpec
		if c.Text != "absent" {
			spec = json.RawMessage(oddConfig(c.Text, map[string]string{"@URL@": t.Discovery()}))
		}
		o.w.Apply(map[string]string{"jwt": "jwtconfigs", "oidc": "oidcconfigs"}[c.Kind], c20NS, name, spec)
	}, func(i int, c oddCase) bool {
		return o.expect(c, "", o.w.A.Do(req(i, c)), tenant(i), c.Allow)
	}, func(i int, c oddCase) {
		t := tenant(i)
		name, _ := own("config", i)
		if c.Kind == "jwt" {
			o.w.Jwt(c20NS, name, t.Jwks())
		} else {
			o.w.Oidc(c20NS, name, t, name, "s", nil)
		}
	}, func(i int, c oddCase) {
		want := map[string]string{"jwt": "ok", "oidc": "login"}[c.Kind]
		o.eventually(c, "put right: ", tenant(i), []string{want}, func() world.Resp { return o.w.A.Do(req(i, c)) })
	})
}

// rawCodec sends bytes as they are
type rawCodec struct{}

func (rawCodec) Marshal(v interface{}) ([]byte, error) {
	if b, ok := v.(*[]byte); ok {
		return *b, nil
	}
	return proto.Marshal(v.(proto.Message))
}
func (rawCodec) Unmarshal(data []byte, v interface{}) error {
	return proto.Unmarshal(data, v.(proto.Message))
}
func (rawCodec) String() string { return "proto" }
func (rawCodec) Name() string   { return "proto" }

func (o *oddWorld) bytes(i int, c oddCase) {
	rnd := rand.New(rand.NewSource(*seed*200 + int64(i)))
	n := 400
	if *tier != "quick" {
		n = 20000
	}
	for k := 0; k < n && !o.stopped(); k++ {
		q := o.api
		q.Path = "/" + unique("p")
		if rnd.Intn(2) == 0 {
			q.Svc = "oidc"
		}
		b, err := proto.Marshal(q.Msg())
		if err != nil {
			rep.fail("%v", err)
			return
		}
		at := func() int { return rnd.Intn(len(b)) }
		noise := func(max int) []byte {
			x := make([]byte, 1+rnd.Intn(max))
			rnd.Read(x)
			return x
		}
		switch c.How {
		case "random":
			b = noise(300)
		case "flip":
			for f := 0; f < 1+rnd.Intn(4); f++ {
				b[at()] ^= 1 << uint(rnd.Intn(8))
			}
		case "cut":
			b = b[:at()]
		case "append":
			b = append(b, noise(40)...)
		case "unknown": // fields nobody knows
			for f := 0; f < 1+rnd.Intn(5); f++ {
				field := 100 + rnd.Intn(1000)
				switch rnd.Intn(3) {
				case 0:
					b = append(append(b, proto.EncodeVarint(uint64(field<<3))...), proto.EncodeVarint(rnd.Uint64())...)
				case 1:
					x := noise(50)
					b = append(append(append(b, proto.EncodeVarint(uint64(field<<3|2))...), proto.EncodeVarint(uint64(len(x)))...), x...)
				default:
					b = append(append(b, proto.EncodeVarint(uint64(field<<3|1))...), make([]byte, 8)...)
				}
			}
		case "repeat":
			b = append(b, b...)
		case "swap":
			x, y := at(), at()
			b[x], b[y] = b[y], b[x]
		case "length":
			b[at()] = byte(0x80 | rnd.Intn(128))
		case "zero":
			for x, y := at(), 1+rnd.Intn(8); y > 0 && x < len(b); x, y = x+1, y-1 {
				b[x] = 0
			}
		}
		want := &authnz.HandleAuthnZRequest{}
		allow := []string{"reject", "error", "login", "ok", "done", "page"}
		if err := proto.Unmarshal(b, want); err == nil {
			if want.Instance == nil || want.Instance.Target == nil {
				allow = []string{"error"}
			} else if t := want.Instance.Target; t.Namespace == q.NS && (t.Service == "jwt" || t.Service == "oidc") && !strings.Contains(t.Path, "/oidc/") {
				allow = []string{"reject", "error", "login"}
			}
		}
		r := o.raw(b)
		if got := outcome(r, o.t); o.dead(c, r) {
			return
		} else if !has(allow, got) {
			rep.viol("bytes: "+c.How, Obj{"how": c.How, "bytes": base64.StdEncoding.EncodeToString(b)}, fmt.Sprint(allow), r.String())
			return
		}
		rep.ok(1)
	}
}

func (o *oddWorld) raw(b []byte) world.Resp {
	return o.w.A.DoWith(30*time.Second, func(ctx context.Context, conn *grpc.ClientConn) (*authnz.HandleAuthnZResponse, error) {
		out := &authnz.HandleAuthnZResponse{}
		err := conn.Invoke(ctx, "/authnz.HandleAuthnZService/HandleAuthnZ", &b, out, grpc.ForceCodec(rawCodec{}))
		return out, err
	})
}
