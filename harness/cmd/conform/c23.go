package main

import (
	crand "crypto/rand"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"

	"verif/harness/world"
)

func init() { props["C23"] = c23 }

type disclosureCase struct {
	Kind, Fault string
	Meant       [][2]string
}

// credential is a value not everybody may see
type credential struct{ class, owner, value string }

// ledger keeps the credentials, and what came where
type ledger struct {
	mu      sync.Mutex
	creds   []credential
	seen    map[string]bool
	answers map[string]map[string][]string // owner -> sink -> texts
}

func (l *ledger) add(class, owner, value string) string {
	l.mu.Lock()
	defer l.mu.Unlock()
	k := class + "|" + owner + "|" + value
	if !l.seen[k] && len(value) >= 12 {
		l.seen[k] = true
		l.creds = append(l.creds, credential{class, owner, value})
	}
	return value
}

// answer sorts what an answer to a request to the owner's service tells
func (l *ledger) answer(owner string, r world.Resp) world.Resp {
	rest := []string{r.Location, r.Body, r.Msg, r.Err}
	cookies := []string{r.Cookie}
	for k, v := range r.Headers {
		if strings.EqualFold(k, "Set-Cookie") {
			cookies = append(cookies, v)
		} else {
			rest = append(rest, k+": "+v)
		}
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	m := l.answers[owner]
	if m == nil {
		m = map[string][]string{}
		l.answers[owner] = m
	}
	m["service"] = append(m["service"], r.Authz)
	m["cookie"] = append(m["cookie"], cookies...)
	m["answer"] = append(m["answer"], rest...)
	return r
}

// spellings are the ways in which a value may be written
func (c credential) spellings() []string {
	v := c.value
	out := []string{v}
	b := []byte(v)
	alt := []string{url.QueryEscape(v), url.PathEscape(v), hex.EncodeToString(b), base64.StdEncoding.EncodeToString(b), base64.RawURLEncoding.EncodeToString(b), strings.Trim(fmt.Sprintf("%q", v), `"`)}
	if c.class == "secret" {
		alt = append(alt, base64.StdEncoding.EncodeToString([]byte(c.owner+":"+v)))
	}
	if c.class == "key" {
		alt = append(alt, strings.Trim(fmt.Sprint(b), "[]"), strings.Trim(fmt.Sprintf("%x", b), " "), strings.TrimSuffix(strings.TrimPrefix(fmt.Sprintf("%#v", b), "[]byte{"), "}"))
	}
	if p := strings.Split(v, "."); len(p) == 3 && len(p[2]) > 40 {
		alt = append(alt, p[2]) // whoever has the signature has been shown the rest
	}
	for _, a := range alt {
		if !has(out, a) {
			out = append(out, a)
		}
	}
	return out
}

// credit makes a value that occurs nowhere else
func credit(kind string) string {
	b := make([]byte, 20)
	_, _ = crand.Read(b)
	return kind + "-" + hex.EncodeToString(b)
}

func find(text string, spellings []string) int {
	for _, s := range spellings {
		if i := strings.Index(text, s); i >= 0 {
			return i
		}
	}
	return -1
}

const (
	c23NS   = "c23"
	c23Keys = "appidentityandaccessadapter-cookie-sig-enc-keys"
)

// c23 runs the delivered program through everything that can go wrong, and then looks where
// the credentials it was given have gone
func c23() {
	may := map[string][]string{}
	load("may.ndjson", func(raw []byte) {
		var m struct {
			Class string
			May   []string
		}
		mustUnmarshal(raw, &m)
		may[m.Class] = m.May
	})
	var cases []disclosureCase
	load("cases.ndjson", func(raw []byte) {
		var c disclosureCase
		mustUnmarshal(raw, &c)
		if c.Kind != "bootstrap" {
			cases = append(cases, c)
		}
	})
	rounds := 4
	if *tier != "quick" {
		rounds = 16
	}
	p := world.NewIdP()
	p.KeepRaw = true
	defer p.Close()
	l := &ledger{seen: map[string]bool{}, answers: map[string]map[string][]string{}}
	logs, kube := "", ""
	done := map[string]int{}
	var mu sync.Mutex
	exercised := map[string]bool{}
	orders := make([][]disclosureCase, rounds)
	for i := range orders {
		orders[i] = append([]disclosureCase{}, cases...)
		rng.Shuffle(len(cases), func(a, b int) { orders[i][a], orders[i][b] = orders[i][b], orders[i][a] })
	}
	world.Parallel(4, rounds, func(round int) {
		k := world.NewKube()
		defer k.Close()
		var faults int
		var fmu sync.Mutex
		k.SecretFault = func(ns, name string) int { // the API server is not well while the program starts
			fmu.Lock()
			defer fmu.Unlock()
			if name == "fails" {
				return 500
			}
			if ns == "istio-system" {
				faults++
				if f := []int{0, 0, 3, 5}[round%4]; faults <= f {
					return []int{500, -1, 403}[faults%3]
				}
			}
			return 0
		}
		posts := 0
		k.SecretHook = func(tag, method, name string) (int, bool) {
			fmu.Lock()
			defer fmu.Unlock()
			if method == "POST" && round%4 >= 2 {
				if posts++; posts <= 3 {
					return []int{500, -1, 403}[posts%3], round%4 == 2 // done all the same, or not
				}
			}
			return 0, false
		}
		if round%4 == 1 {
			data := map[string][]byte{}
			for n, size := range map[string]int{"HASH_KEY": 32, "BLOCK_KEY": 16} {
				data[n] = make([]byte, size)
				_, _ = crand.Read(data[n])
			}
			k.SetSecret("istio-system", c23Keys, data)
		}
		a, path, err := world.StartProgram(k, *scratch, *program, 60*time.Second, [][]string{nil, {"--json"}}[round%2]...)
		if err != nil {
			rep.fail("cannot start the program: %v", err)
			return
		}
		w := &world.World{Kube: k, IdP: p, A: a, Scratch: *scratch}
		if !w.WaitWatching(30*time.Second) || !w.Barrier(30*time.Second) {
			rep.count("barrier timeout")
		}
		runs := make([]*disclosureRun, len(cases))
		for i, c := range orders[round] {
			runs[i] = &disclosureRun{l: l, w: w, disclosureCase: c, id: fmt.Sprintf("client-%d-%d-", round, i), round: round, fails: round%4 == 3 && i%16 == 0}
			runs[i].prepare()
		}
		if !w.Barrier(60 * time.Second) {
			rep.count("barrier timeout")
		}
		world.Parallel(24, len(runs), func(i int) {
			r := runs[i]
			if err := r.run(); err != nil {
				rep.skip(short(r.Kind+" "+r.Fault+": "+err.Error(), 120))
				return
			}
			rep.behaviour()
			mu.Lock()
			done[r.Kind+" "+r.Fault]++
			mu.Unlock()
		})
		if rep.crash(a, "the program") {
			return
		}
		time.Sleep(300 * time.Millisecond)
		a.Kill()
		b, err := ioutil.ReadFile(path)
		if err != nil {
			rep.fail("%v", err)
			return
		}
		if s := w.Secret("istio-system", c23Keys); s != nil {
			if data, ok := s["data"].(map[string][]byte); ok {
				for _, v := range data {
					l.add("key", "", string(v))
				}
			}
		}
		mu.Lock()
		defer mu.Unlock()
		logs += string(b)
		for _, c := range k.Calls("/") {
			kube += c.Method + " " + c.Path + " " + c.Body + "\n"
		}
	})
	rep.countN("bytes of log", len(logs))
	if strings.Count(logs, "\n") < len(cases) {
		rep.count("the log is nearly empty")
	}
	// where did they go?
	type text struct{ sink, of, text string }
	var texts []text
	texts = append(texts, text{"log", "", logs})
	for owner, m := range l.answers {
		for sink, t := range m {
			texts = append(texts, text{sink, owner, strings.Join(t, "\n")})
		}
	}
	for _, t := range p.Tenants() {
		byEndpoint := map[string]string{}
		for _, h := range t.Hits("") {
			e := h.Endpoint
			if e == "hang" { // where the userinfo endpoint redirects to
				e = "userinfo"
			}
			byEndpoint[e] += h.Raw + "\n\n"
		}
		for e, s := range byEndpoint {
			texts = append(texts, text{e, t.Name, s})
		}
	}
	texts = append(texts, text{"kube", "", kube})
	byOwner := map[string][]text{}
	var common []text
	all := map[string]*strings.Builder{}
	for _, t := range texts {
		if t.of == "" {
			common = append(common, t)
			continue
		}
		byOwner[t.of] = append(byOwner[t.of], t)
		if all[t.sink] == nil {
			all[t.sink] = &strings.Builder{}
		}
		all[t.sink].WriteString("\n<" + t.of + ">\n" + t.text)
	}
	whole := map[string]string{}
	for s, b := range all {
		whole[s] = b.String()
	}
	world.Parallel(8, len(l.creds), func(i int) {
		c := l.creds[i]
		sp := c.spellings()
		bad := func(sink, of, text string, at int) {
			from, to := at-200, at+200
			if from < 0 {
				from = 0
			}
			if to > len(text) {
				to = len(text)
			}
			rep.viol(fmt.Sprintf("%s -> %s", c.class, sink), map[string]interface{}{"class": c.class, "owner": c.owner, "sink": sink, "of": of, "value": short(c.value, 200)},
				fmt.Sprintf("%s goes only to %v of its own client", c.class, may[c.class]), "found in: "+text[from:to])
		}
		for _, t := range common {
			at := find(t.text, sp)
			if at >= 0 && !has(may[c.class], t.sink) {
				bad(t.sink, "", t.text, at)
			} else if at >= 0 {
				rep.count("goes where it is meant to: " + c.class + " to " + t.sink)
			}
		}
		own := map[string]bool{}
		for _, t := range byOwner[c.owner] {
			at := find(t.text, sp)
			if at >= 0 && !has(may[c.class], t.sink) {
				bad(t.sink, t.of, t.text, at)
			} else if at >= 0 {
				own[t.sink] = true
				mu.Lock()
				exercised[c.owner+" "+c.class+" "+t.sink] = true
				mu.Unlock()
				rep.count("goes where it is meant to: " + c.class + " to " + t.sink)
			}
		}
		for sink, t := range whole {
			n := 0
			if own[sink] {
				n = len(sp) // found with its owner: look for it elsewhere, too
			}
			for rest, off := t, 0; ; {
				at := find(rest, sp)
				if at < 0 {
					break
				}
				of := ""
				if b := strings.LastIndex(t[:off+at], "\n<"); b >= 0 {
					of = t[b+2 : b+2+strings.Index(t[b+2:], ">")]
				}
				if of != c.owner {
					bad(sink, of, t, off+at)
					break
				}
				n++
				off += at + 1
				rest = t[off:]
			}
		}
		rep.ok(len(common) + len(whole))
	})
	// did everything happen that should?
	for key, n := range done {
		rep.countN("case "+strings.SplitN(key, " ", 2)[0], n)
	}
	for _, c := range cases {
		if done[c.Kind+" "+c.Fault] == 0 {
			rep.count("never run: " + c.Kind + " " + c.Fault)
			continue
		}
		for _, m := range c.Meant {
			found := false
			for round := 0; round < rounds && !found; round++ {
				for i := range cases {
					id := fmt.Sprintf("client-%d-%d-", round, i)
					l.mu.Lock()
					mine := l.seen["case|"+id+"|"+c.Kind+" "+c.Fault]
					l.mu.Unlock()
					if mine && exercised[id+" "+m[0]+" "+m[1]] {
						found = true
						break
					}
				}
			}
			if !found {
				rep.count(fmt.Sprintf("not seen in %s %s: %s to %s", c.Kind, c.Fault, m[0], m[1]))
			} else {
				rep.count("meant disclosures seen")
			}
		}
	}
}

// disclosureRun is one case, with a client, a provider and a service of its own
type disclosureRun struct {
	disclosureCase
	l     *ledger
	w     *world.World
	id    string
	round int
	t     *world.Tenant
	req   Req
	key   string
	fails bool
}

func (r *disclosureRun) do(q Req) world.Resp {
	return r.l.answer(r.id, r.w.A.Do(q))
}

// tokens makes a set of tokens for the client
func (r *disclosureRun) tokens(ttl time.Duration) tokenSet {
	s := mintSet(r.key, "k", r.id, ttl)
	s.Refresh = credit("refresh")
	return r.register(s)
}

func (r *disclosureRun) register(s tokenSet) tokenSet {
	r.l.add("access", r.id, s.Access)
	r.l.add("id", r.id, s.ID)
	r.l.add("refresh", r.id, s.Refresh)
	return s
}

func (r *disclosureRun) info(token string, fault string) {
	rep := world.Reply{Body: `{"sub":"u"}`}
	switch fault {
	case "opaque401":
		rep = world.Reply{Status: 401, Body: `{"error":"invalid_token"}`}
	case "opaque500":
		rep = world.Reply{Status: 500, Body: "<html>"}
	case "opaquedrop":
		rep = world.Reply{Drop: true}
	case "opaquehang":
		rep = world.Reply{How: "silent"}
	case "opaqueredirect":
		rep = world.Reply{How: "redirect"}
	case "opaqueelsewhere":
		rep = world.Reply{How: "elsewhere"}
	}
	r.t.UserInfo(token, rep)
}

// spoil makes tokens that suit the fault
func (r *disclosureRun) spoil(s tokenSet, fault string) tokenSet {
	switch {
	case fault == "expired":
		s.Access, s.ID = mintUser(r.key, "k", r.id, -time.Hour), mintUser(r.key, "k", r.id, -time.Hour)
	case fault == "badsig":
		s.Access, s.ID = mintUser("c23other", "k", r.id, time.Hour), mintUser("c23other", "k", r.id, time.Hour)
	case fault == "newkey":
		s.ID = mintUser(r.key, "new", r.id, time.Hour)
	case fault == "idgarbage":
		s.ID = credit("plain")
	case fault == "noid":
		s.ID = ""
	case strings.HasPrefix(fault, "opaque"):
		s.Access = credit("plain")
		r.info(s.Access, fault)
	}
	return r.register(s)
}

func (r *disclosureRun) tokenFault() {
	f := map[string]*world.Reply{
		"t400":       {Status: 400, Body: `{"error":"invalid_grant","error_description":"no"}`},
		"t401":       {Status: 401, Body: `{"error":"invalid_client"}`},
		"t500":       {Status: 500, Body: "<html>down</html>"},
		"tdrop":      {Drop: true},
		"tgarbage":   {Body: "not json"},
		"tempty":     {Body: "{}"},
		"thang":      {How: "silent"},
		"telsewhere": {How: "elsewhere"},
	}[r.Fault]
	if f != nil {
		r.t.Fault("token", f)
	}
}

func (r *disclosureRun) prepare() {
	r.key = "c23"
	r.t = r.w.IdP.Tenant(r.id)
	r.t.SetKeys(world.PubKey("k", r.key))
	r.w.IdP.Tenant("elsewhere-" + r.id).SetKeys()
	r.req = Req{NS: c23NS, Svc: "s-" + r.id, Path: "/x", Method: "GET"}
	r.l.mu.Lock()
	r.l.seen["case|"+r.id+"|"+r.Kind+" "+r.Fault] = true
	r.l.mu.Unlock()
	typ, cfg := "oidc", "o-"+r.id
	if r.Kind == "api" || (r.Kind == "malformed" && r.round%2 == 0) {
		typ, cfg = "jwt", "j-"+r.id
	}
	broken := map[string]*world.Reply{"500": {Status: 500, Body: "<html>"}, "drop": {Drop: true}, "garbage": {Body: "]["}}
	for s, f := range broken {
		if r.Fault == "jwks"+s {
			r.t.Fault("jwks", f)
		}
		if r.Fault == "discovery"+s {
			r.t.Fault("discovery", f)
		}
	}
	if r.Fault != "noconfig" {
		if typ == "jwt" {
			r.w.Jwt(c23NS, cfg, r.t.Jwks())
		} else {
			r.configure(cfg)
		}
	}
	var more Obj
	if r.Fault == "rules" && r.Kind != "refresh" || r.Fault == "opaquerules" {
		more = rulesOf()
	}
	r.policy(typ, cfg, more)
}

func rulesOf() Obj {
	return Obj{"rules": []interface{}{Obj{"claim": "scope", "match": "ALL", "source": "access_token", "values": []string{"admin"}}}}
}

func (r *disclosureRun) policy(typ, cfg string, more Obj) {
	r.w.Apply("policies", c23NS, "p-"+r.id, world.Paths(r.req.Svc, world.PathEntry("prefix", "/", "", typ, cfg, more)))
}

func (r *disclosureRun) configure(cfg string) {
	more := Obj{}
	if r.round%2 == 1 {
		more["authMethod"] = "client_secret_post"
	}
	switch r.round % 4 {
	case 1:
		v := r.l.add("secret", r.id, credit("referenced"))
		r.w.SetSecret(c23NS, "sec-"+r.id, map[string][]byte{"key": []byte(v)})
		more["clientSecretRef"] = Obj{"name": "sec-" + r.id, "key": "key"}
	case 2:
		more["clientSecretRef"] = Obj{"name": "nothing", "key": "key"}
	case 3:
		if r.fails {
			more["clientSecretRef"] = Obj{"name": "fails", "key": "key"}
		}
	}
	r.w.Oidc(c23NS, cfg, r.t, r.id, r.l.add("secret", r.id, credit("secret")), more)
}

// setCookie takes the cookie of an answer as name=value
func (r *disclosureRun) setCookie(class string, res world.Resp) (string, error) {
	c := res.SetCookie()
	if c == nil {
		c = world.ParseSetCookie(res.Cookie)
	}
	if c == nil {
		return "", fmt.Errorf("no cookie: %s", res)
	}
	r.l.add(class, r.id, c.Value)
	return c.Name + "=" + c.Value, nil
}

func (r *disclosureRun) begin() (*pendingLogin, error) {
	var res world.Resp
	for n := 0; n < 40; n++ {
		if res = r.do(r.req); res.IsLogin(r.t) {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	if !res.IsLogin(r.t) {
		return nil, fmt.Errorf("no login: %s", res)
	}
	c, err := r.setCookie("statecookie", res)
	if err != nil {
		return nil, err
	}
	return &pendingLogin{req: r.req, state: res.LocationURL().Query().Get("state"), cookie: c}, nil
}

func (r *disclosureRun) code() string { return r.l.add("code", r.id, credit("code")) }

func (r *disclosureRun) login(s tokenSet) (string, error) {
	p, err := r.begin()
	if err != nil {
		return "", err
	}
	code := r.code()
	r.t.Grant("code:"+code, s.reply())
	res := r.do(p.callback(code))
	if res.Kind != "REDIRECT" || res.SetCookie() == nil {
		return "", fmt.Errorf("no session: %s", res)
	}
	return r.setCookie("session", res)
}

// afterwards notes the cookie an answer sets, which may be of either kind
func (r *disclosureRun) afterwards(res world.Resp) {
	if c := res.SetCookie(); c != nil && res.IsLogin(r.t) {
		r.l.add("statecookie", r.id, c.Value)
	} else if c != nil && c.Value != "deleted" {
		r.l.add("session", r.id, c.Value)
	}
}

func (r *disclosureRun) run() error {
	switch r.Kind {
	case "api":
		return r.api()
	case "login":
		for n := 0; n < 3; n++ {
			r.afterwards(r.do(r.req))
		}
		return nil
	case "callback":
		return r.callback()
	case "session":
		return r.session()
	case "refresh":
		return r.refresh()
	case "logout":
		return r.logout()
	case "malformed":
		return r.malformed()
	}
	return fmt.Errorf("unknown kind")
}

func (r *disclosureRun) bearer(v string) string { return r.l.add("bearer", r.id, v) }

func (r *disclosureRun) api() error {
	good := func(more world.Claims) world.Claims {
		c := world.Claims{"sub": unique("user"), "iss": "i", "exp": time.Now().Add(time.Hour).Unix(), "jti": unique("t")}
		for k, v := range more {
			c[k] = v
		}
		return c
	}
	tok := world.Mint("RS256", "k", r.key, good(nil))
	second := ""
	scheme := "Bearer "
	switch r.Fault {
	case "expired":
		tok = world.Mint("RS256", "k", r.key, good(world.Claims{"exp": time.Now().Add(-time.Hour).Unix()}))
	case "badsig":
		tok = world.Mint("RS256", "k", "c23other", good(nil))
	case "nokid":
		tok = world.Mint("RS256", "", r.key, good(nil))
	case "newkid":
		tok = world.Mint("RS256", "new", r.key, good(nil))
	case "hmac":
		tok = world.Mint("HS256", "k", r.key, good(nil))
	case "none":
		tok = world.Mint("none", "k", r.key, good(nil))
	case "garbage":
		tok = credit("plain")
	case "scheme":
		scheme = []string{"Basic ", "bearer ", "", "Token "}[r.round%4]
	case "extra":
		second = " " + r.bearer(world.Mint("RS256", "k", r.key, good(nil))) + " " + r.bearer(world.Mint("RS256", "k", r.key, good(nil)))
	case "both":
		second = " " + r.bearer(world.Mint("RS256", "k", r.key, good(nil)))
	}
	q := r.req
	q.Authz = scheme + r.bearer(tok) + second
	for n := 0; n < 2; n++ {
		r.do(q)
	}
	return nil
}

func (r *disclosureRun) callback() error {
	p, err := r.begin()
	if err != nil {
		return err
	}
	code := r.code()
	q := p.callback(code)
	r.t.Grant("code:"+code, r.spoil(r.tokens(time.Hour), r.Fault).reply())
	switch r.Fault {
	case "wrongstate":
		q.State = credit("state")
	case "nostate":
		q.State = ""
	case "nocookie":
		q.Cookies = ""
	case "foreigncookie":
		other := q.Cookies[:strings.IndexByte(q.Cookies, '=')] + "=" + credit("cookie")
		r.l.add("statecookie", r.id, other[strings.IndexByte(other, '=')+1:])
		q.Cookies = other
	case "errorparam":
		q.Error = "access_denied"
	case "nocode":
		q.Code = ""
	}
	r.tokenFault()
	r.afterwards(r.do(q))
	return nil
}

func (r *disclosureRun) session() error {
	set := r.tokens(time.Hour)
	if strings.HasPrefix(r.Fault, "opaque") {
		set = r.spoil(set, "opaque")
	}
	cookie, err := r.login(set)
	if err != nil {
		return err
	}
	q := r.req
	q.Cookies = cookie
	switch r.Fault {
	case "keysgone":
		r.t.SetKeys(world.PubKey("k2", "c23other"))
		r.configure("o-" + r.id)
	case "newrules":
		r.policy("oidc", "o-"+r.id, rulesOf())
	case "othersclient":
		q.Cookies = strings.Replace(cookie, r.id, "other-"+r.id, 1)
	case "unknown":
		q.Cookies = cookie[:strings.IndexByte(cookie, '=')+1] + r.l.add("session", r.id, credit("session"))
	default:
		if strings.HasPrefix(r.Fault, "opaque") {
			r.info(set.Access, r.Fault)
		}
	}
	if (r.Fault == "keysgone" || r.Fault == "newrules") && !r.w.Barrier(60*time.Second) {
		return fmt.Errorf("barrier timeout")
	}
	r.afterwards(r.do(q))
	r.afterwards(r.do(q))
	return nil
}

func (r *disclosureRun) refresh() error {
	set := r.tokens(time.Hour)
	ttl := 4 * time.Second
	set.Access = r.l.add("access", r.id, mintUser(r.key, "k", r.id, ttl))
	begun := time.Now()
	cookie, err := r.login(set)
	if err != nil {
		return err
	}
	next := r.spoil(r.tokens(time.Hour), r.Fault)
	if r.Fault == "kept" {
		next.Refresh = ""
	}
	r.t.Grant("refresh:"+set.Refresh, next.reply())
	if r.Fault == "rules" {
		r.policy("oidc", "o-"+r.id, rulesOf())
		if !r.w.Barrier(60 * time.Second) {
			return fmt.Errorf("barrier timeout")
		}
	}
	time.Sleep(time.Until(begun.Add(ttl + 1500*time.Millisecond)))
	r.tokenFault()
	q := r.req
	q.Cookies = cookie
	r.afterwards(r.do(q))
	r.afterwards(r.do(q))
	return nil
}

func (r *disclosureRun) logout() error {
	q := r.req
	q.Path += "/oidc/logout"
	cookie, err := r.login(r.tokens(time.Hour))
	if err != nil {
		return err
	}
	q.Cookies = cookie
	if r.Fault == "nosession" {
		q.Cookies = cookie[:strings.IndexByte(cookie, '=')+1] + r.l.add("session", r.id, credit("session"))
	}
	r.do(q)
	r.do(q)
	return nil
}

// malformed sends credentials in what is left of a request
func (r *disclosureRun) malformed() error {
	q := r.req
	if r.round%2 == 1 {
		c, err := r.login(r.tokens(time.Hour))
		if err != nil {
			return err
		}
		q.Cookies = c
		q.Code, q.State = r.code(), "state"
	} else {
		q.Cookies = (&http.Cookie{Name: "oidc-cookie-" + r.id, Value: r.l.add("session", r.id, credit("session"))}).String()
	}
	q.Authz = "Bearer " + r.bearer(world.Mint("RS256", "k", r.key, world.Claims{"sub": unique("u")}))
	m := q.Msg()
	switch r.Fault {
	case "noinstance":
		m.Instance = nil
	case "notarget":
		m.Instance.Target = nil
	case "norequest":
		m.Instance.Request = nil
	case "noheaders":
		m.Instance.Request.Headers = nil
	case "noparams":
		m.Instance.Request.Params = nil
	case "empty":
		m = &authnz.HandleAuthnZRequest{}
	}
	r.l.answer(r.id, r.w.A.DoMsg(m, 60*time.Second))
	return nil
}
