package main

import (
	crand "crypto/rand"
	"encoding/hex"
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"

	"verif/harness/world"
)

func init() { props["C24"] = c24 }

type workCase struct {
	Kind, Fault string
	Calls       []string
}

const (
	c24NS  = "c24"
	c24Pad = 40000 // bytes by which whatever could be held on to is larger than usual
)

// pad makes a text of about n bytes that no other text shares memory with
func pad(n int) string {
	b := make([]byte, n/2)
	_, _ = crand.Read(b)
	return hex.EncodeToString(b)
}

// c24 does each kind of work many times over, and looks whether the adapter holds more afterwards
func c24() {
	var cases []workCase
	load("cases.ndjson", func(raw []byte) {
		var c workCase
		mustUnmarshal(raw, &c)
		cases = append(cases, c)
	})
	times := 40
	if *tier != "quick" {
		times = 160
	}
	rng.Shuffle(len(cases), func(a, b int) { cases[a], cases[b] = cases[b], cases[a] })
	const adapters = 5
	world.Parallel(adapters, adapters, func(n int) {
		w := newWorld()
		defer w.Close()
		for i := n; i < len(cases); i += adapters {
			if rep.ending {
				return
			}
			c24Case(w, i, cases[i], times, false)
			if has(c24Cheap, cases[i].Kind+" "+cases[i].Fault) {
				c24Case(w, i, cases[i], 75*times, true)
			}
			if rep.crash(w.A, cases[i]) {
				return
			}
		}
	})
}

// c24Cheap are the kinds of work that can be done so often that even little left behind shows
var c24Cheap = []string{"api valid", "api notatoken", "api expired", "api noconfig", "login begun", "callback wrongstate", "callback errorparam", "round jwt", "malformed empty", "session jwt"}

func c24Case(w *world.World, i int, c workCase, times int, small bool) {
	r := &workRun{workCase: c, w: w, id: fmt.Sprintf("w%d", i), small: small}
	much := int64(times * c24Pad / 2) // bytes
	warm, few := 6, times/2
	if small {
		r.id += "s"
		much = int64(times * 100)
		warm, few = 300, 40
	}
	r.prepare()
	if !w.Barrier(60 * time.Second) {
		rep.count("barrier timeout")
	}
	var failed int64 // operations that went other than meant, and may have left a session
	round := func(n int) {
		world.Parallel(r.parallel(), n, func(k int) {
			if err := r.op(); err != nil {
				rep.skip(short(c.Kind+" "+c.Fault+": "+err.Error(), 60))
				atomic.AddInt64(&failed, 1)
				return
			}
			rep.countN(map[bool]string{false: "operations with large data", true: "operations with ordinary data"}[small], 1)
		})
	}
	// settled is what is held once it no longer gets less
	settled := func(from *world.Held) (world.Held, bool) {
		var h world.Held
		for end := time.Now().Add(20 * time.Second); ; time.Sleep(100 * time.Millisecond) {
			var err error
			if h, err = w.A.Holding(); err != nil {
				return h, false
			}
			if from == nil || time.Now().After(end) || (h.Tasks-from.Tasks <= 8 && h.Files-from.Files <= 8 && h.Heap-from.Heap <= much/4) {
				return h, true
			}
		}
	}
	round(warm)
	if len(c.Calls) > 0 && (strings.Contains(c.Fault, "hang") || c.Kind == "cancelled") {
		time.Sleep(6 * time.Second)
	}
	time.Sleep(300 * time.Millisecond)
	base, ok := settled(nil)
	for again := 0; ok && again < 2; again++ {
		round(times)
		var now world.Held
		if now, ok = settled(&base); !ok {
			break
		}
		var more []string
		if d := now.Tasks - base.Tasks; d > few {
			more = append(more, fmt.Sprintf("%d tasks", d))
		}
		if d := now.Files - base.Files; d > few {
			more = append(more, fmt.Sprintf("%d open files", d))
		}
		if d := now.Heap - base.Heap; d > much {
			more = append(more, fmt.Sprintf("%d bytes", d))
		}
		if n := atomic.LoadInt64(&failed); len(more) > 0 && n > 0 {
			rep.count("not judged: " + c.Kind + " " + c.Fault)
			return
		}
		if len(more) == 0 {
			if d := now.Heap - base.Heap; d > much/2 || now.Tasks-base.Tasks > few/2 || now.Files-base.Files > few/2 {
				rep.count("nearly too much: " + c.Kind + " " + c.Fault)
			}
			rep.ok(3)
			if c.Kind == "change" && strings.Contains(c.Fault, "removed") {
				calls := r.calls()
				time.Sleep(4 * time.Second)
				if n := r.calls() - calls; n > times/2 { // not just some that were under way
					rep.viol("called: "+c.Fault, c, "providers of deleted configurations are left alone", fmt.Sprintf("%d calls within 4 s", n))
				}
				rep.ok(1)
			}
			rep.behaviour()
			return
		}
		if again == 0 {
			rep.count("looked again: " + c.Kind + " " + c.Fault)
			base = now
			continue
		}
		rep.viol("held: "+c.Kind+" "+c.Fault, c, "nothing is held once the work has been done",
			fmt.Sprintf("having done it %d times more, %s more: %+v", times, strings.Join(more, ", "), now))
		return
	}
	if !ok && !rep.crash(w.A, c) {
		rep.fail("the adapter does not tell what it holds")
	}
}

// workRun is one kind of work, with a provider and services of its own
type workRun struct {
	workCase
	small bool // many times, with ordinary data
	w     *world.World
	id    string
	t     *world.Tenant
	n     int64
}

// calls counts the calls the run's providers have received
func (r *workRun) calls() (n int) {
	for _, t := range r.w.IdP.Tenants() {
		if t.Name == r.id || strings.HasPrefix(t.Name, r.id) && broken(t.Name[len(r.id):]) != nil {
			n += len(t.Hits(""))
		}
	}
	return n
}

// pad makes what could be held on to larger than usual
func (r *workRun) pad() string {
	if r.small {
		return pad(20)
	}
	return pad(c24Pad)
}

func (r *workRun) parallel() int {
	switch {
	case r.Kind == "change":
		return 1
	case r.Kind == "refresh" || r.Kind == "cancelled" || strings.Contains(r.Fault, "hang"):
		return 40
	}
	return 8
}

func (r *workRun) request() Req {
	return Req{NS: c24NS, Svc: "s-" + r.id, Path: "/" + unique("x"), Method: "GET"}
}

func broken(how string) *world.Reply {
	switch how {
	case "refused":
		return &world.Reply{Status: 400, Body: `{"error":"invalid_grant","error_description":"` + pad(5000) + `"}`}
	case "error":
		return &world.Reply{Status: 500, Body: "<html>" + pad(100000)}
	case "drop":
		return &world.Reply{Drop: true}
	case "garbage":
		return &world.Reply{Body: "[" + pad(100000)}
	case "hang":
		return &world.Reply{How: "silent"}
	}
	return nil
}

// how is how the last call ends, if it ends badly
func (r *workRun) how() string {
	if r.Kind == "cancelled" {
		return "hang"
	}
	f := strings.Fields(r.Fault)
	if broken(f[len(f)-1]) == nil || len(r.Calls) == 0 {
		return ""
	}
	return f[len(f)-1]
}

func (r *workRun) last() string {
	if len(r.Calls) == 0 {
		return ""
	}
	return r.Calls[len(r.Calls)-1]
}

func (r *workRun) token(key, kid string, ttl time.Duration) string {
	return world.Mint("RS256", kid, key, world.Claims{"sub": unique("u") + r.pad(), "aud": []string{r.id}, "exp": time.Now().Add(ttl).Unix(), "jti": unique("t")})
}

// api tells whether the work is on an API's behalf
func (r *workRun) api() bool { return r.Kind == "api" || r.Fault == "jwks" }

func (r *workRun) prepare() {
	r.t = r.w.IdP.Tenant(r.id)
	r.t.SetKeys(world.PubKey("k", "c24"))
	kind, more := "oidc", Obj{}
	if r.api() {
		kind = "jwt"
	}
	if r.Fault == "rules" {
		more = Obj{"rules": []interface{}{Obj{"claim": "role", "match": "ALL", "source": "access_token", "values": []string{"boss"}}}}
	}
	if how := r.how(); how != "" && (r.last() == "discovery" || (r.last() == "jwks" && r.Kind != "cancelled")) {
		r.t.Fault(r.last(), broken(how))
	}
	if r.Fault != "noconfig" && kind == "jwt" {
		r.w.Jwt(c24NS, "c-"+r.id, r.t.Jwks())
	} else if r.Fault != "noconfig" {
		r.w.Oidc(c24NS, "c-"+r.id, r.t, r.id, "secret", nil)
	}
	r.w.Apply("policies", c24NS, "p-"+r.id, world.Paths("s-"+r.id, world.PathEntry("prefix", "/", "", kind, "c-"+r.id, more)))
	if r.Kind == "cancelled" && r.last() == "jwks" {
		_ = r.w.Barrier(60 * time.Second)
		r.t.Fault("jwks", broken("hang"))
	}
}

func (r *workRun) set(ttl time.Duration) tokenSet {
	return tokenSet{Access: r.token("c24", "k", ttl), ID: r.token("c24", "k", time.Hour), Refresh: unique("refresh") + r.pad()}
}

// login makes a session and tells its cookie
func (r *workRun) login(s tokenSet) (string, error) { return login(r.w, r.t, r.request(), s) }

func (r *workRun) logout(cookie string) error {
	q := r.request()
	q.Path += "/oidc/logout"
	q.Cookies = cookie
	if a := r.w.A.Do(q); a.Kind != "REDIRECT" {
		return fmt.Errorf("logout: %s", short(a.String(), 200))
	}
	return nil
}

func (r *workRun) op() error {
	switch r.Kind {
	case "api":
		q := r.request()
		q.Authz = "Bearer " + r.apiToken()
		a := r.w.A.Do(q)
		if (r.Fault == "valid") != (a.Kind == "OK") {
			return fmt.Errorf("answer: %s", short(a.String(), 200))
		}
	case "login":
		q := r.request()
		q.Path += r.pad()
		a := r.w.A.Do(q)
		if (r.Fault == "begun") != a.IsLogin(r.t) {
			return fmt.Errorf("answer: %s", short(a.String(), 200))
		}
	case "callback":
		return r.callback()
	case "session":
		return r.session()
	case "refresh":
		return r.refresh()
	case "round":
		c, err := r.login(r.set(time.Hour))
		if err != nil {
			return err
		}
		return r.logout(c)
	case "change":
		return r.change()
	case "malformed":
		r.w.A.DoMsg(&authnz.HandleAuthnZRequest{}, 30*time.Second)
	case "cancelled":
		return r.cancelled()
	}
	return nil
}

func (r *workRun) apiToken() string {
	switch r.Fault {
	case "valid", "noconfig":
		return r.token("c24", "k", time.Hour)
	case "expired":
		return r.token("c24", "k", -time.Hour)
	case "badsig":
		return r.token("c24other", "k", time.Hour)
	case "notatoken":
		return "g" + r.pad()
	}
	return r.token("c24", "new"+r.pad(), time.Hour)
}

func (r *workRun) callback() error {
	p, err := beginLogin(r.w, r.t, r.request())
	if err != nil {
		return err
	}
	code := unique("code") + r.pad()
	q := p.callback(code)
	s := r.set(time.Hour)
	switch r.Fault {
	case "wrongstate":
		q.State = "s" + r.pad()
	case "nocookie":
		q.Cookies = ""
	case "errorparam":
		q.Error, q.Code = "access_denied", ""
	case "badtoken":
		s.ID = r.token("c24other", "k", time.Hour)
	case "noid":
		s.ID = ""
	}
	if r.last() == "userinfo" {
		s.Access = "o" + r.pad()
		r.t.UserInfo(s.Access, r.info())
	}
	reply := s.reply()
	if r.last() == "token" && r.how() != "" {
		reply = *broken(r.how())
	}
	r.t.Grant("code:"+code, reply)
	if a := r.w.A.Do(q); a.Kind == "REDIRECT" && a.SetCookie() != nil && !a.IsLogin(r.t) {
		return fmt.Errorf("a session: %s", short(a.String(), 200))
	}
	return nil
}

// info is what the userinfo endpoint answers: in the end
func (r *workRun) info() world.Reply {
	if b := broken(r.how()); b != nil {
		if r.how() == "garbage" { // a success, whatever it says
			b.Status = 403
		}
		return *b
	}
	return world.Reply{Body: `{"sub":"u","pad":"` + pad(100000) + `"}`}
}

func (r *workRun) session() error {
	s := r.set(time.Hour)
	if r.Fault != "jwt" {
		s.Access = "o" + r.pad()
		r.t.UserInfo(s.Access, world.Reply{Body: `{"sub":"u"}`})
	}
	cookie, err := r.login(s)
	if err != nil {
		return err
	}
	q := r.request()
	q.Cookies = cookie
	r.t.UserInfo(s.Access, r.info())
	for n := 0; n < 2; n++ {
		a := r.w.A.Do(q)
		if want := r.how() == ""; want != (a.Kind == "OK") {
			return fmt.Errorf("answer: %s", short(a.String(), 200))
		} else if want {
			continue
		}
		return nil // the session has ended
	}
	return r.logout(cookie)
}

func (r *workRun) refresh() error {
	const ttl = 3 * time.Second
	s := r.set(ttl)
	begun := time.Now()
	cookie, err := r.login(s)
	if err != nil {
		return err
	}
	for n := 0; n < 2; n++ {
		time.Sleep(time.Until(begun.Add(ttl + 1100*time.Millisecond)))
		next := r.set(ttl)
		begun = time.Now()
		reply := next.reply()
		if how := r.how(); how != "" {
			reply = *broken(how)
		}
		r.t.Grant("refresh:"+s.Refresh, reply)
		q := r.request()
		q.Cookies = cookie
		a := r.w.A.Do(q)
		if r.how() != "" {
			break
		}
		if a.Kind != "OK" {
			_ = r.logout(cookie)
			return fmt.Errorf("answer: %s", short(a.String(), 200))
		}
		s = next
	}
	return r.logout(cookie)
}

// change has something configured anew, or for a while
func (r *workRun) change() error {
	f := strings.Fields(r.Fault)
	name := "changing-" + r.id
	if f[1] == "removed" {
		name += unique("-")
	}
	t := r.t
	if len(f) == 3 {
		how := []string{"error", "drop", "garbage"}[atomic.AddInt64(&r.n, 1)%3]
		t = r.w.IdP.Tenant(r.id + how)
		t.Fault("discovery", broken(how))
		t.Fault("jwks", broken(how))
	}
	plural := map[string]string{"policy": "policies", "jwt": "jwtconfigs", "oidc": "oidcconfigs"}[f[0]]
	switch f[0] {
	case "policy":
		e := world.PathEntry("prefix", "/"+name+"/"+r.pad(), "", "jwt", "nothing", Obj{"rules": []interface{}{Obj{"claim": r.pad(), "match": "ALL", "values": []string{r.pad()}}}})
		r.w.Apply(plural, c24NS, name, world.Paths("changing-"+name, e))
	case "jwt":
		r.w.Jwt(c24NS, name, t.Jwks()+"?"+r.pad())
	case "oidc":
		r.w.Oidc(c24NS, name, t, "client-"+name, r.pad(), Obj{"scopes": []string{r.pad()}, "clientSecretRef": Obj{"name": "none", "key": "k"}})
	}
	if f[1] == "removed" {
		r.w.Delete(plural, c24NS, name)
	}
	if !r.w.Barrier(30 * time.Second) {
		return fmt.Errorf("barrier timeout")
	}
	return nil
}

// cancelled asks, and is gone before the provider answers
func (r *workRun) cancelled() error {
	q := r.request()
	switch r.last() {
	case "jwks":
		q.Authz = "Bearer " + r.token("c24", "new"+r.pad(), time.Hour)
	default:
		p, err := beginLogin(r.w, r.t, q)
		if err != nil {
			return err
		}
		code := unique("code")
		q = p.callback(code)
		if r.last() == "token" {
			r.t.Grant("code:"+code, *broken("hang"))
		} else {
			s := r.set(time.Hour)
			s.Access = "o" + r.pad()
			r.t.UserInfo(s.Access, *broken("hang"))
			r.t.Grant("code:"+code, s.reply())
		}
	}
	if a := r.w.A.DoMsg(q.Msg(), 200*time.Millisecond); a.Kind != "ERR" {
		return fmt.Errorf("answer: %s", short(a.String(), 200))
	}
	return nil
}
