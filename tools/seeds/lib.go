package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"sync/atomic"
	"time"

	"verif/harness/world"
)

// Obj is JSON made simple
type Obj = map[string]interface{}

// Req is a request to be authorized
type Req = world.Req

func main() {
	if len(os.Args) > 1 && os.Args[1] == "adapter" {
		world.AdapterMain()
		return
	}
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	code := run(dir)
	_ = os.RemoveAll(dir)
	os.Exit(code)
}

type failure string

func run(dir string) (code int) {
	w, err := world.NewWorld(dir)
	if err != nil {
		fmt.Println("cannot start:", err)
		return 1
	}
	defer w.Close()
	defer func() {
		if p := recover(); p != nil {
			fmt.Println("FAILED:", p)
			code = 1
		}
	}()
	demo(w)
	fmt.Println("as it should be")
	return 0
}

// must fails the demonstration unless ok
func must(ok bool, format string, args ...interface{}) {
	if !ok {
		panic(failure(fmt.Sprintf(format, args...)))
	}
}

func barrier(w *world.World) { must(w.Barrier(30*time.Second), "the adapter does not follow its configuration") }

var uniq int64

func unique(p string) string { return fmt.Sprintf("%s%d", p, atomic.AddInt64(&uniq, 1)) }

type tokenSet struct{ Access, ID, Refresh string }

func (t tokenSet) reply() world.Reply {
	m := Obj{"access_token": t.Access, "token_type": "Bearer", "expires_in": 3600}
	if t.ID != "" {
		m["id_token"] = t.ID
	}
	if t.Refresh != "" {
		m["refresh_token"] = t.Refresh
	}
	b, _ := json.Marshal(m)
	return world.Reply{Body: string(b)}
}

func (t tokenSet) authz() string { return "Bearer " + t.Access + " " + t.ID }

// mint makes a token signed by key under kid
func mint(key, kid string, ttl time.Duration, more Obj) string {
	c := Obj{"sub": unique("user"), "iss": "i", "aud": []string{"client", "client1", "client2"}, "jti": unique("t"), "exp": time.Now().Add(ttl).Unix()}
	for k, v := range more {
		c[k] = v
	}
	return world.Mint("RS256", kid, key, c)
}

func mintSet(key, kid string, ttl time.Duration, more Obj) tokenSet {
	return tokenSet{Access: mint(key, kid, ttl, more), ID: mint(key, kid, ttl, more)}
}

type pending struct {
	req           Req
	state, cookie string
}

// begin starts a login
func begin(w *world.World, t *world.Tenant, r Req) pending {
	res := w.A.Do(r)
	must(res.IsLogin(t) && res.SetCookie() != nil, "no login: %s", res)
	c := res.SetCookie()
	return pending{r, res.LocationURL().Query().Get("state"), c.Name + "=" + c.Value}
}

func (p pending) callback(code string) Req {
	r := p.req
	if r.Path == "/" {
		r.Path = ""
	}
	r.Path += "/oidc/callback"
	r.Method, r.Cookies, r.Code, r.State = "GET", p.cookie, code, p.state
	return r
}

// login logs in and returns the session's cookie as name=value
func login(w *world.World, t *world.Tenant, r Req, s tokenSet) string {
	p := begin(w, t, r)
	code := unique("code")
	t.Grant("code:"+code, s.reply())
	res := w.A.Do(p.callback(code))
	must(res.Kind == "REDIRECT" && res.SetCookie() != nil, "callback failed: %s", res)
	return res.SetCookie().Name + "=" + res.SetCookie().Value
}

// protect sets up a policy of the given type for a whole service
func protect(w *world.World, ns, svc, kind, cfg string, more Obj) {
	w.Apply("policies", ns, "p-"+svc, world.Paths(svc, world.PathEntry("prefix", "/", "", kind, cfg, more)))
}

// startProgram starts the program itself, next to the world's adapter, and tells what it wrote
func startProgram(w *world.World) (*world.World, func() string) {
	dir, err := ioutil.TempDir("", "program")
	must(err == nil, "%v", err)
	a, path, err := world.StartProgram(w.Kube, dir, os.Getenv("PROGRAM"), 60*time.Second)
	must(err == nil, "cannot start the program: %v", err)
	out := &world.World{Kube: w.Kube, IdP: w.IdP, A: a, Scratch: dir}
	return out, func() string {
		time.Sleep(500 * time.Millisecond)
		a.Kill()
		b, err := ioutil.ReadFile(path)
		must(err == nil, "%v", err)
		return string(b)
	}
}
