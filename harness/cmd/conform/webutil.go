package main

import (
	"encoding/json"
	"fmt"
	"sync/atomic"
	"time"

	"verif/harness/world"
)

var uniq int64

func unique(prefix string) string { return fmt.Sprintf("%s%d", prefix, atomic.AddInt64(&uniq, 1)) }

// tokenSet is what the provider hands out
type tokenSet struct {
	Access, ID, Refresh string
}

func (t tokenSet) json() string {
	m := map[string]interface{}{"access_token": t.Access, "id_token": t.ID, "token_type": "Bearer", "expires_in": 3600}
	if t.Refresh != "" {
		m["refresh_token"] = t.Refresh
	}
	if t.ID == "" {
		delete(m, "id_token")
	}
	b, _ := json.Marshal(m)
	return string(b)
}

func (t tokenSet) reply() world.Reply { return world.Reply{Body: t.json()} }

// authz is the header the service gets
func (t tokenSet) authz() string { return "Bearer " + t.Access + " " + t.ID }

// mintSet mints tokens for a client, signed by the key under the kid, valid for ttl
func mintSet(key, kid, client string, ttl time.Duration) tokenSet {
	return tokenSet{Access: mintUser(key, kid, client, ttl), ID: mintUser(key, kid, client, ttl)}
}

func mintUser(key, kid, client string, ttl time.Duration) string {
	return world.Mint("RS256", kid, key, world.Claims{"sub": unique("user"), "aud": []string{client}, "iss": "i", "iat": time.Now().Unix() - 10,
		"exp": time.Now().Add(ttl).Unix(), "jti": unique("t")})
}

// pendingLogin is a login that was begun
type pendingLogin struct {
	req         Req
	state       string
	cookie      string // "name=value"
	redirectURI string
	location    string
}

// beginLogin sends an unauthenticated request; it must be redirected to the tenant's login
func beginLogin(w *world.World, t *world.Tenant, r Req) (*pendingLogin, error) {
	res := w.A.Do(r)
	if !res.IsLogin(t) {
		return nil, fmt.Errorf("no login redirect to %s: %s", t.Name, res)
	}
	c := res.SetCookie()
	if c == nil {
		return nil, fmt.Errorf("login redirect without cookie")
	}
	q := res.LocationURL().Query()
	return &pendingLogin{req: r, state: q.Get("state"), cookie: c.Name + "=" + c.Value, redirectURI: q.Get("redirect_uri"), location: res.Location}, nil
}

// callback is the request with which the browser returns from the provider
func (p *pendingLogin) callback(code string) Req {
	r := p.req
	if r.Path == "/" {
		r.Path = ""
	}
	r.Path += "/oidc/callback"
	r.Method = "GET"
	r.Cookies, r.Code, r.State = p.cookie, code, p.state
	return r
}

// login runs a whole login; the tenant hands out the given tokens. Returns "name=value".
func login(w *world.World, t *world.Tenant, r Req, tokens tokenSet) (string, error) {
	p, err := beginLogin(w, t, r)
	if err != nil {
		return "", err
	}
	code := unique("code")
	t.Grant("code:"+code, tokens.reply())
	res := w.A.Do(p.callback(code))
	if res.Kind != "REDIRECT" || res.SetCookie() == nil {
		return "", fmt.Errorf("login callback failed: %s", res)
	}
	c := res.SetCookie()
	return c.Name + "=" + c.Value, nil
}
