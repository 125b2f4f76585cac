package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/world"
)

type c06Tok struct {
	Alg, Kid, Signer, Tamper, Exp, Nbf string
}

type c06Case struct {
	Ctx struct {
		Use, Userinfo string
	}
	Tok    c06Tok
	Opaque string
	Allow  []string
}

var nearIds int64

func init() { props["C06"] = c06 }

// build makes the token described
func (t c06Tok) build(claims world.Claims) string {
	now := time.Now()
	switch t.Exp {
	case "future":
		claims["exp"] = now.Add(10 * time.Hour).Unix()
	case "past":
		claims["exp"] = now.Add(-10 * time.Hour).Unix()
	case "justpast":
		claims["exp"] = now.Add(-3 * time.Second).Unix()
	}
	switch t.Nbf {
	case "future":
		claims["nbf"] = now.Add(10 * time.Hour).Unix()
	case "past":
		claims["nbf"] = now.Add(-10 * time.Hour).Unix()
	}
	name := map[string]string{"HS256mod": "HS256"}[t.Alg]
	if name == "" {
		name = t.Alg
	}
	h := Obj{"typ": "JWT", "alg": name}
	switch t.Kid {
	case "kid1", "kid2", "KID1", "Kid1":
		h["kid"] = t.Kid
	case "near":
		h["kid"] = []string{"kid1 ", "kid", "kid11", " kid1", "kid1\x00", "id1"}[atomic.AddInt64(&nearIds, 1)%6]
	case "unknown":
		h["kid"] = "kid9"
	case "empty":
		h["kid"] = ""
	case "number":
		h["kid"] = 1
	case "jwk":
		h["kid"] = "kid1"
		pub := world.RSA(t.Signer).PublicKey
		h["jwk"] = Obj{"kty": "RSA", "kid": "kid1", "alg": "RS256", "n": base64.RawURLEncoding.EncodeToString(pub.N.Bytes()),
			"e": base64.RawURLEncoding.EncodeToString(big.NewInt(int64(pub.E)).Bytes())}
	}
	tok := world.MintHeader(h, t.Alg, t.Signer, claims)
	p := strings.Split(tok, ".")
	switch t.Tamper {
	case "payload":
		claims["sub"] = "somebody else"
		b, _ := json.Marshal(claims)
		p[1] = base64.RawURLEncoding.EncodeToString(b)
	case "header":
		h["typ"] = "at+jwt"
		b, _ := json.Marshal(h)
		p[0] = base64.RawURLEncoding.EncodeToString(b)
	case "alg":
		h["alg"] = "RS512"
		if t.Alg == "RS512" {
			h["alg"] = "RS256"
		}
		b, _ := json.Marshal(h)
		p[0] = base64.RawURLEncoding.EncodeToString(b)
	case "sig":
		if len(p[2]) > 10 {
			c := "A"
			if p[2][7] == 'A' {
				c = "B"
			}
			p[2] = p[2][:7] + c + p[2][8:]
		} else {
			p[2] = "AAAA"
		}
	case "strip":
		p[2] = ""
	}
	if t.Tamper == "strip" && t.Alg != "none" && t.Alg != "None" || t.Tamper != "strip" {
		return strings.Join(p, ".")
	}
	return p[0] + "." + p[1] + "." + "e30" // "none" has no signature to strip: give it one
}

func opaqueToken(shape string) string {
	u := unique("opaque")
	switch shape {
	case "two.parts":
		return u + ".x"
	case "four.parts.in.it":
		return u + ".a.b.c"
	case "dots...":
		return u + "...."
	case "long":
		return u + strings.Repeat("0123456789abcdef", 200)
	}
	return u
}

func c06() {
	w := newWorld()
	defer w.Close()
	const ns = "c06"
	// the same cases with keys of various shapes
	shapes := []string{"", "", "e3:", "e257:", "e16777215:", "2048:", "3072:", "bare:"}
	var tenants []*world.Tenant
	for n, shape := range shapes {
		t := w.IdP.Tenant(fmt.Sprintf("c06-%d", n))
		k1, k2, k3 := world.PubKey("kid1", shape+"k1"), world.PubKey("kid2", shape+"k2"), world.PubKey("KID1", shape+"k3")
		if shape == "bare:" { // nothing but what a key needs, or all that is ever there
			for i, k := range []*world.Key{&k1, &k2} {
				k.Raw = Obj{"kty": "RSA", "kid": k.Kid, "n": base64.RawURLEncoding.EncodeToString(k.Pub.N.Bytes()), "e": "AQAB"}
				if i == 1 {
					k.Raw["x5c"], k.Raw["x5t"], k.Raw["key_ops"], k.Raw["use"] = []string{"MIIB"}, "abc", []string{"verify"}, "sig"
				}
			}
		}
		t.SetKeys(k1, k2, k3)
		tenants = append(tenants, t)
		w.Jwt(ns, fmt.Sprintf("j%d", n), t.Jwks())
		w.Oidc(ns, fmt.Sprintf("o%d", n), t, "c06-client", "s", nil)
		w.Apply("policies", ns, fmt.Sprintf("p%d", n), Obj{"targets": []interface{}{
			Obj{"serviceName": fmt.Sprintf("api%d", n), "paths": []interface{}{world.PathEntry("prefix", "/", "", "jwt", fmt.Sprintf("j%d", n), nil)}},
			Obj{"serviceName": fmt.Sprintf("web%d", n), "paths": []interface{}{world.PathEntry("prefix", "/", "", "oidc", fmt.Sprintf("o%d", n), nil)}}}})
	}
	w.Barrier(20 * time.Second)
	var cases []c06Case
	load("cases.ndjson", func(raw []byte) {
		var c c06Case
		mustUnmarshal(raw, &c)
		cases = append(cases, c)
	})
	replies := map[string]world.Reply{"200": {Body: `{"sub":"u"}`}, "401": {Status: 401, Body: `{"error":"invalid_token"}`},
		"500": {Status: 500, Body: "oops"}, "204": {Status: 204}, "drop": {Drop: true}}
	var mu sync.Mutex
	try := func(c c06Case, n int) (string, string) {
		api := Req{NS: ns, Svc: fmt.Sprintf("api%d", n), Path: "/a", Method: "GET"}
		web := Req{NS: ns, Svc: fmt.Sprintf("web%d", n), Path: "/a", Method: "GET"}
		t := tenants[n]
		good := mintUser(shapes[n]+"k1", "kid1", "c06-client", 10*time.Hour)
		c.Tok.Signer = shapes[n] + c.Tok.Signer
		tok := ""
		if c.Opaque != "" {
			tok = opaqueToken(c.Opaque)
		} else {
			tok = c.Tok.build(world.Claims{"sub": "u", "aud": "c06-client", "iss": "i", "jti": unique("j")})
		}
		switch c.Ctx.Use {
		case "jwt-access", "jwt-id":
			r := api
			r.Authz = "Bearer " + tok
			if c.Ctx.Use == "jwt-id" {
				r.Authz = "Bearer " + good + " " + tok
			}
			res := w.A.Do(r)
			switch {
			case res.Kind == "OK":
				return "accept", ""
			case res.Kind == "DENY" && res.HTTP == 401:
				return "reject", ""
			}
			return "?", res.String()
		}
		set := tokenSet{Access: good, ID: tok}
		if c.Ctx.Use == "oidc-access" {
			set = tokenSet{Access: tok, ID: good}
			t.UserInfo(tok, replies[c.Ctx.Userinfo])
		}
		p, err := beginLogin(w, t, web)
		if err != nil {
			return "?", err.Error()
		}
		code := unique("code")
		t.Grant("code:"+code, set.reply())
		res := w.A.Do(p.callback(code))
		if res.Kind == "DENY" && res.SetCookie() == nil {
			return "reject", ""
		}
		ck := res.SetCookie()
		if res.Kind != "REDIRECT" || ck == nil || res.IsLogin(t) {
			return "?", res.String()
		}
		r := web
		r.Cookies = ck.Name + "=" + ck.Value
		res = w.A.Do(r)
		if res.Kind == "OK" && res.Authz == set.authz() {
			return "accept", ""
		}
		return "?", "session created, then " + res.String()
	}
	world.Parallel(16, len(cases), func(i int) {
		c := cases[i]
		if rep.nviol() > 50 {
			return
		}
		in := func(v string) bool {
			for _, a := range c.Allow {
				if a == v {
					return true
				}
			}
			return false
		}
		shape := (i*7 + i/len(shapes) + int(*seed)) % len(shapes)
		v, obs := try(c, shape)
		for n := 0; !in(v) && n < 3; n++ {
			time.Sleep(200 * time.Millisecond)
			v, obs = try(c, shape)
		}
		rep.behaviour()
		rep.ok(1)
		mu.Lock()
		rep.count(c.Ctx.Use + " " + v)
		rep.count("keys " + shapes[shape] + " " + v)
		mu.Unlock()
		if i%1500 == 3 {
			rep.sample(map[string]interface{}{"case": c, "verdict": v})
		}
		if !in(v) {
			if rep.crash(w.A, c) {
				return
			}
			rep.viol(fmt.Sprintf("%skeys %s userinfo=%s token=%v%s", shapes[shape], c.Ctx.Use, c.Ctx.Userinfo, c.Tok, c.Opaque), c, strings.Join(c.Allow, " or "), v+" "+obs)
		}
	})
}
