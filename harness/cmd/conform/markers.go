package main

import (
	"fmt"
	"strings"
	"time"

	"verif/harness/world"
)

// Req and Obj shorten the harness
type (
	Req = world.Req
	Obj = world.Obj
)

// A marker is a configuration that can be told from all others by how the adapter
// treats a request it decides: a JWT configuration by the one token it accepts, an
// OIDC configuration by the client whose login is begun.
type marker struct {
	typ    string // jwt or oidc
	config string
	client string
	token  string
	more   Obj // what the policy says besides
}

// tokenFor mints a long lived token signed by the named key under the kid of the same name
func tokenFor(key string) string {
	return world.Mint("RS256", key, key, world.Claims{"sub": "u", "iss": "i", "exp": time.Now().Add(10 * time.Hour).Unix()})
}

// jwtMarker makes a JWT configuration trusting the key of the given name
func jwtMarker(w *world.World, ns, config, key string) marker {
	t := w.IdP.Tenant("k-" + key)
	t.SetKeys(world.PubKey(key, key))
	w.Jwt(ns, config, t.Jwks())
	return marker{typ: "jwt", config: config, token: tokenFor(key)}
}

// ruleMarker is a rule that only tokens with the given claim satisfy, all of one configuration
func ruleMarker(w *world.World, ns, config, key, value string) marker {
	m := jwtMarker(w, ns, config, key)
	m.token = world.Mint("RS256", key, key, world.Claims{"sub": "u", "iss": "i", "mark": value, "exp": time.Now().Add(10 * time.Hour).Unix()})
	m.more = Obj{"rules": []interface{}{Obj{"claim": "mark", "match": "ALL", "values": []string{value}}}}
	return m
}

// oidcMarker makes an OIDC configuration of the given client
func oidcMarker(w *world.World, ns, config, client string) marker {
	w.Oidc(ns, config, w.IdP.Tenant("oidc"), client, "secret", nil)
	return marker{typ: "oidc", config: config, client: client}
}

// decides tells whether the marker's configuration decides the request
func (m marker) decides(w *world.World, r Req) (bool, string) {
	if m.typ == "oidc" {
		res := w.A.Do(r)
		c := res.SetCookie()
		if res.Kind == "REDIRECT" && c != nil && c.Name == "oidc-cookie-"+m.client {
			return true, ""
		}
		return false, res.String()
	}
	res := w.A.Do(r)
	if res.Kind != "DENY" {
		return false, "without a token: " + res.String()
	}
	r.Authz = "Bearer " + m.token
	if res = w.A.Do(r); res.Kind != "OK" {
		return false, "with the token of " + m.config + ": " + res.String()
	}
	return true, ""
}

// unprotected tells whether the request passes without any credentials
func unprotected(w *world.World, r Req) (bool, string) {
	res := w.A.Do(r)
	return res.Kind == "OK", res.String()
}

// expectMarkers checks that one of the allowed markers decides the request, or, if there
// is none, that it is unprotected. Disagreement is confirmed before it counts: the adapter
// may still be busy with the last change.
func expectMarkers(w *world.World, r Req, allowed []marker, patience time.Duration) (bool, string, string) {
	expected := "unprotected"
	if len(allowed) > 0 {
		var names []string
		for _, m := range allowed {
			names = append(names, m.typ+" "+m.config)
		}
		expected = "decided by " + strings.Join(names, " or ")
	}
	var obs []string
	for end := time.Now().Add(patience); ; time.Sleep(50 * time.Millisecond) {
		obs = nil
		if len(allowed) == 0 {
			ok, o := unprotected(w, r)
			if ok {
				return true, "", ""
			}
			obs = append(obs, o)
		}
		for _, m := range allowed {
			ok, o := m.decides(w, r)
			if ok {
				return true, "", ""
			}
			obs = append(obs, o)
		}
		if time.Now().After(end) {
			return false, expected, strings.Join(obs, "; ")
		}
	}
}

func reqKey(r Req) string {
	return fmt.Sprintf("%s %s/%s%s", r.Method, r.NS, r.Svc, r.Path)
}
