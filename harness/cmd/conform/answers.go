package main

import (
	"strings"
	"time"

	"verif/harness/world"
)

// tokenAnswer is the token endpoint's answer of the given kind (see Login, RefreshChain);
// set are valid tokens for the client, old those it had before. Returned are the answer
// and the tokens it hands out. ok is false for a kind it does not know.
func tokenAnswer(t *world.Tenant, kind, client string, set, old tokenSet) (reply world.Reply, out tokenSet, ok bool) {
	other := func(key, kid string, ttl time.Duration) string { return mintUser(key, kid, client, ttl) }
	raw := func(status int, body string) (world.Reply, tokenSet, bool) {
		return world.Reply{Status: status, Body: body}, set, true
	}
	switch kind {
	case "same":
		set.Refresh = ""
	case "emptyrefresh":
		set.Refresh = ""
		return raw(200, strings.Replace(set.json(), "{", `{"refresh_token":"",`, 1))
	case "extra":
		return raw(200, strings.Replace(set.json(), "{", `{"scope":"openid","error":"","nested":{"access_token":"x"},"list":[1,2],`, 1))
	case "400":
		return raw(400, `{"error":"invalid_grant"}`)
	case "401":
		return raw(401, `{"error":"invalid_client"}`)
	case "500":
		return raw(500, set.json())
	case "400tokens":
		return raw(400, set.json())
	case "302tokens":
		return raw(302, set.json())
	case "503html":
		return raw(503, "<html>")
	case "204":
		return raw(204, "")
	case "drop":
		return world.Reply{Drop: true}, set, true
	case "garbage":
		return raw(200, "access_token="+set.Access+"&id_token="+set.ID)
	case "truncated":
		return raw(200, set.json()[:len(set.json())-3])
	case "doubled":
		return raw(200, set.json()+set.json())
	case "emptybody":
		return raw(200, "")
	case "emptyobject":
		return raw(200, "{}")
	case "null":
		return raw(200, "null")
	case "string":
		return raw(200, `"`+set.Access+`"`)
	case "nulltokens":
		return raw(200, `{"access_token":null,"id_token":null}`)
	case "numbers":
		return raw(200, `{"access_token":1,"id_token":2}`)
	case "array":
		return raw(200, "["+set.json()+"]")
	case "noaccess":
		return raw(200, `{"id_token":"`+set.ID+`","refresh_token":"x"}`)
	case "emptyid":
		return raw(200, `{"access_token":"`+set.Access+`","id_token":""}`)
	case "new":
	case "noid":
		set.ID = ""
	case "expiredaccess":
		set.Access = other("web-k", "k", -10*time.Second)
	case "expiredid":
		set.ID = other("web-k", "k", -10*time.Second)
	case "expiredboth":
		set.Access, set.ID = other("web-k", "k", -10*time.Second), other("web-k", "k", -10*time.Second)
	case "badsigaccess":
		set.Access = other("web-other", "k", time.Hour)
	case "badsigid":
		set.ID = other("web-other", "k", time.Hour)
	case "unknownkid":
		set.ID = other("web-k", "k7", time.Hour)
	case "wrongaud":
		set.Access, set.ID = mintUser("web-k", "k", "another", time.Hour), mintUser("web-k", "k", "another", time.Hour)
	case "opaque":
		set.Access = opaqueToken("plain")
		t.UserInfo(set.Access, world.Reply{Body: `{"sub":"u"}`})
	case "opaquerefused":
		set.Access = opaqueToken("plain")
	case "oldtokens":
		set.Access, set.ID = old.Access, old.ID
	case "opaqueid":
		set.ID = opaqueToken("two.parts")
	case "none-alg":
		set.ID = world.Mint("none", "k", "web-k", world.Claims{"sub": "u", "aud": client, "exp": time.Now().Add(time.Hour).Unix()})
	default:
		return world.Reply{}, set, false
	}
	return set.reply(), set, true
}
