package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/securecookie"

	"verif/harness/world"
)

func init() { props["C16"] = c16 }

const (
	keySecretNS = "istio-system"
	keySecret   = "appidentityandaccessadapter-cookie-sig-enc-keys"
)

type keyEvent struct {
	Op     string `json:"op"`
	I      string `json:"i,omitempty"`
	R      int    `json:"r,omitempty"`
	Res    string `json:"res,omitempty"`
	Good   bool   `json:"good"`
	Effect string `json:"effect,omitempty"`
	Told   bool   `json:"told"`
	Key    string `json:"key,omitempty"`
	Hash   int    `json:"hash"`
	Block  int    `json:"block"`
	Again  bool   `json:"again"`
	Usable string `json:"usable,omitempty"`
	What   string `json:"what,omitempty"`
}

type keyHistory struct {
	Hash   int             `json:"hash"`
	Block  int             `json:"block"`
	Steps  [][]interface{} `json:"steps"`
	Events []keyEvent      `json:"events"`
}

// cluster is an API server with up to two adapters
type cluster struct {
	k     *world.Kube
	t     *world.Tenant
	front map[string]world.Front
	up    map[string]*world.Adapter
	proc  map[string]*world.Adapter // also those still starting
	env   []string
	rnd   *rand.Rand

	mu      sync.Mutex
	hist    keyHistory
	fault   map[string]string
	asked   int
	pending []*pendingLogin
}

var (
	madeMu sync.Mutex
	made   = map[string]bool{} // keys made by adapters, of all clusters
	madeBy [][]byte
)

func fingerprint(data map[string][]byte) string {
	if len(data["HASH_KEY"])+len(data["BLOCK_KEY"]) == 0 {
		return "none"
	}
	return hex.EncodeToString(data["HASH_KEY"]) + "/" + hex.EncodeToString(data["BLOCK_KEY"])
}

func newCluster(p *world.IdP, n int, rnd *rand.Rand) *cluster {
	c := &cluster{k: world.NewKube(), t: p.Tenant("keys"), front: map[string]world.Front{}, up: map[string]*world.Adapter{}, proc: map[string]*world.Adapter{},
		fault: map[string]string{}, rnd: rnd}
	c.hist.Steps, c.hist.Events = [][]interface{}{}, []keyEvent{}
	c.hist.Hash, c.hist.Block = []int{32, 64}[n%2], []int{16, 24, 32}[n%3]
	c.env = []string{fmt.Sprintf("VERIF_HASH_SIZE=%d", c.hist.Hash), fmt.Sprintf("VERIF_BLOCK_SIZE=%d", c.hist.Block)}
	for _, i := range []string{"a", "b"} {
		c.front[i] = c.k.Front(i)
	}
	c.k.OnSecret = func(e world.SecretEffect) {
		if e.Key != keySecretNS+"/"+keySecret {
			return
		}
		ev := keyEvent{Op: "call", I: e.Tag, Effect: e.Effect, Told: e.Told}
		if e.Effect == "created" {
			ev.Key = fingerprint(e.Data)
			ev.Hash, ev.Block = len(e.Data["HASH_KEY"]), len(e.Data["BLOCK_KEY"])
			madeMu.Lock()
			for _, b := range [][]byte{e.Data["HASH_KEY"], e.Data["BLOCK_KEY"]} {
				if len(b) >= 16 {
					b = b[:16]
					if made[string(b)] {
						ev.Again = true
					}
					made[string(b)] = true
					madeBy = append(madeBy, b)
				}
			}
			madeMu.Unlock()
		}
		c.event(ev)
	}
	c.k.SecretHook = func(tag, method, name string) (int, bool) {
		if name != keySecret {
			return 0, false
		}
		c.mu.Lock()
		f := c.fault[tag]
		bad := []int{500, 503, 403, -1, 504}[c.rnd.Intn(5)]
		die := c.rnd.Intn(10)
		c.mu.Unlock()
		switch {
		case f == "all", f == "get" && method == "GET", f == "create" && method == "POST":
			return bad, false
		case f == "lost" && method == "POST":
			return bad, true
		case f == "mixed" && die < 5:
			return bad, die < 2
		case f == "die-get" && method == "GET", f == "die-create" && method == "POST":
			c.kill(tag)
			return -1, false
		}
		return 0, false
	}
	c.k.SecretDone = func(tag, method, name string) {
		c.mu.Lock()
		f := c.fault[tag]
		c.mu.Unlock()
		if name == keySecret && (f == "died-get" && method == "GET" || f == "died-create" && method == "POST") {
			c.kill(tag)
		}
	}
	c.k.Apply("oidcconfigs", "keys", "cfg", Obj{"discoveryUrl": c.t.Discovery(), "clientId": "keys", "clientSecret": "s"})
	c.k.Apply("policies", "keys", "p", world.Paths("svc", world.PathEntry("prefix", "/", "", "oidc", "cfg", nil)))
	return c
}

func (c *cluster) event(e keyEvent) {
	c.mu.Lock()
	c.hist.Events = append(c.hist.Events, e)
	c.mu.Unlock()
}

func (c *cluster) kill(i string) {
	c.mu.Lock()
	a := c.proc[i]
	c.mu.Unlock()
	if a != nil {
		a.Kill()
	}
}

func (c *cluster) setFault(i, f string) {
	c.mu.Lock()
	c.fault[i] = f
	c.mu.Unlock()
}

func (c *cluster) data() map[string][]byte {
	if o := c.k.Secret(keySecretNS, keySecret); o != nil {
		d, _ := o["data"].(map[string][]byte)
		return d
	}
	return nil
}

var keyReq = Req{NS: "keys", Svc: "svc", Path: "/x", Method: "GET"}

// start starts an instance; false if it did not come up
func (c *cluster) start(i, fault string) bool {
	c.setFault(i, fault)
	defer c.setFault(i, "ok")
	a, err := world.StartAdapterWith(c.front[i], *scratch, 60*time.Second, c.env, func(a *world.Adapter) {
		c.mu.Lock()
		c.proc[i] = a
		c.mu.Unlock()
	})
	if err != nil {
		if dead, words := a.Crashed(); dead {
			rep.viol("start with fault "+fault, c.hist.Steps, "the adapter starts", short(words, 2000))
		}
		return false
	}
	c.setFault(i, "ok")
	q := keyReq
	q.Path = "/x/oidc/logout"
	for end := time.Now().Add(40 * time.Second); time.Now().Before(end); time.Sleep(3 * time.Millisecond) {
		if a.Do(q).Kind == "REDIRECT" {
			c.mu.Lock()
			c.up[i] = a
			c.mu.Unlock()
			return true
		}
		if dead, _ := a.Crashed(); dead {
			break
		}
	}
	if dead, words := a.Crashed(); dead {
		rep.viol("start with fault "+fault, c.hist.Steps, "the adapter keeps running", short(words, 2000))
		return false
	}
	rep.fail("an adapter does not take up its policies")
	a.Kill()
	return false
}

func (c *cluster) ask(i string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.asked++
	c.hist.Events = append(c.hist.Events, keyEvent{Op: "ask", R: c.asked, I: i})
	return c.asked
}

// died tells whether a request got no answer because the instance is dead
func died(a *world.Adapter, res world.Resp) bool {
	if res.Kind != "ERR" || !strings.Contains(res.Err, "code = Unavailable") {
		return false
	}
	select {
	case <-a.Exited():
		return true
	case <-time.After(10 * time.Second):
		return false
	}
}

func dead(a *world.Adapter) bool {
	select {
	case <-a.Exited():
		return true
	default:
		return false
	}
}

// login begins a login
func (c *cluster) login(i string) {
	a := c.up[i]
	id := c.ask(i)
	res := a.Do(keyReq)
	e := keyEvent{Op: "answer", R: id, I: i}
	ck := res.SetCookie()
	switch {
	case res.Kind == "OK":
		e.Res = "pass"
	case res.IsLogin(c.t) && ck != nil:
		e.Res = "login"
		d := c.data()
		v := []byte{}
		e.Good = securecookie.New(d["HASH_KEY"], d["BLOCK_KEY"]).Decode(ck.Name, ck.Value, &v) == nil
		c.mu.Lock()
		c.pending = append(c.pending, &pendingLogin{req: keyReq, state: res.LocationURL().Query().Get("state"), cookie: ck.Name + "=" + ck.Value})
		c.mu.Unlock()
	case died(a, res):
		e.Res = "dead"
	case ck != nil:
		e.Res = "login" // a cookie all the same
		e.What = res.String()
	default:
		e.Res, e.What = "reject", res.String()
	}
	c.event(e)
	rep.ok(1)
}

// finish completes the oldest login at an instance
func (c *cluster) finish(i string) {
	if len(c.pending) == 0 {
		return
	}
	p, a := c.pending[0], c.up[i]
	code := unique("kc")
	tokens := mintSet("keys", "kid", "keys", time.Hour)
	c.t.Grant("code:"+code, tokens.reply())
	id := c.ask(i)
	res := a.Do(p.callback(code))
	e := keyEvent{Op: "answer", R: id, I: i}
	ck := res.SetCookie()
	switch {
	case res.Kind == "OK":
		e.Res = "pass"
	case res.Kind == "REDIRECT" && !res.IsLogin(c.t) && ck != nil:
		e.Res = "finished"
		c.pending = c.pending[1:]
	case died(a, res):
		e.Res = "dead"
	default:
		e.Res, e.What = "reject", "callback: "+res.String()
	}
	c.event(e)
	rep.ok(1)
}

func (c *cluster) gone(i string) bool {
	if a := c.up[i]; a != nil {
		if d, words := a.Crashed(); d {
			rep.viol("crash", c.hist.Steps, "the adapter keeps running", short(words, 2000))
		}
		if dead(a) {
			delete(c.up, i)
		}
	}
	return c.up[i] == nil
}

func (c *cluster) end() {
	for _, i := range []string{"a", "b"} {
		c.kill(i)
	}
	c.k.Close()
}

// step does what the specification says happens next; false if the walk cannot go on
func (c *cluster) step(act []interface{}) bool {
	c.hist.Steps = append(c.hist.Steps, act)
	s := func(n int) string { return act[n].(string) }
	c.gone("a")
	c.gone("b")
	switch s(0) {
	case "admin":
		r := func(n int) []byte { return securecookie.GenerateRandomKey(n) }
		c.admin(map[string][]byte{"HASH_KEY": r([]int{16, 32, 48, 64}[c.rnd.Intn(4)]), "BLOCK_KEY": r([]int{16, 24, 32}[c.rnd.Intn(3)])}, "yes")
	case "start":
		ok := c.start(s(1), s(2))
		if strings.HasPrefix(s(2), "die") { // the call it was to die at may not have been made
			c.kill(s(1))
			delete(c.up, s(1))
			return true
		}
		return ok
	case "startboth":
		var ok [2]bool
		world.Parallel(2, 2, func(n int) { ok[n] = c.start([]string{"a", "b"}[n], s(1)) })
		return ok[0] && ok[1]
	case "login":
		if c.up[s(1)] == nil {
			return false
		}
		c.setFault(s(1), s(2))
		c.login(s(1))
		c.setFault(s(1), "ok")
		if strings.HasPrefix(s(2), "die") { // if it had its keys already it was not asked for them
			c.kill(s(1))
			delete(c.up, s(1))
		}
	case "burst":
		var wg sync.WaitGroup
		for i := range c.up {
			c.setFault(i, s(1))
			for n := 0; n < 5; n++ {
				wg.Add(1)
				go func(i string) { defer wg.Done(); c.login(i) }(i)
			}
		}
		wg.Wait()
		for i := range c.up {
			c.setFault(i, "ok")
		}
	case "finish":
		if c.up[s(1)] == nil {
			return false
		}
		c.setFault(s(1), s(2))
		c.finish(s(1))
		c.setFault(s(1), "ok")
	case "kill":
		c.kill(s(1))
		delete(c.up, s(1))
	}
	return true
}

func (c *cluster) admin(data map[string][]byte, usable string) {
	c.k.SetSecret(keySecretNS, keySecret, data)
	c.event(keyEvent{Op: "admin", Key: fingerprint(data), Usable: usable})
}

// c16 takes walks through the starts, deaths and logins of instances in many clusters at
// once, and records what happened to the secret; TLC judges the histories.
func c16() {
	p := world.NewIdP()
	defer p.Close()
	p.Tenant("keys").SetKeys(world.PubKey("kid", "keys"))
	var walks [][]polStep
	load("walks.ndjson", func(raw []byte) {
		var s []polStep
		mustUnmarshal(raw, &s)
		walks = append(walks, s)
	})
	r := func(n int) []byte { return securecookie.GenerateRandomKey(n) }
	// secrets whose keys cannot be used, until they are put right
	bad := []map[string][]byte{{}, {"BLOCK_KEY": r(16)}, {"HASH_KEY": r(32), "BLOCK_KEY": r(7)}, {"HASH_KEY": r(32), "BLOCK_KEY": r(33)}, {"hash_key": r(32), "block_key": r(16)}}
	var mu sync.Mutex
	var all []keyHistory
	world.Parallel(10, len(walks)+2*len(bad), func(n int) {
		mu.Lock()
		rnd := rand.New(rand.NewSource(rng.Int63()))
		mu.Unlock()
		c := newCluster(p, n, rnd)
		defer c.end()
		if n < len(walks) {
			for _, s := range walks[n] {
				if !c.step(s.Act) {
					rep.count(fmt.Sprintf("walks cut short at %v", s.Act))
					break
				}
			}
			// whatever happened: once everything works logins begun before can be completed
			for _, i := range []string{"a", "b"} {
				if !c.gone(i) || c.start(i, "ok") {
					c.login(i)
					c.finish(i)
					c.finish(i)
				}
			}
		} else {
			m := n - len(walks)
			c.admin(bad[m/2], "no")
			if c.start("a", "ok") {
				if m%2 == 0 {
					c.login("a")
					c.login("a")
				}
				c.admin(map[string][]byte{"HASH_KEY": r(32), "BLOCK_KEY": r(16)}, "yes")
				c.login("a")
				c.login("a")
				c.finish("a")
			}
		}
		for _, i := range []string{"a", "b"} {
			c.gone(i)
		}
		c.mu.Lock()
		mu.Lock()
		all = append(all, c.hist)
		mu.Unlock()
		c.mu.Unlock()
		rep.behaviour()
	})
	f, err := os.Create(filepath.Join(*traceDir, "keys.ndjson"))
	if err != nil {
		rep.fail("%v", err)
		return
	}
	defer f.Close()
	enc := json.NewEncoder(f)
	for n, h := range all {
		if n == 3 {
			rep.sample(h)
		}
		rep.countN("events recorded", len(h.Events))
		_ = enc.Encode(h)
	}
	rep.countN("keys made by adapters", len(madeBy))
	rep.countN("ms for the walks", int(time.Since(began)/time.Millisecond))
	if how := guessBytes(madeBy); how != "" {
		rep.viol("keys that can be guessed", nil, "random keys", how)
	}
}

// guessBytes looks for a seed of math/rand that gives one of the keys
func guessBytes(keys [][]byte) string {
	type want struct {
		read uint64
		key  []byte
	}
	var ws []want
	var first [256]bool
	var letterKeys []string
	reads := map[uint64][]byte{}
	if len(keys) > 8 { // each instance has a seed of its own: some suffice
		keys = keys[:8]
	}
	for _, k := range keys {
		if strings.Trim(string(k), letters) == "" {
			letterKeys = append(letterKeys, string(k))
		}
		v := binary.LittleEndian.Uint64(append(append([]byte{}, k[:7]...), 0))
		ws = append(ws, want{v, k})
		reads[v] = k
		first[k[0]] = true
	}
	if how := guess(letterKeys); how != "" {
		return how
	}
	var found atomic.Value
	found.Store("")
	const chunk = 1 << 20
	var next int64
	var wg sync.WaitGroup
	for g := 0; g < runtime.NumCPU(); g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				from := uint64(atomic.AddInt64(&next, chunk) - chunk)
				if from >= m31 || found.Load().(string) != "" {
					return
				}
				for s := from; s < from+chunk && s < m31; s++ {
					if s == 0 {
						continue
					}
					x := draw(s, 0)
					low, high := byte(x), byte(x>>32)
					if !first[low] && !first[high] {
						continue
					}
					if k, ok := reads[x&(1<<56-1)]; ok {
						found.Store(fmt.Sprintf("%x is what math/rand seeded with %d reads", k, s))
						return
					}
					for _, w := range ws {
						if w.key[0] != low && w.key[0] != high {
							continue
						}
						a, b := make([]byte, 0, 8), make([]byte, 0, 8)
						for n := 0; n < 8; n++ {
							d := draw(s, n)
							a, b = append(a, byte(d)), append(b, byte(d>>32))
							if a[n] != w.key[n] && b[n] != w.key[n] {
								break
							}
						}
						if bytes.Equal(a, w.key[:8]) || bytes.Equal(b, w.key[:8]) {
							found.Store(fmt.Sprintf("%x is what math/rand seeded with %d gives", w.key, s))
							return
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	return found.Load().(string)
}
