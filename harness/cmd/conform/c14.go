package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/world"
)

func init() { props["C14"] = c14 }

// idBatch is a line of the trace (Trace_Ids)
type idBatch struct {
	Run        string  `json:"run"`
	Kind       string  `json:"kind"`
	Sequential bool    `json:"sequential"`
	Statistics bool    `json:"statistics"`
	Guessed    string  `json:"guessed"`
	IDs        [][]int `json:"ids"`
	States     [][]int `json:"states"`
}

func codes(s string) []int {
	out := make([]int, len(s))
	for i := range s {
		out[i] = int(s[i])
	}
	return out
}

// c14Pair is what one login hands out
type c14Pair struct{ state, session string }

func c14() {
	w := newWorld()
	defer w.Close()
	const ns = "c14"
	t := w.IdP.Tenant(ns)
	t.SetKeys(world.PubKey("k", "web-k"))
	ids := []string{"c14-a", "c14-b"}
	for n, id := range ids {
		w.Oidc(ns, id, t, id, "s", nil)
		w.Apply("policies", ns, id, world.Paths(fmt.Sprintf("s%d", n), world.PathEntry("prefix", "/", "", "oidc", id, nil)))
	}
	w.Barrier(30 * time.Second)
	tokens := mintRole("web-k", "k", ids, "r", 10*time.Hour).json()
	t.OnToken(func(grant string, h world.Hit) (world.Reply, bool) { return world.Reply{Body: tokens}, true })
	one := func(a *world.Adapter, n int) (c14Pair, error) {
		r := Req{NS: ns, Svc: fmt.Sprintf("s%d", n%2), Path: "/a", Method: "GET"}
		res := a.Do(r)
		ck := res.SetCookie()
		if !res.IsLogin(t) || ck == nil {
			return c14Pair{}, fmt.Errorf("no login: %s", res)
		}
		p := c14Pair{state: res.LocationURL().Query().Get("state")}
		r.Path += "/oidc/callback"
		r.Code, r.State, r.Cookies = "c", p.state, ck.Name+"="+ck.Value
		res = a.Do(r)
		sc := res.SetCookie()
		if res.Kind != "REDIRECT" || res.IsLogin(t) || sc == nil {
			return c14Pair{}, fmt.Errorf("no session: %s", res)
		}
		p.session = sc.Value
		return p, nil
	}
	var batches []idBatch
	add := func(run string, seq, stat bool, pairs []c14Pair) {
		st := idBatch{Run: run, Kind: "state", Sequential: seq, Statistics: stat, States: [][]int{}}
		se := idBatch{Run: run, Kind: "session", Sequential: seq, Statistics: stat, States: [][]int{}}
		for _, p := range pairs {
			st.IDs = append(st.IDs, codes(p.state))
			se.IDs = append(se.IDs, codes(p.session))
			if stat {
				se.States = append(se.States, codes(p.state))
			}
		}
		batches = append(batches, st, se)
		rep.behaviour()
		rep.ok(2 * len(pairs))
		rep.countN("logins: "+run, len(pairs))
	}
	burst := func(a *world.Adapter, workers, n int) []c14Pair {
		var mu sync.Mutex
		var out []c14Pair
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < workers; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for i := 0; i < n; i++ {
					p, err := one(a, g)
					if err != nil {
						rep.fail("a login failed: %v", err)
						return
					}
					mu.Lock()
					out = append(out, p)
					mu.Unlock()
				}
			}(g)
		}
		close(start)
		wg.Wait()
		return out
	}
	n, per := 3000, 100
	if *tier == "thorough" {
		n, per = 12000, 400
	}

	// runs begun at the same moment, and one run after the other
	const runs = 4
	firsts := make([][]c14Pair, runs+2)
	begin := func(k int) *world.Adapter {
		a, err := world.StartAdapter(w.Kube, *scratch, 60*time.Second)
		if err != nil {
			rep.fail("cannot start another adapter: %v", err)
			return nil
		}
		// the very first ids it hands out
		for end := time.Now().Add(30 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
			if p, err := one(a, 0); err == nil {
				firsts[k] = append(firsts[k], p)
				for len(firsts[k]) < 100 {
					p, err := one(a, len(firsts[k]))
					if err != nil {
						break
					}
					firsts[k] = append(firsts[k], p)
				}
				return a
			}
		}
		rep.fail("another adapter does not serve")
		a.Kill()
		return nil
	}
	world.Parallel(runs, runs, func(k int) {
		if a := begin(k); a != nil {
			a.Kill()
		}
	})
	for k := runs; k < runs+2; k++ {
		if a := begin(k); a != nil {
			a.Kill()
		}
	}
	for k, f := range firsts {
		add(fmt.Sprintf("first of run %d", k), true, false, f)
	}

	var pairs []c14Pair
	for i := 0; i < n; i++ {
		p, err := one(w.A, i)
		if err != nil {
			rep.fail("a login failed: %v", err)
			return
		}
		pairs = append(pairs, p)
	}
	add("one after the other", true, true, pairs)
	conc := burst(w.A, 64, per)
	if len(conc) > 3000 {
		add("at the same time, rest", false, false, conc[3000:])
		conc = conc[:3000]
	}
	add("at the same time", false, true, conc)
	if rep.crash(w.A, "logins") {
		return
	}
	if len(firsts[0]) > 0 && len(firsts[runs]) > 0 {
		var targets []string
		for _, k := range []int{0, runs} {
			targets = append(targets, []string{firsts[k][0].state, firsts[k][0].session}[k/runs])
		}
		began := time.Now()
		if how := guess(targets); how != "" {
			batches[0].Guessed = how
		}
		rep.countN("seeds the attacker tried", 1<<31-2)
		rep.Extra["attack took"] = time.Since(began).String()
	}
	f, err := os.Create(filepath.Join(*traceDir, "ids.ndjson"))
	if err != nil {
		rep.fail("%v", err)
		return
	}
	defer f.Close()
	enc := json.NewEncoder(f)
	for _, b := range batches {
		_ = enc.Encode(b)
	}
	if len(pairs) > 2 {
		rep.sample(map[string]interface{}{"states": []string{pairs[0].state, pairs[1].state}, "sessions": []string{pairs[0].session, pairs[1].session}})
	}
}

// --- the attacker: all seeds of Go's math/rand ---

const m31 = 1<<31 - 1

func mod31(x uint64) uint64 {
	x = (x & m31) + (x >> 31)
	x = (x & m31) + (x >> 31)
	if x >= m31 {
		x -= m31
	}
	return x
}

// jumps[k] is 48271^k mod 2^31-1
var jumps = func() (j [2000]uint64) {
	j[0] = 1
	for i := 1; i < len(j); i++ {
		j[i] = mod31(j[i-1] * 48271)
	}
	return
}()

func vec(seed uint64, i int) uint64 {
	a := 21 + 3*i
	u := mod31(seed*jumps[a]) << 40
	u ^= mod31(seed*jumps[a+1]) << 20
	u ^= mod31(seed * jumps[a+2])
	return u ^ uint64(rngCooked[i])
}

// draw is the k-th number (Int63) of math/rand seeded so, for k < 273
func draw(seed uint64, k int) uint64 { return (vec(seed, 333-k) + vec(seed, 606-k)) & math.MaxInt64 }

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// The ways to make letters from draws. Each tells whether the seed gives the target,
// x being its first draw.
var makers = []struct {
	name string
	fits func(seed, x uint64, t []uint8) bool
}{
	{"Intn", func(s, x uint64, t []uint8) bool {
		const max = 1<<31 - 1 - (1<<31)%52
		k := 0
		for _, want := range t {
			v := uint32(x >> 32)
			for v > max {
				k++
				v = uint32(draw(s, k) >> 32)
			}
			if uint8(v%52) != want {
				return false
			}
			k++
			x = draw(s, k)
		}
		return true
	}},
	{"Int63 modulo", func(s, x uint64, t []uint8) bool {
		for k, want := range t {
			if uint8(x%52) != want {
				return false
			}
			x = draw(s, k+1)
		}
		return true
	}},
	{"Float64", func(s, x uint64, t []uint8) bool {
		for k, want := range t {
			if uint8(float64(x)/(1<<63)*52) != want {
				return false
			}
			x = draw(s, k+1)
		}
		return true
	}},
	{"6 bits of Int63 each, backwards", func(s, x uint64, t []uint8) bool {
		for i, k, remain := len(t)-1, 0, 10; i >= 0; remain-- {
			if remain == 0 {
				k++
				x, remain = draw(s, k), 10
			}
			if idx := uint8(x & 63); idx < 52 {
				if idx != t[i] {
					return false
				}
				i--
			}
			x >>= 6
		}
		return true
	}},
	{"6 bits of Int63 each", func(s, x uint64, t []uint8) bool {
		for i, k, remain := 0, 0, 10; i < len(t); remain-- {
			if remain == 0 {
				k++
				x, remain = draw(s, k), 10
			}
			if idx := uint8(x & 63); idx < 52 {
				if idx != t[i] {
					return false
				}
				i++
			}
			x >>= 6
		}
		return true
	}},
	{"the lowest 6 bits of Int63", func(s, x uint64, t []uint8) bool {
		for i, k := 0, 0; i < len(t) && k < 200; {
			if idx := uint8(x & 63); idx < 52 {
				if idx != t[i] {
					return false
				}
				i++
			}
			k++
			x = draw(s, k)
		}
		return true
	}},
}

// guess looks for a seed that gives one of the ids; "" if there is none
func guess(targets []string) string {
	var ts [][]uint8
	var names []string
	for _, t := range targets {
		if len(t) >= 8 && strings.Trim(t, letters) == "" {
			b := make([]uint8, len(t))
			for i := range t {
				b[i] = uint8(strings.IndexByte(letters, t[i]))
			}
			ts, names = append(ts, b), append(names, t)
		}
	}
	if len(ts) == 0 {
		return ""
	}
	// the letter made first decides for most seeds
	var letter, bits [64]bool
	for _, t := range ts {
		letter[t[0]], bits[t[0]], bits[t[len(t)-1]] = true, true, true
	}
	for i := 52; i < 64; i++ {
		bits[i] = true
	}
	var found atomic.Value
	found.Store("")
	const chunk = 1 << 20
	var next int64
	var wg sync.WaitGroup
	for g := 0; g < runtime.NumCPU(); g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				from := uint64(atomic.AddInt64(&next, chunk) - chunk)
				if from >= m31 || found.Load().(string) != "" {
					return
				}
				for s := from; s < from+chunk && s < m31; s++ {
					if s == 0 {
						continue
					}
					x := draw(s, 0)
					b := x
					for b&63 > 51 && b > 63 {
						b >>= 6
					}
					if !(letter[x%52] || letter[(x>>32)%52] || letter[uint8(float64(x)/(1<<63)*52)] || bits[b&63] || x&63 > 51 && draw(s, 1)&63 > 51 || x>>32 > 1<<31-53) {
						if x&63 <= 51 || !bits[draw(s, 1)&63] {
							continue
						}
					}
					for n, t := range ts {
						for m := range makers {
							if makers[m].fits(s, x, t) {
								found.Store(fmt.Sprintf("%s is what math/rand seeded with %d gives (%s)", names[n], s, makers[m].name))
								return
							}
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	return found.Load().(string)
}
