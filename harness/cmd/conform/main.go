// conform drives the real adapter through behaviours generated from the TLA+
// specification and/or records traces the specification is checked against.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/harness/world"
)

var (
	inDir    = flag.String("in", "", "directory with the specification's cases and walks")
	outFile  = flag.String("out", "", "result file")
	traceDir = flag.String("trace", "", "directory for recorded traces")
	seed     = flag.Int64("seed", 1, "random seed")
	tier     = flag.String("tier", "quick", "quick or thorough")
	scratch  = flag.String("scratch", "", "scratch directory")
	deadline = flag.Duration("deadline", 0, "report what there is after this time")
	program  = flag.String("program", "", "the program as it is delivered")
	known    = flag.String("known", "", "keys of known findings, one per line")
	only     = flag.String("only", "", "replay only this case (JSON)")
)

// Violation is a disagreement between the code and the specification
type Violation struct {
	Key      string      `json:"key"` // identifies the failing input, site or history
	Case     interface{} `json:"case"`
	Expected string      `json:"expected"`
	Observed string      `json:"observed"`
}

// Report is the outcome of a run
type Report struct {
	mu         sync.Mutex
	Checked    int            `json:"checked"`    // comparisons with the specification made
	Behaviours int            `json:"behaviours"` // cases, walks or traces run against the code
	Skipped    int            `json:"skipped"`
	Counts     map[string]int `json:"counts"`
	Violations []Violation    `json:"violations"`
	NViol      int            `json:"n_violations"`
	perKey     map[string]int
	ending     bool
	Samples    []interface{}          `json:"samples"`
	Errors     []string               `json:"errors"`
	Traces     []string               `json:"traces"`
	Extra      map[string]interface{} `json:"extra,omitempty"`
}

func (r *Report) ok(n int) {
	r.mu.Lock()
	r.Checked += n
	r.mu.Unlock()
}

func (r *Report) behaviour() {
	r.mu.Lock()
	r.Behaviours++
	r.mu.Unlock()
}

func (r *Report) count(k string) {
	r.mu.Lock()
	r.Counts[k]++
	r.mu.Unlock()
}

func (r *Report) countN(k string, n int) {
	r.mu.Lock()
	r.Counts[k] += n
	r.mu.Unlock()
}

func (r *Report) skip(why string) {
	r.mu.Lock()
	r.Skipped++
	r.Counts["skipped: "+why]++
	r.mu.Unlock()
}

func (r *Report) sample(v interface{}) {
	r.mu.Lock()
	if len(r.Samples) < 5 {
		r.Samples = append(r.Samples, v)
	}
	r.mu.Unlock()
}

func (r *Report) viol(key string, c interface{}, expected, observed string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.perKey == nil {
		r.perKey = map[string]int{}
	}
	if r.perKey[key]++; r.perKey[key] > 3 {
		return
	}
	r.NViol++
	if !r.ending {
		if r.ending = !has(strings.Split(*known, "\n"), key); r.ending {
			time.AfterFunc(45*time.Second, finish) // what follows adds nothing to the verdict
		}
	}
	if len(r.Violations) < 200 {
		r.Violations = append(r.Violations, Violation{key, c, expected, observed})
	}
}

func (r *Report) fail(format string, a ...interface{}) {
	r.mu.Lock()
	if len(r.Errors) < 50 {
		r.Errors = append(r.Errors, fmt.Sprintf(format, a...))
	}
	r.mu.Unlock()
}

func (r *Report) nviol() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.NViol
}

// crash reports the adapter's end: a violation if its own code is to blame
func (r *Report) crash(a *world.Adapter, during interface{}) bool {
	dead, words := a.Crashed()
	if !dead {
		return false
	}
	if strings.Contains(words, "app-identity-and-access-adapter/adapter") || strings.Contains(words, "/adapter/") {
		r.viol("crash", during, "the adapter keeps running", "the adapter crashed: "+short(words, 3000))
	} else {
		r.fail("the adapter ended: %s", short(words, 2000))
	}
	return true
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// load reads an ndjson file written by TLC
func load(name string, each func(raw []byte)) {
	f, err := os.Open(filepath.Join(*inDir, name))
	if err != nil {
		rep.fail("cannot read %s: %v", name, err)
		finish()
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			each(append([]byte{}, sc.Bytes()...))
		}
	}
}

func mustUnmarshal(raw []byte, v interface{}) {
	if err := json.Unmarshal(raw, v); err != nil {
		rep.fail("bad specification output %s: %v", short(string(raw), 200), err)
		finish()
	}
}

var (
	rep   = &Report{Counts: map[string]int{}, Extra: map[string]interface{}{}}
	rng   *rand.Rand
	began = time.Now()
)

func finish() {
	rep.mu.Lock()
	b, _ := json.MarshalIndent(rep, "", " ")
	if err := ioutil.WriteFile(*outFile, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	if len(rep.Errors) > 0 && len(rep.Violations) == 0 {
		fmt.Fprintln(os.Stderr, strings.Join(rep.Errors, "\n"))
		os.Exit(5)
	}
	os.Exit(0)
}

func newWorld() *world.World {
	w, err := world.NewWorld(*scratch)
	if err != nil {
		if w2 := fmt.Sprint(err); strings.Contains(w2, "/adapter/") && strings.Contains(w2, "panic") {
			rep.viol("start", nil, "the adapter starts", short(w2, 3000))
		} else {
			rep.fail("cannot start the adapter: %v", err)
		}
		finish()
	}
	return w
}

var props = map[string]func(){}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "adapter" {
		world.AdapterMain()
		return
	}
	prop := flag.String("prop", "", "property")
	flag.Parse()
	rng = rand.New(rand.NewSource(*seed))
	if *scratch == "" {
		d, err := ioutil.TempDir("", "conform")
		if err != nil {
			panic(err)
		}
		*scratch = d
		defer os.RemoveAll(d)
	}
	f := props[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(6)
	}
	if *deadline > 0 {
		time.AfterFunc(*deadline, func() {
			rep.fail("not done after %s", *deadline)
			finish()
		})
	}
	f()
	finish()
}
