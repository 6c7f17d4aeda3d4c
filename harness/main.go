// Command verifharness drives the go-wasm packages and records what they do,
// one JSON object {"i": input, "o": observation} per line.  The recordings are
// judged by TLC against the specifications; nothing is judged here.
//
//	verifharness PROP gen -seed N -tier T -shard K -shards N -out FILE [-scripts FILE]
//	verifharness PROP exec -in FILE -out FILE
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// Driver generates inputs for one property and runs the code on one input.
type Driver interface {
	// Gen calls emit for every input; kind names the class of the input.
	Gen(g *Gen, emit func(kind string, in any))
	// Run executes the real code on one input and returns the observation.
	Run(in json.RawMessage) any
}

// Gen is the source of all choices.
type Gen struct {
	*rand.Rand
	Tier          string
	Shard, Shards int
	Scripts       string // file with behaviours generated by TLC, may be ""
	counter       int
}

// Mine spreads enumerated cases over the shards.
func (g *Gen) Mine() bool {
	g.counter++
	return g.counter%g.Shards == g.Shard
}

// N scales a number of cases by tier; the count is per shard.
func (g *Gen) N(quick, thorough int) int {
	n := 4 * quick
	if g.Tier == "thorough" {
		n = 2 * thorough
	}
	return (n + g.Shards - 1) / g.Shards
}

// EachScript calls f with this shard's share of the behaviours TLC generated.
func (g *Gen) EachScript(f func(line []byte)) {
	if g.Scripts == "" {
		return
	}
	file, err := os.Open(g.Scripts)
	if err != nil {
		fail(err)
	}
	defer file.Close()
	sc := bufio.NewScanner(file)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		if g.Mine() {
			f(sc.Bytes())
		}
	}
	if err := sc.Err(); err != nil {
		fail(err)
	}
}

func (g *Gen) Chance(p float64) bool { return g.Float64() < p }

func pick[T any](g *Gen, xs ...T) T { return xs[g.Intn(len(xs))] }

var drivers = map[string]Driver{}

type event struct {
	I json.RawMessage `json:"i"`
	O any             `json:"o"`
}

type recorder struct {
	mu       sync.Mutex
	w        *bufio.Writer
	f        *os.File
	inflight *os.File
	cur      json.RawMessage
	start    int64 // unix nano of the running case, 0 if none
	limit    time.Duration
	n        int
}

func newRecorder(out string, limit time.Duration) (*recorder, error) {
	f, err := os.Create(out)
	if err != nil {
		return nil, err
	}
	inf, err := os.Create(out + ".inflight")
	if err != nil {
		return nil, err
	}
	r := &recorder{f: f, w: bufio.NewWriterSize(f, 1<<20), inflight: inf, limit: limit}
	go r.watch()
	return r, nil
}

// watch turns a case that does not come back, or that eats memory without
// bound, into an observation and ends the process.
func (r *recorder) watch() {
	var ms runtime.MemStats
	for {
		time.Sleep(200 * time.Millisecond)
		s := atomic.LoadInt64(&r.start)
		if s == 0 {
			continue
		}
		what := ""
		el := time.Since(time.Unix(0, s))
		if el > r.limit {
			what = "hang"
		} else if el > time.Second {
			runtime.ReadMemStats(&ms)
			if ms.Sys > 6<<30 {
				what = "memory"
			}
		}
		if what == "" {
			continue
		}
		r.mu.Lock()
		if atomic.LoadInt64(&r.start) != s {
			r.mu.Unlock()
			continue
		}
		r.write(r.cur, map[string]any{"st": what})
		r.w.Flush()
		r.f.Close()
		fmt.Fprintf(os.Stderr, "case ended by watchdog: %s\n", what)
		os.Exit(0)
	}
}

func (r *recorder) write(in json.RawMessage, out any) {
	b, err := json.Marshal(event{in, out})
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(3)
	}
	r.w.Write(b)
	r.w.WriteByte('\n')
	r.n++
}

// run executes one case.  A panic is an observation like any other.
func (r *recorder) run(d Driver, in json.RawMessage) {
	var hdr [8]byte
	binary.LittleEndian.PutUint64(hdr[:], uint64(len(in)))
	r.inflight.WriteAt(append(hdr[:], in...), 0)
	r.cur = in
	atomic.StoreInt64(&r.start, time.Now().UnixNano())
	out := guarded(d, in)
	r.mu.Lock()
	atomic.StoreInt64(&r.start, 0)
	r.write(in, out)
	r.mu.Unlock()
}

func guarded(d Driver, in json.RawMessage) (out any) {
	defer func() {
		if p := recover(); p != nil {
			out = map[string]any{"st": "panic", "msg": fmt.Sprint(p)}
		}
	}()
	return d.Run(in)
}

func (r *recorder) close() error {
	if err := r.w.Flush(); err != nil {
		return err
	}
	r.inflight.Close()
	os.Remove(r.inflight.Name())
	return r.f.Close()
}

type stats struct {
	Events   int            `json:"events"`
	Distinct int            `json:"distinct"`
	Kinds    map[string]int `json:"kinds"`
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(3)
}

func main() {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	if len(os.Args) < 3 {
		var names []string
		for n := range drivers {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Println(names)
		os.Exit(3)
	}
	d, ok := drivers[os.Args[1]]
	if !ok {
		fail(fmt.Errorf("unknown property %s", os.Args[1]))
	}
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	out := fs.String("out", "", "")
	in := fs.String("in", "", "")
	scripts := fs.String("scripts", "", "")
	limit := fs.Duration("limit", 15*time.Second, "")
	fs.Parse(os.Args[3:])
	rec, err := newRecorder(*out, *limit)
	if err != nil {
		fail(err)
	}
	switch os.Args[2] {
	case "gen":
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%s/%d", *seed, os.Args[1], *shard)
		g := &Gen{Rand: rand.New(rand.NewSource(int64(h.Sum64()))), Tier: *tier, Shard: *shard, Shards: *shards, Scripts: *scripts}
		st := stats{Kinds: map[string]int{}}
		seen := map[uint64]struct{}{}
		d.Gen(g, func(kind string, v any) {
			b, err := json.Marshal(v)
			if err != nil {
				fail(err)
			}
			hh := fnv.New64a()
			hh.Write(b)
			if _, dup := seen[hh.Sum64()]; dup {
				return
			}
			seen[hh.Sum64()] = struct{}{}
			st.Kinds[kind]++
			rec.run(d, b)
		})
		st.Events, st.Distinct = rec.n, len(seen)
		b, _ := json.Marshal(st)
		os.WriteFile(*out+".stats", b, 0o644)
	case "exec":
		f, err := os.Open(*in)
		if err != nil {
			fail(err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<28)
		for sc.Scan() {
			if len(bytes.TrimSpace(sc.Bytes())) == 0 {
				continue
			}
			var e event
			if err := json.Unmarshal(sc.Bytes(), &e); err != nil {
				fail(err)
			}
			rec.run(d, append(json.RawMessage(nil), e.I...))
		}
		f.Close()
	default:
		fail(fmt.Errorf("unknown mode"))
	}
	if err := rec.close(); err != nil {
		fail(err)
	}
}
