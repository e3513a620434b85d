// Package harness drives the real zyxar/socketio code with environment scripts generated from the TLA+ specifications
// and records what happens, for TLC to validate. It decides nothing itself.
package harness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

// Job is what check.py asks for.
type Job struct {
	Driver  string
	Scripts string // ndjson file, one script per line
	Out     string // directory for the recorded traces, one ndjson file per shard
	Seed    int64
	Shards  int
	Par     int
	Only    int // run this shard only, unless negative
	Params  map[string]interface{}
}

func (j *Job) Int(name string, def int) int {
	if v, ok := j.Params[name].(float64); ok {
		return int(v)
	}
	return def
}

func (j *Job) Str(name, def string) string {
	if v, ok := j.Params[name].(string); ok {
		return v
	}
	return def
}

// Log records one trace; the order of its lines is the order of the calls.
type Log struct {
	mu sync.Mutex
	w  *bufio.Writer
	n  int
}

// E is one event; "ev" is its name.
type E map[string]interface{}

func (l *Log) Ev(e E) {
	l.mu.Lock()
	defer l.mu.Unlock()
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	l.w.Write(b)
	l.w.WriteByte('\n')
	l.n++
}

func (l *Log) flush() { l.mu.Lock(); l.w.Flush(); l.mu.Unlock() }

var logsMu sync.Mutex
var logs []*Log

// hung ends the process because a script does not come to an end; what was recorded shows where.
func hung(lg *Log) {
	lg.Ev(E{"ev": "hang"})
	logsMu.Lock()
	for _, l := range logs {
		if l.mu.TryLock() {
			l.w.Flush()
			l.mu.Unlock()
		}
	}
	if os.Getenv("VERIF_STACKS") != "" {
		b := make([]byte, 1<<20)
		os.Stderr.Write(b[:runtime.Stack(b, true)])
	}
	os.Exit(7)
}

// Ctx is what a driver gets for one shard of the scripts.
type Ctx struct {
	T     *testing.T
	Job   *Job
	Shard int
	Log   *Log
	Rand  *rand.Rand
}

// Op is one step of a script.
type Op map[string]interface{}

func (o Op) S(k string) string { s, _ := o[k].(string); return s }
func (o Op) I(k string) int    { f, _ := o[k].(float64); return int(f) }
func (o Op) B(k string) bool   { b, _ := o[k].(bool); return b }

type driver func(c *Ctx, n int, script []Op)

var drivers = map[string]driver{}

// bubble runs f in virtual time. What never ends in it is recorded.
func (c *Ctx) bubble(f func(t *testing.T)) {
	defer func() {
		if p := recover(); p != nil {
			if s := fmt.Sprint(p); strings.HasPrefix(s, "deadlock:") {
				c.Log.Ev(E{"ev": "leak", "what": s})
				return
			}
			panic(p)
		}
	}()
	synctest.Test(c.T, f)
}

func TestJob(t *testing.T) {
	path := os.Getenv("VJOB")
	if path == "" {
		t.Skip("no job")
	}
	log.SetOutput(io.Discard)
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var j Job
	if err = json.Unmarshal(b, &j); err != nil {
		t.Fatal(err)
	}
	d := drivers[j.Driver]
	if d == nil {
		t.Fatal("no driver", j.Driver)
	}
	f, err := os.Open(j.Scripts)
	if err != nil {
		t.Fatal(err)
	}
	var scripts [][]Op
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var s []Op
		if err = json.Unmarshal(sc.Bytes(), &s); err != nil {
			t.Fatal(err)
		}
		scripts = append(scripts, s)
	}
	if j.Shards < 1 {
		j.Shards = 1
	}
	hookInit(&j)
	for k := 0; k < j.Shards; k++ {
		k := k
		if j.Only >= 0 && k != j.Only {
			continue
		}
		t.Run(fmt.Sprint(k), func(t *testing.T) {
			t.Parallel()
			out, err := os.Create(filepath.Join(j.Out, fmt.Sprintf("%03d.ndjson", k)))
			if err != nil {
				t.Fatal(err)
			}
			defer out.Close()
			lg := &Log{w: bufio.NewWriterSize(out, 1<<16)}
			logsMu.Lock()
			logs = append(logs, lg)
			logsMu.Unlock()
			defer lg.flush()
			began := time.Now()
			for n := k; n < len(scripts); n += j.Shards {
				if time.Since(began) > time.Duration(j.Int("budget", 150))*time.Second {
					break // the code under test is very slow; what was recorded shows where
				}
				c := &Ctx{T: t, Job: &j, Shard: k, Log: lg, Rand: rand.New(rand.NewSource(j.Seed*1000003 + int64(n)))}
				watch := time.AfterFunc(time.Duration(j.Int("hang", 60))*time.Second, func() { hung(lg) })
				d(c, n, scripts[n])
				watch.Stop()
				// a crash of the code under test must not take the recorded part with it
				lg.flush()
			}
		})
	}
}
