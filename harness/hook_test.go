//go:build verif

package harness

import (
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

var held = map[string]chan struct{}{}
var heldMu sync.Mutex

// hold makes whoever reaches scheduling point p wait there until it is released, or for 30 ms.
func hold(p string) {
	heldMu.Lock()
	if held[p] == nil {
		held[p] = make(chan struct{})
	}
	heldMu.Unlock()
}

func unhold(p string) {
	heldMu.Lock()
	if ch := held[p]; ch != nil {
		close(ch)
		delete(held, p)
	}
	heldMu.Unlock()
}

func unholdAll() {
	heldMu.Lock()
	for p, ch := range held {
		close(ch)
		delete(held, p)
	}
	heldMu.Unlock()
}

var hookMode atomic.Int64 // 0: nothing, n: disturb one call in n

// hookInit makes the scheduling points of the code under test yield or delay now and then; they never change behaviour.
func hookInit(j *Job) {
	hook := j.Int("hook", 0)
	if hook == 0 {
		return
	}
	if hook < 0 { // in virtual time: nobody may sleep while others wait for a lock
		yield := func(string) {
			if rand.Intn(-hook) == 0 {
				for i := rand.Intn(40); i >= 0; i-- {
					runtime.Gosched()
				}
			}
		}
		engine.VerifSetHook(yield)
		socketio.VerifSetHook(yield)
		return
	}
	hookMode.Store(int64(hook))
	fn := func(p string) {
		heldMu.Lock()
		ch := held[p]
		heldMu.Unlock()
		if ch != nil {
			select {
			case <-ch:
			case <-time.After(30 * time.Millisecond):
			}
			return
		}
		n := hookMode.Load()
		if n == 0 {
			return
		}
		switch r := rand.Int63n(n * 4); {
		case r == 0:
			time.Sleep(time.Duration(rand.Intn(300)) * time.Microsecond)
		case r < 4:
			for i := rand.Intn(8); i >= 0; i-- {
				runtime.Gosched()
			}
		}
	}
	engine.VerifSetHook(fn)
	socketio.VerifSetHook(fn)
}
