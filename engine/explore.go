package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Harness struct {
	name     string
	fn       *ssa.Function
	deadline time.Time
	pend     []*workItem // left over at the deadline
	hard     time.Time
	start    time.Time

	mu        sync.Mutex
	paths     int64
	ended     int64
	aborted   map[string]int64
	unknown   int64
	asserts   map[string]int64
	covers    map[string]int64
	repr      map[string]int64
	stats     pathStats
	steps     int64
	maxDepth  int
	exhausted bool
	left      int
	samples   []map[string]interface{}
	valid     []nativeJob
	wall      float64
	maxPC     int
}

type nativeJob struct {
	Harness string            `json:"harness"`
	Tier    string            `json:"tier"`
	Values  map[string]uint64 `json:"values"`
	expect  []string
}

type Violation struct {
	harness, label, native string
	values                 map[string]uint64
	replay                 string
}

type Explorer struct {
	snapOnce sync.Once
	snap     *snapshot
	P        *Program
	prop     string
	tier     string
	workers  int
	maxSteps int
	noMerge  bool
	noFD     bool
	verbose  bool
	z3       string
	qtmo     int

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []*workItem
	busy    int
	stopped int32

	cur   *Harness
	fmu   sync.Mutex
	fns   map[string]int64
	fseen sync.Map

	vmu        sync.Mutex
	tried      map[string]int
	violations []Violation
	unrepro    []string
	engErrs    []string
	known      map[string]string
	knownSeen  map[string]string
	native     *Native
	solverStat struct {
		q, sat, unsat, unk, err int64
		t                       time.Duration
	}
	maxViol int
}

type Worker struct {
	id     int
	ex     *Explorer
	solver *Solver
}

func (ex *Explorer) push(w *workItem) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, w)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) pop() *workItem {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if atomic.LoadInt32(&ex.stopped) != 0 || time.Now().After(ex.cur.deadline) {
			ex.cond.Broadcast()
			return nil
		}
		if n := len(ex.queue); n > 0 {
			w := ex.queue[n-1]
			ex.queue = ex.queue[:n-1]
			ex.busy++
			return w
		}
		if ex.busy == 0 {
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.busy--
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

// runHarness explores all paths of one harness until its deadline.
func (ex *Explorer) runHarness(h *Harness, ws []*Worker) {
	h.start = time.Now()
	ex.cur = h
	ex.queue = h.pend
	if ex.queue == nil {
		ex.queue = []*workItem{{h: h, model: Model{}}}
	}
	h.pend = nil
	ex.busy = 0
	var wg sync.WaitGroup
	stopTick := make(chan struct{})
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-stopTick:
				return
			case <-t.C:
				ex.cond.Broadcast()
			}
		}
	}()
	for _, w := range ws {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				it := ex.pop()
				if it == nil {
					return
				}
				w.runPath(it)
				ex.done()
			}
		}(w)
	}
	wg.Wait()
	close(stopTick)
	h.left = len(ex.queue)
	h.exhausted = h.left == 0 && atomic.LoadInt32(&ex.stopped) == 0
	h.pend = ex.queue
	ex.queue = nil
	h.wall += time.Since(h.start).Seconds()
}

func (w *Worker) runPath(it *workItem) {
	mk := func() *Interp {
		return &Interp{w: w, P: w.ex.P, h: it.h, ctx: newCtx(), prefix: it.prefix,
			globals: map[*ssa.Global]*Value{}, inits: map[*ssa.Package]int{}, names: map[string]int{},
			hashEq: map[[2]int]*Term{}, hashAx: map[[2]int]bool{}, vsets: map[*Term]*vsetInfo{}, stats: &pathStats{}, maxSize: 600}
	}
	in := mk()
	if s := w.ex.takeSnapshot(w, mk); s != nil {
		s.restore(in)
	}
	w.solver.slow = func(d time.Duration) {
		w.ex.debug("slow query %.1fs ndecl=%d axioms=%d pc=%d cert=%d at %s", d.Seconds(), len(w.solver.decl), len(in.axioms), len(in.pc), len(in.cert), in.where())
	}
	in.trace = make([]dec, 0, len(it.prefix)+16)
	in.setModel(it.model)
	h := it.h
	defer func() {
		r := recover()
		if _, dl := r.(deadlineHit); !dl {
			func() {
				defer func() {
					if r := recover(); r != nil {
						w.ex.engineError(it.h, fmt.Sprintf("certification: %v", r))
					}
				}()
				in.certify()
			}()
		}
		if in.scope {
			func() {
				defer func() { recover() }()
				w.solver.pop()
			}()
		}
		why := ""
		end := false
		switch r := r.(type) {
		case nil:
			end = true
		case pathEnd:
			why = "assume"
		case pathAbort:
			why = "abort: " + r.why
		case solverDied:
			why = "solver: " + r.why
			w.ex.debug("solver died: %s", r.why)
			w.solver.restart()
		case deadlineHit:
			why = "deadline"
		default:
			if w.ex.verbose {
				panic(r)
			}
			why = fmt.Sprintf("engine: %v", r)
		}
		h.mu.Lock()
		h.paths++
		if end {
			h.ended++
		} else {
			if h.aborted == nil {
				h.aborted = map[string]int64{}
			}
			h.aborted[why]++
		}
		h.stats.decides += in.stats.decides
		h.stats.fd += in.stats.fd
		h.stats.certified += in.stats.certified
		h.stats.forks += in.stats.forks
		h.stats.implied += in.stats.implied
		h.stats.asserts += in.stats.asserts
		h.stats.merges += in.stats.merges
		h.steps += int64(in.steps)
		if len(in.trace) > h.maxDepth {
			h.maxDepth = len(in.trace)
		}
		if len(in.pc) > h.maxPC {
			h.maxPC = len(in.pc)
		}
		h.mu.Unlock()
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				in.violation("panic: "+in.panicText(tp)+" at "+tp.site, in.model, nil)
			}
		}()
		in.callFn(h.fn, nil, nil)
	}()
	w.ex.sampleValid(in)
}

// engineError records a disagreement inside the machinery; the run is then no verdict.
func (ex *Explorer) engineError(h *Harness, what string) {
	ex.vmu.Lock()
	defer ex.vmu.Unlock()
	if len(ex.engErrs) < 10 {
		ex.engErrs = append(ex.engErrs, h.name+": "+what)
	}
	ex.debug("ENGINE ERROR %s %s", h.name, what)
}

type deadlineHit struct{}

// sampleValid keeps some finished paths for validation against the native build.
func (ex *Explorer) sampleValid(in *Interp) {
	h := in.h
	h.mu.Lock()
	n := h.ended
	take := len(h.valid) < 24 && (n < 8 || n%((n/8)+1) == 0)
	h.mu.Unlock()
	if !take {
		return
	}
	m, ok := in.realModel(in.model, nil)
	if !ok {
		return
	}
	e := newEval(m)
	j := nativeJob{Harness: h.name, Tier: ex.tier, Values: in.values(m)}
	for _, o := range in.obs {
		j.expect = append(j.expect, renderObs(o, e))
	}
	h.mu.Lock()
	h.valid = append(h.valid, j)
	if len(h.samples) < 3 {
		h.samples = append(h.samples, map[string]interface{}{"harness": h.name, "inputs": in.values(m), "observations": j.expect,
			"decisions": len(in.trace), "path_condition_atoms": len(in.pc)})
	}
	h.mu.Unlock()
}

func renderObs(o obsRec, e *evaluator) string {
	switch o.kind {
	case 'b':
		b := make([]byte, len(o.vals))
		for i, t := range o.vals {
			b[i] = byte(e.eval(t))
		}
		return fmt.Sprintf("%s=%x", o.name, b)
	case 'i':
		t := o.vals[0]
		return fmt.Sprintf("%s=%d", o.name, sext(e.eval(t), t.w))
	default:
		return fmt.Sprintf("%s=%v", o.name, e.eval(o.vals[0]) != 0)
	}
}

func (in *Interp) values(m Model) map[string]uint64 {
	r := map[string]uint64{}
	for _, iv := range in.inputs {
		if iv.t == nil {
			r[iv.name] = iv.v
		} else if v := m[iv.t.name]; v != 0 {
			r[iv.name] = v
		}
	}
	return r
}

func (ex *Explorer) debug(f string, a ...interface{}) {
	if ex.verbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func (ex *Explorer) noteUnknown(h *Harness) { atomic.AddInt64(&h.unknown, 1) }
func (ex *Explorer) noteAssert(h *Harness, l string) {
	h.mu.Lock()
	if h.asserts == nil {
		h.asserts = map[string]int64{}
	}
	h.asserts[l]++
	h.mu.Unlock()
}
func (ex *Explorer) noteCover(h *Harness, l string) {
	h.mu.Lock()
	if h.covers == nil {
		h.covers = map[string]int64{}
	}
	h.covers[l]++
	h.mu.Unlock()
}
func (ex *Explorer) noteRepr(h *Harness, l string) {
	h.mu.Lock()
	if h.repr == nil {
		h.repr = map[string]int64{}
	}
	h.repr[l]++
	h.mu.Unlock()
}
func (ex *Explorer) noteFunc(c *code) {
	if _, ok := ex.fseen.Load(c); !ok {
		ex.fseen.Store(c, true)
	}
}

func (ex *Explorer) functions() (repo, other []string) {
	ex.fseen.Range(func(k, _ interface{}) bool {
		n := k.(*code).name
		if strings.Contains(n, modPath+"/verifh") {
			return true
		}
		if strings.Contains(n, modPath) {
			repo = append(repo, strings.ReplaceAll(n, modPath+"/", ""))
		} else {
			other = append(other, n)
		}
		return true
	})
	sort.Strings(repo)
	sort.Strings(other)
	return
}

func (ex *Explorer) knownFinding(id string) bool { _, ok := ex.known[id]; return ok }
func (ex *Explorer) findingSeen(id string) bool {
	ex.vmu.Lock()
	defer ex.vmu.Unlock()
	_, ok := ex.knownSeen[id]
	return ok
}

func (ex *Explorer) candidateFinding(in *Interp, id string, m Model, c *Term) {
	m2, okm := in.realModel(m, c)
	vals := in.values(m2)
	ex.vmu.Lock()
	defer ex.vmu.Unlock()
	if _, ok := ex.knownSeen[id]; ok || ex.tried["known:"+id] > 6 {
		return
	}
	ex.tried["known:"+id]++
	o, err := ex.native.run(nativeJob{Harness: in.h.name, Tier: ex.tier, Values: vals}, 1)
	if err == nil && o.Known == id {
		ex.knownSeen[id] = fmt.Sprintf("%s %v", in.h.name, vals)
	} else {
		ex.debug("UNREPRODUCED %s known %s real=%v native=%q/%q/%q vals=%v", in.h.name, id, okm, o.Known, o.Fail, o.Panic, vals)
	}
}

// candidate replays a counterexample natively; only what reproduces is a violation.
func (ex *Explorer) candidate(in *Interp, label string, m Model, extra *Term) {
	key := in.h.name + "|" + label
	ex.vmu.Lock()
	n := ex.tried[key]
	ex.tried[key]++
	ex.vmu.Unlock()
	if n >= 8 || atomic.LoadInt32(&ex.stopped) != 0 {
		return
	}
	m2, okm := in.realModel(m, extra)
	vals := in.values(m2)
	o, err := ex.native.run(nativeJob{Harness: in.h.name, Tier: ex.tier, Values: vals}, 12)
	ex.vmu.Lock()
	defer ex.vmu.Unlock()
	if err != nil {
		ex.unrepro = append(ex.unrepro, fmt.Sprintf("%s: %s: native replay failed: %v", in.h.name, label, err))
		ex.debug("native error %v", err)
		return
	}
	if o.Known != "" && label == "finding "+o.Known {
		o.Fail = "finding " + o.Known + ", which is not listed" // reproduced
	}
	if o.Fail == "" && o.Panic == "" {
		ex.debug("UNREPRODUCED %s %s real=%v skipped=%v known=%q vals=%v", in.h.name, label, okm, o.Skipped, o.Known, vals)
		if len(ex.unrepro) < 20 {
			ex.unrepro = append(ex.unrepro, fmt.Sprintf("%s: %s (consistent with the real hash: %v)", in.h.name, label, okm))
		}
		return
	}
	nat := o.Fail
	if o.Panic != "" {
		nat = "panic: " + o.Panic
	}
	v := Violation{harness: in.h.name, label: label, native: nat, values: vals}
	ex.debug("VIOLATION %s %s native=%s vals=%v\n%s", in.h.name, label, nat, vals, o.Stack)
	ex.violations = append(ex.violations, v)
	if len(ex.violations) >= ex.maxViol {
		atomic.StoreInt32(&ex.stopped, 1)
		ex.cond.Broadcast()
	}
}
