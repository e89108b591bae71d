// P19: conformance runs are recorded completely, and end.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"net"
	"sync"
	"time"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	tdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	reqtestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"

	"verif.local/harness/conf"
	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// mRun and mInst are the reference model of the run store.
type mRun struct {
	id    string
	tests map[testcom.FDOTestID]testcom.FDOTestState
}
type mInst struct {
	id     []byte
	url    string
	to     int
	busy   bool
	cur    string
	runs   []mRun // newest first
	all    map[string]bool
	exists bool
}

func (m *mInst) run(id string) *mRun {
	for i := range m.runs {
		if m.runs[i].id == id {
			return &m.runs[i]
		}
	}
	return nil
}

func diff(m *mInst, e *reqtestsdeps.RequestTestInst) string {
	if !bytes.Equal(e.Uuid, m.id) || e.URL != m.url || int(e.Protocol) != m.to {
		return fmt.Sprintf("identity changed: %x %s %d, was %x %s %d", e.Uuid, e.URL, e.Protocol, m.id, m.url, m.to)
	}
	if e.InProgress != m.busy {
		return fmt.Sprintf("in progress %v, should be %v", e.InProgress, m.busy)
	}
	if len(e.TestsHistory) != len(m.runs) {
		return fmt.Sprintf("%d runs, should be %d", len(e.TestsHistory), len(m.runs))
	}
	for i, r := range e.TestsHistory {
		w := m.runs[i]
		if r.Uuid != w.id {
			return fmt.Sprintf("run %d is %s, should be %s", i, r.Uuid, w.id)
		}
		if int(r.Protocol) != m.to {
			return fmt.Sprintf("run %d has protocol %d", i, r.Protocol)
		}
		if len(r.Tests) != len(w.tests) {
			return fmt.Sprintf("run %d has %d verdicts, should have %d", i, len(r.Tests), len(w.tests))
		}
		for id, st := range w.tests {
			g := r.Tests[id]
			if g.Passed != st.Passed || g.Error != st.Error {
				return fmt.Sprintf("run %d verdict %s is %+v, should be %+v", i, id, g, st)
			}
		}
	}
	return ""
}

// histories drives the store with random operations on several instances.
func histories(c *kit.Check, n int) {
	r := c.Rand(fmt.Sprintf("hist%d", n))
	db := sut.MemDB()
	defer db.Close()
	t := tdbs.NewRequestTestDB(db)
	var insts []*mInst
	all := append(append(conf.Tests(0), conf.Tests(1)...), conf.Tests(2)...)
	trace := []string{}
	log := func(f string, a ...any) {
		if trace = append(trace, fmt.Sprintf(f, a...)); len(trace) > 30 {
			trace = trace[1:]
		}
	}
	check := func(op string) bool {
		for k, m := range insts {
			e, err := t.Get(m.id)
			if !m.exists {
				if !c.Must(err != nil, "phantom", "an instance never saved is read back after %s; last operations %v", op, trace) {
					return false
				}
				continue
			}
			if err != nil {
				c.Violation("unreadable-after-"+op, "instance %d cannot be read after %s: %v; last operations %v", k, op, err, trace)
				return false
			}
			if d := diff(m, e); d != "" {
				c.Violation("model-"+op, "instance %d after %s: %s; last operations %v", k, op, d, trace)
				return false
			}
		}
		return true
	}
	steps := c.N(60, 200)
	long := n%20 == 1 // mostly starts of one instance
	if long {
		steps = c.N(160, 500)
	}
	for s := 0; s < steps; s++ {
		op := ""
		k := r.IntN(20)
		if long && len(insts) > 0 && r.IntN(5) != 0 {
			k = 3
		}
		switch {
		case len(insts) == 0 || k == 0 && len(insts) < 5 && !long:
			op = "save"
			to := r.IntN(3)
			i := reqtestsdeps.NewRequestTestInst(fmt.Sprintf("http://h%d.example.org", r.IntN(1000)), fdoshared.FdoToProtocol(to))
			m := &mInst{id: i.Uuid, url: i.URL, to: to, all: map[string]bool{}, exists: r.IntN(8) != 0}
			if m.exists {
				if err := t.Save(i); err != nil {
					c.Violation("save", "saving an instance: %v", err)
					return
				}
			}
			insts = append(insts, m)
			log("save %d exists=%v", len(insts)-1, m.exists)
		default:
			x := r.IntN(len(insts))
			m := insts[x]
			switch {
			case k < 4:
				op = "start"
				t.StartNewRun(m.id)
				log("start %d", x)
				if !m.exists {
					break
				}
				e, err := t.Get(m.id)
				if err != nil || len(e.TestsHistory) == 0 {
					c.Violation("start", "no run after a start (%v); last operations %v", err, trace)
					return
				}
				id := e.TestsHistory[0].Uuid
				if !c.Must(!m.all[id] && id != "", "run-id", "a new run has the identifier %q of an old one", id) {
					return
				}
				m.all[id] = true
				m.busy, m.cur = true, id
				m.runs = append([]mRun{{id, map[testcom.FDOTestID]testcom.FDOTestState{}}}, m.runs...)
				d := time.Since(time.Unix(e.TestsHistory[0].Timestamp, 0))
				if d < 0 || d > time.Hour {
					d = time.Since(time.UnixMilli(e.TestsHistory[0].Timestamp))
				}
				c.Must(d > -time.Hour && d < time.Hour, "timestamp", "a new run is dated %d", e.TestsHistory[0].Timestamp)
			case k < 12:
				op = "report"
				id := all[r.IntN(len(all))]
				st := testcom.NewSuccessTestState(id)
				if r.IntN(2) == 0 {
					st = testcom.NewFailTestState(id, fmt.Sprintf("err %d", r.IntN(1000)))
				}
				t.ReportTest(m.id, id, st)
				log("report %d %s", x, id)
				if q := m.run(m.cur); q != nil && m.exists {
					q.tests[id] = st
				}
				if m.cur != "" && m.run(m.cur) == nil {
					c.Count("reports to removed runs")
				}
			case k < 15:
				op = "finish"
				t.FinishRun(m.id)
				log("finish %d", x)
				m.busy = false
			default:
				op = "remove"
				var id string
				switch {
				case len(m.runs) > 0 && r.IntN(4) > 0:
					id = m.runs[r.IntN(len(m.runs))].id
				case r.IntN(2) == 0: // a run of another instance
					o := insts[r.IntN(len(insts))]
					if len(o.runs) > 0 {
						id = o.runs[0].id
					}
				default:
					id = fmt.Sprintf("%x", ref.RandBytes(4))
				}
				t.RemoveTestRun(m.id, id)
				log("remove %d %s", x, id)
				for i := range m.runs {
					if m.runs[i].id == id {
						m.runs = append(m.runs[:i:i], m.runs[i+1:]...)
						c.Count("removals")
						break
					}
				}
			}
		}
		c.Eval(fmt.Sprintf("%s/%d", op, len(insts)))
		c.Count("operations")
		if !check(op) {
			return
		}
	}
}

// fault is what happens to the server in the middle of a run.
type fault struct {
	name string
	do   func(w *conf.World, r *rand.Rand, msg int, rep *ref.Reply)
	all  bool // from that request on, not only there
}

var faults = []fault{
	{"none", func(w *conf.World, r *rand.Rand, m int, rep *ref.Reply) {}, false},
	{"drop", func(w *conf.World, r *rand.Rand, m int, rep *ref.Reply) { rep.Drop = true }, false},
	{"drop all", func(w *conf.World, r *rand.Rand, m int, rep *ref.Reply) { rep.Drop = true }, true},
	{"stall", func(w *conf.World, r *rand.Rand, m int, rep *ref.Reply) {
		time.Sleep(time.Duration(r.IntN(40)) * time.Millisecond)
	}, false},
	{"truncate", func(w *conf.World, r *rand.Rand, m int, rep *ref.Reply) {
		if len(rep.Body) > 0 {
			rep.Body = rep.Body[:r.IntN(len(rep.Body))]
		}
	}, false},
	{"truncate all", func(w *conf.World, r *rand.Rand, m int, rep *ref.Reply) {
		if len(rep.Body) > 0 {
			rep.Body = rep.Body[:r.IntN(len(rep.Body))]
		}
	}, true},
	{"refuse all", func(w *conf.World, r *rand.Rand, m int, rep *ref.Reply) {
		rep.Status, rep.Body = 503, []byte("busy")
	}, true},
	{"accept all", func(w *conf.World, r *rand.Rand, m int, rep *ref.Reply) { rep.Status, rep.Type = 200, fmt.Sprint(m+1) }, true},
	{"nonsense", func(w *conf.World, r *rand.Rand, m int, rep *ref.Reply) { rep.Body = ref.RandBytes(r.IntN(80)) }, true},
}

// executions runs the suites against a server that fails at a random request.
func executions(c *kit.Check, n int) {
	r := c.Rand(fmt.Sprintf("exec%d", n))
	to := []int{1, 2, 2, 1, 2, 1, 2, 0}[n%8]
	if to == 0 && !c.Thorough() && n > 16 {
		to = 1
	}
	w, err := conf.New(r, []int{ref.SgES256, ref.SgES384}[r.IntN(2)], []int{ref.SgES256, ref.SgES384, ref.SgRS2048}[r.IntN(3)], 1+r.IntN(3), r.IntN(3))
	if err != nil {
		c.Broken("world: %v", err)
		return
	}
	defer w.Close()
	inst, err := w.Inst(to, w.Srv.URL)
	if err != nil {
		c.Broken("instance: %v", err)
		return
	}
	m := &mInst{id: inst.Uuid, url: inst.URL, to: to, all: map[string]bool{}, exists: true}
	other, err := w.Inst(2, "http://127.0.0.1:1")
	if err != nil {
		c.Broken("instance: %v", err)
		return
	}
	w.Req.StartNewRun(other.Uuid)
	w.Req.ReportTest(other.Uuid, testcom.FIDO_DOT_60_POSITIVE, testcom.NewSuccessTestState(testcom.FIDO_DOT_60_POSITIVE))
	ob, _ := w.Req.Get(other.Uuid)
	obytes := ref.Enc(snap(ob))
	runs := 1 + r.IntN(3)
	if to == 0 {
		runs = 1
	}
	for k := 0; k < runs; k++ {
		f := faults[(n+k*3+r.IntN(2))%len(faults)]
		at := r.IntN([]int{30, 12, 60}[to])
		mode := r.IntN(10)
		use := inst
		where := f.name
		if mode == 0 {
			use.URL, where = closedURL(), "unreachable"
		}
		if mode == 1 && to != 2 {
			use.FdoSeedIDs, where = fdoshared.FdoSeedIDs{fdoshared.StSECP256R1: {fdoshared.NewFdoGuid()}}, "unknown device"
		}
		if mode == 1 && to == 2 {
			use.TestVouchers, where = reqtestsdeps.TestVouchers{}, "no vouchers"
		}
		who := fmt.Sprintf("TO%d run %d, %s at request %d", to, k, where, at)
		// what the store has to look like while this run goes on
		var mu sync.Mutex
		started := false
		removedCur := false
		reqs := 0
		step := func(phase string) {
			e, err := w.Req.Get(m.id)
			if err != nil {
				c.Violation("unreadable", "%s: %v", who, err)
				return
			}
			if !started {
				if len(e.TestsHistory) != len(m.runs)+1 {
					c.Violation("run-count", "%s, %s: %d runs, should be one more than %d", who, phase, len(e.TestsHistory), len(m.runs))
					return
				}
				started = true
				id := e.TestsHistory[0].Uuid
				c.Must(!m.all[id] && id != "", "run-id", "%s: new run has an old identifier", who)
				m.all[id] = true
				m.runs = append([]mRun{{id, map[testcom.FDOTestID]testcom.FDOTestState{}}}, m.runs...)
				m.cur, m.busy = id, true
			}
			// verdicts only get more
			if q := m.run(m.cur); q != nil && len(e.TestsHistory) > 0 {
				for _, h := range e.TestsHistory {
					if h.Uuid != m.cur {
						continue
					}
					for id, st := range h.Tests {
						if old, ok := q.tests[id]; ok && old != st {
							c.Violation("verdict-changed", "%s: %s was %+v, is %+v", who, id, old, st)
						}
						q.tests[id] = st
					}
				}
			}
			if d := diff(m, e); d != "" {
				c.Violation("run-"+phase, "%s, %s: %s", who, phase, d)
			}
			c.Count("looks during runs")
		}
		delAt := -1
		if r.IntN(3) == 0 {
			delAt = r.IntN(at + 2)
		}
		w.Srv.OnReq = func(q *ref.Request, rep *ref.Reply) {
			mu.Lock()
			defer mu.Unlock()
			step("during")
			if reqs == at || f.all && reqs > at {
				f.do(w, r, q.Msg, rep)
				c.Count("faults")
			}
			if reqs == delAt && len(m.runs) > 0 {
				x := r.IntN(len(m.runs))
				id := m.runs[x].id
				w.Req.RemoveTestRun(m.id, id)
				m.runs = append(m.runs[:x:x], m.runs[x+1:]...)
				if id == m.cur {
					removedCur = true
					c.Count("running run removed")
				} else {
					c.Count("old run removed while running")
				}
			}
			reqs++
		}
		ended := make(chan string, 1)
		go func() { ended <- kit.Try(func() { w.Execute(to, use) }) }()
		select {
		case p := <-ended:
			c.Must(p == "", "panic-"+where, "%s: the run panics: %s", who, p)
		case <-time.After(150 * time.Second):
			c.Violation("no-end", "%s: the run does not end", who)
			return
		}
		w.Srv.OnReq = nil
		mu.Lock()
		m.busy = false
		e, err := w.Req.Get(m.id)
		if err != nil {
			c.Violation("unreadable", "%s: %v", who, err)
			mu.Unlock()
			return
		}
		c.Must(!e.InProgress, "stuck-in-progress-"+fmt.Sprint(to), "%s: the run ended but is still marked in progress", who)
		if !started {
			started = true
			if c.Must(len(e.TestsHistory) == len(m.runs)+1, "run-count", "%s: %d runs after the execution, should be %d", who, len(e.TestsHistory), len(m.runs)+1) {
				id := e.TestsHistory[0].Uuid
				m.all[id] = true
				m.runs = append([]mRun{{id, e.TestsHistory[0].Tests}}, m.runs...)
				m.cur = id
			}
		}
		for _, h := range e.TestsHistory {
			if h.Uuid == m.cur {
				if q := m.run(m.cur); q != nil {
					for id, st := range h.Tests {
						q.tests[id] = st
					}
				}
				c.Must(!removedCur, "removed-run-back", "%s: a removed run is back", who)
				c.Must(len(h.Tests) > 0, "empty-run", "%s: a run without any verdict", who)
				bad := 0
				for _, st := range h.Tests {
					if !st.Passed {
						bad++
					}
				}
				if where == "unreachable" || where == "unknown device" || where == "no vouchers" {
					c.Must(bad == len(h.Tests), "pass-without-server", "%s: a run without a server has a passing verdict", who)
					c.Count("runs without a server")
				}
				if bad == 0 && where != "none" {
					c.Count("fault without effect")
				}
			}
		}
		if d := diff(m, e); d != "" {
			c.Violation("run-after", "%s: %s", who, d)
		}
		mu.Unlock()
		o, err := w.Req.Get(other.Uuid)
		c.Must(err == nil && bytes.Equal(ref.Enc(snap(o)), obytes), "other-instance", "%s: another instance changed (%v)", who, err)
		c.Eval(fmt.Sprintf("TO%d/%s/%d", to, where, at))
		c.Count("executions")
		c.Sample("executions", "%s: %d requests, %d verdicts", who, reqs, len(e.CurrentTestRun.Tests))
	}
}

// snap is what of an instance must not change.
func snap(i *reqtestsdeps.RequestTestInst) []any {
	if i == nil {
		return nil
	}
	out := []any{i.Uuid, i.URL, i.InProgress}
	for _, h := range i.TestsHistory {
		out = append(out, h.Uuid, h.Timestamp, len(h.Tests))
	}
	return out
}

func closedURL() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return "http://" + l.Addr().String()
}

func main() {
	kit.Main("P19", func(c *kit.Check) {
		c.Parallel(c.N(120, 1500), func(n int) { histories(c, n) })
		c.Parallel(c.N(96, 900), func(n int) { executions(c, n) })
		c.Rule = "the run store equals a reference model after every operation; during and after every execution it holds exactly one more run, in progress until the execution ends"
		c.Require("operations", 3000)
		c.Require("removals", 100)
		c.Require("reports to removed runs", 20)
		c.Require("executions", 90)
		c.Require("faults", 100)
		c.Require("looks during runs", 1000)
		c.Require("running run removed", 3)
	})
}
