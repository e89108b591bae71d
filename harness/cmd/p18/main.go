// P18: a conformance verdict tells a conforming server from a broken one.
package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to0"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"

	"verif.local/harness/conf"
	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// judge compares each verdict with what the server saw; it returns whether every test got a verdict.
func judge(c *kit.Check, who string, to int, segs []conf.Segment, rest []conf.Seen) {
	seen := map[testcom.FDOTestID]int{}
	want := map[testcom.FDOTestID]bool{}
	for _, id := range conf.Tests(to) {
		want[id] = true
	}
	failed := false
	for _, s := range segs {
		seen[s.ID]++
		badAnswer, defects, refused := "", 0, true
		for _, q := range s.Seen {
			switch {
			case q.Fault == "" && !q.Good:
				badAnswer = q.How
			case q.Fault != "":
				defects++
				refused = refused && q.Good
			}
		}
		setup := s.ID == testcom.NULL_TEST || s.ID == testcom.NULL_TO1_SETUP
		key := fmt.Sprintf("%s/%s", s.ID, outcome(s))
		c.Eval(key)
		c.Must(seen[s.ID] == 1, "verdict-changed-"+string(s.ID), "%s: a second verdict: %v", who, s)
		c.Must(want[s.ID] || setup && !s.State.Passed, "foreign-verdict", "%s: verdict under an identifier that is not part of the run: %v", who, s)
		c.Must(s.State.TestID == s.ID, "verdict-id-"+string(s.ID), "%s: the verdict does not carry its identifier: %v", who, s)
		if !s.State.Passed {
			failed = true
		}
		switch {
		case badAnswer != "":
			c.Count("verdicts on wrong answers")
			c.Must(!s.State.Passed, "pass-after-bad-answer-"+string(s.ID), "%s: passed although a correct request was answered wrongly (%s): %v", who, badAnswer, s)
		case setup:
			c.Violation("setup-failed", "%s: setup fails although the server answered everything correctly: %v", who, s)
		case conf.Positive(s.ID):
			c.Count("verdicts on correct answers")
			if c.Must(defects == 0, "positive-defect-"+string(s.ID), "%s: a conforming server has to refuse the request of a positive test: %v", who, s) {
				c.Must(len(s.Seen) > 0, "not-posed-"+string(s.ID), "%s: verdict without a request: %v", who, s)
				c.Must(s.State.Passed, "fail-conforming-"+string(s.ID), "%s: a conforming server fails: %v", who, s)
			}
		default:
			if !c.Must(defects > 0, "not-posed-"+string(s.ID), "%s: the negative test sent nothing defective: %v", who, s) {
				continue
			}
			l := s.Seen[len(s.Seen)-1]
			c.Must(l.Fault != "" && l.Msg == conf.Msg(s.ID), "posed-elsewhere-"+string(s.ID), "%s: the defect is not in the tested message: %v", who, s)
			if defects == 1 && refused {
				c.Count("verdicts on refusals")
				c.Must(s.State.Passed, "fail-refused-"+string(s.ID), "%s: a defective request was refused properly, yet the test fails: %v", who, s)
			}
			if defects == 1 && !refused {
				c.Count("verdicts on missing refusals")
				c.Must(!s.State.Passed, "pass-not-refused-"+string(s.ID), "%s: passed although the defective request was not refused properly: %v", who, s)
			}
		}
	}
	for id := range want {
		c.Must(seen[id] > 0 || failed, "no-verdict-"+string(id), "%s: no verdict for %s", who, id)
	}
	_ = rest
}

func outcome(s conf.Segment) string {
	h := map[string]bool{}
	for _, q := range s.Seen {
		if !q.Good || q.Fault != "" {
			h[fmt.Sprintf("%d:%s", q.Msg, q.How)] = true
		}
	}
	k := []string{}
	for x := range h {
		k = append(k, x)
	}
	return strings.Join(k, "+")
}

// direct asks every TO0 test for its verdict on every kind of answer (a whole run makes a voucher per test, so runs only sample these).
func direct(c *kit.Check) {
	// (a _POSITIVE test is a whole exchange, posed by the executor)
	tests := slices.DeleteFunc(conf.Tests(0), func(id testcom.FDOTestID) bool { return strings.HasSuffix(string(id), "_POSITIVE") })
	c.Parallel(len(tests), func(n int) {
		id := tests[n]
		r := c.Rand("direct" + string(id))
		w, err := conf.New(r, ref.SgES256, []int{ref.SgES256, ref.SgES384}[n%2], 2, 0)
		if err != nil {
			c.Broken("world: %v", err)
			return
		}
		defer w.Close()
		e, err := sut.Record(w.V, w.Owner)
		if err != nil {
			c.Broken("voucher: %v", err)
			return
		}
		ask := func(how string, good bool, do func(rep *ref.Reply, l []byte)) {
			posed := false
			w.Srv.OnReq = func(q *ref.Request, rep *ref.Reply) {
				if q.Msg == conf.Msg(id) {
					posed = true
					do(rep, append([]byte{}, rep.Body...))
				}
			}
			defer func() { w.Srv.OnReq = nil }()
			q := to0.NewTo0Requestor(fdoshared.SRVEntry{SrvURL: w.Srv.URL}, e, sut.Context("http://owner.example.org:8043", nil))
			var st *testcom.FDOTestState
			p := kit.Try(func() {
				if conf.Msg(id) == 20 {
					_, st, err = q.Hello20(id)
					return
				}
				h, _, e := q.Hello20(testcom.NULL_TEST)
				if e != nil {
					c.Violation("direct-hello", "a correct HelloAck is not accepted: %v", e)
					return
				}
				_, st, err = q.OwnerSign22(h.NonceTO0Sign, id)
			})
			if p != "" {
				c.Violation("direct-panic", "%s on %s: %s", id, how, p)
				return
			}
			c.Eval(fmt.Sprintf("direct %s/%s", id, how))
			c.Count("direct verdicts")
			if !c.Must(posed && err == nil && st != nil && st.TestID == id, "direct-none-"+string(id), "%s on %s: no verdict of its own (posed %v, %v, %v)", id, how, posed, st, err) {
				return
			}
			c.Must(st.Passed == good, fmt.Sprintf("direct-%s-%v", id, good), "%s on %s: passed=%v (%s)", id, how, st.Passed, st.Error)
		}
		for round := 0; round < c.N(3, 40); round++ {
			if conf.Positive(id) {
				ask("honest", true, func(rep *ref.Reply, l []byte) {})
				for _, b := range conf.Bads {
					if b.For(conf.Msg(id)) {
						ask(b.Name, false, func(rep *ref.Reply, l []byte) { b.Do(r, conf.Msg(id), rep, l) })
					}
				}
				continue
			}
			for _, k := range conf.Refusals[1:] {
				ask(k.Name, k.Proper, func(rep *ref.Reply, l []byte) { k.Do(r, conf.Msg(id), rep, nil) })
			}
		}
	})
}

func main() {
	kit.Main("P18", func(c *kit.Check) {
		type job struct {
			to         int
			mode       string
			msg        int
			bad        int
			dev, owner int
		}
		var jobs []job
		msgs := map[int][]int{0: {20, 22}, 1: {20, 22, 30, 32}, 2: {60, 62, 64, 66, 68, 70}}
		devs, owners := []int{ref.SgES256, ref.SgES384}, []int{ref.SgES256, ref.SgES384, ref.SgRS2048, ref.SgRS3072}
		r := c.Rand("jobs")
		add := func(to int, mode string, msg, bad int) {
			jobs = append(jobs, job{to, mode, msg, bad, devs[r.IntN(2)], owners[r.IntN(4)]})
		}
		for to := 0; to <= 2; to++ {
			for i := 0; i < c.N([]int{1, 3, 8}[to], []int{10, 20, 60}[to]); i++ {
				add(to, "honest", 0, 0)
			}
			for i := 0; i < c.N([]int{4, 10, 30}[to], []int{60, 150, 400}[to]); i++ {
				add(to, "refusals", 0, 0)
			}
			for i := 0; i < c.N([]int{1, 4, 20}[to], []int{20, 50, 300}[to]); i++ {
				add(to, "mixed", 0, 0)
			}
			if to == 0 && !c.Thorough() {
				// a run is expensive (it makes a voucher per test): every test meets one random wrong answer
				for i := 0; i < 3; i++ {
					add(to, "bad", 0, -1)
				}
				continue
			}
			if to == 2 {
				for i := 0; i < c.N(2, 20); i++ {
					for b, l := range conf.Lies {
						add(to, "lie", l.Msg, b)
					}
				}
			}
			for _, m := range msgs[to] {
				for b := range conf.Bads {
					if conf.Bads[b].For(m) {
						add(to, "bad", m, b)
					}
				}
			}
		}
		c.Parallel(len(jobs), func(n int) {
			j := jobs[n]
			r := c.Rand(fmt.Sprintf("job%d", n))
			w, err := conf.New(r, j.dev, j.owner, 1+r.IntN(4), r.IntN(4))
			if err != nil {
				c.Broken("world: %v", err)
				return
			}
			defer w.Close()
			if j.mode == "lie" {
				if conf.Lies[j.bad].Min > len(w.V.Entries) {
					return
				}
				conf.Lies[j.bad].Set(w, r)
			}
			last := -1
			choose := func(m int, fault string, rep *ref.Reply, l []byte) (string, bool) {
				if j.mode == "lie" && fault == "" {
					return conf.Lies[j.bad].Name, m != j.msg || m == 62
				}
				if fault != "" {
					k := conf.Refusals[0]
					if j.mode != "honest" && j.mode != "bad" && j.mode != "lie" {
						k = conf.Refusals[r.IntN(len(conf.Refusals))]
					}
					k.Do(r, m, rep, l)
					return k.Name, k.Proper
				}
				b := -1
				switch {
				case j.mode == "bad" && j.bad < 0:
					// one in a few answers is wrong
					if r.IntN(3) == 0 {
						b = r.IntN(len(conf.Bads))
					}
				case j.mode == "bad" && m == j.msg:
					b = j.bad
				case j.mode == "mixed" && r.IntN(12) == 0 && last != m:
					b = r.IntN(len(conf.Bads))
				}
				last = m
				if b < 0 || !conf.Bads[b].For(m) {
					return "ok", true
				}
				conf.Bads[b].Do(r, m, rep, l)
				return conf.Bads[b].Name, false
			}
			who := fmt.Sprintf("TO%d device %d owner %d %s", j.to, j.dev, j.owner, j.mode)
			if j.mode == "lie" {
				who += fmt.Sprintf(" answering %d: %s", j.msg, conf.Lies[j.bad].Name)
			}
			if j.mode == "bad" && j.bad >= 0 {
				who += fmt.Sprintf(" %d %s", j.msg, conf.Bads[j.bad].Name)
			}
			var segs []conf.Segment
			var rest []conf.Seen
			p := kit.Try(func() { segs, rest, _, err = w.Trace(j.to, choose) })
			if p != "" {
				c.Violation("panic-"+j.mode, "%s: the run panics: %s", who, p)
				return
			}
			if err != nil {
				c.Broken("%s: %v", who, err)
				return
			}
			c.Count("runs")
			c.Must(len(segs) > 0, "no-verdict", "%s: a run without verdicts", who)
			if len(segs) > 0 {
				c.Sample(j.mode, "%s: %v", who, segs[len(segs)-1])
			}
			if j.mode == "lie" && j.msg == 62 {
				// only the positive test looks at the entries as a whole
				for _, s := range segs {
					if s.ID == testcom.FIDO_DOT_62_POSITIVE {
						c.Eval("lie/62/" + conf.Lies[j.bad].Name)
						c.Count("verdicts on wrong vouchers")
						c.Must(!s.State.Passed, "pass-after-lie", "%s: passed: %v", who, s)
					}
				}
				return
			}
			judge(c, who, j.to, segs, rest)
		})
		direct(c)
		c.Require("direct verdicts", 100)
		c.Rule = "each verdict is judged by the requests the scripted server saw before it and by how it answered them"
		c.Require("verdicts on correct answers", 100)
		c.Require("verdicts on refusals", 100)
		c.Require("verdicts on missing refusals", 100)
		c.Require("verdicts on wrong answers", 100)
		c.Require("verdicts on wrong vouchers", 10)
	})
}
