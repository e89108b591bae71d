// P20: device test runs advance by the rules and record the right verdict.
package main

import (
	"fmt"
	"math/rand/v2"

	"verif.local/harness/kit"
	"verif.local/harness/lst"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

type dev struct {
	p     *sut.Party
	u     *sut.User
	id    string
	m     [3]*lst.Model
	stash []*lst.Sess
	log   []string
	// the conversation held at the moment
	s    *lst.Sess
	resp ref.Resp
	bad  bool // resp was the defective answer of a test
}

func (d *dev) note(f string, a ...any) {
	d.log = append(d.log, fmt.Sprintf(f, a...))
	if len(d.log) > 14 {
		d.log = d.log[1:]
	}
}

func to(cmd int) int {
	if cmd < 60 {
		return 1
	}
	return 2
}

// runs compares everything the tool lists with the model.
func runs(c *kit.Check, d *dev, op string) bool {
	its, err := d.u.List("device")
	if err != nil {
		c.Violation("list", "after %s: %v", d.log, err)
		return false
	}
	for _, it := range its {
		if it.Id != d.id {
			continue
		}
		for t := 1; t <= 2; t++ {
			if err := d.m[t].Compare(it.Listener(t)); err != nil {
				c.Violation("record/"+op, "TO%d after %s: %v", t, d.log, err)
				return false
			}
		}
		c.Count("records compared")
		return true
	}
	c.Violation("list/gone", "device %s is not listed after %s", d.id, d.log)
	return false
}

// say sends the due message of s and checks the answer.
func say(c *kit.Check, r *rand.Rand, d *dev, s *lst.Sess, spoil bool) bool {
	cmd := s.Due
	m := d.m[to(cmd)]
	again := cmd == 68 && s.Prev == 69
	before := m.Pending
	active := m.Active != nil
	var resp ref.Resp
	what := "honest"
	if spoil {
		what, resp = s.Spoil(r)
	} else {
		resp = s.Send()
	}
	e, posed := m.Message(cmd, again, !spoil)
	if spoil && e == lst.Normal {
		e = lst.Refused
	}
	d.note("%d %s (pending %q, posed %q) -> %s", cmd, what, before, posed, resp)
	d.s, d.resp, d.bad = s, resp, e == lst.Bad
	c.Eval(fmt.Sprintf("%d/%s/%s/%s/%d", cmd, what, before, posed, e))
	var err error
	if e == lst.Normal || e == lst.Good || e == lst.Bad {
		err = s.Accept(resp)
	}
	ok := true
	switch e {
	case lst.Normal, lst.Good:
		ok = c.Must(err == nil, fmt.Sprintf("honest/%d", cmd), "TO%d message %d, no test to pose (active %v, posed %q): %v; %s", to(cmd), cmd, active, posed, err, d.log)
	case lst.Bad:
		c.Count("posed " + posed)
		ok = c.Must(resp.Ok(cmd+1), "posed/"+posed, "answer to test %s is %s; %s", posed, resp, d.log)
		ok = ok && c.Must(err != nil, "posed/"+posed, "the answer of test %s has nothing wrong: %s; %s", posed, resp, d.log)
		if ok {
			err := s.Named(posed, resp)
			ok = c.Must(err == nil, "named/"+posed, "the answer of test %s: %v; %s", posed, err, d.log)
		}
		c.Sample(posed, "device sees %v", err)
	case lst.Refused:
		ok = c.Must(resp.Refused(), fmt.Sprintf("refused/%d", cmd), "message %d (%s) is answered %s; %s", cmd, what, resp, d.log)
	}
	if e == lst.Refused || e == lst.Any || (spoil) {
		d.s = nil
	}
	return ok
}

func scenario(c *kit.Check, r *rand.Rand, s *sut.SUT, u *sut.User, d, other *dev, ops int) {
	style := r.IntN(4) // 0 careful, 1 careless, 2 erratic, 3 restless tester
	kinds := map[string]int{}
	for n := 0; n < ops; n++ {
		t := 2
		if r.IntN(4) == 0 {
			t = 1
		}
		m := d.m[t]
		x := r.IntN(100)
		weight := [][]int{{80, 84, 86, 92, 94}, {40, 86, 88, 94, 96}, {40, 60, 80, 86, 94}, {50, 62, 68, 84, 97}}[style]
		op := "attempt"
		switch {
		case x < weight[0]:
		case x < weight[1]:
			op = "on"
		case x < weight[2]:
			op = "spoil"
		case x < weight[3]:
			op = "start"
		case x < weight[4]:
			op = "stashed"
		default:
			op = "delete"
		}
		if op == "start" && m.Active != nil && r.IntN(10) != 0 && style != 3 {
			op = "attempt"
		}
		if m.Active == nil && op != "delete" && op != "stashed" && r.IntN(4) != 0 {
			op = "start"
		}
		switch op {
		case "attempt", "spoil":
			cmd := lst.Steps(t)[r.IntN(len(lst.Steps(t)))]
			if m.Active != nil {
				cmd = m.Cmd()
				if m.Step > 0 && r.IntN(8) == 0 { // a finished step
					cmd = lst.Steps(t)[r.IntN(m.Step)]
				}
			}
			if op == "spoil" && cmd == 30 {
				continue
			}
			// every step before is finished, so the way there is honest
			ses, err := lst.To(d.p, r, cmd)
			if err != nil {
				c.Violation("walk", "the way to message %d fails: %v; %s", cmd, err, d.log)
				return
			}
			if cmd == 68 && r.IntN(3) == 0 {
				ses.More()
			}
			if from := map[int][]int{64: {62}, 68: {66}, 70: {66, 68}}[cmd]; op == "spoil" && from != nil && r.IntN(3) == 0 {
				// the same message, but before its turn
				if ses, err = lst.To(d.p, r, from[r.IntN(len(from))]); err != nil {
					c.Violation("walk", "the way to message %d fails: %v; %s", cmd, err, d.log)
					return
				}
				if cmd == 70 && ses.Due == 68 && r.IntN(2) == 0 {
					ses.More()
					if err := ses.Step(); err != nil {
						c.Violation("walk", "unfinished service info: %v; %s", err, d.log)
						return
					}
				}
				ses.Ahead(cmd)
				c.Count("out of turn")
			}
			if !say(c, r, d, ses, op == "spoil") {
				return
			}
		case "on":
			if d.s == nil || !d.s.Next(d.resp) {
				d.s = nil
				continue
			}
			if m := d.m[to(d.s.Due)]; m.Pending != "" {
				c.Count("went on with a test pending")
			} else if d.bad { // its run is gone, but not what the defective answer did to the session
				d.s = nil
				continue
			}
			if !say(c, r, d, d.s, false) {
				return
			}
		case "stashed":
			if len(d.stash) == 0 {
				continue
			}
			ses := d.stash[0]
			d.stash = d.stash[1:]
			if m := d.m[to(ses.Due)]; m.Active != nil && ses.Due > m.Cmd() {
				op = "early"
			}
			if !say(c, r, d, ses, false) {
				return
			}
		case "start":
			// sessions from before the run are kept for messages out of order
			if m.Active == nil && r.IntN(2) == 0 {
				cmd := lst.Steps(t)[1+r.IntN(len(lst.Steps(t))-1)]
				ses, err := lst.To(d.p, r, cmd)
				if err != nil {
					c.Violation("walk", "the way to message %d fails: %v; %s", cmd, err, d.log)
					return
				}
				d.stash = append(d.stash, ses)
			}
			if m.Active != nil {
				op = "restart"
			}
			d.note("start TO%d", t)
			if a := u.StartRun(t, d.id); !a.Ok() {
				c.Violation("start", "starting a run: %s", a)
				return
			}
			m.Start()
			d.s = nil
		case "delete":
			id := "no-such-run"
			if len(m.Runs) > 0 && r.IntN(5) != 0 {
				id = m.Runs[r.IntN(len(m.Runs))].ID
			} else if len(other.m[t].Runs) > 0 {
				id = other.m[t].Runs[0].ID
			} else if o := d.m[3-t]; len(o.Runs) > 0 {
				id = o.Runs[0].ID
			}
			if m.Active != nil && m.Active.ID == id {
				op = "delete active"
			}
			d.note("delete TO%d run %s", t, id)
			u.DeleteDeviceRun(t, d.id, id)
			m.Delete(id)
		}
		kinds[op]++
		c.Count("op " + op)
		if !runs(c, d, op) || n%8 == 0 && !runs(c, other, op+" of another device") {
			return
		}
	}
	// let some devices finish what is open
	for t := 1; t <= 2; t++ {
		m := d.m[t]
		for k := 0; style < 2 && m.Active != nil && k < 80; k++ {
			ses, err := lst.To(d.p, r, m.Cmd())
			if err != nil {
				c.Violation("walk", "the way to message %d fails: %v; %s", m.Cmd(), err, d.log)
				return
			}
			if !say(c, r, d, ses, false) || !runs(c, d, "attempt") {
				return
			}
		}
		for _, x := range m.Runs {
			if x.Done {
				c.Count(fmt.Sprintf("completed TO%d runs", t))
			} else {
				c.Count("unfinished runs")
			}
		}
	}
	other.log = nil
	runs(c, other, "another device")
}

func main() {
	kit.Main("P20", func(c *kit.Check) {
		c.Rule = "a reference device plays random histories (retry, go on, spoil, message out of order, start, restart, delete) over HTTP; after every step all runs listed by the management interface must equal those of an independent model of the rules, and every answer must carry exactly the defect of the test the model says is posed, or none"
		n := c.N(100, 3000)
		c.Parallel(n, func(i int) {
			r := c.Rand(fmt.Sprintf("world%d", i))
			s := sut.New(sut.Opt{API: true})
			defer s.Close()
			u, err := s.Login()
			if err != nil {
				c.Broken("login: %v", err)
				return
			}
			ds := []*dev{}
			for k := 0; k < 2; k++ {
				osg := []int{ref.SgES256, ref.SgES384, ref.SgRS2048, ref.SgRS3072}[(i+k)%4]
				p, err := s.NewParty([]int{ref.SgES256, ref.SgES384}[r.IntN(2)], osg, 1+r.IntN(3))
				if err != nil {
					c.Broken("party: %v", err)
					return
				}
				if a := u.CreateDevice(fmt.Sprintf("d%d", k), p.V, p.Owner); !a.Ok() {
					c.Violation("create", "creating a device test: owner %d dev %d entries %d: %s", osg, p.Dev.Key.Sg, len(p.V.Entries), a)
					return
				}
				d := &dev{p: p, u: u, m: [3]*lst.Model{1: {To: 1}, 2: {To: 2}}}
				ds = append(ds, d)
			}
			its, err := u.List("device")
			if err != nil || len(its) != 2 {
				c.Violation("list", "%d devices listed: %v", len(its), err)
				return
			}
			for k, d := range ds {
				d.id = its[k].Id
				if its[k].Guid != fmt.Sprintf("%x", d.p.Dev.Guid[:]) {
					c.Violation("list/order", "device %d listed is %s", k, its[k].Guid)
					return
				}
			}
			if i%10 == 0 {
				// a long past: runs begun and given up, some removed
				d := ds[r.IntN(2)]
				t := 1 + r.IntN(2)
				for k := 0; k < c.N(70, 200); k++ {
					if a := u.StartRun(t, d.id); !a.Ok() {
						c.Violation("start", "starting a run: %s", a)
						return
					}
					d.m[t].Start()
					d.note("start TO%d", t)
					if !runs(c, d, "start") {
						return
					}
					if k%5 == 4 {
						x := d.m[t].Runs[r.IntN(len(d.m[t].Runs))]
						u.DeleteDeviceRun(t, d.id, x.ID)
						d.m[t].Delete(x.ID)
						d.note("delete TO%d run %s", t, x.ID)
						if !runs(c, d, "delete") {
							return
						}
					}
				}
				c.Count("long histories")
			}
			for round := 0; round < 2; round++ {
				scenario(c, r, s, u, ds[round], ds[1-round], 40+r.IntN(50))
			}
			for _, p := range s.Panics() {
				c.Violation("panic"+p.Path, "%s: %s", p.Path, p.Value)
			}
		})
		for _, t := range []int{1, 2} {
			for _, st := range lst.Steps(t) {
				l := lst.Tests(st)
				for _, id := range l[:len(l)-1] {
					c.Require("posed "+id, 1)
				}
			}
		}
		c.Require("completed TO1 runs", 5)
		c.Require("completed TO2 runs", 3)
		c.Require("unfinished runs", 3)
		c.Require("long histories", 3)
		c.Require("out of turn", 10)
		c.Require("went on with a test pending", 20)
		for _, o := range []string{"attempt", "on", "spoil", "start", "restart", "early", "delete", "delete active"} {
			c.Require("op "+o, 5)
		}
	})
}
