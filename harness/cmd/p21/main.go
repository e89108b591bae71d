// P21: the bundled services and the bundled device pass the bundled suites.
package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"verif.local/harness/conf"
	"verif.local/harness/kit"
	"verif.local/harness/lst"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// what the suites comprise today; more is fine, less is not
var atLeast = map[string]int{"TO0": 18, "TO1": 6, "TO2": 21, "device TO1": 5, "device TO2": 30}

var sgName = map[int]string{ref.SgES256: "P-256", ref.SgES384: "P-384", ref.SgRS2048: "RSA2048", ref.SgRS3072: "RSA3072"}

func verdicts(m map[string]sut.TestState, bad bool) string {
	var l []string
	for k, v := range m {
		if !bad || !v.Passed {
			l = append(l, fmt.Sprintf("%s: %v %s", k, v.Passed, v.Error))
		}
	}
	return strings.Join(l, "; ")
}

// judge holds a recorded run against the list of its suite.
func judge(c *kit.Check, who string, to int, in sut.ReqInst, executed int) bool {
	suite := fmt.Sprintf("TO%d", to)
	ok := c.Must(!in.InProgress, suite+"-in-progress", "%s: still in progress after its execution returned", who)
	if !c.Must(len(in.Runs) == executed, suite+"-runs", "%s: %d executions, %d runs", who, executed, len(in.Runs)) {
		return false
	}
	for i, run := range in.Runs {
		for _, id := range conf.Tests(to) {
			t, have := run.Tests[string(id)]
			if !c.Must(have, suite+"-missing-"+string(id), "%s: run %d has no verdict for %s: %s", who, i, id, verdicts(run.Tests, true)) {
				ok = false
				continue
			}
			if i == 0 { // the newest
				c.Eval(fmt.Sprintf("%s/%s", who, id))
				c.Count(suite + " verdicts")
			}
			ok = c.Must(t.Passed, suite+"-fail-"+string(id), "%s: run %d, %s fails: %s", who, i, id, t.Error) && ok
		}
		for id, t := range run.Tests {
			ok = c.Must(t.Passed, suite+"-fail-"+id, "%s: run %d, %s fails: %s", who, i, id, t.Error) && ok
		}
	}
	return ok
}

// find is the caller's entry for url that was not there before.
func find(u *sut.User, kind, url string, nth int) (sut.Item, error) {
	l, err := u.List(kind)
	if err != nil {
		return sut.Item{}, err
	}
	for _, it := range l {
		if it.Url == url {
			if nth == 0 {
				return it, nil
			}
			nth--
		}
	}
	return sut.Item{}, fmt.Errorf("no %s entry for %s", kind, url)
}

// services runs the server suites against the services of target; rounds executions per instance, from several threads.
func services(c *kit.Check, r *rand.Rand, tester, target *sut.SUT, who string, owners []int, rounds [3]int, together bool) {
	u, err := tester.NewUser(fmt.Sprintf("u%d@example.org", r.Uint64()))
	if err != nil {
		c.Broken("%v", err)
		return
	}
	type job struct {
		kind, who string
		to        int
		item      sut.Item
	}
	var jobs []job
	if rounds[0]+rounds[1] > 0 {
		if x := u.CreateRVT(target.URL); !c.Must(x.Ok(), "create-rvt", "%s: rvt/create: %s", who, x) {
			return
		}
		it, err := find(u, "rvt", target.URL, 0)
		if !c.Must(err == nil, "list", "%s: %v", who, err) {
			return
		}
		jobs = append(jobs, job{"rvt", who + " TO0", 0, it}, job{"rvt", who + " TO1", 1, it})
	}
	n := 0
	for i := 0; i < len(owners); i++ {
		sg := owners[i]
		k := ref.GenKey(sg)
		w := fmt.Sprintf("%s TO2 owner %s", who, sgName[sg])
		if x := u.CreateDOT(target.URL, k); !c.Must(x.Ok(), "create-dot-"+sgName[sg], "%s: dot/create: %s", w, x) {
			continue
		}
		it, err := find(u, "dot", target.URL, n)
		if !c.Must(err == nil, "list", "%s: %v", w, err) {
			return
		}
		n++
		vs, err := u.Vouchers(it.Inst(2).Id)
		if !c.Must(err == nil && len(vs) > 0, "vouchers", "%s: no vouchers: %v", w, err) {
			return
		}
		if !target.Claim(vs) {
			c.Count("device drawn twice")
			if n > 40 {
				c.Broken("no free device")
				return
			}
			i--
			continue
		}
		for name, b := range vs {
			err := target.LoadVoucher(b)
			c.Must(err == nil, "voucher-unusable", "%s: the service cannot load %s: %v", w, name, err)
		}
		jobs = append(jobs, job{"dot", w, 2, it})
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		run := func() {
			for i := 1; i <= rounds[j.to]; i++ {
				x := u.Execute(j.kind, j.item.Inst(j.to).Id)
				if !c.Must(x.Ok(), "execute", "%s: execute: %s", j.who, x) {
					return
				}
				l, err := u.List(j.kind)
				if !c.Must(err == nil, "list", "%s: %v", j.who, err) {
					return
				}
				for _, it := range l {
					if it.Id == j.item.Id {
						c.Count("executions")
						if !judge(c, j.who, j.to, it.Inst(j.to), i) {
							return
						}
					}
				}
			}
		}
		if together {
			wg.Add(1)
			go func() { defer wg.Done(); run() }()
		} else {
			run()
		}
	}
	wg.Wait()
}

// device runs the device suites with the program's own device.
func device(c *kit.Check, r *rand.Rand, s *sut.SUT, devSg, ownSg, entries int, runs int) {
	who := fmt.Sprintf("device %s owner %s %d entries", sgName[devSg], sgName[ownSg], entries)
	u, err := s.NewUser(fmt.Sprintf("d%d@example.org", r.Uint64()))
	if err != nil {
		c.Broken("%v", err)
		return
	}
	d := ref.NewDevice(devSg)
	var keys []ref.Key
	for i := 0; i <= entries; i++ {
		keys = append(keys, ref.GenKeyCached([]int{ref.SgES256, ref.SgES384, ref.SgRS2048}[r.IntN(3)]))
	}
	keys[entries] = ref.GenKeyCached(ownSg)
	v := ref.BuildVoucher(d, keys, ref.RandRV())
	if x := u.CreateDevice(who, v, keys[entries]); !c.Must(x.Ok(), "create-device", "%s: device/create: %s", who, x) {
		return
	}
	dir, err := os.MkdirTemp(sut.Scratch(), "dev")
	if err != nil {
		c.Broken("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	if err := os.WriteFile(filepath.Join(dir, "d.pem"), sut.CredFile(d, v), 0o600); err != nil {
		c.Broken("%v", err)
		return
	}
	l, err := u.List("device")
	if !c.Must(err == nil && len(l) == 1, "list", "%s: %d devices %v", who, len(l), err) {
		return
	}
	for round := 0; round < runs; round++ {
		order := []int{1, 2}
		if r.IntN(2) == 0 {
			order = []int{2, 1}
		}
		for _, to := range order {
			if x := u.StartRun(to, l[0].Id); !c.Must(x.Ok(), "start", "%s: start TO%d: %s", who, to, x) {
				return
			}
		}
		for _, to := range order {
			suite := fmt.Sprintf("device TO%d", to)
			done, n := sut.LstRun{}, 0
			for limit := 3 * lst.Count(to); n < limit; n++ {
				out, err := sut.CLI(dir, nil, "iop", fmt.Sprintf("to%d", to), s.URL, "d.pem")
				if err != nil {
					c.Broken("%v", err)
					return
				}
				c.Count("device invocations")
				if !c.Must(!out.Crashed(), "device-crash", "%s: the device crashes in %s: %s", who, suite, out.Tail()) {
					return
				}
				l, err := u.List("device")
				if !c.Must(err == nil && len(l) == 1 && len(l[0].Listener(to)) > 0, "list", "%s: %v", who, err) {
					return
				}
				done = l[0].Listener(to)[0]
				if done.Completed {
					break
				}
			}
			if !c.Must(done.Completed, suite+"-incomplete", "%s: %s is not complete after %d invocations: %v", who, suite, n, done.Tests) {
				return
			}
			have := map[string]int{}
			for _, t := range done.Tests {
				have[t.TestID]++
				c.Must(t.Passed, suite+"-fail-"+t.TestID, "%s: %s, %s fails: %s", who, suite, t.TestID, t.Error)
				c.Count(suite + " verdicts")
				c.Eval(who + "/" + suite + "/" + t.TestID)
			}
			for _, step := range lst.Steps(to) {
				for _, id := range lst.Tests(step) {
					want := 1
					if id == lst.Positive {
						want = len(lst.Steps(to))
					}
					c.Must(have[id] == want, suite+"-missing-"+id, "%s: %s records %d verdicts for %s instead of %d: %v", who, suite, have[id], id, want, done.Tests)
				}
			}
			c.Sample(suite, "%s: %s complete after %d invocations, %d verdicts", who, suite, n+1, len(done.Tests))
		}
	}
}

func main() {
	kit.Main("P21", func(c *kit.Check) {
		for to := 0; to <= 2; to++ {
			k := fmt.Sprintf("TO%d", to)
			c.Must(len(conf.Tests(to)) >= atLeast[k], "suite-shrunk-"+k, "the %s suite lists %d tests, it had %d", k, len(conf.Tests(to)), atLeast[k])
			if to > 0 {
				k = "device " + k
				c.Must(lst.Count(to) >= atLeast[k], "suite-shrunk-"+k, "the %s suite lists %d tests, it had %d", k, lst.Count(to), atLeast[k])
			}
		}
		if _, err := sut.BuildCLI(); err != nil {
			c.Broken("%v", err)
			return
		}
		owners := []int{ref.SgES256, ref.SgES384, ref.SgRS2048, ref.SgRS3072}
		devs := []int{ref.SgES256, ref.SgES384}
		var works []func(r *rand.Rand)
		svc := func(cross, together bool, own []int, rounds [3]int) {
			works = append(works, func(r *rand.Rand) {
				tester := sut.New(sut.Opt{API: true})
				defer tester.Close()
				if _, err := sut.Seed(tester.DB, 21+r.IntN(400)); err != nil {
					c.Broken("%v", err)
					return
				}
				target, who := tester, "itself"
				if cross {
					target, who = sut.New(sut.Opt{}), "another instance"
					defer target.Close()
				}
				if together {
					who += " at once"
				}
				services(c, r, tester, target, who, own, rounds, together)
				for _, s := range []*sut.SUT{tester, target} {
					for _, p := range s.Panics() {
						c.Violation("panic", "%s: %s panics: %s\n%s", who, p.Path, p.Value, p.Stack)
					}
				}
			})
		}
		// the device runs are the long ones
		for i := 0; i < c.N(4, 48); i++ {
			works = append(works, func(r *rand.Rand) {
				s := sut.New(sut.Opt{API: true})
				defer s.Close()
				device(c, r, s, devs[i%2], owners[(i/2+i)%4], 1+r.IntN(4), c.N(1, 2))
				for _, p := range s.Panics() {
					c.Violation("panic", "device: %s panics: %s\n%s", p.Path, p.Value, p.Stack)
				}
			})
		}
		for i := 0; i < c.N(2, 40); i++ {
			svc(i%2 == 1, false, nil, [3]int{c.N(1, 2), c.N(15, 30), 0})
		}
		for i := 0; i < c.N(8, 80); i++ {
			svc(i/4%2 == 1, false, owners[i%4:i%4+1], [3]int{0, 0, c.N(3, 8)})
		}
		for i := 0; i < c.N(2, 24); i++ {
			svc(i%2 == 0, true, owners, [3]int{c.N(0, 1), 6, c.N(2, 4)})
		}
		c.Parallel(len(works), func(n int) { works[n](c.Rand(fmt.Sprint("work", n))) })
		c.Rule = "every stored verdict of every run is a pass and the stored runs carry every identifier of the published lists"
		c.Require("executions", 40)
		c.Require("TO0 verdicts", 18)
		c.Require("TO1 verdicts", 100)
		c.Require("TO2 verdicts", 300)
		c.Require("device TO1 verdicts", 10)
		c.Require("device TO2 verdicts", 60)
	})
}
