package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"slices"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// afterResets: the program goes on after a reset command: what was removed is no longer listed, everything else is,
// and what is created afterwards is listed as usual.
func afterResets(c *kit.Check) {
	c.Parallel(c.N(2, 8), func(i int) {
		r := c.Rand(fmt.Sprint("after reset", i))
		what := []string{"listenerdb", "users"}[i%2]
		dir := filepath.Join(sut.Scratch(), fmt.Sprint("afterreset", i))
		os.MkdirAll(dir, 0o755)
		defer os.RemoveAll(dir)
		db, err := sut.OpenDir(dir)
		if err != nil {
			c.Broken("%v", err)
			return
		}
		if _, err := sut.Seed(db, 24); err != nil {
			c.Broken("%v", err)
		}
		db.Close()
		var kill func()
		defer func() {
			if kill != nil {
				kill()
			}
		}()
		start := func() *sut.User {
			pr, err := sut.Serve(dir, []string{"MODE=onprem"})
			if err != nil {
				c.Violation("restart", "after reset %s: the program does not come up: %v", what, err)
				return nil
			}
			kill = pr.Kill
			u, err := (&sut.SUT{URL: pr.URL}).Login()
			if err != nil {
				c.Violation("login", "%s: %v", what, err)
			}
			return u
		}
		u := start()
		if u == nil {
			return
		}
		n := 0
		device := func() string {
			d := ref.NewDevice(ref.DeviceSgs[r.IntN(2)])
			k := ref.GenKeyCached(ref.SgES256)
			n++
			name := fmt.Sprint("device ", n)
			if x := u.CreateDevice(name, ref.BuildVoucher(d, []ref.Key{ref.GenKeyCached(ref.SgES384), k}, ref.RandRV()), k); !x.Ok() {
				c.Violation("create-refused", "%s: a device is refused: %s", what, x)
			}
			return fmt.Sprintf("%s %x", name, d.Guid[:])
		}
		rvt := func() string {
			n++
			url := fmt.Sprintf("http://rv%d.example.org", n)
			if x := u.CreateRVT(url); !x.Ok() {
				c.Violation("create-refused", "%s: a rendezvous test is refused: %s", what, x)
			}
			return url
		}
		dot := func() string {
			n++
			url := fmt.Sprintf("http://do%d.example.org", n)
			if x := u.CreateDOT(url, ref.GenKeyCached(ref.SgES256)); !x.Ok() {
				c.Violation("create-refused", "%s: an owner service test is refused: %s", what, x)
			}
			return url
		}
		want := map[string][]string{"rvt": {}, "dot": {}, "device": {}}
		add := func(m int) {
			for range m {
				want["device"] = append(want["device"], device())
				want["rvt"] = append(want["rvt"], rvt())
				want["dot"] = append(want["dot"], dot())
			}
		}
		runs := map[string]string{}
		listed := func(when string) {
			for _, kind := range []string{"rvt", "dot", "device"} {
				l, err := u.List(kind)
				if err != nil {
					c.Violation("after-reset-list", "reset %s, %s: %v", what, when, err)
					continue
				}
				is := []string{}
				for _, x := range l {
					if kind == "device" {
						is = append(is, x.Name+" "+x.Guid)
						j, _ := json.Marshal([]any{x.Listener(1), x.Listener(2)})
						if w, ok := runs[x.Guid]; ok {
							c.Must(w == string(j), "after-reset-runs", "reset %s, %s: the runs of a device are %s, were %s", what, when, j, w)
						}
						runs[x.Guid] = string(j)
					} else {
						is = append(is, x.Url)
					}
				}
				if c.Must(slices.Equal(is, want[kind]), "after-reset-"+kind, "reset %s, %s: the %s list shows %v, expected %v", what, when, kind, is, want[kind]) {
					c.Count("reset: lists compared while going on")
				}
			}
		}
		add(2 + r.IntN(3))
		listed("before")
		for round := range c.N(2, 4) {
			kill()
			kill = nil
			run, err := sut.CLI(dir, nil, "reset", what)
			if err != nil {
				c.Broken("%v", err)
				return
			}
			c.Must(run.Code == 0 && !run.Crashed(), "reset-fails-"+what, "reset %s: exit %d: %s", what, run.Code, run.Tail())
			want["device"] = []string{}
			if what == "users" {
				want["rvt"], want["dot"] = []string{}, []string{}
			}
			if u = start(); u == nil {
				return
			}
			listed(fmt.Sprint("after reset ", round))
			add(1 + r.IntN(3))
			listed(fmt.Sprint("after creations ", round))
			l, _ := u.List("device")
			for _, x := range l {
				to := 1 + r.IntN(2)
				resp := u.StartRun(to, x.Id)
				c.Must(resp.Ok(), "after-reset-start", "reset %s: starting a run of a device created afterwards: %s", what, resp)
				delete(runs, x.Guid)
			}
			listed(fmt.Sprint("after starts ", round))
			c.Eval(fmt.Sprint("going on after reset ", what, round))
		}
	})
}
