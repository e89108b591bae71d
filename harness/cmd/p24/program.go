package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	listenertestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"
	reqtestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// view is everything a user of the management interface sees, item by item.
func view(u *sut.User) (map[string]bool, int, error) {
	v := map[string]bool{}
	rvts := 0
	for _, kind := range []string{"rvt", "dot", "device"} {
		r := u.Do("GET", "/api/"+kind+"/testruns", nil)
		if r.Status != 200 {
			return nil, 0, fmt.Errorf("%s list: %s", kind, r)
		}
		l, err := u.List(kind)
		if err != nil {
			return nil, 0, err
		}
		for _, i := range l {
			j, _ := json.Marshal(i)
			v[kind+" "+string(j)] = true
			if kind != "dot" {
				continue
			}
			m, err := u.Vouchers(i.Inst(2).Id)
			if err != nil {
				return nil, 0, err
			}
			for k, x := range m {
				v[fmt.Sprintf("voucher %s %x", k, x)] = true
			}
		}
		if kind == "rvt" {
			rvts = len(l)
		}
	}
	return v, rvts, nil
}

// rebase makes a session go on at the program's new address.
func rebase(a *sut.At, p *sut.Party) {
	switch {
	case a.T0 != nil:
		a.T0.Base = p.URL
	case a.T1 != nil:
		a.T1.Base = p.URL
	case a.T2 != nil:
		a.T2.Base = p.URL
	}
}

func post(a *sut.At) ref.Resp {
	switch {
	case a.T0 != nil:
		return a.T0.Post(a.Msg, a.Body)
	case a.T1 != nil:
		return a.T1.Post(a.Msg, a.Body)
	}
	return a.T2.Post(a.Msg, a.Body)
}

// redirect asks the rendezvous for a device as the device does.
func redirect(p *sut.Party) ([]byte, error) {
	t := &ref.TO1{Conn: ref.Conn{Base: p.URL}, Dev: p.Dev}
	if _, err := t.Hello(); err != nil {
		return nil, err
	}
	r := t.Prove()
	if !r.Ok(33) {
		return nil, fmt.Errorf("%s", r)
	}
	return r.Body, nil
}

func program(c *kit.Check) {
	c.Parallel(c.N(3, 8), func(i int) { lives(c, i) })
}

func lives(c *kit.Check, i int) {
	r := c.Rand(fmt.Sprint("program", i))
	dir := filepath.Join(sut.Scratch(), fmt.Sprint("prog", i))
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	db, err := sut.OpenDir(dir)
	if err != nil {
		c.Broken("%v", err)
	}
	if _, err := sut.Seed(db, 24); err != nil {
		c.Broken("%v", err)
	}
	pre := &sut.SUT{DB: db}
	var parties []*sut.Party
	for k := 0; k < 14; k++ {
		p, err := pre.NewParty([]int{ref.SgES256, ref.SgES384}[k%2], []int{ref.SgES256, ref.SgES384, ref.SgRS2048}[k%3], 1+k%3)
		if err != nil {
			c.Broken("%v", err)
		}
		parties = append(parties, p)
	}
	db.Close()
	at := map[int]*sut.At{}
	reg := map[int][]byte{}
	var u *sut.User
	seen := map[string]bool{}
	acked, under, busy := 0, 0, false // tests listed for certain, perhaps, and whether the kill interrupted creations
	rounds := c.N(3, 6)
	for round := 0; round < rounds; round++ {
		pr, err := sut.Serve(dir, []string{"MODE=onprem"})
		if err != nil {
			c.Violation("restart", "round %d: the program does not come up again: %v", round, err)
			return
		}
		kill := pr.Kill
		defer func() { kill() }()
		for _, p := range parties {
			p.URL = pr.URL
		}
		s := &sut.SUT{URL: pr.URL}
		if round > 0 {
			c.Count("program: killed and restarted")
			// the browser's session, and all it showed
			u.Base = pr.URL
			if in := u.Do("GET", "/api/user/loggedin", nil); !in.Ok() {
				c.Violation("session-lost", "round %d: the user's session is gone after a restart: %s", round, in)
				return
			}
			now, n, err := view(u)
			if err != nil {
				c.Violation("view-lost", "round %d: after the restart the lists cannot be read: %v", round, err)
				return
			}
			c.Must(n >= acked && n <= acked+under, "tests-lost", "round %d: %d tests listed after the restart, %d acknowledged and at most %d under way", round, n, acked, under)
			for x := range seen {
				c.Must(now[x], "view-lost", "round %d: after the restart the user no longer sees %.300s", round, x)
			}
			if !busy {
				for x := range now {
					c.Must(seen[x], "view-changed", "round %d: only after the restart the user sees %.300s", round, x)
				}
			}
			c.CountN("program: listed items compared", len(seen))
			for k, want := range reg {
				g, err := redirect(parties[k])
				if c.Must(err == nil && bytes.Equal(g, want), "redirect-lost", "round %d: a registered device gets %x (%v) after a restart, before %x", round, g, err, want) {
					c.Count("program: redirects after a restart")
				}
			}
			for k, a := range at {
				rebase(a, parties[k])
				err := a.Accept(post(a))
				if c.Must(err == nil, fmt.Sprint("session-lost-", a.Msg), "round %d: message %d of a session opened before the restart: %v", round, a.Msg, err) {
					c.Count("program: sessions continued after a restart")
				}
				c.Eval(fmt.Sprint("continue ", a.Msg))
			}
			for k, p := range parties {
				if k >= 10 {
					err := p.RandTO2(r).Run([][]ref.SIM{ref.Mandatory()})
					c.Must(err == nil, "onboarding", "round %d: onboarding after a restart: %v", round, err)
				}
			}
		}
		at = map[int]*sut.At{}
		if u == nil {
			if u, err = s.Login(); err != nil {
				c.Violation("login", "%v", err)
				return
			}
		}
		// registrations are renewed or made
		for k := 0; k < 6; k++ {
			if round == 0 || r.IntN(2) == 0 {
				t := &ref.TO0{Conn: ref.Conn{Base: pr.URL}}
				if _, err := t.Hello(); err != nil {
					c.Violation("register", "%v", err)
					return
				}
				o := parties[k].OwnerSign(t.Nonce)
				o.Addrs = []ref.RVAddr{ref.DNSAddr(fmt.Sprintf("d%d-%d.example.org", k, round), 8043, 3)}
				b, blob := o.Build()
				if _, err := ref.AcceptedWait(t.Post(22, b)); err != nil {
					c.Violation("register", "%v", err)
					return
				}
				reg[k] = blob
			}
		}
		for k, m := range []int{22, 32, 62, 64, 66, 68, 70, 68} {
			a, err := parties[k].Reach(r, m)
			if err != nil {
				c.Violation("reach", "round %d: message %d: %v", round, m, err)
				return
			}
			at[k] = a
		}
		// a message 22 of a pending session changes the registration of that device once it is posted
		delete(reg, 0)
		// management
		ok := func(what string, rs sut.APIResp) bool {
			return c.Must(rs.Ok(), "management-"+what, "round %d: %s: %s", round, what, rs)
		}
		ok("rvt", u.CreateRVT(fmt.Sprintf("http://rv%d.example.org:8080", round)))
		if round == 0 {
			ok("dot", u.CreateDOT("http://do.example.org:8080", ref.GenKeyCached([]int{ref.SgES256, ref.SgES384}[i%2])))
		}
		dev := ref.NewDevice(ref.SgES256)
		own := ref.GenKeyCached(ref.SgES256)
		dv := ref.BuildVoucher(dev, []ref.Key{ref.GenKeyCached(ref.SgES256), own}, ref.RandRV())
		ok("device", u.CreateDevice(fmt.Sprint("device ", round), dv, own))
		if l, err := u.List("device"); c.Must(err == nil && len(l) > 0, "list", "%v", err) {
			ok("start", u.StartRun(1+r.IntN(2), l[len(l)-1].Id))
		}
		if round == 0 { // an execution against the program itself leaves results behind
			ok("rvt", u.CreateRVT(pr.URL))
			if l, err := u.List("rvt"); c.Must(err == nil && len(l) > 0, "list", "%v", err) {
				ok("execute", u.Execute("rvt", l[len(l)-1].Inst(1).Id))
			}
		}
		if seen, acked, err = view(u); err != nil {
			c.Violation("view", "%v", err)
			return
		}
		// killed while idle or with creations under way
		under, busy = 0, r.IntN(2) == 0
		if !busy {
			pr.Kill()
			continue
		}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; ; k++ {
				under = 1
				if rs := u.CreateRVT(fmt.Sprintf("http://late%d.example.org", k)); !rs.Ok() {
					return
				}
				under = 0
				acked++
			}
		}()
		time.Sleep(time.Duration(5+r.IntN(150)) * time.Millisecond)
		pr.Kill()
		wg.Wait()
		c.Count("program: killed with creations under way")
		// what was acknowledged is in the database as the dead program left it
		h, err := openHandles(dir)
		if err != nil {
			c.Violation("reopen-fails", "after a kill the program's database cannot be opened: %v", err)
			return
		}
		e, err := h.user.Get(u.Email)
		if c.Must(err == nil, "user-lost", "round %d: %v", round, err) {
			for _, t := range e.RVTestInsts {
				_, e0 := h.request.Get(t.To0)
				_, e1 := h.request.Get(t.To1)
				c.Must(e0 == nil && e1 == nil, "half-test", "round %d: a stored test lacks its parts: %v %v", round, e0, e1)
			}
		}
		h.db.Close()
	}
}

// resets fills databases with every kind and runs the reset commands.
func resets(c *kit.Check) {
	type kase struct {
		cmd   string
		store string
	}
	n := c.N(4, 24)
	c.Parallel(n, func(i int) {
		r := c.Rand(fmt.Sprint("reset", i))
		k := []kase{{"users", "user"}, {"listenerdb", "listener test"}}[i%2]
		dir := filepath.Join(sut.Scratch(), fmt.Sprint("reset", i))
		os.MkdirAll(dir, 0o755)
		defer os.RemoveAll(dir)
		h, err := openHandles(dir)
		if err != nil {
			c.Broken("%v", err)
		}
		f := &filler{r: r, unit: i}
		for j := 0; j < 3; j++ {
			f.vouchers = append(f.vouchers, voucherOf(r))
		}
		keys := map[*store]map[string]string{}
		raws := map[string]bool{}
		sts := stores()
		for _, st := range sts {
			keys[st] = map[string]string{}
			m := 1 + r.IntN(12)
			if st.name == k.store {
				m = []int{0, 1, 2, 30, 300}[r.IntN(5)]
				if i < 2 {
					m = 40
				}
			}
			if st.atMost > 0 {
				m = st.atMost
			}
			before := raw(h.db)
			for j := 0; j < m; j++ {
				key, v := st.fresh(f)
				_, there := keys[st][key]
				id, err := st.save(h, r, key, !there, v)
				if err != nil {
					c.Violation("save-"+st.name, "%v", err)
					return
				}
				keys[st][id] = text(v)
			}
			if st.name == k.store {
				after := raw(h.db)
				for x := range after {
					if _, ok := before[x]; !ok {
						raws[x] = true
					}
				}
			}
		}
		if k.cmd == "users" { // a name that only begins like an entry of the kind
			l := listenertestsdeps.RequestListenerInst{Uuid: []byte("usere-listener.."), Guid: fdoshared.FdoGuid{1}}
			if err := h.listener.Save(l); err != nil {
				c.Broken("%v", err)
			}
		} else {
			q := reqtestsdeps.RequestTestInst{Uuid: []byte("lstdb-request...")}
			if err := h.request.Save(q); err != nil {
				c.Broken("%v", err)
			}
			if err := h.user.Save(dbs.UserTestDBEntry{Email: "lstdb-@x.org"}); err != nil {
				c.Broken("%v", err)
			}
			keys[sts[7]]["lstdb-@x.org"] = text(dbs.UserTestDBEntry{Email: "lstdb-@x.org"})
		}
		before := raw(h.db)
		h.db.Close()
		run, err := sut.CLI(dir, nil, "reset", k.cmd)
		if err != nil {
			c.Broken("%v", err)
		}
		c.Must(run.Code == 0 && !run.Crashed(), "reset-fails-"+k.cmd, "reset %s: exit %d: %s", k.cmd, run.Code, run.Tail())
		if h, err = openHandles(dir); err != nil {
			c.Violation("reopen-fails", "after reset %s: %v", k.cmd, err)
			return
		}
		defer h.db.Close()
		after := raw(h.db)
		for _, x := range sut.Keys(before, after) {
			_, inB := after[x]
			switch {
			case raws[x]:
				if c.Must(!inB, "reset-left-"+k.cmd, "reset %s of %d entries leaves %q", k.cmd, len(keys[find(sts, k.store)]), x) {
					c.Count("reset: entries removed")
				}
			default:
				if c.Must(before[x] == after[x], "reset-foreign-"+k.cmd, "reset %s changes the entry %q of another kind", k.cmd, x) {
					c.Count("reset: entries of other kinds kept")
				}
			}
		}
		for _, st := range sts {
			for key, want := range keys[st] {
				g, err := st.get(h, key)
				if st.name == k.store {
					c.Must(err != nil, "reset-readable-"+k.cmd, "after reset %s, %x is still read", k.cmd, key)
				} else {
					c.Must(err == nil && text(g) == want, "reset-foreign-"+k.cmd, "after reset %s, %s %x: %v", k.cmd, st.name, key, err)
				}
			}
		}
		c.Eval("reset " + k.cmd + fmt.Sprint(len(keys[find(sts, k.store)])))
	})
}

func find(l []*store, name string) *store {
	for _, s := range l {
		if s.name == name {
			return s
		}
	}
	panic(name)
}
