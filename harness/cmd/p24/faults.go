package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"sync"

	"github.com/dgraph-io/badger/v4"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	tdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// hook makes the database library call a function before every commit and read; nil when it was built without.
var hook func(func(db *badger.DB, write bool, key []byte) error)

var faults sync.Map // *badger.DB -> *fault

var errDisk = errors.New("input/output error")

// fault fails single accesses of a database.
type fault struct {
	mu     sync.Mutex
	armed  bool
	writes bool // writes fail, else reads
	at     int  // the at-th
	onward bool // and all that follow
	n      int
}

func (f *fault) access(write bool) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if !f.armed || write != f.writes {
		return nil
	}
	f.n++
	if f.n == f.at || f.onward && f.n > f.at {
		return errDisk
	}
	return nil
}

// during runs g with the fault and tells whether it happened.
func (f *fault) during(writes bool, at int, onward bool, g func()) bool {
	f.mu.Lock()
	f.armed, f.writes, f.at, f.onward, f.n = true, writes, at, onward, 0
	f.mu.Unlock()
	g()
	f.mu.Lock()
	defer f.mu.Unlock()
	f.armed = false
	return f.n >= at
}

var kinds = []string{"rvt", "dot", "device"}

func faulty(c *kit.Check, i int) {
	r := c.Rand(fmt.Sprint("faulty", i))
	s := sut.New(sut.Opt{API: true})
	defer s.Close()
	f := &fault{}
	faults.Store(s.DB, f)
	defer faults.Delete(s.DB)
	if _, err := sut.Seed(s.DB, 24); err != nil {
		c.Broken("%v", err)
		return
	}
	panics := func(what string) {
		for _, p := range s.Panics() {
			c.Violation("fault-panic-"+p.Path, "%s: request to %s panics: %s\n%s", what, p.Path, p.Value, p.Stack)
		}
	}
	word := map[bool]string{true: "write", false: "read"}
	u, err := s.Login()
	if err != nil {
		c.Violation("login", "%v", err)
		return
	}

	// messages: each kind of session, with and without a conformance test under way
	for _, m := range sut.Msgs {
		for _, tested := range []bool{false, true} {
			if tested && m == 20 || (m+i)%2 == 0 && !c.Thorough() {
				continue
			}
			p, err := s.NewParty([]int{ref.SgES256, ref.SgES384}[r.IntN(2)], []int{ref.SgES256, ref.SgES384, ref.SgRS2048}[r.IntN(3)], 1+r.IntN(3))
			if err == nil && tested {
				if err = okay(u.CreateDevice(fmt.Sprint("dev", m), p.V, p.Owner)); err == nil {
					l, lerr := u.List("device")
					if err = lerr; err == nil {
						to := map[bool]int{true: 2, false: 1}[m >= 60]
						err = okay(u.StartRun(to, l[len(l)-1].Id))
					}
				}
			}
			if err != nil {
				c.Violation("reach", "message %d: %v", m, err)
				return
			}
			for _, writes := range []bool{true, false} {
				for k := 1; k < 40; k++ {
					if tested && m != 30 && m != 60 {
						break // the answers before would be defective ones
					}
					if m == 30 || m == 32 {
						if err := p.Register(); err != nil {
							c.Violation("register", "%v", err)
							return
						}
					}
					a, err := p.Reach(r, m)
					if err != nil {
						c.Violation("reach-after-fault", "message %d: after earlier failed accesses an honest client does not get there: %v", m, err)
						return
					}
					var resp ref.Resp
					onw := r.IntN(2) == 0
					hit := f.during(writes, k, onw, func() { resp = post(a) })
					what := fmt.Sprintf("message %d (under test: %v) with %s %d failing (and all that follow: %v)", m, tested, word[writes], k, onw)
					panics(what)
					if !hit {
						break
					}
					c.Count("fault: messages with a failed " + word[writes])
					c.Eval(fmt.Sprintf("fault %d/%v/%v/%d ok=%v", m, tested, writes, k, resp.Ok(m+1)))
					if !c.Must(resp.Ok(m+1) || resp.Refused(), fmt.Sprintf("fault-answer-%d-%s", m, word[writes]), "%s: neither acknowledged nor answered by an error: %s", what, resp) || tested {
						continue
					}
					if resp.Ok(m + 1) {
						c.Count("fault: messages acknowledged")
						err := onward(p, a, resp)
						c.Must(err == nil, fmt.Sprintf("fault-acknowledged-%d-%s", m, word[writes]), "%s: acknowledged, but what follows fails: %v", what, err)
					}
				}
			}
		}
	}

	// management calls
	var created []ref.Guid
	calls := []struct {
		what string
		prep func(v *sut.User) error // makes what the call needs
		call func(v *sut.User) sut.APIResp
		done func(v *sut.User) error // looks whether an acknowledged call took place
	}{
		{what: "rvt", call: func(v *sut.User) sut.APIResp { return v.CreateRVT("http://fault.example.org:8080") },
			done: func(v *sut.User) error { return count(v, "rvt", 1) }},
		{what: "dot", call: func(v *sut.User) sut.APIResp {
			return v.CreateDOT("http://fault.example.org:8080", ref.GenKeyCached(ref.SgES256))
		}, done: func(v *sut.User) error {
			if err := count(v, "dot", 1); err != nil {
				return err
			}
			l, _ := v.List("dot")
			vs, err := v.Vouchers(l[0].Inst(2).Id)
			if err == nil && len(vs) == 0 {
				err = fmt.Errorf("it has no vouchers")
			}
			return err
		}},
		{what: "device", call: func(v *sut.User) sut.APIResp {
			dev, own := ref.NewDevice(ref.SgES256), ref.GenKeyCached(ref.SgES256)
			created = append(created, dev.Guid)
			return v.CreateDevice("fault", ref.BuildVoucher(dev, []ref.Key{ref.GenKeyCached(ref.SgES256), own}, ref.RandRV()), own)
		}, done: func(v *sut.User) error {
			if err := count(v, "device", 1); err != nil {
				return err
			}
			if _, err := dodbs.NewVoucherDB(s.DB).Get(fdoshared.FdoGuid(created[len(created)-1])); err != nil {
				return fmt.Errorf("its voucher: %w", err)
			}
			if _, err := tdbs.NewListenerTestDB(s.DB).GetEntryByFdoGuid(fdoshared.FdoGuid(created[len(created)-1])); err != nil {
				return fmt.Errorf("the test of its messages: %w", err)
			}
			l, _ := v.List("device")
			for to := 1; to <= 2; to++ {
				if err := okay(v.StartRun(to, l[0].Id)); err != nil {
					return err
				}
			}
			return nil
		}},
		{what: "start", prep: device, done: func(v *sut.User) error { return runs(v, 1) }},
		{what: "delete", prep: func(v *sut.User) error {
			return firstErr(device(v), okay(v.StartRun(2, first(v, "device").Id)), okay(v.StartRun(2, first(v, "device").Id)))
		}, done: func(v *sut.User) error { return runs(v, 1) }},
		{what: "delete rvt", prep: func(v *sut.User) error { return started(s, v, "rvt") }, done: func(v *sut.User) error { return left(v, "rvt", 1) }},
		{what: "delete dot", prep: func(v *sut.User) error { return started(s, v, "dot") }, done: func(v *sut.User) error { return left(v, "dot", 1) }},
		{what: "logout", call: func(v *sut.User) sut.APIResp {
			return v.JSON("POST", "/api/user/logout", map[string]any{})
		}, done: func(v *sut.User) error {
			if v.Do("GET", "/api/user/loggedin", nil).Ok() {
				return errors.New("the session is still alive")
			}
			return nil
		}},
		{what: "loggedin", call: func(v *sut.User) sut.APIResp { return v.Do("GET", "/api/user/loggedin", nil) }},
		{what: "purge", prep: device, call: func(v *sut.User) sut.APIResp { return v.Do("POST", "/api/user/purgetests", []byte("{}")) },
			done: func(v *sut.User) error { return count(v, "device", 0) }},
		{what: "list device", prep: device, call: func(v *sut.User) sut.APIResp { return v.Do("GET", "/api/device/testruns", nil) }},
		{what: "list rvt", prep: func(v *sut.User) error { return okay(v.CreateRVT("http://fault.example.org")) },
			call: func(v *sut.User) sut.APIResp { return v.Do("GET", "/api/rvt/testruns", nil) }},
	}
	for n, x := range calls {
		if (n+i)%2 == 0 && !c.Thorough() {
			continue
		}
		for n2 := 0; n2 < 3; n2++ { // writes, single and lasting; reads
			writes, onw := n2 < 2, n2 == 1
			for k := 1; k < 60; k++ {
				v, err := s.NewUser(fmt.Sprintf("u%d-%d-%d-%d@example.org", i, n, n2, k))
				if err == nil && x.prep != nil {
					err = x.prep(v)
				}
				if err != nil {
					c.Violation("fault-prepare-"+x.what, "%v", err)
					return
				}
				call := x.call
				switch x.what { // what the call looks up first is not part of it
				case "start":
					it := first(v, "device")
					call = func(v *sut.User) sut.APIResp { return v.StartRun(2, it.Id) }
				case "delete":
					it := first(v, "device")
					call = func(v *sut.User) sut.APIResp { return v.DeleteDeviceRun(2, it.Id, it.Listener(2)[1].Uuid) }
				case "delete rvt", "delete dot":
					kind := x.what[len("delete "):]
					it := first(v, kind).Inst(toOf[kind])
					if len(it.Runs) < 2 {
						c.Violation("fault-prepare-"+x.what, "two runs were started, listed are %d", len(it.Runs))
						return
					}
					call = func(v *sut.User) sut.APIResp { return v.DeleteRun(kind, it.Id, it.Runs[1].Uuid) }
				}
				var rs sut.APIResp
				if !writes {
					onw = r.IntN(2) == 0
				}
				hit := f.during(writes, k, onw, func() { rs = call(v) })
				what := fmt.Sprintf("%s with %s %d failing (and all that follow: %v)", x.what, word[writes], k, onw)
				panics(what)
				if !hit {
					if x.done != nil {
						err := x.done(v)
						c.Must(rs.Ok() && err == nil, "fault-none-"+x.what, "%s without a failure: %s, %v", x.what, rs, err)
					}
					break
				}
				c.Count("fault: management calls with a failed " + word[writes])
				c.Eval(fmt.Sprintf("fault %s/%v/%d ok=%v", x.what, writes, k, rs.Ok()))
				c.Must(rs.Ok() || rs.Refused(), "fault-answer-"+x.what, "%s is answered %s", what, rs)
				if rs.Ok() && x.done != nil {
					c.Count("fault: management calls acknowledged")
					err := x.done(v)
					c.Must(err == nil, "fault-acknowledged-"+x.what, "%s was acknowledged: %v", what, err)
				}
				if x.what == "logout" {
					continue
				}
				for _, kind := range kinds {
					_, err := v.List(kind)
					c.Must(err == nil, "fault-list-"+x.what, "after %s (%s) the %s list cannot be read: %v", what, rs, kind, err)
				}
			}
		}
	}
}

// device makes a device test.
func device(v *sut.User) error {
	dev, own := ref.NewDevice(ref.SgES256), ref.GenKeyCached(ref.SgES256)
	return okay(v.CreateDevice("fault", ref.BuildVoucher(dev, []ref.Key{ref.GenKeyCached(ref.SgES256), own}, ref.RandRV()), own))
}

func first(v *sut.User, kind string) sut.Item {
	if l, err := v.List(kind); err == nil && len(l) > 0 {
		return l[0]
	}
	return sut.Item{}
}

func count(v *sut.User, kind string, n int) error {
	l, err := v.List(kind)
	if err == nil && len(l) != n {
		err = fmt.Errorf("%d listed", len(l))
	}
	return err
}

func runs(v *sut.User, n int) error {
	if err := count(v, "device", 1); err != nil {
		return err
	}
	if l := first(v, "device").Listener(2); len(l) != n {
		return fmt.Errorf("%d runs are listed", len(l))
	}
	return nil
}

var toOf = map[string]int{"rvt": 1, "dot": 2}

// started makes a test with two runs.
func started(s *sut.SUT, v *sut.User, kind string) error {
	rs := v.CreateRVT("http://fault.example.org:8080")
	if kind == "dot" {
		rs = v.CreateDOT("http://fault.example.org:8080", ref.GenKeyCached(ref.SgES256))
	}
	if err := okay(rs); err != nil {
		return err
	}
	id, err := hex.DecodeString(first(v, kind).Inst(toOf[kind]).Id)
	if err != nil {
		return err
	}
	db := tdbs.NewRequestTestDB(s.DB)
	db.StartNewRun(id)
	db.StartNewRun(id)
	return left(v, kind, 2)
}

func left(v *sut.User, kind string, n int) error {
	if err := count(v, kind, 1); err != nil {
		return err
	}
	if l := first(v, kind).Inst(toOf[kind]).Runs; len(l) != n {
		return fmt.Errorf("%d runs are listed", len(l))
	}
	return nil
}
