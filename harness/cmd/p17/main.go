// P17: concurrent devices, owners and users do not disturb each other.
// Built with the race detector; bin/check turns its reports into violations.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/anishathalye/porcupine"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	tdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	reqtestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// flight delays requests at random and records which ones overlap.
type flight struct {
	mu    sync.Mutex
	now   map[int]string
	next  int
	pairs map[string]int
	order map[string]int // distinct short windows of the event log
	win   []string
	max   int
	delay int // microseconds
	rnd   *rand.Rand
	hold  func(path string, r *http.Request)
}

func newFlight(r *rand.Rand, delay int) *flight {
	return &flight{now: map[int]string{}, pairs: map[string]int{}, order: map[string]int{}, rnd: r, delay: delay}
}

func short(p string) string {
	p = strings.TrimPrefix(p, "/fdo/101/msg/")
	f := strings.Split(p, "/")
	if len(f) > 4 {
		f = f[:4]
	}
	return strings.Join(f, "/")
}

func (f *flight) event(e string) {
	f.win = append(f.win, e)
	if len(f.win) > 6 {
		f.win = f.win[1:]
		f.order[strings.Join(f.win, " ")]++
	}
}

func (f *flight) tap(h http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		p := short(r.URL.Path)
		f.mu.Lock()
		me := f.next
		f.next++
		for _, o := range f.now {
			a, b := p, o
			if a > b {
				a, b = b, a
			}
			f.pairs[a+" | "+b]++
		}
		f.now[me] = p
		if len(f.now) > f.max {
			f.max = len(f.now)
		}
		f.event("+" + p)
		d1, d2 := f.rnd.IntN(f.delay+1), f.rnd.IntN(f.delay+1)
		hold := f.hold
		f.mu.Unlock()
		defer func() {
			f.mu.Lock()
			delete(f.now, me)
			f.event("-" + p)
			f.mu.Unlock()
		}()
		if hold != nil {
			hold(p, r)
		}
		time.Sleep(time.Duration(d1) * time.Microsecond)
		h.ServeHTTP(w, r)
		time.Sleep(time.Duration(d2) * time.Microsecond)
	})
}

func (f *flight) report(c *kit.Check, what string) {
	f.mu.Lock()
	defer f.mu.Unlock()
	c.CountN("overlapping request pairs", len(f.pairs))
	c.CountN("distinct event windows", len(f.order))
	c.Extra(what, fmt.Sprintf("%d requests, at most %d in flight, %d kinds of overlapping pairs, %d distinct windows of 6 start/end events", f.next, f.max, len(f.pairs), len(f.order)))
}

func judgePanics(c *kit.Check, s *sut.SUT) {
	for _, p := range s.Panics() {
		c.Violation("panic-"+short(p.Path), "request to %s panicked under concurrency: %s\n%s", p.Path, p.Value, p.Stack)
	}
}

// clients runs n goroutines.
func clients(c *kit.Check, n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if p := kit.Try(func() { f(i) }); p != "" {
				if kit.FromSUT(p) {
					c.Violation("panic-escaped", "%s", p)
				} else {
					c.Broken("client %d: %s", i, p)
				}
			}
		}()
	}
	wg.Wait()
}

// ---- onboardings ----

func marked(tag string, n int) [][]ref.SIM {
	b := [][]ref.SIM{ref.Mandatory()}
	for i := 0; i < n; i++ {
		b = append(b, []ref.SIM{{Key: "fido_alliance:dev_conformance", Val: ref.Enc(fmt.Sprint(tag, "-", i))}})
	}
	return b
}

// ---- values that must be new each time ----

type once struct {
	mu sync.Mutex
	m  map[string]string
}

// add judges that no other session got the same value.
func (o *once) add(c *kit.Check, what, who string, v []byte) {
	o.mu.Lock()
	defer o.mu.Unlock()
	k := what + string(v)
	old, ok := o.m[k]
	c.Must(!ok && len(v) > 0, "not-new-"+what, "the %s %x of %s was also given to %s", what, v, who, old)
	o.m[k] = who
	c.Count("values seen once")
}

// generators: what the parties draw at the same time differs.
func generators(c *kit.Check, n int) {
	o := &once{m: map[string]string{}}
	start := make(chan struct{})
	var wg sync.WaitGroup
	got := make([]map[string][][]byte, 16)
	for i := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := map[string][][]byte{}
			add := func(w string, b []byte) { m[w] = append(m[w], append([]byte(nil), b...)) }
			<-start
			for k := 0; k < n; k++ {
				x := fdoshared.NewFdoNonce()
				add("nonce", x[:])
			}
			for k := 0; k < n; k++ {
				g := fdoshared.NewFdoGuid()
				add("guid", g[:])
				b := fdoshared.NewRandomBuffer(24)
				add("buffer", b)
				add("string", []byte(fdoshared.NewRandomString(24)))
				add("hmac key", fdoshared.NewHmacKey(fdoshared.HASH_HMAC_SHA256))
			}
			got[i] = m
		}()
	}
	close(start)
	wg.Wait()
	for i, m := range got {
		for w, l := range m {
			for k, v := range l {
				o.add(c, w, fmt.Sprintf("client %d draw %d", i, k), v)
			}
		}
	}
	c.Eval("generators")
}

// register makes the rendezvous know the party under its own address, and gives the blob.
func register(p *sut.Party, host string) ([]byte, error) {
	t := &ref.TO0{Conn: ref.Conn{Base: p.URL}}
	if _, err := t.Hello(); err != nil {
		return nil, err
	}
	o := p.OwnerSign(t.Nonce)
	o.Addrs = []ref.RVAddr{ref.DNSAddr(host, 8043, 3)}
	b, blob := o.Build()
	_, err := ref.AcceptedWait(t.Post(22, b))
	return blob, err
}

func lookup(p *sut.Party) ([]byte, ref.Resp, error) {
	t := &ref.TO1{Conn: ref.Conn{Base: p.URL}, Dev: p.Dev}
	if r, err := t.Hello(); err != nil {
		return nil, r, err
	}
	r := t.Prove()
	if !r.Ok(33) {
		return nil, r, fmt.Errorf("32: %s", r)
	}
	return r.Body, r, nil
}

// onboardings: each client uses its own devices, plus one voucher that all share.
func onboardings(c *kit.Check, nClients, rounds, delay int) {
	fl := newFlight(c.Rand("delay"), delay)
	s := sut.New(sut.Opt{Tap: fl.tap})
	defer s.Close()
	shared, err := s.NewParty(ref.SgES256, ref.SgES384, 2)
	if err != nil {
		c.Violation("honest", "%v", err)
		return
	}
	sgs := []int{ref.SgES256, ref.SgES384}
	owners := []int{ref.SgES256, ref.SgES384, ref.SgRS2048, ref.SgRS3072}
	seen := &once{m: map[string]string{}}
	clients(c, nClients, func(i int) {
		r := c.Rand(fmt.Sprint("client", i))
		for k := 0; k < rounds; k++ {
			tag := fmt.Sprintf("c%dr%d", i, k)
			p, err := s.NewParty(sgs[r.IntN(2)], owners[r.IntN(4)], 1+r.IntN(3))
			if err != nil {
				c.Violation("voucher-save", "%s: %v", tag, err)
				return
			}
			blob, err := register(p, tag+".example.org")
			if !c.Must(err == nil, "register", "honest registration %s refused under concurrency: %v", tag, err) {
				continue
			}
			got, _, err := lookup(p)
			c.Must(err == nil && bytes.Equal(got, blob), "lookup", "%s: the device got %x (%v), registered was %x", tag, got, err, blob)
			q := p
			if r.IntN(4) == 0 {
				q = shared
				c.Count("onboardings of the shared voucher")
			}
			t := q.RandTO2(r)
			if err := t.Run(marked(tag, r.IntN(3))); err != nil {
				c.Violation("onboarding", "%s: honest onboarding fails under concurrency: %v", tag, err)
			}
			seen.add(c, "TO2 nonce", tag, t.NonceDv[:])
			seen.add(c, "TO2 exchange parameter", tag, t.XA)
			seen.add(c, "session token", tag, []byte(t.Tok))
			c.Must(len(t.OwnerSIMs) == 0, "owner-sims", "%s: service info nobody configured: %v", tag, t.OwnerSIMs)
			c.Count("honest onboardings")
			c.Eval(fmt.Sprintf("onboard %d/%d %s %d", q.Dev.Key.Sg, q.Owner.Sg, t.KexName, t.Cipher))

			switch r.IntN(5) {
			case 0: // an impostor knows everything but the device key
				bad := *q.Dev
				bad.Key = ref.GenKey(bad.Key.Sg)
				t := q.RandTO2(r)
				t.Dev = &bad
				if _, err := t.Hello(); err == nil {
					if err = t.GetEntries(); err == nil {
						rs, perr := t.Prove()
						c.Must(perr != nil && rs.Refused(), "impostor", "%s: impostor is let in: %s", tag, rs)
						c.Count("impostors refused")
					}
				}
			case 1: // wrong device at the rendezvous
				bad := *p.Dev
				bad.Key = ref.GenKey(bad.Key.Sg)
				b := &sut.Party{Dev: &bad, Owner: p.Owner, V: p.V, URL: p.URL}
				body, rs, err := lookup(b)
				c.Must(err != nil && body == nil && rs.Refused(), "rv-impostor", "%s: rendezvous answers the wrong device: %s", tag, rs)
				c.Count("impostors refused")
			case 2: // somebody else redirects the device
				b := *p
				b.Owner = ref.GenKey(p.Owner.Sg)
				_, err := register(&b, "evil.example.org")
				c.Must(err != nil, "hijack", "%s: registration by a foreign key accepted", tag)
				got, _, lerr := lookup(p)
				c.Must(lerr == nil && bytes.Equal(got, blob), "hijack-effect", "%s: after a refused registration the device gets %x (%v)", tag, got, lerr)
				c.Count("impostors refused")
			case 3: // two sessions of one device step by step, then tokens swapped
				a, b := p.RandTO2(r), q.RandTO2(r)
				if _, err := a.Hello(); err == nil {
					if _, err = b.Hello(); err == nil {
						if a.GetEntries() == nil && b.GetEntries() == nil {
							if _, err := a.Prove(); err != nil {
								c.Violation("interleaved", "%s: %v", tag, err)
								continue
							}
							tok := b.Tok
							b.Tok = a.Tok
							rs, err := b.Prove()
							c.Must(err != nil && rs.Refused(), "foreign-session", "%s: proof accepted in another session: %s", tag, rs)
							b.Tok = tok
							c.Count("impostors refused")
						}
					}
				}
			}
		}
	})
	judgePanics(c, s)
	fl.report(c, fmt.Sprintf("onboardings %d clients", nClients))
}

// ---- the registration table is a linearizable register per device ----

type rvIn struct {
	write bool
	val   string
}

var regModel = porcupine.Model{
	Init: func() any { return "" },
	Step: func(st, in, out any) (bool, any) {
		i := in.(rvIn)
		if i.write {
			return true, i.val
		}
		return out.(string) == st.(string), st
	},
	Equal: func(a, b any) bool { return a == b },
}

func rendezvous(c *kit.Check, rounds, writers, readers, ops, delay int) {
	fl := newFlight(c.Rand("rv delay"), delay)
	s := sut.New(sut.Opt{Tap: fl.tap})
	defer s.Close()
	for k := 0; k < rounds; k++ {
		p, err := s.NewParty(ref.SgES256, ref.SgES256, 1)
		if err != nil {
			c.Violation("honest", "%v", err)
			return
		}
		start := time.Now()
		var mu sync.Mutex
		var hist []porcupine.Operation
		clients(c, writers+readers, func(i int) {
			for j := 0; j < ops; j++ {
				if i < writers {
					t := &ref.TO0{Conn: ref.Conn{Base: s.URL}}
					if _, err := t.Hello(); err != nil {
						c.Violation("register", "%v", err)
						return
					}
					o := p.OwnerSign(t.Nonce)
					o.Addrs = []ref.RVAddr{ref.DNSAddr(fmt.Sprintf("w%d-%d.example.org", i, j), 8043, 3)}
					b, blob := o.Build()
					evil := j%3 == 2
					if evil { // refused ones must leave no trace; they are not in the history
						o.Signer = ref.GenKey(ref.SgES256)
						b, _ = o.Build()
					}
					t0 := time.Since(start)
					_, err := ref.AcceptedWait(t.Post(22, b))
					t1 := time.Since(start)
					if evil {
						c.Must(err != nil, "hijack", "registration by a foreign key accepted")
						continue
					}
					if err != nil {
						c.Violation("register", "honest registration refused: %v", err)
						return
					}
					mu.Lock()
					hist = append(hist, porcupine.Operation{ClientId: i, Input: rvIn{true, string(blob)}, Call: int64(t0), Return: int64(t1), Output: ""})
					mu.Unlock()
				} else {
					t0 := time.Since(start)
					v := ""
					b, rs, err := lookup(p)
					t1 := time.Since(start)
					if err == nil {
						v = string(b)
					} else if e, derr := rs.Error(); derr != nil || e.Code != 6 {
						c.Violation("lookup", "honest lookup: %v", err)
						return
					}
					mu.Lock()
					hist = append(hist, porcupine.Operation{ClientId: i, Input: rvIn{}, Call: int64(t0), Return: int64(t1), Output: v})
					mu.Unlock()
				}
			}
		})
		// the last word: a lookup after everything
		t0 := time.Since(start)
		b, _, err := lookup(p)
		if err != nil {
			c.Violation("lookup", "final lookup: %v", err)
			continue
		}
		hist = append(hist, porcupine.Operation{ClientId: 1000, Input: rvIn{}, Call: int64(t0), Return: int64(time.Since(start)), Output: string(b)})
		switch porcupine.CheckOperationsTimeout(regModel, hist, 20*time.Second) {
		case porcupine.Illegal:
			var sb strings.Builder
			sort.Slice(hist, func(a, b int) bool { return hist[a].Call < hist[b].Call })
			for _, o := range hist {
				in := o.Input.(rvIn)
				fmt.Fprintf(&sb, "%8d..%8d client %d write=%v %s\n", o.Call/1000, o.Return/1000, o.ClientId, in.write, name(in.val+o.Output.(string)))
			}
			c.Violation("not-linearizable", "registrations and lookups of one device have no sequential explanation:\n%s", sb.String())
		case porcupine.Unknown:
			c.Count("histories not decided in time")
		default:
			c.Count("linearizable histories")
		}
		c.CountN("history operations", len(hist))
		c.Eval(fmt.Sprintf("rv history %d ops", len(hist)))
	}
	judgePanics(c, s)
	fl.report(c, "rendezvous register")
}

func name(blob string) string {
	if i := strings.Index(blob, ".example.org"); i > 0 {
		j := i
		for j > 0 && (blob[j-1] == '-' || blob[j-1] >= '0' && blob[j-1] <= '9' || blob[j-1] >= 'a' && blob[j-1] <= 'z') {
			j--
		}
		return blob[j:i]
	}
	return "(absent)"
}

// ---- test management ----

type made struct {
	mu sync.Mutex
	m  map[string]int // kind+url/name -> acknowledged creations
}

func (m *made) add(k string) { m.mu.Lock(); m.m[k]++; m.mu.Unlock() }
func (m *made) snapshot() map[string]int {
	m.mu.Lock()
	defer m.mu.Unlock()
	o := map[string]int{}
	for k, v := range m.m {
		o[k] = v
	}
	return o
}

func label(kind string, it sut.Item) string {
	if kind == "device" {
		return kind + " " + it.Name
	}
	return kind + " " + it.Url
}

func listAll(u *sut.User) (map[string]int, map[string]sut.Item, error) {
	o, items := map[string]int{}, map[string]sut.Item{}
	for _, k := range []string{"rvt", "dot", "device"} {
		l, err := u.List(k)
		if err != nil {
			return nil, nil, err
		}
		for _, it := range l {
			o[label(k, it)]++
			items[label(k, it)] = it
		}
	}
	return o, items, nil
}

// barrier: while a device registration waits for the rendezvous, another client of the same user works.
func barrier(c *kit.Check) {
	fl := newFlight(c.Rand("barrier"), 0)
	s := sut.New(sut.Opt{API: true, Tap: fl.tap})
	defer s.Close()
	if _, err := sut.Seed(s.DB, 22); err != nil {
		c.Broken("seed: %v", err)
	}
	for k, between := range []string{"rvt", "dot", "device", "login", "purge"} {
		u, err := s.NewUser(fmt.Sprintf("user%d@example.org", k))
		if err != nil {
			c.Broken("%v", err)
		}
		if between == "login" {
			if u, err = s.Login(); err != nil {
				c.Violation("login", "%v", err)
				continue
			}
		}
		if r := u.CreateRVT("http://before.example.org"); !r.Ok() {
			c.Violation("create", "rvt/create: %s", r)
			continue
		}
		held, release := make(chan bool), make(chan bool)
		var once sync.Once
		fl.mu.Lock()
		fl.hold = func(p string, r *http.Request) {
			if p == "20" {
				first := false
				once.Do(func() { first = true })
				if first {
					close(held)
					<-release
				}
			}
		}
		fl.mu.Unlock()
		dev := func(name string) sut.APIResp {
			d := ref.NewDevice(ref.SgES256)
			own := ref.GenKeyCached(ref.SgES256)
			return u.CreateDevice(name, ref.BuildVoucher(d, []ref.Key{own, own}, ref.RandRV()), own)
		}
		res := make(chan sut.APIResp, 1)
		go func() { res <- dev("held device") }()
		want := map[string]int{"rvt http://before.example.org": 1, "device held device": 1}
		<-held
		var r sut.APIResp
		switch between {
		case "rvt":
			r = u.CreateRVT("http://between.example.org")
			want["rvt http://between.example.org"] = 1
		case "dot":
			r = u.CreateDOT("http://between.example.org", ref.GenKeyCached(ref.SgES256))
			want["dot http://between.example.org"] = 1
		case "device":
			r = dev("between")
			want["device between"] = 1
		case "login":
			_, err := s.Login()
			r = sut.APIResp{Status: 200, Body: []byte(`{"status":"ok"}`), Err: err}
		case "purge":
			r = u.Do("POST", "/api/user/purgetests", []byte("{}"))
			if !r.Ok() {
				r = u.Do("GET", "/api/user/purgetests", nil)
			}
			delete(want, "rvt http://before.example.org")
		}
		close(release)
		d := <-res
		if !r.Ok() || !d.Ok() {
			c.Violation("create", "%s while a device is being created: %s; the device: %s", between, r, d)
			continue
		}
		got, _, err := listAll(u)
		c.Must(err == nil && fmt.Sprint(got) == fmt.Sprint(want), "overtaken-"+between, "device/create was overtaken by %s of the same user: listed are %v (%v), acknowledged were %v", between, got, err, want)
		c.Count("overtaken calls")
		c.Eval("overtaken " + between)
	}
	judgePanics(c, s)
}

// verdicts of the runs of one instance, with identifiers only.
func ids(r sut.ReqRun) string {
	var l []string
	for k := range r.Tests {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func management(c *kit.Check, nUsers, perUser, actions, delay int) {
	fl := newFlight(c.Rand("api delay"), delay)
	s := sut.New(sut.Opt{API: true, Tap: fl.tap})
	defer s.Close()
	if _, err := sut.Seed(s.DB, 240); err != nil {
		c.Broken("seed: %v", err)
	}
	// what an execution records when nothing else runs
	alone := map[string]string{}
	lone, err := s.NewUser("alone@example.org")
	if err != nil {
		c.Broken("%v", err)
	}
	prepare := func(u *sut.User, kind, tag string, sg int) (sut.Item, bool) {
		// the same server under a name of its own
		url := s.URL
		var r sut.APIResp
		if kind == "rvt" {
			r = u.CreateRVT(url)
		} else {
			r = u.CreateDOT(url, ref.GenKeyCached(sg))
		}
		if !r.Ok() {
			c.Violation("create", "%s/create of %s: %s", kind, tag, r)
			return sut.Item{}, false
		}
		return sut.Item{}, true
	}
	load := func(u *sut.User, it sut.Item) bool {
		m, err := u.Vouchers(it.Inst(2).Id)
		if err != nil || len(m) == 0 {
			c.Violation("vouchers", "voucher download: %v", err)
			return false
		}
		if !s.Claim(m) {
			c.Count("device drawn twice")
			return false
		}
		for _, b := range m {
			if err := s.LoadVoucher(b); err != nil {
				c.Violation("vouchers", "downloaded voucher is not loadable: %v", err)
				return false
			}
		}
		return true
	}
	exec := func(u *sut.User, kind string, it sut.Item, to int) {
		r := u.Execute(kind, it.Inst(to).Id)
		c.Must(r.Ok(), "execute", "%s/execute TO%d: %s", kind, to, r)
	}
	for _, kind := range []string{"rvt", "dot"} {
		if _, ok := prepare(lone, kind, "alone", ref.SgES256); !ok {
			return
		}
		l, err := lone.List(kind)
		if err != nil || len(l) != 1 {
			c.Violation("list", "%v %d", err, len(l))
			return
		}
		tos := []int{0, 1} // TO0 takes long in a race build
		if !c.Thorough() {
			tos = []int{1}
		}
		if kind == "dot" {
			tos = []int{2}
			if !load(lone, l[0]) {
				return
			}
		}
		for _, to := range tos {
			exec(lone, kind, l[0], to)
		}
		l, _ = lone.List(kind)
		for _, to := range tos {
			in := l[0].Inst(to)
			if len(in.Runs) != 1 || in.InProgress {
				c.Violation("alone", "a lone execution leaves %d runs, in progress %v", len(in.Runs), in.InProgress)
				return
			}
			alone[fmt.Sprint(kind, to)] = ids(in.Runs[0])
		}
	}
	c.Extra("alone", fmt.Sprint(alone))
	users := make([]*sut.User, nUsers)
	log := make([]*made, nUsers)
	for i := range users {
		log[i] = &made{m: map[string]int{}}
		if i == 0 { // everybody logs in and creates at once
			continue
		}
		if users[i], err = s.NewUser(fmt.Sprintf("u%d@example.org", i)); err != nil {
			c.Broken("%v", err)
		}
	}
	clients(c, nUsers*perUser, func(n int) {
		ui := n % nUsers
		r := c.Rand(fmt.Sprint("api", n))
		var u *sut.User
		var err error
		if ui == 0 {
			if u, err = s.Login(); err != nil {
				c.Violation("login", "%v", err)
				return
			}
		} else if u, err = s.Session(users[ui].Email, true); err != nil {
			c.Broken("%v", err)
		}
		lg := log[ui]
		for k := 0; k < actions; k++ {
			tag := fmt.Sprintf("http://c%d-%d.example.org", n, k)
			switch x := r.IntN(10); {
			case x < 3 || k == 0:
				if rs := u.CreateRVT(tag); rs.Ok() {
					lg.add("rvt " + tag)
				} else {
					c.Violation("create", "rvt/create: %s", rs)
				}
			case x < 5:
				if rs := u.CreateDOT(tag, ref.GenKeyCached([]int{ref.SgES256, ref.SgES384}[r.IntN(2)])); rs.Ok() {
					lg.add("dot " + tag)
				} else {
					c.Violation("create", "dot/create: %s", rs)
				}
			case x < 7:
				d := ref.NewDevice([]int{ref.SgES256, ref.SgES384}[r.IntN(2)])
				own := ref.GenKeyCached(ref.SgES256)
				if rs := u.CreateDevice(tag, ref.BuildVoucher(d, []ref.Key{own, own}, ref.RandRV()), own); rs.Ok() {
					lg.add("device " + tag)
				} else {
					c.Violation("create", "device/create: %s", rs)
				}
			default:
				before := lg.snapshot()
				got, _, err := listAll(u)
				if !c.Must(err == nil, "list", "listing under concurrency: %v", err) {
					continue
				}
				for k := range before {
					c.Must(got[k] == 1, "lost-entry", "user %d: %q was acknowledged before the listing but is listed %d times", ui, k, got[k])
				}
				for k, v := range got {
					c.Must(v == 1, "duplicate-entry", "user %d: %q is listed %d times", ui, k, v)
				}
				c.Count("listings checked")
			}
			c.Count("management calls")
		}
	})
	for i := range users {
		u, err := s.Session(fmt.Sprintf("u%d@example.org", i), true)
		if i == 0 {
			u, err = s.Login()
		}
		if err != nil {
			c.Violation("login", "%v", err)
			continue
		}
		got, _, err := listAll(u)
		want := log[i].snapshot()
		c.Must(err == nil && fmt.Sprint(got) == fmt.Sprint(want), "entries", "user %d: listed at the end are %v (%v), acknowledged were %v", i, got, err, want)
		c.CountN("entries conserved", len(want))
		c.Eval(fmt.Sprintf("entries of user %d", i))
	}
	// executions of distinct instances at once, with onboardings, other calls and deletion of older runs of others
	type job struct {
		u    *sut.User
		kind string
		it   sut.Item
		to   int
		n    int
	}
	var jobs []*job
	nj := c.N(7, 24)
	for i := 0; i < nj; i++ {
		u, err := s.NewUser(fmt.Sprintf("exec%d@example.org", i))
		if err != nil {
			c.Broken("%v", err)
		}
		kind, to := []string{"rvt", "dot", "rvt"}[i%3], []int{0, 2, 1}[i%3]
		if i > 0 && to == 0 && !c.Thorough() {
			to = 1
		}
		if _, ok := prepare(u, kind, "exec", []int{ref.SgES256, ref.SgES384}[i%2]); !ok {
			return
		}
		l, err := u.List(kind)
		if err != nil || len(l) != 1 {
			c.Violation("list", "%v %d", err, len(l))
			return
		}
		if kind == "dot" && !load(u, l[0]) {
			continue // violated, or its device is in use: the other jobs do
		}
		jobs = append(jobs, &job{u: u, kind: kind, it: l[0], to: to})
	}
	stop := make(chan bool)
	var bg sync.WaitGroup
	for i := 0; i < 2; i++ {
		bg.Add(1)
		go func() {
			defer bg.Done()
			r := c.Rand(fmt.Sprint("bg", i))
			for k := 0; ; k++ {
				select {
				case <-stop:
					return
				default:
				}
				p, err := s.NewParty(ref.SgES256, ref.SgES256, 1)
				if err == nil {
					err = p.RandTO2(r).Run(nil)
				}
				c.Must(err == nil, "onboarding", "honest onboarding fails beside executions: %v", err)
				c.Count("onboardings beside executions")
			}
		}()
	}
	clients(c, len(jobs), func(i int) {
		j := jobs[i]
		times := c.N(4, 4)
		if j.to == 0 && !c.Thorough() {
			times = 1
		}
		for k := 0; k < times; k++ {
			exec(j.u, j.kind, j.it, j.to)
			l, err := j.u.List(j.kind)
			if err != nil || len(l) != 1 {
				c.Violation("list", "%v %d", err, len(l))
				return
			}
			in := l[0].Inst(j.to)
			j.n++
			if !c.Must(len(in.Runs) == j.n && !in.InProgress, "runs", "%s TO%d executed %d times: %d runs, in progress %v", j.kind, j.to, j.n, len(in.Runs), in.InProgress) {
				return
			}
			got := ids(in.Runs[0])
			want, known := alone[fmt.Sprint(j.kind, j.to)]
			c.Must(!known && got != "" || got == want, "verdicts", "%s TO%d beside others records\n%s\nalone it records\n%s", j.kind, j.to, got, want)
			c.Count("executions beside others")
			c.Eval(fmt.Sprintf("execute %s TO%d", j.kind, j.to))
			if k == 0 && i%2 == 0 {
				if rs := j.u.DeleteRun(j.kind, in.Id, in.Runs[0].Uuid); rs.Ok() {
					j.n--
				} else {
					c.Violation("delete", "%s", rs)
				}
			}
		}
	})
	close(stop)
	bg.Wait()
	judgePanics(c, s)
	fl.report(c, "management")
}

// logins of a new installation
func logins(c *kit.Check, rounds, n int) {
	for k := 0; k < rounds; k++ {
		fl := newFlight(c.Rand(fmt.Sprint("login", k)), 2000)
		s := sut.New(sut.Opt{API: true, Tap: fl.tap})
		if _, err := sut.Seed(s.DB, 21); err != nil {
			c.Broken("seed: %v", err)
		}
		lg := &made{m: map[string]int{}}
		clients(c, n, func(i int) {
			u, err := s.Login()
			if err != nil {
				c.Violation("login", "%v", err)
				return
			}
			for k := 0; k < 2; k++ {
				tag := fmt.Sprintf("http://l%d-%d.example.org", i, k)
				if rs := u.CreateRVT(tag); rs.Ok() {
					lg.add("rvt " + tag)
				} else {
					c.Violation("create", "rvt/create after login: %s", rs)
				}
			}
		})
		u, err := s.Login()
		if err != nil {
			c.Violation("login", "%v", err)
		} else {
			got, _, err := listAll(u)
			want := lg.snapshot()
			c.Must(err == nil && fmt.Sprint(got) == fmt.Sprint(want), "first-logins", "%d clients log in to a new installation and create two tests each: listed %v (%v), acknowledged %v", n, got, err, want)
		}
		c.Count("first login rounds")
		judgePanics(c, s)
		fl.report(c, fmt.Sprintf("logins round %d", k))
		s.Close()
	}
}

// the store of runs: changes that commute must all be there
func runStore(c *kit.Check, rounds int) {
	db := sut.MemDB()
	defer db.Close()
	c.Parallel(rounds, func(k int) {
		st := tdbs.NewRequestTestDB(db)
		inst := reqtestsdeps.NewRequestTestInst("http://x.example.org", fdoshared.To0)
		if err := st.Save(inst); err != nil {
			c.Broken("%v", err)
		}
		const old, reports = 6, 8
		for i := 0; i < old; i++ {
			st.StartNewRun(inst.Uuid)
			st.FinishRun(inst.Uuid)
		}
		st.StartNewRun(inst.Uuid)
		g, err := st.Get(inst.Uuid)
		if err != nil || len(g.TestsHistory) != old+1 {
			c.Violation("run-store", "%v", err)
			return
		}
		cur := g.TestsHistory[0].Uuid
		var wg sync.WaitGroup
		begin := make(chan bool)
		do := func(f func()) {
			wg.Add(1)
			go func() { defer wg.Done(); <-begin; f() }()
		}
		// one executes and reports, users remove older runs meanwhile
		do(func() {
			for i := 0; i < reports; i++ {
				id := testcom.FDOTestID(fmt.Sprint("T", i))
				st.ReportTest(inst.Uuid, id, testcom.FDOTestState{Passed: true, TestID: id})
				runtime.Gosched()
			}
			st.FinishRun(inst.Uuid)
		})
		for i := 1; i <= old; i += 2 {
			u := g.TestsHistory[i].Uuid
			do(func() { st.RemoveTestRun(inst.Uuid, u) })
		}
		close(begin)
		wg.Wait()
		e, err := st.Get(inst.Uuid)
		if err != nil {
			c.Violation("run-store", "%v", err)
			return
		}
		bad := ""
		if e.InProgress {
			bad = "the finished run is still in progress"
		}
		if len(e.TestsHistory) != old+1-old/2 {
			bad += fmt.Sprintf(" %d runs are left of %d after removing %d", len(e.TestsHistory), old+1, old/2)
		}
		if len(e.TestsHistory) > 0 && (e.TestsHistory[0].Uuid != cur || len(e.TestsHistory[0].Tests) != reports) {
			bad += fmt.Sprintf(" the executed run has %d of %d verdicts", len(e.TestsHistory[0].Tests), reports)
		}
		c.Must(bad == "", "run-store-lost", "a run was executed while older ones were deleted: %s", bad)
		c.Count("run store rounds")
		if k < 20 {
			c.Eval(fmt.Sprintf("run store %d", k))
		}
	})
}

// ---- the program itself ----

func program(c *kit.Check) {
	sut.RaceCLI = true
	dir := filepath.Join(sut.Scratch(), "serve")
	os.MkdirAll(dir, 0o755)
	db, err := sut.OpenDir(dir)
	if err != nil {
		c.Broken("%v", err)
	}
	if _, err := sut.Seed(db, 22); err != nil {
		c.Broken("%v", err)
	}
	pre := &sut.SUT{DB: db}
	var parties []*sut.Party
	n := c.N(24, 200)
	for i := 0; i < n; i++ {
		p, err := pre.NewParty([]int{ref.SgES256, ref.SgES384}[i%2], []int{ref.SgES256, ref.SgES384, ref.SgRS2048}[i%3], 1+i%3)
		if err != nil {
			c.Broken("%v", err)
		}
		parties = append(parties, p)
	}
	db.Close()
	pr, err := sut.Serve(dir, []string{"MODE=onprem", "FDO_SERVICE_URL="})
	if err != nil {
		c.Broken("serve: %v", err)
	}
	defer pr.Kill()
	s := &sut.SUT{URL: pr.URL}
	lg := &made{m: map[string]int{}}
	clients(c, 16, func(i int) {
		r := c.Rand(fmt.Sprint("prog", i))
		var u *sut.User
		for k := i; k < n; k += 16 {
			p := parties[k]
			p.URL = pr.URL
			tag := fmt.Sprintf("http://p%d.example.org", k)
			switch i % 4 {
			case 3:
				if u == nil {
					var err error
					if u, err = s.Login(); err != nil {
						c.Violation("login", "%v", err)
						return
					}
				}
				if rs := u.CreateRVT(pr.URL + "?" + tag[7:]); rs.Ok() {
					lg.add("x")
				} else {
					c.Violation("create", "%s", rs)
				}
				l, err := u.List("rvt")
				if err != nil || len(l) == 0 {
					c.Violation("list", "%v", err)
					return
				}
				c.Count("program: management calls")
			default:
				blob, err := register(p, tag[7:])
				if !c.Must(err == nil, "register", "program: %v", err) {
					continue
				}
				got, _, err := lookup(p)
				c.Must(err == nil && bytes.Equal(got, blob), "lookup", "program: %v", err)
				err = p.RandTO2(r).Run(marked(tag, r.IntN(3)))
				c.Must(err == nil, "onboarding", "program: honest onboarding fails under concurrency: %v", err)
				c.Count("program: honest onboardings")
			}
		}
	})
	c.Must(pr.Alive(), "program-died", "the program has ended: %s", pr.Output())
	if u, err := s.Login(); err != nil {
		c.Violation("login", "%v", err)
	} else {
		l, err := u.List("rvt")
		c.Must(err == nil && len(l) == lg.m["x"], "entries", "program: %d tests acknowledged, %d listed (%v)", lg.m["x"], len(l), err)
		// executions of all of them at once
		m := min(len(l), c.N(4, 8))
		clients(c, m, func(i int) {
			rs := u.Execute("rvt", l[i].Inst(i%2).Id)
			c.Must(rs.Ok(), "execute", "program: %s", rs)
		})
		l, err = u.List("rvt")
		for i := 0; i < m && err == nil; i++ {
			in := l[i].Inst(i % 2)
			c.Must(len(in.Runs) == 1 && len(in.Runs[0].Tests) > 0 && !in.InProgress, "runs", "program: %+v", in)
			c.Count("program: executions")
		}
	}
	c.Must(!strings.Contains(pr.Output(), "http: panic"), "program-panic", "the program logged a panic: %s", pr.Output())
}

func main() {
	kit.Main("P17", func(c *kit.Check) {
		c.Rule = "cases are clients with their own devices, tests and sessions; each must end as it would alone"
		c.Assume = append(c.Assume, "two executions of one and the same test instance, or an API call and its own device's requests on one device test, are not run at once: the property speaks of different participants")
		for _, ph := range []struct {
			n string
			f func()
		}{
			{"generators", func() { generators(c, c.N(3000, 40000)) }},
			{"onboardings", func() { onboardings(c, c.N(16, 24), c.N(6, 60), 3000) }},
			{"onboardings without delays", func() { onboardings(c, c.N(48, 64), c.N(3, 20), 0) }},
			{"rendezvous", func() { rendezvous(c, c.N(40, 400), 4, 5, 5, 2000) }},
			{"barrier", func() { barrier(c) }},
			{"logins", func() { logins(c, c.N(10, 60), 12) }},
			{"run store", func() { runStore(c, c.N(1000, 20000)) }},
			{"management", func() { management(c, 3, 5, c.N(7, 60), 1500) }},
			{"program", func() { program(c) }},
		} {
			t := time.Now()
			ph.f()
			c.Extra("seconds of "+ph.n, int(time.Since(t).Seconds()))
		}
		for _, x := range []string{"honest onboardings", "impostors refused", "onboardings of the shared voucher", "linearizable histories", "overtaken calls", "first login rounds", "run store rounds", "management calls", "listings checked", "executions beside others", "onboardings beside executions", "program: honest onboardings", "program: management calls", "program: executions", "entries conserved"} {
			c.Require(x, 3)
		}
		c.Require("values seen once", 1000)
		c.Require("overlapping request pairs", 30)
		c.Require("distinct event windows", 300)
	})
}
