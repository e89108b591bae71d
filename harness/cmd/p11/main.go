// P11: the owner service proves ownership and presents the voucher truthfully.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sync"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// seen remembers every value that must be fresh.
type seen struct {
	mu sync.Mutex
	m  map[string]string
}

var fresh = seen{m: map[string]string{}}

func (s *seen) add(c *kit.Check, kind string, v []byte) {
	s.mu.Lock()
	old, dup := s.m[string(v)]
	s.m[string(v)] = kind
	s.mu.Unlock()
	c.Must(!dup, "not-fresh", "%s %x was issued before as %s", kind, v, old)
	c.Must(!bytes.Equal(v, make([]byte, len(v))), "not-fresh", "%s is all zero", kind)
	c.Count("fresh " + kind)
}

// spell writes the hello in one of several equally valid encodings.
func spell(r *rand.Rand, t *ref.TO2) ([]byte, ref.Hello60, string) {
	h := t.Hello60()
	if r.IntN(3) == 0 { // signature info may carry data, so a hello may be long
		h.Sig.Info = kit.Bytes(r, []int{1, 23, 24, 40, 64, 128, 300, 1000, 5000}[r.IntN(9)])
		return ref.Enc(h), h, "hello with signature info"
	}
	switch k := r.IntN(6); k {
	case 0, 1: // long array head, long byte string heads
		b := []byte{0x98, 0x06}
		if k == 1 {
			b = []byte{0x9f}
		}
		b = append(b, 0x1a, 0, 0, byte(h.Max>>8), byte(h.Max))
		b = append(append(b, 0x58, 0x10), h.Guid[:]...)
		b = append(append(b, 0x59, 0, 0x10), h.Nonce[:]...)
		b = append(append(b, 0x78, byte(len(h.Kex))), h.Kex...)
		b = append(b, ref.Enc(h.Cipher)...)
		b = append(b, 0x9a, 0, 0, 0, 2)
		b = append(b, ref.Enc(h.Sig.Sg)...)
		b = append(b, 0x40)
		if k == 1 {
			b = append(b, 0xff)
		}
		return b, h, "hello with long heads"
	}
	return ref.Enc(h), h, "hello"
}

type run struct {
	c    *kit.Check
	r    *rand.Rand
	p    *sut.Party
	t    *ref.TO2
	what string
	step int
	left []int // entries still to ask for
	bad  bool
	want []byte // header as signed for this session
}

func (x *run) fail(sig, f string, a ...any) {
	x.bad = true
	x.c.Violation(sig, "%s: %s", x.what, fmt.Sprintf(f, a...))
}

// next performs one step of the session; false at the end.
func (x *run) next() bool {
	c, r, t, p := x.c, x.r, x.t, x.p
	switch x.step {
	case 0:
		t.MaxSz = []uint16{0, 256, 1300, 2048, 65535}[r.IntN(5)]
		body, h, how := spell(r, t)
		t.HelloRaw = body
		resp := t.Post(60, body)
		if err := t.Accept61(resp, h); err != nil {
			x.fail("message-61", "%s: %v", how, err)
			return false
		}
		c.Must(bytes.Equal(t.OVHRaw, p.V.Header), "header", "%s: header %x, voucher has %x", x.what, t.OVHRaw, []byte(p.V.Header))
		c.Must(t.NumEntries == len(p.V.Entries), "entry-count", "%s: %d entries, voucher has %d", x.what, t.NumEntries, len(p.V.Entries))
		c.Must(bytes.Equal(ref.Enc(t.OVHmac), ref.Enc(p.V.Hmac)), "hmac", "%s: hmac %+v, voucher has %+v", x.what, t.OVHmac, p.V.Hmac)
		c.Must(t.OwnerKey.Equal(p.Owner.Pub()), "owner-key", "%s: owner key %x", x.what, ref.Enc(t.OwnerKey))
		fresh.add(c, "NonceTO2ProveDv", t.NonceDv[:])
		fresh.add(c, "xAKeyExchange", t.XA)
		fresh.add(c, "session token", []byte(t.Tok))
		if r.IntN(3) == 0 { // the very same hello again opens another session
			u := *t
			u.Tok = ""
			if err := u.Accept61(u.Post(60, body), h); err != nil {
				x.fail("message-61", "%s repeated: %v", how, err)
				return false
			}
			fresh.add(c, "NonceTO2ProveDv", u.NonceDv[:])
			fresh.add(c, "xAKeyExchange", u.XA)
			fresh.add(c, "session token", []byte(u.Tok))
			c.Eval("61 repeated " + t.KexName)
		}
		if err := t.MakeKex(); err != nil {
			x.fail("share", "the owner's share %x: %v", t.XA, err)
			return false
		}
		x.left = r.Perm(t.NumEntries)
		for range r.IntN(3) {
			if len(x.left) > 0 {
				x.left = append(x.left, r.IntN(t.NumEntries))
			}
		}
		c.Count("61 verified")
		c.Eval("61 " + how + fmt.Sprint(p.Dev.Key.Sg, p.Owner.Sg, t.KexName))
	case 1:
		if len(x.left) == 0 {
			break
		}
		x.step--
		i := x.left[0]
		x.left = x.left[1:]
		if r.IntN(4) == 0 {
			var idx any = []any{len(p.V.Entries), len(p.V.Entries) + 1, 255, 256, 1 << 16, -1, uint64(1) << 63, i + 256, "0"}[r.IntN(9)]
			resp := t.Post(62, ref.Enc([]any{idx}))
			if n, ok := idx.(int); ok && n >= 0 && n < len(p.V.Entries) {
				break
			}
			// only the refusal and what is not given away matter
			c.Must(resp.Refused(), "out-of-range", "%s: entry %v of %d: %s", x.what, idx, len(p.V.Entries), resp)
			c.Count("out of range refused")
			c.Eval(fmt.Sprint("range ", idx))
		}
		if _, err := t.GetEntry(i); err != nil {
			x.fail("entry", "entry %d of %d: %v", i, len(p.V.Entries), err)
			return false
		}
		got := t.Entries[len(t.Entries)-1]
		c.Must(bytes.Equal(got, p.V.Entries[i]), "entry-content", "%s: entry %d is %x, voucher has %x", x.what, i, got, p.V.Entries[i])
		c.Count("63 verified")
		c.Eval(fmt.Sprint("63 ", i, " of ", t.NumEntries))
	case 2:
		_, err := t.Prove()
		if err != nil {
			x.fail("message-65", "%v", err)
			return false
		}
		h, _ := p.V.Hdr()
		c.Must(t.Setup.Owner.Equal(p.Owner.Pub()), "setup-owner", "%s: setup names owner key %x", x.what, ref.Enc(t.Setup.Owner))
		c.Must(t.Setup.Guid == p.Dev.Guid, "setup-guid", "%s: setup names GUID %x", x.what, t.Setup.Guid)
		var a, b any
		ref.Dec(t.Setup.RV, &a)
		ref.Dec(h.RvInfo, &b)
		c.Must(reflect.DeepEqual(a, b), "setup-rvinfo", "%s: setup names rendezvous %v, voucher %v", x.what, a, b)
		c.Count("65 verified")
		c.Eval(fmt.Sprint("65 ", t.KexName, t.Cipher))
	case 3:
		if _, err := t.Ready(); err != nil {
			x.fail("message-67", "%v", err)
			return false
		}
	case 4:
		if err := t.InfoAll([][]ref.SIM{ref.Mandatory()}); err != nil {
			x.fail("message-69", "%v", err)
			return false
		}
	case 5:
		if _, err := t.Done(); err != nil {
			x.fail("message-71", "%v", err)
			return false
		}
		c.Count("71 verified")
		c.Eval(fmt.Sprint("71 ", p.Dev.Key.Sg, p.Owner.Sg, t.KexName, t.Cipher))
		return false
	}
	x.step++
	return true
}

func main() {
	kit.Main("P11", func(c *kit.Check) {
		c.Rule = "one evaluation = one owner message checked field by field against the installed voucher; distinct = (message, key types, kex, cipher, index)"
		for _, sg := range ref.OwnerSgs {
			ref.GenKeyCached(sg)
		}
		s := sut.New(sut.Opt{})
		defer s.Close()
		sessions(c, s)
		replaced(c, s)
		unknown(c, s)
		lengths(c, s)
		if c.Thorough() {
			allSuites(c, s)
		}
		for _, p := range s.Panics() {
			c.Violation("crash", "%s: %s\n%s", p.Path, p.Value, p.Stack)
		}
		c.Require("61 verified", 200)
		c.Require("63 verified", 400)
		c.Require("65 verified", 200)
		c.Require("71 verified", 200)
		c.Require("out of range refused", 60)
		c.Require("unknown device refused", 200)
		c.Require("voucher replaced", 10)
	})
}

// sessions: several devices with several interleaved sessions each.
func sessions(c *kit.Check, s *sut.SUT) {
	type combo struct{ d, o int }
	var cs []combo
	for _, d := range ref.DeviceSgs {
		for _, o := range ref.OwnerSgs {
			cs = append(cs, combo{d, o})
		}
	}
	c.Parallel(len(cs)*c.N(3, 30), func(i int) {
		r := c.Rand(fmt.Sprint("s", i))
		k := cs[i%len(cs)]
		var live []*run
		for d := range 2 {
			o := k.o
			if d == 1 {
				o = ref.OwnerSgs[r.IntN(len(ref.OwnerSgs))]
			}
			p, err := s.NewParty(k.d, o, 1+r.IntN(6))
			if err != nil {
				c.Broken("%v", err)
			}
			for n := range 5 {
				t := p.RandTO2(r)
				live = append(live, &run{c: c, r: r, p: p, t: t, what: fmt.Sprintf("device %d/%d session %d (device %d owner %d, %d entries, %s, cipher %d)", i, d, n, k.d, o, len(p.V.Entries), t.KexName, t.Cipher)})
			}
		}
		for len(live) > 0 {
			n := r.IntN(len(live))
			if !live[n].next() {
				live = append(live[:n], live[n+1:]...)
			}
		}
	})
}

// replaced: a device is sold on; the store gets its longer voucher while sessions are open.
func replaced(c *kit.Check, s *sut.SUT) {
	c.Parallel(c.N(12, 120), func(i int) {
		r := c.Rand(fmt.Sprint("rep", i))
		p, err := s.NewParty(ref.DeviceSgs[i%2], ref.OwnerSgs[r.IntN(4)], 1+r.IntN(3))
		if err != nil {
			c.Broken("%v", err)
		}
		old := *p
		a := &run{c: c, r: r, p: &old, t: p.RandTO2(r), what: "session begun before resale"}
		for range 1 + r.IntN(4) {
			if !a.next() {
				return
			}
		}
		q := *p
		q.Owner = ref.GenKeyCached(ref.OwnerSgs[r.IntN(4)])
		if q.Owner.Sg == p.Owner.Sg {
			q.Owner = ref.GenKey(q.Owner.Sg)
		}
		q.V = p.V.Clone()
		q.V.Extend(p.Owner, q.Owner.Pub(), p.Dev.HashTyp)
		if err := s.AddVoucher(q.V, q.Owner); err != nil {
			c.Broken("%v", err)
		}
		b := &run{c: c, r: r, p: &q, t: q.RandTO2(r), what: "session begun after resale"}
		for more := true; more; {
			more = false
			if !a.bad && a.step < 6 {
				if a.next() {
					more = true
				} else {
					a.step = 9
				}
			}
			if !b.bad && b.step < 6 {
				if b.next() {
					more = true
				} else {
					b.step = 9
				}
			}
		}
		c.Count("voucher replaced")
	})
}

func unknown(c *kit.Check, s *sut.SUT) {
	c.Parallel(c.N(30, 300), func(i int) {
		r := c.Rand(fmt.Sprint("unk", i))
		p, err := s.NewParty(ref.DeviceSgs[i%2], ref.OwnerSgs[r.IntN(4)], 1+r.IntN(3))
		if err != nil {
			c.Broken("%v", err)
		}
		try := func(what string, g ref.Guid) {
			d := *p.Dev
			d.Guid = g
			t := p.RandTO2(r)
			t.Dev = &d
			t.HelloRaw = ref.Enc(t.Hello60())
			resp := t.Post(60, t.HelloRaw)
			c.Must(resp.Refused(), "unknown-device", "%s %x (known %x): %s", what, g, p.Dev.Guid, resp)
			c.Count("unknown device refused")
			c.Eval("unknown " + what)
		}
		near := func(what string, g ref.Guid) { // unless another device has it
			if ref.Reserve(g) {
				try(what, g)
			}
		}
		try("random GUID", ref.NewGuid())
		try("zero GUID", ref.Guid{})
		for range 6 {
			g := p.Dev.Guid
			g[r.IntN(16)] ^= 1 << r.IntN(8)
			near("bit flipped in", g)
		}
		g := p.Dev.Guid
		g[15]++
		near("successor", g)
		g = ref.Guid{}
		copy(g[1:], p.Dev.Guid[:])
		near("shifted", g)
		// nor is a hello answered that names what does not exist
		hello := func(what string, f func(h *ref.Hello60)) {
			t := p.RandTO2(r)
			h := t.Hello60()
			f(&h)
			t.HelloRaw = ref.Enc(h)
			resp := t.Post(60, t.HelloRaw)
			c.Must(resp.Refused(), "unknown-suite", "hello naming %s: %s", what, resp)
			c.Count("unknown suite refused")
			c.Eval("unknown " + what)
		}
		for _, k := range []string{"", " ", "ECDH521", "ecdh256", "ECDH256 ", "ECDH2566", "ECDH", "DHKEXid1", "DHKEXid16", "DHKEXID14", "ASYMKEX4096", "ASYMKEX", "none", "ECDH256\x00", "ECDH\u0662\u0665\u0666"} {
			hello(fmt.Sprintf("key exchange %q", k), func(h *ref.Hello60) { h.Kex = k })
		}
		for _, g := range []int{0, 1, -8, -36, -39, -47, -259, -65535, 7, 1 << 30} {
			hello(fmt.Sprint("signature type ", g), func(h *ref.Hello60) { h.Sig.Sg = g })
		}
		// the known one is still served
		x := &run{c: c, r: r, p: p, t: p.RandTO2(r), what: "known device among unknown ones"}
		for x.next() {
		}
	})
}

// lengths: the entry count is told truthfully up to the largest that can be told.
func lengths(c *kit.Check, s *sut.SUT) {
	ns := []int{0, 1, 2, 10, 24, 100, 254, 255, 256, 257, 300, 512}
	if c.Thorough() {
		ns = append(ns, 23, 25, 127, 128, 129, 200, 1000, 65535+2)
	}
	c.Parallel(len(ns), func(i int) {
		r := c.Rand(fmt.Sprint("len", i))
		n := ns[i]
		p := &sut.Party{Dev: ref.NewDevice(-7), Owner: ref.GenKeyCached(-7), URL: s.URL}
		var keys []ref.Key
		for len(keys) < n+1 {
			keys = append(keys, p.Owner)
		}
		p.V = ref.BuildVoucher(p.Dev, keys, ref.RandRV())
		if len(p.V.Entries) != n {
			c.Broken("%d entries instead of %d", len(p.V.Entries), n)
		}
		if err := s.AddVoucher(p.V, p.Owner); err != nil {
			c.Count("long voucher refused")
			return
		}
		x := &run{c: c, r: r, p: p, t: p.TO2("ECDH256", 1), what: fmt.Sprintf("voucher of %d entries", n)}
		if n == 0 || n > 255 {
			h := x.t.Hello60()
			x.t.HelloRaw = ref.Enc(h)
			if resp := x.t.Post(60, x.t.HelloRaw); resp.Refused() {
				c.Count("long voucher refused")
				c.Eval("long voucher")
				return
			}
		}
		for x.next() {
		}
		c.Eval(fmt.Sprint("length ", n))
	})
}

func allSuites(c *kit.Check, s *sut.SUT) {
	type combo struct {
		d, o, ci int
		kex      string
	}
	var cs []combo
	for _, d := range ref.DeviceSgs {
		for _, o := range ref.OwnerSgs {
			for _, ci := range sut.Ciphers() {
				for _, k := range ref.KexSuites {
					if (k == "ASYMKEX2048" && o != ref.SgRS2048) || (k == "ASYMKEX3072" && o != ref.SgRS3072) {
						continue
					}
					cs = append(cs, combo{d, o, ci, k})
				}
			}
		}
	}
	c.Parallel(len(cs), func(i int) {
		k := cs[i]
		p, err := s.NewParty(k.d, k.o, 2)
		if err != nil {
			c.Broken("%v", err)
		}
		x := &run{c: c, r: c.Rand(fmt.Sprint("all", i)), p: p, t: p.TO2(k.kex, k.ci), what: fmt.Sprint(k)}
		for x.next() {
		}
	})
}
