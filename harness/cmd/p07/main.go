// P07: the rendezvous registers a redirect only for the proven owner.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"time"

	"github.com/dgraph-io/badger/v4"

	"verif.local/harness/kit"
	"verif.local/harness/mut"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

const month = 30 * 24 * 3600

var sgs = []int{ref.SgES256, ref.SgES384, ref.SgRS2048, ref.SgRS3072}

// world is one rendezvous with a model of what it must hold.
type world struct {
	c  *kit.Check
	s  *sut.SUT
	mu sync.Mutex
}

// blob is the stored registration of a GUID.
type blob struct {
	val     []byte
	expires uint64
	version uint64
}

func stored(db *badger.DB, g ref.Guid) *blob {
	var out *blob
	db.View(func(t *badger.Txn) error {
		it, err := t.Get(append([]byte("to1osstorage-"), g[:]...))
		if err != nil {
			return nil
		}
		v, _ := it.ValueCopy(nil)
		out = &blob{v, it.ExpiresAt(), it.Version()}
		return nil
	})
	return out
}

func same(a, b *blob) bool {
	if a == nil || b == nil {
		return a == b
	}
	return bytes.Equal(a.val, b.val) && a.expires == b.expires && a.version == b.version
}

// party is one device with its chain of owners.
type party struct {
	dev  *ref.Device
	keys []ref.Key
	v    ref.Voucher
	// model
	to1d     ref.Raw
	deadline time.Time
	old      [][]byte // earlier bodies
}

func newParty(r *rand.Rand) *party {
	p := &party{dev: ref.NewDevice(sgs[r.IntN(2)])}
	n := 2 + r.IntN(4)
	if r.IntN(5) == 0 {
		n = 12 + r.IntN(40) // sold many times
	}
	long := r.IntN(16) == 0 // a voucher of well over 64 KiB
	if long {
		n = 90 + r.IntN(60)
	}
	for i := 0; i < n; i++ {
		sg := sgs[r.IntN(4)]
		if long {
			sg = ref.SgRS3072
		}
		p.keys = append(p.keys, ref.GenKeyCached(sg))
	}
	// the owner is its own
	p.keys[len(p.keys)-1] = ref.GenKey(sgs[r.IntN(3)])
	p.v = ref.BuildVoucher(p.dev, p.keys, ref.RandRV())
	return p
}

func (p *party) owner() ref.Key { return p.keys[len(p.keys)-1] }

func addrs(r *rand.Rand) (out []ref.RVAddr) {
	n := 1 + r.IntN(3)
	if r.IntN(10) == 0 {
		n = 20 << r.IntN(8) // a blob of up to about 100 KiB
	}
	for i := 0; i < n; i++ {
		a := ref.RVAddr{Port: uint16(r.UintN(65536)), Proto: []uint8{1, 2, 3, 5}[r.IntN(4)]}
		k := r.IntN(4)
		if k != 1 {
			s := fmt.Sprintf("owner%d.example.org", r.IntN(1000000))
			a.DNS = &s
		}
		if k == 1 || k == 2 {
			a.IP = kit.Bytes(r, 4)
		}
		if k == 3 {
			a.IP = kit.Bytes(r, 16)
		}
		out = append(out, a)
	}
	return
}

// fetch runs an honest TO1 and returns the blob or nil.
func fetch(url string, d *ref.Device) (ref.Resp, bool) {
	t := ref.TO1{Conn: ref.Conn{Base: url}, Dev: d}
	r, err := t.Hello()
	if err != nil {
		return r, false
	}
	r = t.Prove()
	return r, r.Ok(33)
}

func (w *world) hello() (ref.TO0, bool) {
	t := ref.TO0{Conn: ref.Conn{Base: w.s.URL}}
	_, err := t.Hello()
	return t, w.c.Must(err == nil, "hello", "%v", err)
}

// register performs an honest registration and checks everything that must follow.
func (w *world) register(r *rand.Rand, p *party, wait uint32) {
	c := w.c
	t, ok := w.hello()
	if !ok {
		return
	}
	ht := []int{ref.SHA256, ref.SHA384}[r.IntN(2)]
	o := ref.OwnerSign{Voucher: p.v.Bytes(), Wait: wait, Nonce: t.Nonce, Addrs: addrs(r), Signer: p.owner(), HashTyp: ht}
	body, to1d := o.Build()
	before := time.Now()
	resp := t.Post(22, body)
	after := time.Now()
	got, err := ref.AcceptedWait(resp)
	if !c.Must(err == nil, "honest-refused", "owner %d wait %d: %v", p.owner().Sg, wait, err) {
		return
	}
	c.Must(got <= wait, "wait-exceeds", "asked %d seconds, rendezvous confirms %d", wait, got)
	if wait <= month {
		c.Must(got == wait, "wait-cut", "asked %d seconds, rendezvous confirms %d", wait, got)
	}
	c.Must(got > 0 || wait == 0, "wait-zero", "asked %d seconds, confirmed 0", wait)
	b := stored(w.s.DB, p.dev.Guid)
	if wait == 0 {
		c.Must(b == nil || b.expires != 0 && b.expires <= uint64(time.Now().Unix()), "stored-after-wait", "a registration for 0 seconds is stored")
		p.to1d, p.deadline = nil, time.Time{}
		c.Count("registered for zero seconds")
	} else if got > 2 {
		if b != nil {
			lo, hi := uint64(before.Unix())+uint64(got), uint64(after.Unix())+uint64(got)+1
			c.Must(b.expires >= lo && b.expires <= hi, "expiry", "confirmed %d seconds, stored until %d, expected %d..%d", got, b.expires, lo, hi)
			c.Count("expiry inspected")
		}
		p.to1d, p.deadline = to1d, after.Add(time.Duration(got)*time.Second)
	} else {
		p.to1d, p.deadline = to1d, after.Add(time.Duration(got)*time.Second)
	}
	p.old = append(p.old, body)
	w.check(p, "registered")
	c.Count("registered")
	if len(body) > 1<<16 {
		c.Count("registered with a message of more than 64 KiB")
	}
	if len(to1d) > 1<<14 {
		c.Count("redirect of more than 16 KiB")
	}
	c.Eval(fmt.Sprintf("register %d %d %d", p.owner().Sg, ht, wait))
}

type attack struct {
	name string
	f    func(r *rand.Rand, w *world, p, other *party, t *ref.TO0) []byte
}

func base(r *rand.Rand, p *party, n ref.Nonce) ref.OwnerSign {
	return ref.OwnerSign{Voucher: p.v.Bytes(), Wait: 3600, Nonce: n, Addrs: addrs(r), Signer: p.owner(), HashTyp: ref.SHA256}
}
func build(o ref.OwnerSign) []byte { b, _ := o.Build(); return b }

type m22 struct {
	_    struct{} `cbor:",toarray"`
	To0d []byte
	To1d ref.Raw
}

var attacks = []attack{
	{"nonce-random", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte { return build(base(r, p, ref.NewNonce())) }},
	{"nonce-zero", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte { return build(base(r, p, ref.Nonce{})) }},
	{"nonce-bit", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		n := t.Nonce
		n[r.IntN(16)] ^= 1 << r.IntN(8)
		return build(base(r, p, n))
	}},
	{"nonce-other-session", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		u, _ := w.hello()
		return build(base(r, p, u.Nonce))
	}},
	{"replay", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		if len(p.old) == 0 {
			return build(base(r, p, ref.NewNonce()))
		}
		return p.old[r.IntN(len(p.old))]
	}},
	{"signer-stranger", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		o := base(r, p, t.Nonce)
		o.Signer = ref.GenKey(p.owner().Sg)
		return build(o)
	}},
	{"signer-other-type", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		o := base(r, p, t.Nonce)
		for o.Signer.Sg == p.owner().Sg {
			o.Signer = ref.GenKeyCached(sgs[r.IntN(4)])
		}
		return build(o)
	}},
	{"signer-previous-owner", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		o := base(r, p, t.Nonce)
		o.Signer = p.keys[len(p.keys)-2]
		return build(o)
	}},
	{"signer-manufacturer", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		o := base(r, p, t.Nonce)
		o.Signer = p.keys[0]
		return build(o)
	}},
	{"signer-device", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		o := base(r, p, t.Nonce)
		o.Signer = p.dev.Key
		return build(o)
	}},
	{"voucher-of-other", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		o := base(r, p, t.Nonce)
		o.Voucher = q.v.Bytes()
		return build(o)
	}},
	{"voucher-grafted-entry", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		v := p.v.Clone()
		v.Entries[len(v.Entries)-1] = q.v.Entries[len(q.v.Entries)-1]
		o := base(r, p, t.Nonce)
		o.Voucher, o.Signer = v.Bytes(), q.owner()
		return build(o)
	}},
	{"voucher-stolen", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		// a thief appends an entry naming himself without the owner's signature
		v := p.v.Clone()
		thief := ref.GenKey(ref.SgES256)
		v.Extend(thief, thief.Pub(), p.dev.HashTyp)
		o := base(r, p, t.Nonce)
		o.Voucher, o.Signer = v.Bytes(), thief
		return build(o)
	}},
	{"voucher-guid-swapped", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		// the owner of q claims p's device
		v := q.v.Clone()
		h, _ := v.Hdr()
		h.Guid = p.dev.Guid
		v.Header = ref.Enc(h)
		o := base(r, p, t.Nonce)
		o.Voucher, o.Signer = v.Bytes(), q.owner()
		return build(o)
	}},
	{"voucher-no-entries", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		v := p.v.Clone()
		v.Entries = []ref.Raw{}
		o := base(r, p, t.Nonce)
		o.Voucher, o.Signer = v.Bytes(), p.keys[0]
		return build(o)
	}},
	{"voucher-chain-foreign", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		v := p.v.Clone()
		x := ref.ForeignChain(p.dev.Key.Priv.Public())
		v.Chain = &x
		o := base(r, p, t.Nonce)
		o.Voucher = v.Bytes()
		return build(o)
	}},
	{"to0d-hash-random", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		o := base(r, p, t.Nonce)
		h := ref.Hash{Type: ref.SHA256, Hash: kit.Bytes(r, 32)}
		o.To0dHash = &h
		return build(o)
	}},
	{"to0d-hash-empty", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		o := base(r, p, t.Nonce)
		h := ref.Hash{Type: ref.SHA256, Hash: []byte{}}
		o.To0dHash = &h
		return build(o)
	}},
	{"to0d-hash-hmac-type", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		o := base(r, p, t.Nonce)
		var x m22
		if err := ref.Dec(build(o), &x); err != nil {
			panic(err)
		}
		h := ref.MkHmac(ref.HMAC256, []byte{}, x.To0d)
		o.To0dHash = &h
		return build(o)
	}},
	{"to0d-changed-after-signing", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		// the blob signed for another waiting time
		o := base(r, p, t.Nonce)
		var x, y m22
		if ref.Dec(build(o), &x) != nil {
			panic("decode")
		}
		o.Wait = 7200
		if ref.Dec(build(o), &y) != nil {
			panic("decode")
		}
		x.To0d = y.To0d
		return ref.Enc(x)
	}},
	{"to1d-of-earlier-session", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		o := base(r, p, t.Nonce)
		var x, y m22
		if ref.Dec(build(o), &x) != nil {
			panic("decode")
		}
		if len(p.old) == 0 {
			x.To0d[len(x.To0d)-1] ^= 1
			return ref.Enc(x)
		}
		if ref.Dec(p.old[0], &y) != nil {
			panic("decode")
		}
		x.To1d = y.To1d
		return ref.Enc(x)
	}},
	{"signature-bit", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		o := base(r, p, t.Nonce)
		o.EditTo1d = func(c *ref.Cose) { c.Sig[r.IntN(len(c.Sig))] ^= 1 << r.IntN(8) }
		return build(o)
	}},
	{"signature-empty", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		o := base(r, p, t.Nonce)
		o.EditTo1d = func(c *ref.Cose) { c.Sig = []byte{} }
		return build(o)
	}},
	{"signature-zero", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		o := base(r, p, t.Nonce)
		o.EditTo1d = func(c *ref.Cose) { c.Sig = make([]byte, len(c.Sig)) }
		return build(o)
	}},
	{"payload-changed", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		o := base(r, p, t.Nonce)
		o.EditTo1d = func(c *ref.Cose) {
			var d ref.To1d
			if ref.Dec(c.Payload, &d) != nil {
				panic("decode")
			}
			d.Addrs = append(d.Addrs, ref.DNSAddr("evil.example", 443, 5))
			c.Payload = ref.Enc(d)
		}
		return build(o)
	}},
	{"address-without-host", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		o := base(r, p, t.Nonce)
		o.Addrs = append(o.Addrs, ref.RVAddr{Port: 80, Proto: 1})
		return build(o)
	}},
	{"truncated", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		b := build(base(r, p, t.Nonce))
		return b[:r.IntN(len(b))]
	}},
	{"token-none", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		t.Tok = ""
		return build(base(r, p, t.Nonce))
	}},
	{"token-invented", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		t.Tok = "Bearer 6f1d2b1e-0000-4000-8000-00000000000" + fmt.Sprint(r.IntN(10))
		return build(base(r, p, t.Nonce))
	}},
	{"token-other-session", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		u, _ := w.hello()
		t.Tok = u.Tok
		return build(base(r, p, t.Nonce))
	}},
	{"token-of-to1", func(r *rand.Rand, w *world, p, q *party, t *ref.TO0) []byte {
		u := ref.TO1{Conn: ref.Conn{Base: w.s.URL}, Dev: p.dev}
		if _, err := u.Hello(); err == nil {
			t.Tok = u.Tok
			// the TO0 nonce of a TO1 session is all zero
			if r.IntN(2) == 0 {
				return build(base(r, p, ref.Nonce{}))
			}
			return build(base(r, p, u.Nonce))
		}
		t.Tok = "Bearer none"
		return build(base(r, p, t.Nonce))
	}},
}

func (w *world) attack(r *rand.Rand, a attack, p, q *party) {
	c := w.c
	t, ok := w.hello()
	if !ok {
		return
	}
	body := a.f(r, w, p, q, &t)
	// the attack's victims: whatever GUID is involved
	b1, b2 := stored(w.s.DB, p.dev.Guid), stored(w.s.DB, q.dev.Guid)
	resp := t.Post(22, body)
	c.Must(resp.Refused(), "accepted-"+a.name, "%s: the rendezvous answers %s; body=%x", a.name, resp, body)
	c.Must(same(b1, stored(w.s.DB, p.dev.Guid)) && same(b2, stored(w.s.DB, q.dev.Guid)), "changed-"+a.name, "%s: refused (%s), but what is stored changed", a.name, resp)
	c.Count("refused")
	c.Eval("attack " + a.name)
	c.Sample(a.name, "%s", resp)
}

func (w *world) check(p *party, when string) {
	resp, ok := fetch(w.s.URL, p.dev)
	if p.to1d == nil {
		w.c.Must(!ok, "ghost-"+when, "nothing is registered, yet a redirect is given: %s", resp)
		w.c.Count("fetch refused")
		return
	}
	if time.Until(p.deadline) > 10*time.Second {
		w.c.Must(ok && bytes.Equal(resp.Body, p.to1d), "redirect-"+when, "latest accepted redirect %x, device gets %s %x", []byte(p.to1d), resp, resp.Body)
		w.c.Count("fetch delivered")
	}
}

func main() {
	kit.Main("P07", func(c *kit.Check) {
		c.Rule = "one evaluation = one registration attempt (honest or hostile) judged by answer, stored state and what a device then gets; distinct = (class, key, hash, wait)"
		for _, sg := range sgs {
			ref.GenKeyCached(sg)
		}
		s := sut.New(sut.Opt{})
		defer s.Close()
		w := &world{c: c, s: s}
		c.Parallel(c.N(12, 200), func(i int) {
			r := c.Rand(fmt.Sprint("history", i))
			ps := []*party{newParty(r), newParty(r), newParty(r)}
			order := r.Perm(len(attacks))
			for step := 0; step < c.N(90, 200); step++ {
				p := ps[r.IntN(3)]
				q := ps[(r.IntN(2)+1+idx(ps, p))%3]
				switch k := r.IntN(10); {
				case k < 2:
					w.register(r, p, []uint32{30, 3600, 86400, month, month + 1, 4294967295, month - 1, uint32(60 + r.IntN(100000))}[r.IntN(8)])
				case k == 2 && r.IntN(3) == 0:
					w.register(r, p, 0)
				case k < 8:
					w.attack(r, attacks[order[step%len(order)]], p, q)
				default:
					w.check(p, "history")
				}
			}
			for _, p := range ps {
				w.check(p, "end")
			}
		})
		mutated(w)
		edges(w)
		expire(w)
		replaySame(w)
		for _, p := range s.Panics() {
			c.Violation("crash", "%s: %s\n%s", p.Path, p.Value, p.Stack)
		}
		c.Extra("requests", s.Requests())
		c.Require("registered", 100)
		c.Require("refused", 400)
		c.Require("fetch delivered", 50)
		c.Require("expired", 1)
	})
}

func idx(ps []*party, p *party) int {
	for i := range ps {
		if ps[i] == p {
			return i
		}
	}
	return 0
}

// mutated: systematic structural damage to message 22. It is refused, or it is one of the unsigned
// encodings of the same registration, in which case what is stored is still the owner's statement.
func mutated(w *world) {
	c := w.c
	c.Parallel(c.N(2, 12), func(i int) {
		r := c.Rand(fmt.Sprint("mut", i))
		p := newParty(r)
		for len(p.keys) > 5 {
			p = newParty(r)
		}
		t, _ := w.hello()
		body := build(base(r, p, t.Nonce))
		want := m22{}
		if ref.Dec(body, &want) != nil {
			panic("decode")
		}
		for _, m := range mut.Structural(body) {
			if !c.Thorough() && r.IntN(2) != 0 {
				continue
			}
			resp := t.Post(22, m.Data)
			b := stored(w.s.DB, p.dev.Guid)
			if resp.Ok(23) {
				// only acceptable when signed content and registration data are untouched
				good := false
				if b != nil {
					var x m22
					if ref.Dec(b.val, &x) == nil {
						a, e1 := ref.DecCose(x.To1d)
						o, e2 := ref.DecCose(want.To1d)
						good = e1 == nil && e2 == nil && bytes.Equal(x.To0d, want.To0d) && bytes.Equal(a.Payload, o.Payload) && bytes.Equal(a.Sig, o.Sig)
					}
				}
				c.Must(good, "mutated-accepted", "%s: accepted; body=%x", m.What, m.Data)
				c.Count("mutation of no consequence")
				// forget it
				w.s.DB.Update(func(t *badger.Txn) error { return t.Delete(append([]byte("to1osstorage-"), p.dev.Guid[:]...)) })
			} else {
				c.Must(resp.Refused(), "mutated-answer", "%s: %s; body=%x", m.What, resp, m.Data)
				c.Must(b == nil, "mutated-stored", "%s: refused but stored; body=%x", m.What, m.Data)
				c.Count("refused")
			}
			c.Eval("mutated " + strings.Fields(m.What)[0])
		}
	})
}

// edges: the waiting times around the server's limit and the type's limits.
func edges(w *world) {
	r := w.c.Rand("edges")
	p := newParty(r)
	for _, wait := range []uint32{0, 3, 59, 60, month - 1, month, month + 1, 1 << 31, 1<<32 - 1, 3600} {
		w.register(r, p, wait)
		w.check(p, "edge")
	}
	// a wait that does not fit is refused
	t, _ := w.hello()
	o := base(r, p, t.Nonce)
	body := build(o)
	var x m22
	ref.Dec(body, &x)
	before := stored(w.s.DB, p.dev.Guid)
	x.To0d = ref.Enc([]any{p.v.Bytes(), uint64(1) << 32, t.Nonce})
	resp := t.Post(22, ref.Enc(x))
	w.c.Must(resp.Refused(), "wait-overflow", "%s", resp)
	w.c.Must(same(before, stored(w.s.DB, p.dev.Guid)), "wait-overflow-stored", "stored changed")
	// a shortened voucher is the previous owner's
	v := p.v.Clone()
	if len(v.Entries) > 1 {
		v.Entries = v.Entries[:len(v.Entries)-1]
		t, _ := w.hello()
		o := base(r, p, t.Nonce)
		o.Voucher = v.Bytes()
		w.c.Must(t.Post(22, build(o)).Refused(), "shortened-by-owner", "the final owner registers with a voucher that does not name it")
	}
}

// expire: after the confirmed time nothing is handed out.
func expire(w *world) {
	r := w.c.Rand("expire")
	var ps []*party
	for i := 0; i < 6; i++ {
		p := newParty(r)
		w.register(r, p, uint32(1+i%2))
		ps = append(ps, p)
	}
	keep := newParty(r)
	w.register(r, keep, 3600)
	// a later registration replaces the short one
	over := newParty(r)
	w.register(r, over, 1)
	w.register(r, over, 3600)
	time.Sleep(4 * time.Second)
	for _, p := range ps {
		resp, ok := fetch(w.s.URL, p.dev)
		w.c.Must(!ok, "not-expired", "registered for at most 2 seconds, released after 4: %s", resp)
		w.c.Count("expired")
		w.c.Eval("expire")
	}
	w.check(keep, "unexpired")
	w.check(over, "renewed")
}

// replaySame: after an honest registration by a new owner, the previous owner's old message restores nothing.
func replaySame(w *world) {
	c := w.c
	for i := 0; i < c.N(5, 40); i++ {
		r := c.Rand(fmt.Sprint("resale", i))
		p := newParty(r)
		w.register(r, p, 3600)
		first := p.old[0]
		next := ref.GenKey(sgs[i%2])
		p.v.Extend(p.owner(), next.Pub(), p.dev.HashTyp)
		p.keys = append(p.keys, next)
		w.register(r, p, 3600)
		t, _ := w.hello()
		resp := t.Post(22, first)
		c.Must(resp.Refused(), "resale-replay", "the old owner's message is accepted again: %s", resp)
		w.check(p, "resale")
		c.Eval("resale")
	}
}
