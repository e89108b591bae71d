// P08: the rendezvous releases a redirect only to the device it is meant for.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"strings"
	"time"

	"verif.local/harness/kit"
	"verif.local/harness/mut"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

type party struct {
	dev   *ref.Device
	owner ref.Key
	v     ref.Voucher
	to1d  ref.Raw
	sg    int // the signature type the device announces
}

func newParty(r *rand.Rand, chain [][]byte, not ...*party) *party {
	p := &party{dev: newDevice(r, not...), owner: ref.GenKeyCached([]int{-7, -35, -257, -258}[r.IntN(4)])}
	if chain != nil {
		p.dev.Chain = chain
	}
	p.sg = p.dev.Key.Sg
	p.v = ref.BuildVoucher(p.dev, []ref.Key{ref.GenKeyCached(-7), ref.GenKeyCached(-35), p.owner}, ref.RandRV())
	return p
}

// newDevice: elliptic curve keys as the virtual devices have them, now and then an RSA one.
func newDevice(r *rand.Rand, not ...*party) *ref.Device {
	sg := []int{ref.SgES256, ref.SgES384, ref.SgES256, ref.SgES384, ref.SgES256, ref.SgES384, -257, -258}[r.IntN(8)]
	d := ref.NewDevice(sg)
	for _, p := range not {
		if bytes.Equal(d.Key.PKCS8(), p.dev.Key.PKCS8()) {
			return newDevice(r, not...)
		}
	}
	return d
}

// other is another signature type than sg.
func other(sg int) int {
	switch sg {
	case -257, -258:
		return -515 - sg
	}
	return -42 - sg
}

func register(c *kit.Check, r *rand.Rand, url string, p *party, wait uint32) bool {
	t := ref.TO0{Conn: ref.Conn{Base: url}}
	if _, err := t.Hello(); err != nil {
		c.Violation("register", "%v", err)
		return false
	}
	o := ref.OwnerSign{Voucher: p.v.Bytes(), Wait: wait, Nonce: t.Nonce, Signer: p.owner, HashTyp: ref.SHA384,
		Addrs: []ref.RVAddr{ref.DNSAddr(fmt.Sprintf("o%d.example", r.IntN(1e9)), uint16(r.UintN(65536)), 5), {IP: kit.Bytes(r, 16), Port: 1, Proto: 1}}}
	switch r.IntN(7) { // what an owner may put into the unsigned header of the blob comes back, too
	case 0:
		o.EditTo1d = func(x *ref.Cose) { x.Unprot = ref.Enc(map[int]any{256: kit.Bytes(r, 16)}) }
	case 1:
		o.EditTo1d = func(x *ref.Cose) { x.Unprot = ref.Enc(map[int]any{257: p.owner.Pub()}) }
	case 2:
		o.EditTo1d = func(x *ref.Cose) { x.Unprot = ref.Enc(map[int]any{5: kit.Bytes(r, 1+r.IntN(40))}) }
	case 3:
		o.EditTo1d = func(x *ref.Cose) { x.Unprot = ref.Enc(map[int]any{-258: kit.Bytes(r, 1+r.IntN(40))}) }
	case 4:
		o.EditTo1d = func(x *ref.Cose) { x.Unprot = ref.Enc(map[int]any{-259: kit.Bytes(r, 16)}) }
	}
	body, to1d := o.Build()
	resp := t.Post(22, body)
	p.to1d = to1d
	return c.Must(resp.Ok(23), "register", "%s", resp)
}

func (p *party) to1(url string) *ref.TO1 { return &ref.TO1{Conn: ref.Conn{Base: url}, Dev: p.dev} }

type probe struct {
	p     *party
	q     *party // another registered device
	t     *ref.TO1
	r     *rand.Rand
	url   string
	msg   int
	skip  bool
	nonce ref.Nonce
}

// token builds the honest token; callers vary it.
func (x *probe) eat(nonce, ueid []byte) []byte { return ref.EAT{Nonce: nonce, UEID: ueid}.Bytes() }
func (x *probe) sign(k ref.Key, payload []byte) []byte {
	return k.Sign(payload, nil).Tagged()
}
func (x *probe) good() []byte { return x.eat(x.t.Nonce[:], ref.UEID(x.p.dev.Guid)) }

type attack struct {
	name string
	f    func(x *probe) []byte
}

var attacks = []attack{
	{"key-stranger", func(x *probe) []byte {
		return x.sign(ref.StrangerKey(x.p.dev.Key.Sg, x.p.dev.Key, x.p.owner), x.good())
	}},
	{"key-other-device", func(x *probe) []byte { return x.sign(x.q.dev.Key, x.good()) }},
	{"key-owner", func(x *probe) []byte { return x.sign(x.p.owner, x.good()) }},
	{"key-authority-intermediate", func(x *probe) []byte { i, _ := ref.AuthorityKeys(); return x.sign(i, x.good()) }},
	{"key-authority-root", func(x *probe) []byte { _, r := ref.AuthorityKeys(); return x.sign(r, x.good()) }},
	{"key-other-curve", func(x *probe) []byte {
		return x.sign(ref.StrangerKey(other(x.p.dev.Key.Sg), x.p.dev.Key, x.p.owner), x.good())
	}},
	{"other-device-wholly", func(x *probe) []byte {
		return x.sign(x.q.dev.Key, x.eat(x.t.Nonce[:], ref.UEID(x.q.dev.Guid)))
	}},
	{"nonce-random", func(x *probe) []byte {
		return x.sign(x.p.dev.Key, x.eat(kit.Bytes(x.r, 16), ref.UEID(x.p.dev.Guid)))
	}},
	{"nonce-zero", func(x *probe) []byte {
		return x.sign(x.p.dev.Key, x.eat(make([]byte, 16), ref.UEID(x.p.dev.Guid)))
	}},
	{"nonce-empty", func(x *probe) []byte {
		return x.sign(x.p.dev.Key, x.eat([]byte{}, ref.UEID(x.p.dev.Guid)))
	}},
	{"nonce-bit", func(x *probe) []byte {
		n := x.t.Nonce
		n[x.r.IntN(16)] ^= 1 << x.r.IntN(8)
		return x.sign(x.p.dev.Key, x.eat(n[:], ref.UEID(x.p.dev.Guid)))
	}},
	{"nonce-half", func(x *probe) []byte {
		return x.sign(x.p.dev.Key, x.eat(x.t.Nonce[:8], ref.UEID(x.p.dev.Guid)))
	}},
	{"nonce-absent", func(x *probe) []byte {
		return x.sign(x.p.dev.Key, ref.Enc(map[int]any{256: ref.UEID(x.p.dev.Guid)}))
	}},
	{"nonce-other-session", func(x *probe) []byte {
		u := x.p.to1(x.url)
		u.Hello()
		return x.sign(x.p.dev.Key, x.eat(u.Nonce[:], ref.UEID(x.p.dev.Guid)))
	}},
	{"replayed-token", func(x *probe) []byte {
		u := x.p.to1(x.url)
		u.Hello()
		u.Prove()
		return x.sign(x.p.dev.Key, x.eat(u.Nonce[:], ref.UEID(x.p.dev.Guid)))
	}},
	{"guid-other", func(x *probe) []byte {
		return x.sign(x.p.dev.Key, x.eat(x.t.Nonce[:], ref.UEID(x.q.dev.Guid)))
	}},
	{"guid-random", func(x *probe) []byte {
		return x.sign(x.p.dev.Key, x.eat(x.t.Nonce[:], ref.UEID(ref.NewGuid())))
	}},
	{"guid-wrong-kind", func(x *probe) []byte {
		u := ref.UEID(x.p.dev.Guid)
		u[0] = 2
		return x.sign(x.p.dev.Key, x.eat(x.t.Nonce[:], u))
	}},
	{"guid-one-byte", func(x *probe) []byte {
		u := ref.UEID(x.p.dev.Guid)
		u[x.r.IntN(len(u))] ^= 1 << x.r.IntN(8)
		return x.sign(x.p.dev.Key, x.eat(x.t.Nonce[:], u))
	}},
	{"guid-first-byte", func(x *probe) []byte {
		u := ref.UEID(x.p.dev.Guid)
		u[1] ^= 1 << x.r.IntN(8)
		return x.sign(x.p.dev.Key, x.eat(x.t.Nonce[:], u))
	}},
	{"guid-last-byte", func(x *probe) []byte {
		u := ref.UEID(x.p.dev.Guid)
		u[16] ^= 1 << x.r.IntN(8)
		return x.sign(x.p.dev.Key, x.eat(x.t.Nonce[:], u))
	}},
	{"guid-short", func(x *probe) []byte {
		return x.sign(x.p.dev.Key, x.eat(x.t.Nonce[:], ref.UEID(x.p.dev.Guid)[:16]))
	}},
	{"guid-bare", func(x *probe) []byte {
		return x.sign(x.p.dev.Key, x.eat(x.t.Nonce[:], x.p.dev.Guid[:]))
	}},
	{"guid-empty", func(x *probe) []byte {
		return x.sign(x.p.dev.Key, x.eat(x.t.Nonce[:], []byte{}))
	}},
	{"nonce-first-byte", func(x *probe) []byte {
		n := x.t.Nonce
		n[0] ^= 1 << x.r.IntN(8)
		return x.sign(x.p.dev.Key, x.eat(n[:], ref.UEID(x.p.dev.Guid)))
	}},
	{"nonce-last-byte", func(x *probe) []byte {
		n := x.t.Nonce
		n[15] ^= 1 << x.r.IntN(8)
		return x.sign(x.p.dev.Key, x.eat(n[:], ref.UEID(x.p.dev.Guid)))
	}},
	{"guid-absent", func(x *probe) []byte {
		return x.sign(x.p.dev.Key, ref.Enc(map[int]any{10: x.t.Nonce[:]}))
	}},
	{"hello-as-other", func(x *probe) []byte {
		// says hello for p, but is q: session guid p, signature q
		if _, err := x.t.HelloAs(x.p.dev.Guid, x.q.dev.Key.Sg); err != nil {
			return nil
		}
		return x.sign(x.q.dev.Key, x.eat(x.t.Nonce[:], ref.UEID(x.q.dev.Guid)))
	}},
	{"hello-other-type", func(x *probe) []byte {
		if _, err := x.t.HelloAs(x.p.dev.Guid, other(x.p.dev.Key.Sg)); err != nil {
			return nil
		}
		return x.sign(ref.StrangerKey(other(x.p.dev.Key.Sg), x.p.dev.Key, x.p.owner), x.good())
	}},
	{"signature-bit", func(x *probe) []byte {
		c := x.p.dev.Key.Sign(x.good(), nil)
		c.Sig[x.r.IntN(len(c.Sig))] ^= 1 << x.r.IntN(8)
		return c.Tagged()
	}},
	{"signature-empty", func(x *probe) []byte {
		c := x.p.dev.Key.Sign(x.good(), nil)
		c.Sig = []byte{}
		return c.Tagged()
	}},
	{"signature-zero", func(x *probe) []byte {
		c := x.p.dev.Key.Sign(x.good(), nil)
		c.Sig = make([]byte, len(c.Sig))
		return c.Tagged()
	}},
	{"signature-truncated", func(x *probe) []byte {
		c := x.p.dev.Key.Sign(x.good(), nil)
		c.Sig = c.Sig[:len(c.Sig)-1]
		return c.Tagged()
	}},
	{"payload-replaced", func(x *probe) []byte {
		// a real signature over a stale nonce, with the payload exchanged for the right one
		c := x.p.dev.Key.Sign(x.eat(kit.Bytes(x.r, 16), ref.UEID(x.p.dev.Guid)), nil)
		c.Payload = x.good()
		return c.Tagged()
	}},
	{"token-none", func(x *probe) []byte { x.t.Tok = ""; return x.sign(x.p.dev.Key, x.good()) }},
	{"token-invented", func(x *probe) []byte {
		x.t.Tok = "Bearer 11111111-2222-4333-8444-555555555555"
		return x.sign(x.p.dev.Key, x.good())
	}},
	{"token-malformed", func(x *probe) []byte {
		x.t.Tok = []string{"Bearer", "Bearer ", x.t.Tok + "x", strings.TrimPrefix(x.t.Tok, "Bearer "), "Basic" + strings.TrimPrefix(x.t.Tok, "Bearer"), "Bearer session-" + strings.TrimPrefix(x.t.Tok, "Bearer ")}[x.r.IntN(6)]
		return x.sign(x.p.dev.Key, x.good())
	}},
	{"token-other-device", func(x *probe) []byte {
		u := x.q.to1(x.url)
		u.Hello()
		x.t.Tok = u.Tok
		return x.sign(x.p.dev.Key, x.good())
	}},
	{"token-of-to0", func(x *probe) []byte {
		u := ref.TO0{Conn: ref.Conn{Base: x.url}}
		u.Hello()
		x.t.Tok = u.Tok
		n := u.Nonce
		if x.r.IntN(2) == 0 {
			n = ref.Nonce{}
		}
		return x.sign(x.p.dev.Key, x.eat(n[:], ref.UEID(x.p.dev.Guid)))
	}},
	{"never-registered", func(x *probe) []byte {
		d := ref.NewDevice(x.p.dev.Key.Sg)
		x.t.Dev = d
		x.t.Tok = ""
		if _, err := x.t.Hello(); err != nil {
			return nil
		}
		return x.sign(d.Key, x.eat(x.t.Nonce[:], ref.UEID(d.Guid)))
	}},
	{"registered-then-unregistered-type", func(x *probe) []byte {
		// unknown signature type at hello
		x.t.Tok = ""
		if _, err := x.t.HelloAs(x.p.dev.Guid, 4711); err != nil {
			return nil
		}
		return x.sign(x.p.dev.Key, x.good())
	}},
	{"truncated", func(x *probe) []byte {
		b := x.sign(x.p.dev.Key, x.good())
		return b[:x.r.IntN(len(b))]
	}},
	{"empty", func(x *probe) []byte { return []byte{} }},
}

func leaks(resp ref.Resp, ps ...*party) bool {
	for _, p := range ps {
		c, err := ref.DecCose(p.to1d)
		if err == nil && (bytes.Contains(resp.Body, c.Payload) || bytes.Contains(resp.Body, c.Sig)) {
			return true
		}
	}
	return false
}

func main() {
	kit.Main("P08", func(c *kit.Check) {
		c.Rule = "one evaluation = one attempt to obtain a redirect judged by its answer; distinct = (attack, key types)"
		for _, sg := range []int{-7, -35, -257, -258} {
			ref.GenKeyCached(sg)
		}
		s := sut.New(sut.Opt{})
		defer s.Close()
		c.Parallel(c.N(24, 400), func(i int) {
			r := c.Rand(fmt.Sprint("p08", i))
			p := newParty(r, nil)
			q := newParty(r, nil, p)
			if !register(c, r, s.URL, p, 3600) || !register(c, r, s.URL, q, 3600) {
				return
			}
			honest := func(p *party, t *ref.TO1, when string) {
				resp := t.Prove()
				c.Must(resp.Ok(33) && bytes.Equal(resp.Body, p.to1d), "honest-"+when, "%s sg %d: the device gets %s %x instead of %x", when, p.dev.Key.Sg, resp, resp.Body, []byte(p.to1d))
				c.Must(resp.Auth() == t.Tok, "token-changed", "token %q answered by %q", t.Tok, resp.Auth())
				c.Count("redirect delivered")
			}
			for _, k := range r.Perm(len(attacks)) {
				a := attacks[k]
				// sessions of others opened before the attack
				w1, w2 := p.to1(s.URL), q.to1(s.URL)
				if _, err := w1.Hello(); err != nil {
					c.Violation("hello", "%v", err)
					continue
				}
				w2.Hello()
				x := &probe{p: p, q: q, t: p.to1(s.URL), r: r, url: s.URL}
				if _, err := x.t.Hello(); err != nil {
					c.Violation("hello", "%v", err)
					continue
				}
				body := a.f(x)
				if body != nil {
					resp := x.t.Post(32, body)
					c.Must(resp.Refused(), "released-"+a.name, "%s: %s body=%x", a.name, resp, body)
					c.Must(!leaks(resp, p, q), "leak-"+a.name, "%s: the error carries the redirect: %x", a.name, resp.Body)
					c.Sample(a.name, "%s", resp)
				} else {
					c.Count("refused at hello")
				}
				c.Count("attempt refused")
				c.Eval(fmt.Sprint(a.name, p.dev.Key.Sg, q.dev.Key.Sg))
				honest(p, w1, "session-before-attack")
				honest(q, w2, "other-device")
			}
			// interleaved honest sessions of one device
			var ts []*ref.TO1
			seen := map[ref.Nonce]bool{}
			for n := 0; n < 4; n++ {
				t := p.to1(s.URL)
				_, err := t.Hello()
				c.Must(err == nil && !seen[t.Nonce], "nonce-fresh", "%v nonce %x", err, t.Nonce)
				seen[t.Nonce] = true
				ts = append(ts, t)
			}
			for _, n := range r.Perm(4) {
				honest(p, ts[n], "interleaved")
				c.Eval("interleaved")
			}
			// a newer registration is what is released, also to sessions opened before it
			t := p.to1(s.URL)
			t.Hello()
			if register(c, r, s.URL, p, 3600) {
				honest(p, t, "renewed")
				c.Eval("renewed")
			}
			// the same GUID registered again with a voucher for another device key
			n := &party{dev: newDevice(r, p, q), owner: p.owner}
			n.dev.Guid = p.dev.Guid
			n.v = ref.BuildVoucher(n.dev, []ref.Key{ref.GenKeyCached(-7), n.owner}, ref.RandRV())
			told, tnew := p.to1(s.URL), n.to1(s.URL)
			told.Hello()
			if register(c, r, s.URL, n, 3600) {
				resp := told.Prove()
				c.Must(resp.Refused() && !leaks(resp, p, n), "released-former-key", "the key of a replaced voucher proved a session: %s", resp)
				if _, err := tnew.Hello(); err == nil {
					honest(n, tnew, "rekeyed")
				} else {
					c.Violation("hello", "%v", err)
				}
				again := p.to1(s.URL)
				again.HelloAs(n.dev.Guid, p.dev.Key.Sg)
				resp = again.Prove()
				c.Must(resp.Refused() && !leaks(resp, p, n), "released-former-key", "the key of a replaced voucher proved a session: %s", resp)
				c.Eval(fmt.Sprint("rekeyed ", p.dev.Key.Sg, n.dev.Key.Sg))
			}
			// what is not registered has no redirect, however near to what is
			near := map[string]ref.Guid{"the zero GUID": {}, "a fresh GUID": ref.NewGuid()}
			for k := range p.dev.Guid {
				g := p.dev.Guid
				g[k] ^= byte(1 + r.IntN(255))
				near[fmt.Sprint("byte ", k, " changed")] = g
			}
			sh := ref.Guid{}
			copy(sh[1:], p.dev.Guid[:])
			near["shifted"] = sh
			for what, g := range near {
				if what != "a fresh GUID" && what != "the zero GUID" && !ref.Reserve(g) {
					continue
				}
				t := p.to1(s.URL)
				resp, err := t.HelloAs(g, p.dev.Key.Sg)
				c.Must(err != nil && resp.Refused() && !leaks(resp, p), "unregistered-hello", "%s (%x, registered %x) is not registered: %s", what, g, p.dev.Guid, resp)
				c.Count("unregistered refused")
				c.Eval("unregistered " + what)
			}
			// registered for no time
			z := newParty(r, nil)
			if register(c, r, s.URL, z, 0) {
				t := z.to1(s.URL)
				resp, err := t.Hello()
				if err == nil {
					resp = t.Prove()
				}
				c.Must(resp.Refused() && !leaks(resp, z), "released-expired", "registered for 0 seconds: %s", resp)
				c.Eval("zero")
			}
			badChains(c, r, s, i)
		})
		mutated(c, s)
		foreignLabel(c, s)
		expiry(c, s)
		for _, p := range s.Panics() {
			c.Violation("crash", "%s: %s\n%s", p.Path, p.Value, p.Stack)
		}
		c.Require("redirect delivered", 500)
		c.Require("attempt refused", 300)
		c.Require("bad chain refused", 20)
		c.Require("unregistered refused", 300)
	})
}

// badChains: vouchers whose (hash-consistent) chain does not certify the prover.
func badChains(c *kit.Check, r *rand.Rand, s *sut.SUT, i int) {
	k := ref.GenKey(ref.SgES256)
	own := ref.OwnChain(k.Priv.Public())
	foreign := ref.ForeignChain(k.Priv.Public())
	chains := map[string][][]byte{
		"empty":               {},
		"root only":           {own[2]},
		"leaf only":           {own[0]},
		"foreign anchors":     {own[0], foreign[1], foreign[2]},
		"foreign root":        {own[0], own[1], foreign[2]},
		"no intermediate":     {own[0], own[2]},
		"reversed":            {own[2], own[1], own[0]},
		"intermediate as end": {own[1], own[2]},
		"garbage":             {kit.Bytes(r, 50), own[1], own[2]},
	}
	for name, ch := range chains {
		p := newParty(r, ch)
		p.dev.Key, p.sg = k, -7
		t := ref.TO0{Conn: ref.Conn{Base: s.URL}}
		t.Hello()
		body, to1d := ref.OwnerSign{Voucher: p.v.Bytes(), Wait: 600, Nonce: t.Nonce, Signer: p.owner, HashTyp: ref.SHA256, Addrs: []ref.RVAddr{ref.DNSAddr("x", 1, 1)}}.Build()
		p.to1d = to1d
		if resp := t.Post(22, body); !resp.Ok(23) {
			c.Must(resp.Refused(), "bad-chain-answer", "%s: %s", name, resp)
			c.Count("bad chain refused")
			continue
		}
		d := p.to1(s.URL)
		if _, err := d.HelloAs(p.dev.Guid, -7); err != nil {
			c.Count("bad chain refused")
			continue
		}
		resp := d.Prove()
		c.Must(resp.Refused() && !leaks(resp, p), "bad-chain-"+name, "%s: %s", name, resp)
		c.Count("bad chain refused")
		c.Eval("chain " + name)
	}
}

// mutated: structural damage to message 32; whatever is accepted must still be the device's statement.
func mutated(c *kit.Check, s *sut.SUT) {
	c.Parallel(c.N(4, 30), func(i int) {
		r := c.Rand(fmt.Sprint("m32", i))
		p := newParty(r, nil)
		if !register(c, r, s.URL, p, 3600) {
			return
		}
		t := p.to1(s.URL)
		if _, err := t.Hello(); err != nil {
			c.Violation("hello", "%v", err)
			return
		}
		good := p.dev.Key.Sign(ref.EAT{Nonce: t.Nonce[:], UEID: ref.UEID(p.dev.Guid)}.Bytes(), nil)
		b := good.Tagged()
		try := func(what string, m []byte) {
			resp := t.Post(32, m)
			if resp.Ok(33) {
				x, err := ref.DecCose(m)
				// only the unsigned parts may differ
				same := err == nil && bytes.Equal(x.Payload, good.Payload) && bytes.Equal(x.Prot, good.Prot) && bytes.Equal(x.Sig, good.Sig)
				if err != nil {
					// a laxly encoded form: the signed strings must be in there unchanged
					same = bytes.Contains(m, good.Payload) && bytes.Contains(m, good.Sig)
				}
				c.Must(same, "mutated-released", "%s: released for %x", what, m)
				c.Count("mutation of no consequence")
			} else {
				c.Must(resp.Refused() && !leaks(resp, p), "mutated-answer", "%s: %s for %x", what, resp, m)
				c.Count("attempt refused")
			}
			c.Eval("mutated " + strings.Fields(what)[0])
		}
		for _, m := range mut.Structural(b) {
			try(m.What, m.Data)
		}
		for at := range b {
			m := append([]byte{}, b...)
			m[at] ^= 1 << r.IntN(8)
			try("byteflip", m)
		}
		for k := 0; k < c.N(100, 2000); k++ {
			try("random", mut.Random(r, b))
		}
	})
}

// foreignLabel: an unsigned header label the tool does not know, which is the owner's business.
func foreignLabel(c *kit.Check, s *sut.SUT) {
	r := c.Rand("label")
	for _, label := range []int{1, 4, 99} {
		p := newParty(r, nil)
		t := ref.TO0{Conn: ref.Conn{Base: s.URL}}
		t.Hello()
		plain := ref.Raw(nil)
		o := ref.OwnerSign{Voucher: p.v.Bytes(), Wait: 600, Nonce: t.Nonce, Signer: p.owner, HashTyp: ref.SHA256, Addrs: []ref.RVAddr{ref.DNSAddr("x", 1, 1)},
			EditTo1d: func(x *ref.Cose) { plain = x.Tagged(); x.Unprot = ref.Enc(map[int]any{label: []byte("x")}) }}
		body, to1d := o.Build()
		if resp := t.Post(22, body); !resp.Ok(23) {
			c.Must(resp.Refused(), "label-answer", "label %d: %s", label, resp)
			continue
		}
		d := p.to1(s.URL)
		d.Hello()
		resp := d.Prove()
		c.Must(resp.Ok(33), "honest-label", "label %d: %s", label, resp)
		if bytes.Equal(resp.Body, plain) {
			c.Violation("unprotected-label-lost", "label %d: the device gets %x instead of %x", label, resp.Body, []byte(to1d))
		} else {
			c.Must(bytes.Equal(resp.Body, to1d), "honest-label", "label %d: the device gets %x instead of %x", label, resp.Body, []byte(to1d))
		}
		c.Eval(fmt.Sprint("label ", label))
	}
}

func expiry(c *kit.Check, s *sut.SUT) {
	r := c.Rand("expiry")
	var ps []*party
	var ts []*ref.TO1
	for i := 0; i < 8; i++ {
		p := newParty(r, nil)
		if !register(c, r, s.URL, p, uint32(1+i%2)) {
			return
		}
		t := p.to1(s.URL)
		if _, err := t.Hello(); err != nil { // session opened while registered
			t = p.to1(s.URL)
		}
		ps, ts = append(ps, p), append(ts, t)
	}
	time.Sleep(4 * time.Second)
	for i, p := range ps {
		resp := ts[i].Prove()
		c.Must(!resp.Ok(33) && !leaks(resp, p), "released-expired", "released after the time was over: %s", resp)
		t := p.to1(s.URL)
		resp, err := t.Hello()
		if err == nil {
			resp = t.Prove()
		}
		c.Must(resp.Refused(), "released-expired", "released after the time was over: %s", resp)
		c.Count("expired")
		c.Eval("expired")
	}
}
