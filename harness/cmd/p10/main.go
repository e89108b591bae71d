// P10: onboarding proceeds only for the device that owns the voucher.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand/v2"
	"strings"

	"verif.local/harness/kit"
	"verif.local/harness/mut"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

type probe struct {
	p, q *sut.Party
	t    *ref.TO2
	r    *rand.Rand
}

func (x *probe) proof() ref.Prove64 { return x.t.Proof() }
func (x *probe) with(f func(p *ref.Prove64)) []byte {
	p := x.proof()
	f(&p)
	return p.Bytes()
}

// signed sends any claims under the device's own signature.
func (x *probe) signed(claims map[int]any) []byte {
	x.proof()
	return x.p.Dev.Key.Sign(ref.Enc(claims), ref.Enc(map[int]any{-259: x.t.NonceSetup})).Tagged()
}
func (x *probe) claims() map[int]any {
	return map[int]any{10: x.t.NonceDv, 256: ref.UEID(x.p.Dev.Guid), -257: []any{x.t.Kex.Share}}
}
func (x *probe) claim(k int, v any) []byte {
	m := x.claims()
	if v == nil {
		delete(m, k)
	} else {
		m[k] = v
	}
	return x.signed(m)
}

// fresh opens and fetches all entries, so that a proof is due.
func fresh(p *sut.Party, t *ref.TO2) error {
	if _, err := t.Hello(); err != nil {
		return err
	}
	if err := t.GetEntries(); err != nil {
		return err
	}
	return t.MakeKex()
}

func bit(r *rand.Rand, b []byte, i int) []byte {
	b = append([]byte{}, b...)
	b[i] ^= 1 << r.IntN(8)
	return b
}

type attack struct {
	name string
	f    func(x *probe) []byte
}

var attacks = []attack{
	{"key-stranger", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) { p.Signer = ref.GenKey(x.p.Dev.Key.Sg) })
	}},
	{"key-other-device", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.Signer = x.q.Dev.Key }) }},
	{"key-owner", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.Signer = x.p.Owner }) }},
	{"key-authority-intermediate", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) { p.Signer, _ = ref.AuthorityKeys() })
	}},
	{"key-authority-root", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) { _, p.Signer = ref.AuthorityKeys() })
	}},
	{"key-other-curve", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) { p.Signer = ref.GenKey(-42 - x.p.Dev.Key.Sg) })
	}},
	{"key-rsa", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) { p.Signer = ref.GenKeyCached(ref.SgRS2048) })
	}},
	{"other-device-wholly", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) { p.Signer, p.UEID = x.q.Dev.Key, ref.UEID(x.q.Dev.Guid) })
	}},
	{"type-other", func(x *probe) []byte {
		// announces a signature type its certificate does not have
		return announced(x, -42-x.p.Dev.Key.Sg)
	}},
	{"type-rsa", func(x *probe) []byte { return announced(x, ref.SgRS2048) }},
	{"type-unknown", func(x *probe) []byte { return announced(x, 4711) }},
	{"nonce-random", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.Nonce = kit.Bytes(x.r, 16) }) }},
	{"nonce-zero", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.Nonce = make([]byte, 16) }) }},
	{"nonce-bit", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) {
			p.Nonce = append([]byte{}, p.Nonce...)
			p.Nonce[x.r.IntN(16)] ^= 1 << x.r.IntN(8)
		})
	}},
	{"nonce-of-hello", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.Nonce = x.t.NonceOV[:] }) }},
	{"nonce-half", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.Nonce = p.Nonce[:8] }) }},
	{"nonce-longer", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) {
			p.Nonce = append(append([]byte{}, p.Nonce...), kit.Bytes(x.r, 1+x.r.IntN(20))...)
		})
	}},
	{"nonce-empty", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.Nonce = []byte{} }) }},
	{"nonce-absent", func(x *probe) []byte { return x.claim(10, nil) }},
	{"nonce-text", func(x *probe) []byte { return x.claim(10, string(x.t.NonceDv[:8])+"aaaaaaaa") }},
	{"nonce-array", func(x *probe) []byte {
		var a []any
		for _, b := range x.t.NonceDv {
			a = append(a, int(b))
		}
		return x.claim(10, a)
	}},
	{"nonce-other-session", func(x *probe) []byte {
		u := x.p.RandTO2(x.r)
		u.Hello()
		return x.with(func(p *ref.Prove64) { p.Nonce = u.NonceDv[:] })
	}},
	{"replayed-proof", func(x *probe) []byte {
		u := x.p.TO2(x.t.KexName, x.t.Cipher)
		if fresh(x.p, u) != nil {
			return nil
		}
		b := u.Proof().Bytes()
		u.Post(64, b)
		return b
	}},
	{"guid-other", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) { p.UEID = ref.UEID(x.q.Dev.Guid) })
	}},
	{"guid-random", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.UEID = ref.UEID(ref.NewGuid()) }) }},
	{"guid-kind", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) { p.UEID = append([]byte{byte(x.r.IntN(255)+2) | 2}, p.UEID[1:]...) })
	}},
	{"guid-bare", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.UEID = p.UEID[1:] }) }},
	{"guid-longer", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) { p.UEID = append(append([]byte{}, p.UEID...), 7) })
	}},
	{"guid-one-byte", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) { p.UEID = bit(x.r, p.UEID, x.r.IntN(17)) })
	}},
	{"guid-first-byte", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.UEID = bit(x.r, p.UEID, 1) }) }},
	{"guid-last-byte", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.UEID = bit(x.r, p.UEID, 16) }) }},
	{"guid-type-byte", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.UEID = bit(x.r, p.UEID, 0) }) }},
	{"guid-short", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.UEID = p.UEID[:16] }) }},
	{"guid-empty", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.UEID = []byte{} }) }},
	{"nonce-first-byte", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.Nonce = bit(x.r, p.Nonce, 0) }) }},
	{"nonce-last-byte", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.Nonce = bit(x.r, p.Nonce, 15) }) }},
	{"guid-absent", func(x *probe) []byte { return x.claim(256, nil) }},
	{"share-absent", func(x *probe) []byte { return x.claim(-257, nil) }},
	{"share-empty", func(x *probe) []byte { return x.claim(-257, []any{[]byte{}}) }},
	{"share-two", func(x *probe) []byte { return x.claim(-257, []any{x.t.Kex.Share, 1}) }},
	{"share-text", func(x *probe) []byte { return x.claim(-257, []any{"share"}) }},
	{"share-bare", func(x *probe) []byte { return x.claim(-257, x.t.Kex.Share) }},
	{"share-short", func(x *probe) []byte {
		if strings.HasPrefix(x.t.KexName, "DHKEX") {
			return x.claim(-257, []any{[]byte{}}) // a short number is still a number of the group
		}
		return x.claim(-257, []any{x.t.Kex.Share[:x.r.IntN(20)]})
	}},
	{"share-unusable", func(x *probe) []byte { return x.claim(-257, []any{unusable(x)}) }},
	{"setup-nonce-absent", func(x *probe) []byte { return x.with(func(p *ref.Prove64) { p.SetupNonce = nil }) }},
	{"setup-nonce-null", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) { p.Edit = func(c *ref.Cose) { c.Unprot = ref.Enc(map[int]any{-259: nil}) } })
	}},
	{"setup-nonce-text", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) { p.Edit = func(c *ref.Cose) { c.Unprot = ref.Enc(map[int]any{-259: "nonce"}) } })
	}},
	{"setup-nonce-length", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) {
			p.Edit = func(c *ref.Cose) {
				c.Unprot = ref.Enc(map[int]any{-259: kit.Bytes(x.r, []int{0, 1, 8, 15, 17, 32}[x.r.IntN(6)])})
			}
		})
	}},
	{"setup-nonce-elsewhere", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) {
			p.Edit = func(c *ref.Cose) { c.Unprot = ref.Enc(map[int]any{256: x.t.NonceSetup}) }
		})
	}},
	{"signature-bit", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) {
			p.Edit = func(c *ref.Cose) { c.Sig[x.r.IntN(len(c.Sig))] ^= 1 << x.r.IntN(8) }
		})
	}},
	{"signature-empty", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) { p.Edit = func(c *ref.Cose) { c.Sig = []byte{} } })
	}},
	{"signature-zero", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) { p.Edit = func(c *ref.Cose) { c.Sig = make([]byte, len(c.Sig)) } })
	}},
	{"signature-longer", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) { p.Edit = func(c *ref.Cose) { c.Sig = append(c.Sig, 0) } })
	}},
	{"payload-replaced", func(x *probe) []byte {
		good := x.proof()
		stale := good
		stale.Nonce = kit.Bytes(x.r, 16)
		return x.withCose(stale, func(c *ref.Cose) {
			g, _ := ref.DecCose(good.Bytes())
			c.Payload = g.Payload
		})
	}},
	{"share-replaced", func(x *probe) []byte {
		// a man in the middle puts its own share under the device's signature
		k, err := ref.NewKex(x.t.KexName, true, x.rsa())
		if err != nil {
			return nil
		}
		m := x.claims()
		m[-257] = []any{k.Share}
		p := ref.Enc(m)
		return x.with(func(pr *ref.Prove64) { pr.Edit = func(c *ref.Cose) { c.Payload = p } })
	}},
	{"protected-changed", func(x *probe) []byte {
		return x.with(func(p *ref.Prove64) {
			p.Edit = func(c *ref.Cose) { c.Prot = ref.Enc(map[int]any{1: -8}) }
		})
	}},
	{"untagged", func(x *probe) []byte {
		b := x.proof().Bytes()
		return b[1:]
	}},
	{"not-cose", func(x *probe) []byte { return ref.Enc(x.claims()) }},
	{"truncated", func(x *probe) []byte { b := x.proof().Bytes(); return b[:x.r.IntN(len(b))] }},
	{"empty", func(x *probe) []byte { return []byte{} }},
	{"encrypted", func(x *probe) []byte {
		b, _ := ref.Wrap(x.t.Sess, x.t.Cipher, x.proof().Bytes(), nil)
		return b
	}},
}

func (x *probe) withCose(p ref.Prove64, f func(*ref.Cose)) []byte { p.Edit = f; return p.Bytes() }

func (x *probe) rsa() (k *ref.RSAPub) { return ref.RSAOf(x.p.Owner) }

// announced repeats the hello with another signature type and proves with a fitting stranger's key.
func announced(x *probe, sg int) []byte {
	t := x.t
	h := t.Hello60()
	h.Sig.Sg = sg
	t.HelloRaw = ref.Enc(h)
	t.Tok = ""
	resp := t.Post(60, t.HelloRaw)
	if resp.Refused() {
		return nil
	}
	if t.Accept61(resp, h) != nil || t.GetEntries() != nil || t.MakeKex() != nil {
		return nil
	}
	k := x.p.Dev.Key
	if _, e := map[int]bool{-7: true, -35: true, -257: true, -258: true}[sg]; e && x.r.IntN(2) == 0 {
		k = ref.GenKeyCached(sg)
	}
	if sg == x.p.Dev.Key.Sg || sg == 4711 {
		k = ref.GenKey(x.p.Dev.Key.Sg)
	}
	return x.with(func(p *ref.Prove64) { p.Signer = k })
}

// unusable is a share no secret can come from.
func unusable(x *probe) []byte {
	s := append([]byte{}, x.t.Kex.Share...)
	r := x.r
	ec := func(n int) []byte {
		switch r.IntN(7) {
		case 0: // off the curve
			s[2+n-1] ^= 1
		case 1:
			s[2+n+2+r.IntN(n)] ^= 1 << r.IntN(8)
		case 2: // origin
			for i := 2; i < 2+n; i++ {
				s[i], s[i+n+2] = 0, 0
			}
		case 3:
			return append(s, 0)
		case 4:
			return s[:len(s)-1]
		case 5:
			s[1]-- // wrong length prefix
		case 6:
			for i := 2; i < 2+n; i++ {
				s[i], s[i+n+2] = 0xff, 0xff
			}
		}
		return s
	}
	dh := func(p *big.Int, n int) []byte {
		one := big.NewInt(1)
		v := []*big.Int{big.NewInt(0), one, new(big.Int).Sub(p, one), p, new(big.Int).Add(p, one), new(big.Int).Lsh(p, 64)}[r.IntN(6)]
		b := v.Bytes()
		if len(b) < n {
			b = append(make([]byte, n-len(b)), b...)
		}
		return b
	}
	switch x.t.KexName {
	case "ECDH256":
		return ec(32)
	case "ECDH384":
		return ec(48)
	case "DHKEXid14":
		return dh(ref.P14, 256)
	case "DHKEXid15":
		return dh(ref.P15, 384)
	}
	switch r.IntN(3) {
	case 0:
		return kit.Bytes(r, len(s))
	case 1:
		s[r.IntN(len(s))] ^= 1 << r.IntN(8)
		return s
	}
	return append(s, 0)
}

// dead: none of the protected steps succeeds.
func dead(c *kit.Check, x *probe, what string) {
	keys := []ref.SessKey{x.t.Sess, {}}
	if x.r.IntN(2) == 0 {
		keys = keys[:1]
	}
	for _, k := range keys {
		saved := x.t.Sess
		x.t.Sess = k
		for _, m := range []struct {
			msg int
			b   []byte
		}{
			{66, ref.Enc([]any{ref.MkHmac(x.p.Dev.HmacTyp, x.p.Dev.HmacKey, []byte("x")), uint16(1400)})},
			{68, ref.Enc(ref.Msg68{Info: ref.Mandatory()})},
			{70, ref.Enc([]any{x.t.NonceDv})},
		} {
			resp := x.t.PostEnc(m.msg, m.b)
			if resp.Msg == -1 {
				continue // cannot even be encrypted
			}
			c.Must(resp.Refused(), "protected-step", "after %s, message %d: %s", what, m.msg, resp)
			c.Count("protected step refused")
		}
		x.t.Sess = saved
	}
}

func main() {
	kit.Main("P10", func(c *kit.Check) {
		c.Rule = "one evaluation = one impostor or damaged message judged by the service's answer; distinct = (alteration, device key type, key exchange) and (message, cipher)"
		for _, sg := range ref.OwnerSgs {
			ref.GenKeyCached(sg)
		}
		s := sut.New(sut.Opt{})
		defer s.Close()
		impostors(c, s)
		mutated(c, s)
		frames(c, s)
		badChains(c, s)
		for _, p := range s.Panics() {
			c.Violation("crash", "%s: %s\n%s", p.Path, p.Value, p.Stack)
		}
		c.Require("proof refused", 500)
		c.Require("protected step refused", 1000)
		c.Require("genuine device onboarded", 200)
		c.Require("frame refused", 500)
		c.Require("bad chain refused", 18)
	})
}

func party(c *kit.Check, s *sut.SUT, r *rand.Rand) *sut.Party {
	p, err := s.NewParty(ref.DeviceSgs[r.IntN(2)], ref.OwnerSgs[r.IntN(4)], 1+r.IntN(3))
	if err != nil {
		c.Broken("%v", err)
	}
	return p
}

func impostors(c *kit.Check, s *sut.SUT) {
	c.Parallel(c.N(16, 300), func(i int) {
		r := c.Rand(fmt.Sprint("imp", i))
		p, q := party(c, s, r), party(c, s, r)
		for _, k := range r.Perm(len(attacks)) {
			a := attacks[k]
			// other sessions, opened before
			w1, w2 := p.RandTO2(r), q.RandTO2(r)
			if err := fresh(p, w1); err != nil {
				c.Violation("honest", "%v", err)
				continue
			}
			if r.IntN(3) == 0 {
				if err := fresh(q, w2); err != nil {
					c.Violation("honest", "%v", err)
					continue
				}
			} else {
				w2 = nil
			}
			x := &probe{p: p, q: q, t: p.RandTO2(r), r: r}
			if err := fresh(p, x.t); err != nil {
				c.Violation("honest", "%v", err)
				continue
			}
			body := a.f(x)
			what := fmt.Sprintf("%s (device %d, owner %d, %s, cipher %d)", a.name, p.Dev.Key.Sg, p.Owner.Sg, x.t.KexName, x.t.Cipher)
			if body == nil {
				c.Count("refused at hello")
			} else {
				resp := x.t.Post(64, body)
				c.Must(resp.Refused(), "accepted-"+a.name, "%s: %s sent %x", what, resp, body)
				c.Sample(a.name, "%s", resp)
				c.Count("proof refused")
				dead(c, x, what)
			}
			c.Eval(fmt.Sprint(a.name, p.Dev.Key.Sg, x.t.KexName))
			for _, w := range []*ref.TO2{w1, w2} {
				if w != nil {
					finish(c, w, "beside "+what)
				}
			}
		}
	})
}

// finish drives a session in which the proof is due to its end.
func finish(c *kit.Check, w *ref.TO2, what string) {
	_, err := w.Prove()
	if err == nil {
		_, err = w.Ready()
	}
	if err == nil {
		err = w.InfoAll([][]ref.SIM{ref.Mandatory()})
	}
	if err == nil {
		_, err = w.Done()
	}
	if err != nil {
		c.Violation("genuine-refused", "%s: %s %d: %v", what, w.KexName, w.Cipher, err)
		return
	}
	c.Count("genuine device onboarded")
}

// mutated: damage of message 64 by structure and byte; what is accepted must be the device's own statement.
func mutated(c *kit.Check, s *sut.SUT) {
	c.Parallel(c.N(8, 60), func(i int) {
		r := c.Rand(fmt.Sprint("m64", i))
		p := party(c, s, r)
		var t *ref.TO2
		var good ref.Cose
		var b []byte
		renew := func() bool {
			t = p.TO2([]string{"ECDH256", "ECDH384"}[r.IntN(2)], sut.AnyCipher(r))
			if err := fresh(p, t); err != nil {
				c.Violation("honest", "%v", err)
				return false
			}
			b = t.Proof().Bytes()
			good, _ = ref.DecCose(b)
			return true
		}
		if !renew() {
			return
		}
		try := func(what string, m []byte) bool {
			resp := t.Post(64, m)
			c.Eval("mutated " + strings.Fields(what)[0])
			if !resp.Ok(65) {
				c.Must(resp.Refused(), "mutated-answer", "%s: %s for %x", what, resp, m)
				c.Count("proof refused")
				return true
			}
			// signed parts must be the same; the setup nonce of the unprotected part is what comes back
			same := bytes.Contains(m, good.Payload) && bytes.Contains(m, good.Sig)
			if x, err := ref.DecCose(m); err == nil {
				same = bytes.Equal(x.Payload, good.Payload) && bytes.Equal(x.Prot, good.Prot) && (bytes.Equal(x.Sig, good.Sig) || len(x.Sig) == len(good.Sig) && x.VerifyWith(p.Dev.Key.Priv.Public()))
			}
			c.Must(same, "mutated-accepted", "%s: accepted %x instead of %x", what, m, b)
			c.Count("mutation of no consequence")
			return renew()
		}
		for _, st := range mut.Structural(b) {
			// mutants of the first message only fit as long as the session is the same
			if !bytes.Equal(st.Data, b) && !try(st.What, st.Data) {
				return
			}
			if t.Kex == nil {
				return
			}
		}
		for at := range b {
			m := append([]byte{}, b...)
			if at < len(m) {
				m[at] ^= 1 << r.IntN(8)
			}
			if !try("byteflip", m) {
				return
			}
		}
		for k := 0; k < c.N(100, 1500); k++ {
			if m := mut.Random(r, b); !bytes.Equal(m, b) && !try("random", m) {
				return
			}
		}
	})
}

// frames: protected messages that do not decrypt under the session's keys.
func frames(c *kit.Check, s *sut.SUT) {
	ci := sut.Ciphers()
	c.Parallel(len(ci)*c.N(3, 30), func(i int) {
		r := c.Rand(fmt.Sprint("frames", i))
		p := party(c, s, r)
		t := p.TO2("ECDH256", ci[i%len(ci)])
		other := p.TO2("ECDH256", ci[i%len(ci)])
		if err := fresh(p, t); err != nil {
			c.Violation("honest", "%v", err)
			return
		}
		if err := fresh(p, other); err != nil {
			c.Violation("honest", "%v", err)
			return
		}
		if _, err := t.Prove(); err != nil {
			c.Violation("honest", "%v", err)
			return
		}
		other.Prove()
		attackFrame := func(msg int, plain []byte) {
			good, _ := ref.Wrap(t.Sess, t.Cipher, plain, nil)
			var ms [][]byte
			add := func(b []byte) { ms = append(ms, b) }
			for _, m := range mut.Structural(good) {
				add(m.Data)
			}
			for k := 0; k < c.N(20, 100); k++ {
				b := append([]byte{}, good...)
				b[r.IntN(len(b))] ^= 1 << r.IntN(8)
				add(b)
				add(mut.Random(r, good))
			}
			// keys of another session, another cipher, no encryption at all, the owner's own frame
			b, _ := ref.Wrap(other.Sess, t.Cipher, plain, nil)
			add(b)
			o := sut.AnyCipher(r)
			if o != t.Cipher {
				b, _ = ref.Wrap(t.Sess, o, plain, nil)
				add(b)
			}
			add(plain)
			add([]byte{})
			r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
			for k, m := range ms {
				if k > c.N(120, 2000) {
					break
				}
				if got, err := ref.Unwrap(t.Sess, t.Cipher, m); err == nil && bytes.Equal(got, plain) {
					continue
				}
				if env, err := ref.ParseEnvelope(good, t.Cipher); err == nil && env.Suite.Mode == "ctr" && bytes.Contains(m, env.Ct) && bytes.Contains(m, env.IV) && bytes.Contains(m, env.OuterTag) {
					continue // another spelling of the genuine frame may be read
				}
				resp := t.Post(msg, m)
				c.Must(resp.Refused(), fmt.Sprintf("frame-%d", msg), "cipher %d message %d: %s for %x (genuine %x)", t.Cipher, msg, resp, m, good)
				c.Count("frame refused")
				c.Eval(fmt.Sprint("frame ", msg, t.Cipher))
			}
		}
		attackFrame(66, ref.Enc([]any{ref.MkHmac(p.Dev.HmacTyp, p.Dev.HmacKey, []byte("x")), uint16(1400)}))
		resp := t.PostEnc(68, ref.Enc(ref.Msg68{Info: ref.Mandatory()}))
		c.Must(resp.Refused(), "frame-acted-on", "68 accepted after undecryptable 66 only: %s", resp)
		if _, err := t.Ready(); err != nil {
			c.Count("given up after error")
			return
		}
		attackFrame(68, ref.Enc(ref.Msg68{Info: ref.Mandatory()}))
		// nothing of them was taken in: without the mandatory info the owner must refuse
		resp = t.PostEnc(68, ref.Enc(ref.Msg68{Info: []ref.SIM{}}))
		c.Must(resp.Refused(), "frame-acted-on", "service info complete after undecryptable 68 only: %s", resp)
	})
}

// badChains: vouchers whose chain does not certify the prover.
func badChains(c *kit.Check, s *sut.SUT) {
	c.Parallel(c.N(3, 20), func(i int) {
		r := c.Rand(fmt.Sprint("chain", i))
		k := ref.GenKey(ref.DeviceSgs[i%2])
		own, foreign := ref.OwnChain(k.Priv.Public()), ref.ForeignChain(k.Priv.Public())
		for name, ch := range map[string][][]byte{
			"empty": {}, "root only": {own[2]}, "leaf only": {own[0]}, "foreign anchors": {own[0], foreign[1], foreign[2]}, "foreign root": {own[0], own[1], foreign[2]},
			"no intermediate": {own[0], own[2]}, "reversed": {own[2], own[1], own[0]}, "intermediate as end": {own[1], own[2]}, "garbage": {kit.Bytes(r, 50), own[1], own[2]},
			"garbage root": {own[0], own[1], kit.Bytes(r, 50)}, "garbage intermediate": {own[0], {}, own[2]},
		} {
			d := ref.NewDevice(k.Sg)
			d.Key, d.Chain = k, ch
			p := &sut.Party{Dev: d, Owner: ref.GenKeyCached(-7), URL: s.URL}
			p.V = ref.BuildVoucher(d, []ref.Key{ref.GenKeyCached(-35), p.Owner}, ref.RandRV())
			if err := s.AddVoucher(p.V, p.Owner); err != nil {
				c.Count("bad chain refused")
				continue
			}
			t := p.RandTO2(r)
			if _, err := t.Hello(); err != nil {
				c.Count("bad chain refused")
				continue
			}
			t.GetEntry(0)
			if err := t.MakeKex(); err != nil {
				c.Broken("%v", err)
			}
			x := &probe{p: p, t: t, r: r}
			resp := t.Post(64, t.Proof().Bytes())
			c.Must(resp.Refused(), "bad-chain", "%s: %s", name, resp)
			dead(c, x, "chain "+name)
			c.Count("bad chain refused")
			c.Eval("chain " + name)
		}
	})
}
