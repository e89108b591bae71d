// P01: tunnel messages decrypt to exactly what was encrypted, or not at all.
package main

import (
	"bytes"
	"crypto/aes"
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"sync"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/ccm"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
	_ "verif.local/harness/sut"
)

type cs = fdoshared.CipherSuiteName

func wrap(k ref.SessKey, id int, p []byte) (b []byte, err error, panicked string) {
	panicked = kit.Try(func() {
		b, err = fdoshared.AddEncryptionWrapping(p, fdoshared.SessionKeyInfo{ShSe: k.ShSe, ContextRand: k.Ctx}, cs(id))
	})
	return
}
func unwrap(k ref.SessKey, id int, e []byte) (b []byte, err error, panicked string) {
	panicked = kit.Try(func() {
		b, err = fdoshared.RemoveEncryptionWrapping(e, fdoshared.SessionKeyInfo{ShSe: k.ShSe, ContextRand: k.Ctx}, cs(id))
	})
	return
}

func sess(r *rand.Rand) ref.SessKey {
	lens := []int{64, 118, 144, 256, 384, 32, 96, 63}
	ctx := []int{0, 0, 0, 0, 32, 96, 0, 1}
	i := r.IntN(len(lens))
	return ref.SessKey{ShSe: kit.Bytes(r, lens[i]), Ctx: kit.Bytes(r, ctx[i])}
}

func plain(r *rand.Rand, i int) []byte {
	var n int
	switch i % 6 {
	case 0:
		n = r.IntN(64)
	case 1:
		n = 16*r.IntN(20) + r.IntN(3) - 1
	case 2:
		n = r.IntN(2000)
	case 3:
		n = []int{0, 1, 15, 16, 17, 255, 256, 257, 4095, 4096}[r.IntN(10)]
	case 4:
		n = r.IntN(9000)
	default:
		n = []int{65535, 65520, 32768, 16383, 16384, 65519}[r.IntN(6)]
	}
	if n < 0 {
		n = 0
	}
	b := kit.Bytes(r, n)
	if r.IntN(4) == 0 {
		for j := range b {
			b[j] = 0
		}
	}
	return b
}

var ivMu sync.Mutex
var ivSeen = map[string]int{}
var ivCount = map[int]int{}
var ivPos = map[int][]map[byte]bool{}

func main() {
	kit.Main("P01", func(c *kit.Check) {
		c.Rule = "one evaluation = one real wrap or unwrap call judged; distinct = (class, suite, size bucket, tamper position)"
		c.Assume = []string{"Go crypto/aes, cipher, hmac are correct", "the outer MAC framing of the CTR suite is taken as the tool frames it, except in the spec-framing probe"}
		roundtrips(c)
		tamper(c)
		forged(c)
		refused(c)
		ccmDiff(c)
		ivs(c)
		framing(c)
		c.Require("roundtrip", 500)
		c.Require("tampered", 5000)
		c.Require("forged", 50)
		c.Require("ccm-diff", 500)
		c.Require("iv-observed", 5000)
	})
}

func impl() (l []ref.Suite) {
	for _, s := range ref.Suites {
		if s.Implemented {
			l = append(l, s)
		}
	}
	return
}

func noteIV(c *kit.Check, s ref.Suite, iv []byte) {
	ivMu.Lock()
	defer ivMu.Unlock()
	c.Count("iv-observed")
	c.Must(len(iv) == s.Nonce, fmt.Sprintf("iv-length-%d", s.ID), "suite %d uses an IV of %d bytes, prescribed %d", s.ID, len(iv), s.Nonce)
	k := fmt.Sprint(s.ID, "/", string(iv))
	ivSeen[k]++
	c.Must(ivSeen[k] == 1, fmt.Sprintf("iv-repeat-%d", s.ID), "suite %d repeats IV %x", s.ID, iv)
	ivCount[s.ID]++
	if ivPos[s.ID] == nil {
		ivPos[s.ID] = make([]map[byte]bool, s.Nonce)
		for i := range ivPos[s.ID] {
			ivPos[s.ID][i] = map[byte]bool{}
		}
	}
	for i, b := range iv {
		if i < s.Nonce {
			ivPos[s.ID][i][b] = true
		}
	}
}

func roundtrips(c *kit.Check) {
	n := c.N(1500, 40000)
	ss := impl()
	c.Parallel(n, func(i int) {
		r := c.Rand(fmt.Sprint("rt", i))
		s := ss[i%len(ss)]
		k, p := sess(r), plain(r, i/len(ss))
		if i%60 < len(ss) {
			p = kit.Bytes(r, big(s, r))
		}
		orig := append([]byte{}, p...)
		e, err, pan := wrap(k, s.ID, p)
		c.Eval(fmt.Sprint("rt", s.ID, len(p), len(k.Ctx)))
		if pan != "" || err != nil {
			c.Violation(fmt.Sprintf("wrap-fails-%d", s.ID), "wrapping %d bytes with suite %d: %v %s", len(p), s.ID, err, pan)
			return
		}
		c.Must(bytes.Equal(p, orig), "wrap-modifies-input", "wrapping changed the caller's payload")
		c.Count("roundtrip")
		// the independent decoder reads it
		d, err := ref.Unwrap(k, s.ID, e)
		if !c.Must(err == nil && bytes.Equal(d, p), fmt.Sprintf("independent-decoder-%d", s.ID), "independent decoder on real envelope (suite %d, %d bytes): %v\nshse=%s ctx=%s\nenvelope=%s", s.ID, len(p), err, kit.Hex(k.ShSe), kit.Hex(k.Ctx), kit.Hex(e)) {
			return
		}
		ecopy := append([]byte{}, e...)
		d, err, pan = unwrap(k, s.ID, e)
		c.Must(pan == "" && err == nil && bytes.Equal(d, p), fmt.Sprintf("roundtrip-%d", s.ID), "round trip (suite %d, %d bytes) gives err=%v %s equal=%v", s.ID, len(p), err, pan, bytes.Equal(d, p))
		c.Must(bytes.Equal(e, ecopy), "unwrap-modifies-input", "unwrapping changed the caller's envelope")
		// envelope of the independent encoder is accepted
		e2, err := ref.Wrap(k, s.ID, p, nil)
		if err == nil {
			d, err, pan = unwrap(k, s.ID, e2)
			c.Eval(fmt.Sprint("rt2", s.ID, len(p)))
			c.Must(pan == "" && err == nil && bytes.Equal(d, p), fmt.Sprintf("independent-encoder-%d", s.ID), "envelope of the independent encoder (suite %d, %d bytes): err=%v %s", s.ID, len(p), err, pan)
		}
		if pe, err := ref.ParseEnvelope(e, s.ID); err == nil {
			noteIV(c, s, pe.IV)
		}
		if i < 14 {
			c.Sample("roundtrip", "suite %d, %d bytes, envelope %s", s.ID, len(p), kit.Hex(e))
		}
	})
}

// judge: never other bytes; strict: must be an error.
func judge(c *kit.Check, class string, k ref.SessKey, id int, e, p []byte, strict bool, what string) {
	d, err, pan := unwrap(k, id, e)
	c.Count("tampered")
	c.Eval(fmt.Sprint(class, id, what))
	if pan != "" {
		c.Violation(fmt.Sprintf("panic-%s-%d", class, id), "unwrapping panics (suite %d, %s): %s\nenvelope=%s", id, what, pan, kit.Hex(e))
		return
	}
	if err == nil && !bytes.Equal(d, p) {
		c.Violation(fmt.Sprintf("other-bytes-%s-%d", class, id), "altered envelope (suite %d, %s) decrypts to other bytes: %s instead of %s", id, what, kit.Hex(d), kit.Hex(p))
		return
	}
	if err == nil && strict {
		c.Violation(fmt.Sprintf("accepted-%s-%d", class, id), "altered envelope (suite %d, %s) is accepted\nenvelope=%s", id, what, kit.Hex(e))
	}
}

// big is a length near the limits a cipher implementation may have.
func big(s ref.Suite, r *rand.Rand) int {
	if s.Nonce == 13 {
		return 65535 - r.IntN(40)
	}
	return []int{65535, 65536, 70000, 1 << 17, 300000}[r.IntN(5)]
}

func flip(b []byte, bit int) []byte {
	o := append([]byte{}, b...)
	o[bit/8] ^= 1 << (bit % 8)
	return o
}

func tamper(c *kit.Check) {
	ss := impl()
	n := len(ss) * c.N(40, 400)
	c.Parallel(n, func(i int) {
		r := c.Rand(fmt.Sprint("tm", i))
		s := ss[i%len(ss)]
		k := sess(r)
		p := kit.Bytes(r, []int{1, 5, 300, 33, big(s, r), 16, 100, 0, 5000, 64}[(i/len(ss))%10])
		var e []byte
		var err error
		var pan string
		if i%2 == 0 {
			e, err, pan = wrap(k, s.ID, p)
		} else {
			e, err = ref.Wrap(k, s.ID, p, nil)
		}
		if err != nil || pan != "" {
			c.Violation(fmt.Sprintf("wrap-fails-%d", s.ID), "wrap: %v %s", err, pan)
			return
		}
		pe, err := ref.ParseEnvelope(e, s.ID)
		if err != nil {
			c.Violation(fmt.Sprintf("independent-decoder-%d", s.ID), "cannot parse envelope: %v", err)
			return
		}
		genuine := func(when string) {
			d, err, pan := unwrap(k, s.ID, e)
			c.Must(pan == "" && err == nil && bytes.Equal(d, p), fmt.Sprintf("genuine-%s-%d", when, s.ID), "suite %d, %d bytes: the genuine envelope, %s altered ones: %v %s", s.ID, len(p), when, err, pan)
		}
		if i/2%2 == 0 { // what was once accepted does not help what is altered
			genuine("before")
		}
		defer genuine("after")
		edit := func(f func(e *ref.Envelope)) []byte {
			q := pe
			f(&q)
			return q.Bytes()
		}
		bits := func(b []byte, max int) (l []int) {
			t := len(b) * 8
			if t <= max {
				for x := 0; x < t; x++ {
					l = append(l, x)
				}
				return
			}
			if t > 1<<16 {
				max = 40
			}
			for x := 0; x < max; x++ {
				l = append(l, r.IntN(t))
			}
			return append(l, 0, t-1, t-1-r.IntN(min(t, 300)), t-1-r.IntN(min(t, 600)))
		}
		for _, x := range bits(pe.Ct, 400) {
			judge(c, "ciphertext", k, s.ID, edit(func(q *ref.Envelope) { q.Ct = flip(pe.Ct, x) }), p, true, fmt.Sprint("ciphertext bit ", x))
		}
		for _, x := range bits(pe.IV, 200) {
			judge(c, "iv", k, s.ID, edit(func(q *ref.Envelope) { q.IV = flip(pe.IV, x) }), p, true, fmt.Sprint("IV bit ", x))
		}
		for _, l := range []int{0, 1, s.Nonce - 1, s.Nonce + 1, 12, 13, 16, 7, 32} {
			if l != s.Nonce {
				judge(c, "iv-length", k, s.ID, edit(func(q *ref.Envelope) { q.IV = append(append([]byte{}, pe.IV...), kit.Bytes(r, 40)...)[:l] }), p, true, fmt.Sprint("IV length ", l))
			}
		}
		judge(c, "iv-missing", k, s.ID, edit(func(q *ref.Envelope) { q.IV = nil }), p, true, "no IV")
		for _, x := range bits(pe.Prot, 200) {
			judge(c, "protected", k, s.ID, edit(func(q *ref.Envelope) { q.Prot = flip(pe.Prot, x) }), p, true, fmt.Sprint("protected bit ", x))
		}
		for _, o := range ref.Suites {
			if o.ID != s.ID {
				judge(c, "alg", k, s.ID, edit(func(q *ref.Envelope) { q.Prot = ref.Enc(map[int]int{1: o.ID}) }), p, true, fmt.Sprint("algorithm ", o.ID))
			}
		}
		judge(c, "alg-missing", k, s.ID, edit(func(q *ref.Envelope) { q.Prot = ref.Enc(map[int]int{}) }), p, true, "no algorithm")
		judge(c, "prot-empty", k, s.ID, edit(func(q *ref.Envelope) { q.Prot = []byte{} }), p, true, "empty protected header")
		judge(c, "prot-extra", k, s.ID, edit(func(q *ref.Envelope) { q.Prot = ref.Enc(map[int]any{1: s.ID, 4: []byte{1}}) }), p, true, "protected header with key id")
		if s.Mode == "ctr" {
			for _, x := range bits(pe.OuterTag, 300) {
				judge(c, "mac", k, s.ID, edit(func(q *ref.Envelope) { q.OuterTag = flip(pe.OuterTag, x) }), p, true, fmt.Sprint("tag bit ", x))
			}
			for l := 0; l < len(pe.OuterTag); l++ {
				judge(c, "mac-short", k, s.ID, edit(func(q *ref.Envelope) { q.OuterTag = pe.OuterTag[:l] }), p, true, fmt.Sprint("tag length ", l))
			}
			judge(c, "mac-long", k, s.ID, edit(func(q *ref.Envelope) { q.OuterTag = append(append([]byte{}, pe.OuterTag...), 0) }), p, true, "tag with a zero appended")
			judge(c, "outer-alg", k, s.ID, edit(func(q *ref.Envelope) { q.OuterProt = ref.Enc(map[int]int{1: 6}) }), p, true, "outer algorithm 6")
			judge(c, "outer-alg", k, s.ID, edit(func(q *ref.Envelope) { q.OuterProt = ref.Enc(map[int]int{}) }), p, true, "outer algorithm missing")
		}
		// truncation, extension of the ciphertext, swaps with another message of the same session
		for _, l := range []int{0, 1, len(pe.Ct) - 1, len(pe.Ct) / 2, len(pe.Ct) - 16} {
			if l >= 0 && l < len(pe.Ct) {
				judge(c, "ct-truncated", k, s.ID, edit(func(q *ref.Envelope) { q.Ct = pe.Ct[:l] }), p, true, fmt.Sprint("ciphertext cut to ", l, " of ", len(pe.Ct)))
			}
		}
		judge(c, "ct-extended", k, s.ID, edit(func(q *ref.Envelope) { q.Ct = append(append([]byte{}, pe.Ct...), kit.Bytes(r, 1+r.IntN(20))...) }), p, true, "ciphertext extended")
		p2 := kit.Bytes(r, len(p)+1)
		if o, err := ref.Wrap(k, s.ID, p2, nil); err == nil {
			oe, _ := ref.ParseEnvelope(o, s.ID)
			judge(c, "splice", k, s.ID, edit(func(q *ref.Envelope) { q.IV = oe.IV }), p, true, "IV of another message")
			judge(c, "splice", k, s.ID, edit(func(q *ref.Envelope) { q.Ct = oe.Ct }), p, true, "ciphertext of another message")
			if s.Mode == "ctr" {
				judge(c, "splice", k, s.ID, edit(func(q *ref.Envelope) { q.OuterTag = oe.OuterTag }), p, true, "tag of another message")
			}
		}
		// whole-envelope byte changes: an error or the original
		for x := 0; x < c.N(150, 400) && (x < 20 || len(e) < 1<<14); x++ {
			judge(c, "anybyte", k, s.ID, flip(e, r.IntN(len(e)*8)), p, false, fmt.Sprint("envelope bit ", x))
		}
		for l := 0; l < len(e); l += 1 + len(e)/60 {
			judge(c, "truncated", k, s.ID, e[:l], p, true, fmt.Sprint("envelope cut to ", l))
		}
		// other keys
		for x := 0; x < 24; x++ {
			k2 := ref.SessKey{ShSe: flip(k.ShSe, r.IntN(len(k.ShSe)*8)), Ctx: k.Ctx}
			judge(c, "key", k2, s.ID, e, p, true, "other shared secret")
		}
		judge(c, "key", ref.SessKey{ShSe: k.ShSe, Ctx: append([]byte{7}, k.Ctx...)}, s.ID, e, p, true, "other context")
		judge(c, "key", ref.SessKey{}, s.ID, e, p, true, "empty key")
		if k.ShSe[len(k.ShSe)-1] != 0 { // HMAC pads its key with zeros
			judge(c, "key", ref.SessKey{ShSe: k.ShSe[:len(k.ShSe)-1], Ctx: k.Ctx}, s.ID, e, p, true, "cut shared secret")
		}
		// other suites
		for _, o := range ref.Suites {
			if o.ID != s.ID {
				judge(c, "suite", k, o.ID, e, p, true, fmt.Sprint("unwrapped as suite ", o.ID))
			}
		}
	})
}

// forged: authentic envelopes (made with the session key) of odd shape, plus plain garbage.
func forged(c *kit.Check) {
	r := c.Rand("forged")
	for _, s := range impl() {
		for i := 0; i < c.N(20, 400); i++ {
			k := sess(r)
			p := kit.Bytes(r, r.IntN(80))
			b, _ := ref.Wrap(k, s.ID, p, nil)
			e, _ := ref.ParseEnvelope(b, s.ID)
			what := ""
			switch i % 10 {
			case 0:
				e.Prot, what = ref.Enc(map[int]int{}), "no algorithm"
			case 1:
				e.IV, what = nil, "no IV"
			case 2:
				e.IV, what = kit.Bytes(r, r.IntN(40)), "IV length"
			case 3:
				e.Prot, what = []byte{0xf6}, "protected header null"
			case 4:
				e.Ct, what = nil, "null ciphertext"
			case 5:
				e.Prot, what = kit.Bytes(r, 4), "protected header garbage"
			case 6:
				e.Prot, what = ref.Enc(map[int]int{1: ref.Suites[r.IntN(len(ref.Suites))].ID}), "algorithm of some suite"
			case 7:
				e.Additional, what = map[int64]ref.Raw{5: ref.Enc("text"), 256: ref.Enc(1)}, "ill-typed unprotected header"
				e.IV = nil
			case 8:
				e.OuterProt, what = ref.Enc(map[int]int{}), "no outer algorithm"
			case 9:
				e.Ct, what = kit.Bytes(r, r.IntN(15)), "ciphertext shorter than the tag"
			}
			if s.Mode == "ctr" {
				if pan := kit.Try(func() { e.Remac(k) }); pan != "" {
					continue
				}
			}
			var eb []byte
			if pan := kit.Try(func() { eb = e.Bytes() }); pan != "" {
				continue
			}
			d, err, pan := unwrap(k, s.ID, eb)
			c.Count("forged")
			c.Eval(fmt.Sprint("forged", s.ID, what))
			if pan != "" {
				c.Violation(fmt.Sprintf("panic-forged-%d-%s", s.ID, what), "suite %d, %s: panic %s\n%s", s.ID, what, pan, kit.Hex(eb))
			} else if err == nil {
				// whatever is accepted must be what the independent decoder reads
				d2, err2 := ref.Unwrap(k, s.ID, eb)
				c.Must(err2 == nil && bytes.Equal(d, d2), fmt.Sprintf("forged-accepted-%d-%s", s.ID, what), "suite %d, %s is accepted; independent decoder: %v\n%s", s.ID, what, err2, kit.Hex(eb))
			}
			for j := 0; j < 10; j++ {
				g := kit.Bytes(r, r.IntN(100))
				_, err, pan := unwrap(k, s.ID, g)
				c.Eval("")
				c.Must(pan == "" && err != nil, fmt.Sprintf("garbage-%d", s.ID), "garbage %x: err=%v %s", g, err, pan)
			}
		}
	}
}

func refused(c *kit.Check) {
	r := c.Rand("refused")
	ids := []int{0, 2, 4, 10, 29, 34, -1, 5, 24, -17760702, -17760707, 1 << 31}
	for _, s := range ref.Suites {
		if !s.Implemented {
			ids = append(ids, s.ID)
		}
	}
	for _, id := range ids {
		for i := 0; i < 8; i++ {
			k, p := sess(r), kit.Bytes(r, 1+r.IntN(60))
			e, err, pan := wrap(k, id, p)
			c.Count("refused")
			c.Eval(fmt.Sprint("refused", id))
			c.Must(pan == "" && err != nil, fmt.Sprintf("suite-not-refused-%d", id), "suite %d is not implemented but wrapping gives err=%v %s %s", id, err, pan, kit.Hex(e))
			for _, s := range impl() {
				e, _ := ref.Wrap(k, s.ID, p, nil)
				_, err, pan := unwrap(k, id, e)
				c.Must(pan == "" && err != nil, fmt.Sprintf("suite-unwraps-%d", id), "suite %d is not implemented but unwraps an envelope of suite %d: err=%v %s", id, s.ID, err, pan)
			}
		}
	}
	// more than a suite can carry is an error, not a crash or a cut message
	for _, s := range impl() {
		for _, n := range []int{65535, 65536, 65537, 70000, 200000} {
			p := kit.Bytes(r, n)
			k := sess(r)
			e, err, pan := wrap(k, s.ID, p)
			c.Eval(fmt.Sprint("big", s.ID, n))
			if pan != "" {
				c.Violation(fmt.Sprintf("panic-big-%d", s.ID), "wrapping %d bytes with suite %d panics: %s", n, s.ID, pan)
			} else if err == nil {
				d, err, pan := unwrap(k, s.ID, e)
				c.Must(pan == "" && err == nil && bytes.Equal(d, p), fmt.Sprintf("big-%d", s.ID), "%d bytes with suite %d do not come back: %v %s", n, s.ID, err, pan)
			}
			c.Must(err == nil || (s.Nonce == 13 && n > 65535), fmt.Sprintf("refuses-big-%d", s.ID), "suite %d refuses %d bytes: %v", s.ID, n, err)
		}
	}
}

func ccmDiff(c *kit.Check) {
	vec := []struct {
		key, nonce, in, out string
		a, m                int
	}{ // RFC 3610 packet vectors 1,2,3,7,10
		{"C0C1C2C3C4C5C6C7C8C9CACBCCCDCECF", "00000003020100A0A1A2A3A4A5", "000102030405060708090A0B0C0D0E0F101112131415161718191A1B1C1D1E", "0001020304050607588C979A61C663D2F066D0C2C0F989806D5F6B61DAC38417E8D12CFDF926E0", 8, 8},
		{"C0C1C2C3C4C5C6C7C8C9CACBCCCDCECF", "00000004030201A0A1A2A3A4A5", "000102030405060708090A0B0C0D0E0F101112131415161718191A1B1C1D1E1F", "000102030405060772C91A36E135F8CF291CA894085C87E3CC15C439C9E43A3BA091D56E10400916", 8, 8},
		{"C0C1C2C3C4C5C6C7C8C9CACBCCCDCECF", "00000009080706A0A1A2A3A4A5", "000102030405060708090A0B0C0D0E0F101112131415161718191A1B1C1D1E", "00010203040506070135D1B2C95F41D5D1D4FEC185D166B8094E999DFED96C048C56602C97ACBB7490", 8, 10},
	}
	for i, v := range vec {
		key, _ := hex.DecodeString(v.key)
		nonce, _ := hex.DecodeString(v.nonce)
		in, _ := hex.DecodeString(v.in)
		out, _ := hex.DecodeString(v.out)
		blk, _ := aes.NewCipher(key)
		a, err := ccm.NewCCM(blk, v.m, len(nonce))
		if err != nil {
			c.Violation("ccm-new", "NewCCM(%d,%d): %v", v.m, len(nonce), err)
			continue
		}
		got := a.Seal(in[:v.a:v.a], nonce, in[v.a:], in[:v.a])
		if i == 0 { // guard the reference itself
			if w := ref.CCMSeal(key, nonce, in[v.a:], in[:v.a], v.m); !bytes.Equal(w, out[v.a:]) {
				c.Broken("reference CCM does not match RFC 3610: %x", w)
			}
		}
		c.Eval(fmt.Sprint("ccmvec", i))
		c.Must(bytes.Equal(got, out), "ccm-rfc-vector", "RFC 3610 vector %d: got %X want %X", i, got, out)
	}
	n := c.N(1200, 30000)
	c.Parallel(n, func(i int) {
		r := c.Rand(fmt.Sprint("ccm", i))
		key := kit.Bytes(r, []int{16, 24, 32}[r.IntN(3)])
		tag := 4 + 2*r.IntN(7)
		nl := 7 + r.IntN(7)
		nonce := kit.Bytes(r, nl)
		pl := plain(r, r.IntN(5))
		al := r.IntN(70)
		if i%40 == 0 {
			al = []int{0xfefe, 0xfeff, 0xff00, 0xff01, 70000, 65535, 65536}[r.IntN(7)]
		}
		ad := kit.Bytes(r, al)
		blk, _ := aes.NewCipher(key)
		a, err := ccm.NewCCM(blk, tag, nl)
		if err != nil {
			c.Violation("ccm-new", "NewCCM(%d,%d): %v", tag, nl, err)
			return
		}
		want := ref.CCMSeal(key, nonce, pl, ad, tag)
		dst := kit.Bytes(r, r.IntN(8))
		got := a.Seal(append([]byte{}, dst...), nonce, pl, ad)
		c.Count("ccm-diff")
		c.Eval(fmt.Sprint("ccm", len(key), tag, nl, len(pl), al))
		c.Must(bytes.Equal(got, append(append([]byte{}, dst...), want...)), "ccm-seal", "CCM Seal key %d tag %d nonce %d plain %d aad %d differs from RFC 3610", len(key), tag, nl, len(pl), al)
		d, err := a.Open(nil, nonce, want, ad)
		c.Must(err == nil && bytes.Equal(d, pl), "ccm-open", "CCM Open tag %d nonce %d plain %d aad %d: %v", tag, nl, len(pl), al, err)
		for j := 0; j < 6; j++ {
			bad := flip(want, r.IntN(len(want)*8))
			_, err := a.Open(nil, nonce, bad, ad)
			c.Must(err != nil, "ccm-open-accepts", "CCM Open (tag %d) accepts altered ciphertext", tag)
		}
		if al > 0 {
			_, err = a.Open(nil, nonce, want, flip(ad, r.IntN(al*8)))
			c.Must(err != nil, "ccm-open-accepts-aad", "CCM Open (tag %d, aad %d) accepts altered associated data", tag, al)
		}
		_, err = a.Open(nil, flip(nonce, r.IntN(nl*8)), want, ad)
		c.Must(err != nil, "ccm-open-accepts-nonce", "CCM Open (tag %d) accepts altered nonce", tag)
		for _, l := range []int{0, tag - 1} {
			_, err := a.Open(nil, nonce, want[:l], ad)
			c.Must(err != nil, "ccm-open-short", "CCM Open accepts %d bytes with tag %d", l, tag)
		}
	})
	blk, _ := aes.NewCipher(make([]byte, 16))
	for _, t := range []int{0, 2, 3, 5, 15, 17, 18} {
		_, err := ccm.NewCCM(blk, t, 12)
		c.Must(err != nil, "ccm-bad-tag", "NewCCM accepts tag size %d", t)
	}
	for _, t := range []int{0, 6, 14, 15, 16} {
		_, err := ccm.NewCCM(blk, 16, t)
		c.Must(err != nil, "ccm-bad-nonce", "NewCCM accepts nonce size %d", t)
	}
}

func ivs(c *kit.Check) {
	ss := impl()
	k := sess(c.Rand("iv"))
	c.Parallel(len(ss)*c.N(1500, 30000), func(i int) {
		s := ss[i%len(ss)]
		e, err, pan := wrap(k, s.ID, []byte{byte(i)})
		if err != nil || pan != "" {
			return
		}
		if pe, err := ref.ParseEnvelope(e, s.ID); err == nil {
			noteIV(c, s, pe.IV)
			c.Eval("")
		}
	})
	dist := map[string]int{}
	for id, m := range ivPos {
		for i, x := range m {
			// 1000 uniform draws miss more than 64 of 256 values with negligible probability
			if ivCount[id] > 1000 {
				c.Must(len(x) > 128, fmt.Sprintf("iv-entropy-%d", id), "suite %d: byte %d of the IV took only %d values in %d messages", id, i, len(x), ivCount[id])
			}
		}
		dist[fmt.Sprint(id)] = ivCount[id]
	}
	c.Extra("ivs_per_suite", dist)
}

// framing: the spec's COSE_Mac0 framing of the encrypt-then-mac suite.
func framing(c *kit.Check) {
	k := sess(c.Rand("framing"))
	e, err, pan := wrap(k, -17760704, []byte("x"))
	if err != nil || pan != "" {
		return
	}
	c.Eval("framing")
	in, err := ref.Untag(e, 17)
	ok := err == nil
	if ok {
		var o struct {
			_       struct{} `cbor:",toarray"`
			Prot    []byte
			Unprot  ref.Raw
			Payload []byte
			Tag     []byte
		}
		ok = ref.Dec(in, &o) == nil
		if ok {
			svk, _ := k.CtrKeys()
			ok = bytes.Equal(ref.MkHmac(ref.HMAC256, svk, ref.Enc([]any{"MAC0", o.Prot, []byte{}, o.Payload})).Hash, o.Tag)
		}
	}
	c.Must(ok, "spec-etm-framing", "the encrypt-then-MAC envelope is not a tagged COSE_Mac0 with the MAC over the MAC_structure of RFC 8152; a strict peer cannot read it\n%x", e)
}
