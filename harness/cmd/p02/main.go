// P02: both ends of a key exchange derive the specified, identical session keys.
package main

import (
	"bytes"
	"crypto/ecdh"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"sync"

	crand "crypto/rand"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
)

func gen(suite string, pk *fdoshared.FdoPublicKey) (k *fdoshared.KeXParams, err error, p string) {
	p = kit.Try(func() { k, err = fdoshared.GenerateXABKeyExchange(fdoshared.KexSuiteName(suite), pk) })
	return
}
func derive(k fdoshared.KeXParams, peer []byte, device bool, priv any) (s *fdoshared.SessionKeyInfo, err error, p string) {
	in := append([]byte(nil), peer...)
	p = kit.Try(func() { s, err = fdoshared.DeriveSessionKey(k, in, device, priv) })
	return
}
func sutPub(k ref.Key) *fdoshared.FdoPublicKey {
	var out fdoshared.FdoPublicKey
	if err := fdoshared.CborCust.Unmarshal(ref.Enc(k.Pub()), &out); err != nil {
		panic(err)
	}
	return &out
}

type side struct {
	sut bool
	s   *fdoshared.KeXParams
	r   *ref.Kex
}

func (x side) share() []byte {
	if x.sut {
		return x.s.XAKeyExchange
	}
	return x.r.Share
}

var rsaKeys map[string]ref.Key

func isAsym(s string) bool { return s == "ASYMKEX2048" || s == "ASYMKEX3072" }

func mk(c *kit.Check, sut bool, suite string, device bool) (side, bool) {
	if !sut {
		var peer *rsa.PublicKey
		if isAsym(suite) && device {
			peer = rsaKeys[suite].Priv.Public().(*rsa.PublicKey)
		}
		k, err := ref.NewKex(suite, device, peer)
		if err != nil {
			panic(err)
		}
		return side{r: k}, true
	}
	var pk *fdoshared.FdoPublicKey
	if device {
		pk = sutPub(ref.GenKeyCached(-7))
		if isAsym(suite) {
			pk = sutPub(rsaKeys[suite])
		}
	}
	k, err, p := gen(suite, pk)
	if !c.Must(p == "" && err == nil && k != nil, "generate-fails-"+suite, "%s device=%v: err=%v panic=%s", suite, device, err, p) {
		return side{}, false
	}
	return side{sut: true, s: k}, true
}

func (x side) derive(suite string, peer []byte, device bool) (ref.SessKey, error, string) {
	if x.sut {
		var priv any
		if !device {
			priv = ref.GenKeyCached(-7).Priv
			if isAsym(suite) {
				priv = rsaKeys[suite].Priv
			}
		}
		s, err, p := derive(*x.s, peer, device, priv)
		if p != "" || err != nil || s == nil {
			return ref.SessKey{}, err, p
		}
		return ref.SessKey{ShSe: s.ShSe, Ctx: s.ContextRand}, nil, ""
	}
	var priv *rsa.PrivateKey
	if isAsym(suite) {
		priv = rsaKeys[suite].Priv.(*rsa.PrivateKey)
	}
	k, err := x.r.Derive(peer, device, priv)
	return k, err, ""
}

func sameKeys(c *kit.Check, class, suite string, a, b ref.SessKey, sutA, sutB bool) {
	// final keys of every implemented cipher suite
	for _, s := range ref.Suites {
		if !s.Implemented {
			continue
		}
		n, h := s.Key+s.MacKey, ref.HMAC256
		if s.Hmac != 0 {
			h = s.Hmac
		}
		kd := func(k ref.SessKey, sut bool) []byte {
			if !sut {
				return ref.KDF(n, h, k.ShSe, k.Ctx)
			}
			var out []byte
			var err error
			p := kit.Try(func() { out, err = fdoshared.Sp800108CounterKDF(n, fdoshared.HashType(h), k.ShSe, k.Ctx) })
			c.Must(p == "" && err == nil, "kdf-fails", "n=%d h=%d err=%v %s", n, h, err, p)
			return out
		}
		x, y := kd(a, sutA), kd(b, sutB)
		c.Must(bytes.Equal(x, y) && len(x) == n, "keys-differ-"+suite, "%s %s cipher %d: device keys %x, owner keys %x (ShSe lengths %d/%d, ctx %d/%d)", class, suite, s.ID, x, y, len(a.ShSe), len(b.ShSe), len(a.Ctx), len(b.Ctx))
		c.Count("derived key pairs compared")
	}
}

func agree(c *kit.Check, class, suite string, dev, own side) {
	a, err, p := dev.derive(suite, own.share(), true)
	if !c.Must(err == nil && p == "", "device-derive-fails-"+suite, "%s %s: device side: %v %s (owner share %x)", class, suite, err, p, own.share()) {
		return
	}
	b, err, p := own.derive(suite, dev.share(), false)
	if !c.Must(err == nil && p == "", "owner-derive-fails-"+suite, "%s %s: owner side: %v %s (device share %x)", class, suite, err, p, dev.share()) {
		return
	}
	c.Must(bytes.Equal(a.ShSe, b.ShSe) && bytes.Equal(a.Ctx, b.Ctx), "secret-differs-"+suite, "%s %s: ShSe %x / %x ctx %x / %x", class, suite, a.ShSe, b.ShSe, a.Ctx, b.Ctx)
	sameKeys(c, class, suite, a, b, dev.sut, own.sut)
	note(c, suite, dev, own, a)
	c.Eval(fmt.Sprintf("%s/%s/%v%v", class, suite, dev.sut, own.sut))
	c.Sample(class+" "+suite, "device(tool=%v) share %x... owner(tool=%v) share %x... secret sha256 %x", dev.sut, dev.share()[:8], own.sut, own.share()[:8], sha256.Sum256(a.ShSe))
	c.Count(class)
}

var seenMu sync.Mutex
var seenShare = map[[32]byte]string{}
var seenSecret = map[[32]byte]string{}

func note(c *kit.Check, suite string, dev, own side, k ref.SessKey) {
	seenMu.Lock()
	defer seenMu.Unlock()
	for _, s := range []side{dev, own} {
		if s.sut {
			h := sha256.Sum256(s.share())
			// one exchange may be used in several sessions of this check; identity is the struct
			id := fmt.Sprintf("%p", s.s)
			if o, ok := seenShare[h]; ok && o != id {
				c.Violation("share-repeats-"+suite, "two generated exchanges have the same share %x", s.share())
			}
			seenShare[h] = id
			keep = append(keep, s.s)
			if suite[0] == 'E' { // neither the key nor the random may come again
				if f := fields(s.share()); len(f) == 3 {
					for _, part := range [][]byte{f[0], f[2]} {
						h := sha256.Sum256(part)
						if o, ok := seenShare[h]; ok && o != id {
							c.Violation("share-part-repeats-"+suite, "two generated exchanges have the same part %x", part)
						}
						seenShare[h] = id
					}
				}
			}
		}
	}
	id := fmt.Sprintf("%x|%x", sha256.Sum256(dev.share()), sha256.Sum256(own.share()))
	h := sha256.Sum256(append(append([]byte{}, k.ShSe...), append([]byte{0xff}, k.Ctx...)...))
	if o, ok := seenSecret[h]; ok && o != id {
		c.Violation("secret-repeats-"+suite, "two sessions share a secret")
	}
	seenSecret[h] = id
}

var keep []*fdoshared.KeXParams

func fields(share []byte) (f [][]byte) {
	for len(share) >= 2 {
		l := int(binary.BigEndian.Uint16(share))
		if len(share) < 2+l {
			return nil
		}
		f = append(f, share[2:2+l])
		share = share[2+l:]
	}
	return
}

// shape of a generated share
func shape(c *kit.Check, suite string, device bool, s []byte) {
	switch suite {
	case "ECDH256", "ECDH384":
		n, r := 32, 16
		var cv ecdh.Curve = ecdh.P256()
		if suite == "ECDH384" {
			n, r, cv = 48, 48, ecdh.P384()
		}
		f := fields(s)
		ok := len(f) == 3 && len(f[0]) == n && len(f[1]) == n && len(f[2]) == r && len(s) == 6+2*n+r
		if c.Must(ok, "share-shape-"+suite, "%s share %x: x,y,random lengths are not %d,%d,%d", suite, s, n, n, r) {
			pt := append([]byte{4}, append(append([]byte{}, f[0]...), f[1]...)...)
			_, err := cv.NewPublicKey(pt)
			c.Must(err == nil, "share-off-curve-"+suite, "%s share %x: %v", suite, s, err)
		}
	case "DHKEXid14", "DHKEXid15":
		p := ref.P14
		if suite == "DHKEXid15" {
			p = ref.P15
		}
		y := new(big.Int).SetBytes(s)
		c.Must(len(s) <= (p.BitLen()+7)/8 && y.Cmp(big.NewInt(1)) > 0 && y.Cmp(new(big.Int).Sub(p, big.NewInt(1))) < 0, "share-range-"+suite, "%s share %x", suite, s)
		c.Must(y.BitLen() > 1024, "share-small-"+suite, "%s share has only %d bits", suite, y.BitLen())
		// 2 generates the subgroup of quadratic residues of these safe primes
		c.Must(big.Jacobi(y, p) == 1, "share-group-"+suite, "%s share is not in the group generated by 2", suite)
	default:
		want := map[bool]map[string]int{false: {"ASYMKEX2048": 32, "ASYMKEX3072": 96}, true: {"ASYMKEX2048": 256, "ASYMKEX3072": 384}}[device][suite]
		c.Must(len(s) == want, "share-shape-"+suite, "%s device=%v share is %d bytes, want %d", suite, device, len(s), want)
		if device {
			k := rsaKeys[suite].Priv.(*rsa.PrivateKey)
			d, err := rsa.DecryptOAEP(sha256.New(), nil, k, s, nil)
			n := 32
			if suite == "ASYMKEX3072" {
				n = 96
			}
			c.Must(err == nil && len(d) == n, "share-shape-"+suite, "%s device share decrypts to %d bytes, err %v", suite, len(d), err)
		}
	}
}

func main() {
	kit.Main("P02", func(c *kit.Check) {
		c.Rule = "one evaluation = one real key agreement or one real derivation from a bad share, judged; distinct = (class, suite, which ends are the tool's)"
		c.Assume = []string{"Go crypto/ecdh, crypto/rsa and math/big are correct"}
		rsaKeys = map[string]ref.Key{"ASYMKEX2048": ref.GenKey(-257), "ASYMKEX3072": ref.GenKey(-258)}
		c.Must(fdoshared.KEX_ECDH256 == "ECDH256" && fdoshared.KEX_ECDH384 == "ECDH384" && fdoshared.KEX_DHKEXid14 == "DHKEXid14" && fdoshared.KEX_DHKEXid15 == "DHKEXid15" && fdoshared.KEX_ASYMKEX2048 == "ASYMKEX2048" && fdoshared.KEX_ASYMKEX3072 == "ASYMKEX3072", "suite-name", "a suite name differs from the specification")
		kdf(c)
		n := c.N(30, 400)
		type job struct {
			suite string
			i     int
		}
		var jobs []job
		for _, s := range ref.KexSuites {
			m := n
			if s[0] == 'E' {
				m = n * 12
			}
			for i := 0; i < m; i++ {
				jobs = append(jobs, job{s, i})
			}
		}
		c.Parallel(len(jobs), func(k int) {
			s := jobs[k].suite
			for _, w := range [][2]bool{{true, true}, {true, false}, {false, true}} {
				d, ok := mk(c, w[0], s, true)
				if !ok {
					return
				}
				o, ok := mk(c, w[1], s, false)
				if !ok {
					return
				}
				if w[0] {
					shape(c, s, true, d.share())
				}
				if w[1] {
					shape(c, s, false, o.share())
				}
				agree(c, "random", s, d, o)
			}
		})
		zeros(c)
		bad(c)
		entropy(c)
		c.Require("random", 100)
		c.Require("peer coordinate with leading zero", 8)
		c.Require("secret with leading zero", 8)
		c.Require("own coordinate with leading zero", 8)
		c.Require("bad share refused", 200)
		c.Require("kdf compared", 200)
	})
}

func kdf(c *kit.Check) {
	r := c.Rand("kdf")
	for i := 0; i < c.N(600, 20000); i++ {
		n := 1 + r.IntN(200)
		if i < 200 {
			n = i + 1
		}
		h := ref.HMAC256
		if r.IntN(2) == 0 {
			h = ref.HMAC384
		}
		key, ctx := kit.Bytes(r, r.IntN(500)), kit.Bytes(r, r.IntN(100))
		var out []byte
		var err error
		p := kit.Try(func() { out, err = fdoshared.Sp800108CounterKDF(n, fdoshared.HashType(h), key, ctx) })
		want := ref.KDF(n, h, key, ctx)
		c.Must(p == "" && err == nil && bytes.Equal(out, want), "kdf-value", "n=%d hmac=%d keylen=%d ctxlen=%d: got %x want %x err=%v %s", n, h, len(key), len(ctx), out, want, err, p)
		c.Eval(fmt.Sprintf("kdf/%d/%d", h, n/16))
		c.Count("kdf compared")
		// the same secret in another context, the same context with another secret, the other HMAC, another length
		ctx2, key2, h2, n2 := ctx, key, h, n
		switch i % 4 {
		case 0:
			ctx2 = kit.Bytes(r, len(ctx)+r.IntN(2))
		case 1:
			key2 = kit.Bytes(r, len(key)+r.IntN(2))
		case 2:
			h2 = ref.HMAC256 + ref.HMAC384 - h
		default:
			n2 = 1 + r.IntN(200)
		}
		p = kit.Try(func() { out, err = fdoshared.Sp800108CounterKDF(n2, fdoshared.HashType(h2), key2, ctx2) })
		want = ref.KDF(n2, h2, key2, ctx2)
		c.Must(p == "" && err == nil && bytes.Equal(out, want), "kdf-value-after", "n=%d hmac=%d keylen=%d ctxlen=%d after a similar one: got %x want %x err=%v %s", n2, h2, len(key2), len(ctx2), out, want, err, p)
		c.Eval("")
	}
	for _, h := range []int{0, 1, -16, -43, 7, 99} {
		var err error
		p := kit.Try(func() { _, err = fdoshared.Sp800108CounterKDF(16, fdoshared.HashType(h), []byte("k"), nil) })
		c.Must(p == "" && err != nil, "kdf-unknown-hmac", "hmac %d: err=%v %s", h, err, p)
	}
}

func zeros(c *kit.Check) {
	per := c.N(3, 30)
	type job struct {
		suite string
		kind  int
		dev   bool
	}
	var jobs []job
	for _, s := range []string{"ECDH256", "ECDH384"} {
		for i := 0; i < per; i++ {
			for kind := 0; kind < 6; kind++ {
				jobs = append(jobs, job{s, kind, i%2 == 0})
			}
		}
	}
	c.Parallel(len(jobs), func(k int) {
		j := jobs[k]
		s := j.suite
		n := 32
		if s == "ECDH384" {
			n = 48
		}
		run := func(class string, sut, other side) {
			if j.dev {
				agree(c, class, s, sut, other)
			} else {
				agree(c, class, s, other, sut)
			}
		}
		mine, ok := mk(c, true, s, j.dev)
		if !ok {
			return
		}
		switch j.kind {
		case 0, 1: // peer X / Y
			i := j.kind
			p := ref.LeadingZeroScalar(s, func(x, y []byte) bool { return [][]byte{x, y}[i][0] == 0 })
			run("peer coordinate with leading zero", mine, side{r: p})
		case 2, 3: // shared secret
			for t := 0; t < 100000; t++ {
				p, _ := ref.NewKex(s, !j.dev, nil)
				sec, err := p.Derive(mine.share(), !j.dev, nil)
				if err != nil {
					c.Violation("share-unusable-"+s, "an independent peer cannot use the generated share %x: %v", mine.share(), err)
					return
				}
				if sec.ShSe[0] == 0 {
					run("secret with leading zero", mine, side{r: p})
					return
				}
			}
		case 4, 5: // own X / Y
			for t := 0; t < 20000; t++ {
				m, err, p := gen(s, nil)
				if err != nil || p != "" {
					c.Violation("generate-fails-"+s, "%v %s", err, p)
					return
				}
				// a short share, a short field or a zero byte: the coordinate has a leading zero
				f := fields(m.XAKeyExchange)
				if len(f) == 3 && len(f[j.kind-4]) == n && f[j.kind-4][0] != 0 {
					continue
				}
				me := side{sut: true, s: m}
				shape(c, s, j.dev, m.XAKeyExchange)
				o, _ := mk(c, t%2 == 0, s, !j.dev)
				run("own coordinate with leading zero", me, o)
				return
			}
			c.Broken("no leading zero coordinate in 20000 exchanges")
		}
	})
	// finite field: shares 2^k with k below the group size are tiny numbers
	for _, s := range []string{"DHKEXid14", "DHKEXid15"} {
		p := ref.P14
		if s == "DHKEXid15" {
			p = ref.P15
		}
		size := (p.BitLen() + 7) / 8
		c.Parallel(c.N(24, 200), func(i int) {
			dev := i%2 == 0
			mine, ok := mk(c, true, s, dev)
			if !ok {
				return
			}
			y := new(big.Int).SetBytes(mine.share())
			check := func(class string, x *big.Int, stripped bool) {
				sh := new(big.Int).Exp(big.NewInt(2), x, p)
				share := sh.FillBytes(make([]byte, size))
				if stripped {
					share = sh.Bytes()
				}
				want := new(big.Int).Exp(y, x, p).FillBytes(make([]byte, size))
				got, err, pn := mine.derive(s, share, dev)
				c.Must(err == nil && pn == "" && bytes.Equal(got.ShSe, want) && len(got.Ctx) == 0, "secret-differs-"+s, "%s: share %x: got %x want %x err=%v %s", class, share, got.ShSe, want, err, pn)
				c.Eval(class + "/" + s)
				c.Count(class)
			}
			check("peer share with leading zeros", big.NewInt(int64(1+i*37)), i%3 == 0)
			for t := 0; t < 5000; t++ {
				x, _ := crand.Int(crand.Reader, new(big.Int).Lsh(big.NewInt(1), 40))
				x.Add(x, big.NewInt(2))
				if new(big.Int).Exp(y, x, p).BitLen() <= (size-1)*8 {
					check("secret with leading zero", x, false)
					return
				}
			}
		})
	}
}

func bad(c *kit.Check) {
	refuse := func(class, suite string, k fdoshared.KeXParams, share []byte, device bool, priv any) {
		s, err, p := derive(k, share, device, priv)
		c.Must(p == "", "bad-share-crash-"+suite, "%s %s device=%v share(%d)=%x: %s", class, suite, device, len(share), share, p)
		c.Must(p != "" || err != nil, "bad-share-accepted-"+suite, "%s %s device=%v share(%d)=%x gives keys %v", class, suite, device, len(share), share, s)
		c.Eval("bad/" + class + "/" + suite)
		c.Count("bad share refused")
	}
	for _, suite := range ref.KexSuites {
		r := c.Rand("bad" + suite)
		for _, device := range []bool{true, false} {
			me, ok := mk(c, true, suite, device)
			if !ok {
				continue
			}
			peer, _ := mk(c, false, suite, !device)
			var priv any
			if isAsym(suite) {
				priv = rsaKeys[suite].Priv
			}
			good := peer.share()
			refuse("nil", suite, *me.s, nil, device, priv)
			refuse("empty", suite, *me.s, []byte{}, device, priv)
			switch suite {
			case "ECDH256", "ECDH384":
				n, rl := 32, 16
				if suite == "ECDH384" {
					n, rl = 48, 48
				}
				for l := 0; l < len(good); l++ {
					refuse("truncated", suite, *me.s, good[:l], device, priv)
				}
				for i := 1; i < 40; i++ {
					refuse("extended", suite, *me.s, append(append([]byte{}, good...), kit.Bytes(r, i)...), device, priv)
				}
				for i := 0; i < c.N(150, 3000); i++ {
					b := append([]byte{}, good...)
					pos := r.IntN(2 * n)
					if pos >= n {
						pos = pos - n + 4 + n
					} else {
						pos += 2
					}
					b[pos] ^= byte(1 << r.IntN(8))
					refuse("off curve", suite, *me.s, b, device, priv)
				}
				f := fields(good)
				zero, max := make([]byte, n), bytes.Repeat([]byte{0xff}, n)
				j := func(x, y, z []byte) []byte {
					var b []byte
					for _, v := range [][]byte{x, y, z} {
						b = append(append(b, byte(len(v)>>8), byte(len(v))), v...)
					}
					return b
				}
				refuse("zero point", suite, *me.s, j(zero, zero, f[2]), device, priv)
				refuse("x only", suite, *me.s, j(f[0], zero, f[2]), device, priv)
				refuse("above p", suite, *me.s, j(max, max, f[2]), device, priv)
				refuse("swapped", suite, *me.s, j(f[1], f[0], f[2]), device, priv)
				refuse("no random", suite, *me.s, j(f[0], f[1], nil), device, priv)
				refuse("short random", suite, *me.s, j(f[0], f[1], f[2][:rl-1]), device, priv)
				refuse("long random", suite, *me.s, j(f[0], f[1], append(append([]byte{}, f[2]...), 1)), device, priv)
				for _, d := range []int{-1, 1, 256, -16} { // same total length, shifted prefixes
					for _, at := range []int{0, 2 + n, 4 + 2*n} {
						b := append([]byte{}, good...)
						binary.BigEndian.PutUint16(b[at:], uint16(int(binary.BigEndian.Uint16(b[at:]))+d))
						refuse("length prefix", suite, *me.s, b, device, priv)
					}
				}
				for _, o := range ref.KexSuites {
					if o != suite {
						op, _ := mk(c, false, o, !device)
						refuse("other suite", suite, *me.s, op.share(), device, priv)
					}
				}
			case "DHKEXid14", "DHKEXid15":
				p := ref.P14
				if suite == "DHKEXid15" {
					p = ref.P15
				}
				for _, v := range []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(p, big.NewInt(1)), p, new(big.Int).Add(p, big.NewInt(1)), new(big.Int).Add(p, big.NewInt(2)), new(big.Int).Lsh(p, 1), new(big.Int).Lsh(p, 64), new(big.Int).Mul(p, p)} {
					refuse("range", suite, *me.s, v.Bytes(), device, priv)
					refuse("range padded", suite, *me.s, append(make([]byte, 5), v.Bytes()...), device, priv)
				}
				for i := 0; i < 20; i++ {
					refuse("too long", suite, *me.s, append(append([]byte{}, kit.Bytes(r, 1+i)...), append([]byte{1}, kit.Bytes(r, (p.BitLen()+7)/8)...)...), device, priv)
				}
			default:
				if device {
					for _, l := range []int{1, 8, 31, 33, 95, 97, 256, 384, len(good) - 1, len(good) + 1} {
						if l != len(good) {
							refuse("random length", suite, *me.s, kit.Bytes(r, l), true, nil)
						}
					}
				} else {
					for l := 1; l < len(good); l += 13 {
						refuse("truncated", suite, *me.s, good[:l], false, priv)
					}
					for i := 0; i < c.N(40, 400); i++ {
						b := append([]byte{}, good...)
						b[r.IntN(len(b))] ^= byte(1 << r.IntN(8))
						refuse("undecryptable", suite, *me.s, b, false, priv)
					}
					pub := rsaKeys[suite].Priv.Public().(*rsa.PublicKey)
					for _, l := range []int{0, 1, 31, 33, 64, 95, 97} {
						ct, err := rsa.EncryptOAEP(sha256.New(), crand.Reader, pub, kit.Bytes(r, l), nil)
						if err == nil {
							refuse("random length", suite, *me.s, ct, false, priv)
						}
					}
					v15, _ := rsa.EncryptPKCS1v15(crand.Reader, pub, kit.Bytes(r, 32))
					refuse("pkcs1 v1.5", suite, *me.s, v15, false, priv)
					lab, _ := rsa.EncryptOAEP(sha256.New(), crand.Reader, pub, kit.Bytes(r, len(good)/8), []byte("label"))
					refuse("wrong label", suite, *me.s, lab, false, priv)
					for _, sg := range []int{-7, -35} {
						refuse("ec owner key", suite, *me.s, good, false, ref.GenKeyCached(sg).Priv)
					}
					refuse("no owner key", suite, *me.s, good, false, nil)
					refuse("other rsa key", suite, *me.s, good, false, ref.GenKeyCached(-257).Priv)
				}
			}
		}
		if isAsym(suite) {
			for _, sg := range []int{-7, -35} {
				_, err, p := gen(suite, sutPub(ref.GenKeyCached(sg)))
				c.Must(p == "", "bad-key-crash-"+suite, "wrapping for an EC owner key: %s", p)
				c.Must(p != "" || err != nil, "bad-key-accepted-"+suite, "wrapping for an EC owner key gives no error")
			}
			for _, b := range []any{[]byte{}, []byte{1, 2, 3}, "text", 5, nil} {
				_, err, p := gen(suite, &fdoshared.FdoPublicKey{PkType: 1, PkEnc: 1, PkBody: b})
				c.Must(p == "" && err != nil, "bad-key-crash-"+suite, "wrapping for key body %v: err=%v %s", b, err, p)
			}
		}
	}
	for _, s := range []string{"", "ECDH", "ecdh256", "ECDH521", "DHKEXid16", "ASYMKEX4096", "ECDH256 ", "\x00"} {
		_, err, p := gen(s, nil)
		c.Must(p == "" && err != nil, "unknown-suite", "generate %q: err=%v %s", s, err, p)
		_, err, p = derive(fdoshared.KeXParams{Private: []byte{1}, XAKeyExchange: []byte{1}, KexSuit: fdoshared.KexSuiteName(s)}, []byte{1}, true, nil)
		c.Must(p == "" && err != nil, "unknown-suite", "derive %q: err=%v %s", s, err, p)
	}
}

// entropy: across sessions every byte position of a random part takes many values.
func entropy(c *kit.Check) {
	for _, suite := range ref.KexSuites {
		if suite == "DHKEXid15" && !c.Thorough() {
			continue
		}
		n := 64
		var vals [][]byte
		for i := 0; i < n; i++ {
			s, ok := mk(c, true, suite, false)
			if !ok {
				return
			}
			vals = append(vals, s.share())
		}
		pos := map[int]map[byte]bool{}
		for _, v := range vals {
			for i, b := range v {
				if pos[i] == nil {
					pos[i] = map[byte]bool{}
				}
				pos[i][b] = true
			}
		}
		stuck := 0
		for i := range pos {
			if len(pos[i]) < 8 {
				stuck++
			}
		}
		allowed := 0
		if suite[0] == 'E' {
			allowed = 6 // the length prefixes
		}
		c.Must(stuck <= allowed, "share-not-random-"+suite, "%s: %d byte positions are (almost) constant over %d exchanges", suite, stuck, n)
		c.Eval("entropy/" + suite)
	}
}
