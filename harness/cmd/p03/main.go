// P03: signatures verify exactly for the signing key and the signed bytes.
package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	mrand "math/rand/v2"
	"time"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
)

var sgs = []int{ref.SgES256, ref.SgES384, ref.SgRS2048, ref.SgRS3072}
var keys = map[int][]ref.Key{}

func pub(p ref.PubKey) fdoshared.FdoPublicKey {
	var out fdoshared.FdoPublicKey
	if err := fdoshared.CborCust.Unmarshal(ref.Enc(p), &out); err != nil {
		panic(err)
	}
	return out
}

// wire decodes an independent signature the way a message carrying it is decoded.
func wire(s ref.Cose) (out fdoshared.CoseSignature, err error) {
	err = fdoshared.CborCust.Unmarshal(s.Tagged(), &out)
	return
}

func verify(s fdoshared.CoseSignature, k fdoshared.FdoPublicKey) (err error, p string) {
	p = kit.Try(func() { err = fdoshared.VerifyCoseSignature(s, k) })
	return
}

func main() {
	kit.Main("P03", func(c *kit.Check) {
		c.Rule = "one evaluation = one real sign or verify call judged; distinct = (class, key type, detail)"
		c.Assume = []string{"Go crypto/ecdsa, rsa and x509 are correct"}
		for _, sg := range sgs {
			for i := 0; i < 3; i++ {
				keys[sg] = append(keys[sg], ref.GenKey(sg))
			}
		}
		sign(c)
		rare(c)
		accept(c)
		reject(c)
		wrongKeys(c)
		certs(c)
		equal(c)
		c.Require("tool signature verified independently", 500)
		c.Require("tool signature with leading-zero coefficient", 2)
		c.Require("independent signature with leading-zero coefficient accepted", 6)
		c.Require("altered signature refused", 1000)
		c.Require("certificate chain refused", 10)
	})
}

func payload(r *mrand.Rand, i int) []byte {
	switch i % 5 {
	case 0:
		return kit.Bytes(r, 1+r.IntN(40))
	case 1:
		return kit.Bytes(r, r.IntN(3000))
	case 2:
		return []byte{}
	case 3:
		return ref.Enc(map[int]any{10: kit.Bytes(r, 16), 256: kit.Bytes(r, 17)})
	default:
		return kit.Bytes(r, []int{23, 24, 255, 256, 65535, 65536}[r.IntN(6)])
	}
}

func coefZero(sg int, sig []byte) bool {
	if sg != ref.SgES256 && sg != ref.SgES384 {
		return false
	}
	return sig[0] == 0 || sig[len(sig)/2] == 0
}

// sign: what the tool signs verifies independently and with itself.
func sign(c *kit.Check) {
	for _, sg := range sgs {
		n := c.N(800, 20000)
		if sg == ref.SgRS2048 || sg == ref.SgRS3072 {
			n = c.N(60, 600)
		}
		c.Parallel(n, func(i int) {
			r := c.Rand(fmt.Sprint("sign", sg, i))
			k := keys[sg][i%3]
			pl := payload(r, i)
			keep := append([]byte{}, pl...)
			var prot fdoshared.ProtectedHeader
			var un fdoshared.UnprotectedHeader
			kid := kit.Bytes(r, 5)
			if i%3 == 1 {
				prot.Kid = &kid
			}
			nonce := fdoshared.FdoNonce(kit.Bytes(r, 16))
			if i%4 == 1 {
				un.EUPHNonce = &nonce
			}
			if i%4 == 2 {
				pk := pub(k.Pub())
				un.CUPHOwnerPubKey = &pk
				un.CUPHNonce = &nonce
			}
			var s *fdoshared.CoseSignature
			var err error
			p := kit.Try(func() {
				s, err = fdoshared.GenerateCoseSignature(pl, prot, un, k.Priv, fdoshared.SgType(sg))
			})
			if !c.Must(p == "" && err == nil && s != nil, "sign-fails-"+ref.SgName(sg), "signing %d bytes: err=%v %s", len(pl), err, p) {
				return
			}
			c.Must(bytes.Equal(pl, keep) && bytes.Equal(s.Payload, keep), "payload-changed", "the signed structure does not carry the payload")
			b, err := fdoshared.CborCust.Marshal(s)
			if !c.Must(err == nil, "sign-fails-"+ref.SgName(sg), "marshal: %v", err) {
				return
			}
			d, err := ref.DecCose(b)
			if !c.Must(err == nil, "signature-shape", "an independent reader rejects the COSE_Sign1 %x: %v", b, err) {
				return
			}
			c.Must(d.Verify(k.Pub()) == nil, "independent-verify-"+ref.SgName(sg), "independent verifier refuses the tool's signature over %d bytes: %v (sig %x)", len(pl), d.Verify(k.Pub()), d.Sig)
			var ph map[int]any
			ok := ref.Dec(d.Prot, &ph) == nil && fmt.Sprint(ph[1]) == fmt.Sprint(sg)
			c.Must(ok, "protected-alg-"+ref.SgName(sg), "protected header %x does not name algorithm %d", d.Prot, sg)
			if prot.Kid != nil {
				c.Must(ok && bytes.Equal(asBytes(ph[4]), kid), "protected-kid", "kid lost: %x", d.Prot)
			}
			var back fdoshared.CoseSignature
			err = fdoshared.CborCust.Unmarshal(b, &back)
			c.Must(err == nil, "round-trip", "%v", err)
			err, p = verify(back, pub(k.Pub()))
			c.Must(err == nil && p == "", "self-verify-"+ref.SgName(sg), "the tool refuses its own signature: %v %s (sig %x)", err, p, d.Sig)
			if coefZero(sg, d.Sig) {
				c.Count("tool signature with leading-zero coefficient")
			}
			c.Eval("sign/" + ref.SgName(sg) + fmt.Sprint(i%5, i%3, i%4))
			c.Count("tool signature verified independently")
			c.Sample("sign "+ref.SgName(sg), "payload %d bytes, signature %x...", len(pl), d.Sig[:8])
		})
		// a key of another kind must not sign
		for _, o := range sgs {
			if (o == ref.SgRS2048 || o == ref.SgRS3072) && (sg == ref.SgRS2048 || sg == ref.SgRS3072) || o == sg {
				continue
			}
			var err error
			p := kit.Try(func() {
				_, err = fdoshared.GenerateCoseSignature([]byte("x"), fdoshared.ProtectedHeader{}, fdoshared.UnprotectedHeader{}, keys[o][0].Priv, fdoshared.SgType(sg))
			})
			c.Must(p == "" && err != nil, "sign-wrong-key", "signing as %s with a %s key: err=%v %s", ref.SgName(sg), ref.SgName(o), err, p)
			c.Eval("sign-wrong/" + ref.SgName(sg) + ref.SgName(o))
		}
	}
	for _, sg := range []int{0, 1, -8, -36, -37, -259, 90, 91, 999} {
		for _, pk := range []any{keys[-7][0].Priv, keys[-257][0].Priv, nil, "x"} {
			var err error
			p := kit.Try(func() {
				_, err = fdoshared.GenerateCoseSignature([]byte("x"), fdoshared.ProtectedHeader{}, fdoshared.UnprotectedHeader{}, pk, fdoshared.SgType(sg))
			})
			c.Must(p == "" && err != nil, "sign-unknown-alg", "signing as %d: err=%v %s", sg, err, p)
		}
	}
}

// rare: so many signatures that some have coefficients with two leading zero bytes.
func rare(c *kit.Check) {
	for _, sg := range []int{ref.SgES256, ref.SgES384} {
		const batch = 500
		size := map[int]int{ref.SgES256: 64, ref.SgES384: 96}[sg]
		k := keys[sg][0]
		pk := pub(k.Pub())
		c.Parallel(map[int]int{ref.SgES256: c.N(800, 8000), ref.SgES384: c.N(140, 2000)}[sg], func(i int) {
			r := c.Rand(fmt.Sprint("rare", sg, i))
			for n := 0; n < batch; n++ {
				pl := kit.Bytes(r, 16)
				var s *fdoshared.CoseSignature
				var err error
				p := kit.Try(func() {
					s, err = fdoshared.GenerateCoseSignature(pl, fdoshared.ProtectedHeader{}, fdoshared.UnprotectedHeader{}, k.Priv, fdoshared.SgType(sg))
				})
				if !c.Must(p == "" && err == nil && len(s.Signature) == size, "signature-length-"+ref.SgName(sg), "signing: err=%v %s, signature %v", err, p, s) {
					return
				}
				a, b := s.Signature[:size/2], s.Signature[size/2:]
				if a[0]|a[1] != 0 && b[0]|b[1] != 0 {
					continue
				}
				err, p = verify(*s, pk)
				c.Must(err == nil && p == "", "self-verify-"+ref.SgName(sg), "the tool refuses its own signature %x: %v %s", s.Signature, err, p)
				d := ref.Cose{Prot: s.Protected, Payload: s.Payload, Sig: s.Signature}
				err = d.Verify(k.Pub())
				c.Must(err == nil, "independent-verify-"+ref.SgName(sg), "independent verifier refuses the tool's signature %x: %v", s.Signature, err)
				c.Count("tool signature with two leading zero bytes in a coefficient")
				c.Eval(fmt.Sprint("rare", sg))
			}
			c.CountN("tool signatures searched", batch)
		})
	}
}

func asBytes(v any) []byte { b, _ := v.([]byte); return b }

// accept: independent signatures, including leading-zero coefficients.
func accept(c *kit.Check) {
	for _, sg := range sgs {
		want := c.N(3, 40)
		r := c.Rand("accept" + ref.SgName(sg))
		ec := sg == ref.SgES256 || sg == ref.SgES384
		for i, zero := 0, 0; i < c.N(60, 600) || (ec && zero < 2*want); i++ {
			k := keys[sg][i%3]
			pl := payload(r, i)
			s := k.Sign(pl, nil)
			if ec && i >= c.N(60, 600) && !coefZero(sg, s.Sig) {
				continue
			}
			w, err := wire(s)
			if !c.Must(err == nil, "decode", "%v", err) {
				continue
			}
			err, p := verify(w, pub(k.Pub()))
			c.Must(err == nil && p == "", "genuine-refused-"+ref.SgName(sg), "payload %d bytes sig %x: %v %s", len(pl), s.Sig, err, p)
			if coefZero(sg, s.Sig) {
				zero++
				c.Count("independent signature with leading-zero coefficient accepted")
			}
			// protected headers the tool never writes itself are still covered by the signature
			s2 := s
			s2.Prot = ref.Enc(map[int]any{1: sg, 4: []byte("kid"), 99: "x"})
			s2.Sig = k.SignRaw(ref.SigStructure(s2.Prot, pl))
			w, _ = wire(s2)
			err, p = verify(w, pub(k.Pub()))
			c.Must(err == nil && p == "", "genuine-refused-"+ref.SgName(sg), "other protected header: %v %s", err, p)
			c.Eval("accept/" + ref.SgName(sg) + fmt.Sprint(i%5))
		}
	}
}

func reject(c *kit.Check) {
	for _, sg := range sgs {
		c.Parallel(c.N(3, 40), func(round int) {
			r := c.Rand(fmt.Sprint("reject", sg, round))
			k := keys[sg][round%3]
			pl := kit.Bytes(r, 30+r.IntN(100))
			good := k.Sign(pl, nil)
			no := func(class string, s ref.Cose, pk ref.PubKey) {
				w := fdoshared.CoseSignature{Protected: s.Prot, Payload: s.Payload, Signature: s.Sig}
				err, p := verify(w, pub(pk))
				c.Must(p == "", "verify-crash", "%s %s: %s", class, ref.SgName(sg), p)
				c.Must(p != "" || err != nil, "altered-accepted-"+class, "%s %s accepted: prot %x payload %x sig %x", ref.SgName(sg), class, s.Prot, s.Payload, s.Sig)
				c.Eval("reject/" + class + "/" + ref.SgName(sg))
				c.Count("altered signature refused")
			}
			flip := func(b []byte, i int) []byte {
				o := append([]byte{}, b...)
				o[i/8%len(o)] ^= 1 << (i % 8)
				return o
			}
			step := 1
			if len(good.Sig) > 100 {
				step = 5
			}
			for i := 0; i < len(good.Sig)*8; i += step {
				s := good
				s.Sig = flip(good.Sig, i)
				no("signature-bit", s, k.Pub())
			}
			for i := 0; i < len(pl)*8; i += 3 {
				s := good
				s.Payload = flip(pl, i)
				no("payload-bit", s, k.Pub())
			}
			for i := 0; i < len(good.Prot)*8; i++ {
				s := good
				s.Prot = flip(good.Prot, i)
				no("protected-bit", s, k.Pub())
			}
			for _, l := range []int{0, 1, len(good.Sig) / 2, len(good.Sig) - 1, len(good.Sig) - 2} {
				s := good
				s.Sig = good.Sig[:l]
				no("short", s, k.Pub())
			}
			for l := 1; l < 5; l++ {
				s := good
				s.Sig = append(append([]byte{}, good.Sig...), make([]byte, l)...)
				no("long", s, k.Pub())
				s.Sig = append(make([]byte, l), good.Sig...)
				no("long", s, k.Pub())
			}
			s := good
			s.Sig = make([]byte, len(good.Sig))
			no("zero", s, k.Pub())
			s.Sig = nil
			no("none", s, k.Pub())
			s.Sig = bytes.Repeat([]byte{0xff}, len(good.Sig))
			no("ones", s, k.Pub())
			s = good
			s.Payload = append(append([]byte{}, pl...), 0)
			no("payload-longer", s, k.Pub())
			s.Payload = pl[:len(pl)-1]
			no("payload-shorter", s, k.Pub())
			s.Payload = nil
			no("payload-none", s, k.Pub())
			s = good
			s.Prot = nil
			no("protected-none", s, k.Pub())
			s.Prot = ref.Enc(map[int]int{1: sg, 4: 0})
			no("protected-other", s, k.Pub())
			// boundary moved between header and payload
			s = good
			s.Prot, s.Payload = append(append([]byte{}, good.Prot...), pl[0]), pl[1:]
			no("boundary", s, k.Pub())
			no("other-key", good, keys[sg][(round+1)%3].Pub())
			// signature over something that is not the Sig_structure
			s = good
			s.Sig = k.SignRaw(pl)
			no("raw-payload", s, k.Pub())
			s.Sig = k.SignRaw(ref.Enc([]any{"Signature", good.Prot, []byte{}, pl}))
			no("other-context", s, k.Pub())
			s.Sig = k.SignRaw(ref.Enc([]any{"Signature1", good.Prot, []byte{1}, pl}))
			no("external-aad", s, k.Pub())
			s.Sig = k.SignRaw(ref.Enc([]any{"Signature1", []byte{}, []byte{}, pl}))
			no("header-not-covered", s, k.Pub())
			if e, ok := k.Priv.(*ecdsa.PrivateKey); ok {
				h := len(good.Sig) / 2
				s = good
				s.Sig = append(append([]byte{}, good.Sig[h:]...), good.Sig[:h]...)
				no("swapped-coefficients", s, k.Pub())
				n := e.Curve.Params().N
				for _, m := range [][2]*big.Int{{big.NewInt(0), big.NewInt(1)}, {big.NewInt(1), big.NewInt(0)}, {n, n}, {n, big.NewInt(1)}, {big.NewInt(1), n}} {
					s.Sig = append(m[0].FillBytes(make([]byte, h)), m[1].FillBytes(make([]byte, h))...)
					no("degenerate-coefficients", s, k.Pub())
				}
				der, _ := asn1.Marshal(struct{ R, S *big.Int }{new(big.Int).SetBytes(good.Sig[:h]), new(big.Int).SetBytes(good.Sig[h:])})
				s.Sig = der
				no("der-form", s, k.Pub())
				// the other hash
				other := ref.SgES384
				if sg == ref.SgES384 {
					other = ref.SgES256
				}
				kk := ref.Key{Sg: other, Priv: k.Priv}
				s = good
				s.Sig = kk.SignRaw(ref.SigStructure(good.Prot, pl))
				no("other-hash", s, k.Pub())
			} else {
				other := ref.SgRS3072
				if sg == ref.SgRS3072 {
					other = ref.SgRS2048
				}
				kk := ref.Key{Sg: other, Priv: k.Priv}
				s = good
				s.Sig = kk.SignRaw(ref.SigStructure(good.Prot, pl))
				no("other-hash", s, k.Pub())
				rk := k.Priv.(*rsa.PrivateKey)
				d, ch := ref.Digest(sg, ref.SigStructure(good.Prot, pl))
				pss, _ := rsa.SignPSS(rand.Reader, rk, ch, d, nil)
				s.Sig = pss
				no("pss", s, k.Pub())
			}
			// declared kind differs from the key
			for _, t := range []int{0, 1, 2, 5, 6, 9, 10, 11, 12, 255} {
				pk := k.Pub()
				if t == pk.Type || t == ref.PkRSAPKCS && sg == ref.SgRS2048 {
					continue
				}
				pk.Type = t
				no(fmt.Sprintf("declared-type-%d", t), good, pk)
			}
			for _, e := range []int{0, 2, 3, 4, 200} {
				pk := k.Pub()
				pk.Enc = e
				no(fmt.Sprintf("declared-encoding-%d", e), good, pk)
			}
			for _, b := range []any{nil, "text", 7, []any{}, map[int]any{1: 2}, []byte{}, []byte{0x30, 0}, k.Pub().Body.([]byte)[:40]} {
				pk := k.Pub()
				pk.Body = b
				no("key-body", good, pk)
				pk.Enc = 2
				no("key-body-x5chain", good, pk)
				pk.Enc = 3
				no("key-body-cose", good, pk)
			}
		})
	}
}

// wrongKeys: a valid signature by a key of another curve or size than the declared type.
func wrongKeys(c *kit.Check) {
	p224, _ := ecdsa.GenerateKey(elliptic.P224(), rand.Reader)
	p521, _ := ecdsa.GenerateKey(elliptic.P521(), rand.Reader)
	r1024, _ := rsa.GenerateKey(rand.Reader, 1024)
	r4096, _ := rsa.GenerateKey(rand.Reader, 4096)
	edp, _, _ := ed25519.GenerateKey(rand.Reader)
	type kk struct {
		name string
		pub  any
		key  *ref.Key
		ec   *ecdsa.PrivateKey
	}
	var list []kk
	for _, sg := range sgs {
		k := keys[sg][0]
		list = append(list, kk{ref.SgName(sg), k.Priv.Public(), &k, nil})
	}
	list = append(list, kk{"P-224", p224.Public(), nil, p224}, kk{"P-521", p521.Public(), nil, p521}, kk{"RSA1024", r1024.Public(), &ref.Key{Sg: ref.SgRS2048, Priv: r1024}, nil}, kk{"RSA4096", r4096.Public(), &ref.Key{Sg: ref.SgRS3072, Priv: r4096}, nil}, kk{"ed25519", edp, nil, nil})
	for _, l := range list {
		spki, err := x509.MarshalPKIXPublicKey(l.pub)
		if err != nil {
			panic(err)
		}
		for _, typ := range []int{1, 5, 6, 10, 11} {
			for _, hsg := range sgs {
				prot := ref.Enc(map[int]int{1: hsg})
				pl := []byte("declared kind")
				data := ref.SigStructure(prot, pl)
				d, ch := ref.Digest(hsg, data)
				var sigs [][]byte
				switch k := l.pub.(type) {
				case *ecdsa.PublicKey:
					ek := l.ec
					if ek == nil {
						ek = l.key.Priv.(*ecdsa.PrivateKey)
					}
					rr, ss, _ := ecdsa.Sign(rand.Reader, ek, d)
					for _, n := range []int{32, 48, 66} {
						if rr.BitLen() <= 8*n && ss.BitLen() <= 8*n {
							sigs = append(sigs, append(rr.FillBytes(make([]byte, n)), ss.FillBytes(make([]byte, n))...))
						}
					}
				case *rsa.PublicKey:
					_ = k
					s, err := rsa.SignPKCS1v15(rand.Reader, l.key.Priv.(*rsa.PrivateKey), ch, d)
					if err == nil {
						sigs = append(sigs, s)
					}
				default:
					sigs = append(sigs, make([]byte, 64), make([]byte, 96))
				}
				for _, s := range sigs {
					pk := ref.PubKey{Type: typ, Enc: 1, Body: spki}
					err, p := verify(fdoshared.CoseSignature{Protected: prot, Payload: pl, Signature: s}, pub(pk))
					want := ref.Cose{Prot: prot, Payload: pl, Sig: s}.Verify(pk) == nil
					c.Must(p == "", "verify-crash", "key %s declared %d: %s", l.name, typ, p)
					c.Must((err == nil) == want, "declared-kind", "key %s declared as type %d, signature of %d bytes hashed for %s: accepted=%v, should be %v", l.name, typ, len(s), ref.SgName(hsg), err == nil, want)
					c.Eval(fmt.Sprintf("kind/%s/%d/%d/%d", l.name, typ, hsg, len(s)))
				}
			}
		}
	}
	// COSE keys held in memory
	for _, sg := range sgs {
		k := keys[sg][0]
		s := k.Sign([]byte("cose key"), nil)
		var body fdoshared.CosePublicKey
		switch p := k.Priv.Public().(type) {
		case *ecdsa.PublicKey:
			n := (p.Curve.Params().BitSize + 7) / 8
			crv := fdoshared.CA_P256
			if sg == ref.SgES384 {
				crv = fdoshared.CA_P384
			}
			body = fdoshared.CosePublicKey{Kty: fdoshared.CoseEC2, Alg: fdoshared.CoseAlg(sg), CrvOrN: crv, XorE: p.X.FillBytes(make([]byte, n)), Y: p.Y.FillBytes(make([]byte, n))}
		case *rsa.PublicKey:
			body = fdoshared.CosePublicKey{Kty: fdoshared.CoseRSA, Alg: fdoshared.CoseAlg(sg), CrvOrN: p.N.Bytes(), XorE: []byte{1, 0, 1}}
		}
		w := fdoshared.CoseSignature{Protected: s.Prot, Payload: s.Payload, Signature: s.Sig}
		fk := fdoshared.FdoPublicKey{PkType: fdoshared.FdoPkType(ref.PkTypeOf(sg)), PkEnc: fdoshared.COSEKEY, PkBody: body}
		err, p := verify(w, fk)
		c.Must(p == "" && (err == nil || sg == ref.SgRS3072), "cose-key", "COSE key %s: %v %s", ref.SgName(sg), err, p)
		w.Payload = []byte("cose kez")
		err, p = verify(w, fk)
		c.Must(p == "" && err != nil, "cose-key", "COSE key %s accepts an altered payload %s", ref.SgName(sg), p)
		for _, crv := range []any{nil, 1, int64(2), "P-256", []byte{1}, fdoshared.CoseAlg(77), uint64(1)} {
			for _, kty := range []fdoshared.CoseConsts{0, 1, 2, 3, 4} {
				b := body
				b.CrvOrN, b.Kty = crv, kty
				fk.PkBody = b
				err, p := verify(w, fk)
				c.Must(p == "" && err != nil, "cose-key-malformed", "kty %d crv %T: err=%v %s", kty, crv, err, p)
				c.Eval(fmt.Sprintf("cosekey/%d/%T", kty, crv))
			}
		}
	}
}

type certSpec struct {
	parent   int // index of the signing key; -1 self
	ca       bool
	from, to time.Duration
}

func certs(c *kit.Check) {
	now := time.Now()
	sn := int64(1)
	mk := func(k, parentKey ref.Key, subject, issuer string, ca bool, nb, na time.Duration) []byte {
		sn++
		t := &x509.Certificate{SerialNumber: big.NewInt(sn), Subject: pkix.Name{CommonName: subject}, NotBefore: now.Add(nb), NotAfter: now.Add(na), IsCA: ca, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature}
		if ca {
			t.KeyUsage |= x509.KeyUsageCertSign
		}
		p := &x509.Certificate{Subject: pkix.Name{CommonName: issuer}}
		b, err := x509.CreateCertificate(rand.Reader, t, p, k.Priv.Public(), parentKey.Priv)
		if err != nil {
			panic(err)
		}
		return b
	}
	d := time.Hour * 24
	for _, sg := range []int{ref.SgES256, ref.SgES384} {
		leaf, root, inter, evil := keys[sg][0], keys[sg][1], keys[sg][2], ref.GenKey(sg)
		rootC := mk(root, root, "root", "root", true, -d, 365*d)
		interC := mk(inter, root, "inter", "root", true, -d, 365*d)
		evilC := mk(evil, evil, "root", "root", true, -d, 365*d)
		s := leaf.Sign([]byte("attested"), nil)
		w := fdoshared.CoseSignature{Protected: s.Prot, Payload: s.Payload, Signature: s.Sig}
		try := func(name string, want bool, w fdoshared.CoseSignature, typ int, chain ...[]byte) {
			var cc []fdoshared.X509CertificateBytes
			for _, x := range chain {
				cc = append(cc, x)
			}
			var err error
			p := kit.Try(func() { err = fdoshared.VerifyCoseSignatureWithCertificate(w, fdoshared.FdoPkType(typ), cc) })
			c.Must(p == "", "verify-crash", "chain %s: %s", name, p)
			c.Must(p != "" || (err == nil) == want, "certificate-chain", "chain %q: accepted=%v, should be %v (%v)", name, err == nil, want, err)
			if !want {
				c.Count("certificate chain refused")
			}
			c.Eval("chain/" + name + ref.SgName(sg))
		}
		pt := ref.PkTypeOf(sg)
		l1 := mk(leaf, root, "dev", "root", false, -d, 365*d)
		l2 := mk(leaf, inter, "dev", "inter", false, -d, 365*d)
		try("leaf+root", true, w, pt, l1, rootC)
		try("leaf+inter+root", true, w, pt, l2, interC, rootC)
		bad := w
		bad.Payload = []byte("attesteD")
		try("altered payload", false, bad, pt, l1, rootC)
		try("other device type", false, w, 21-pt, l1, rootC)
		try("empty", false, w, pt)
		try("leaf alone", false, w, pt, l1)
		try("root alone", false, w, pt, rootC)
		try("leaf+leaf", false, w, pt, l1, l1)
		try("missing intermediate", false, w, pt, l2, rootC)
		try("forged root of the same name", false, w, pt, l1, evilC)
		try("forged leaf", false, w, pt, mk(leaf, evil, "dev", "root", false, -d, 365*d), rootC)
		try("expired leaf", false, w, pt, mk(leaf, root, "dev", "root", false, -10*d, -2*d), rootC)
		try("future leaf", false, w, pt, mk(leaf, root, "dev", "root", false, 2*d, 20*d), rootC)
		try("expired root", false, w, pt, l1, mk(root, root, "root", "root", true, -10*d, -2*d))
		try("root not CA", false, w, pt, l1, mk(root, root, "root", "root", false, -d, 365*d))
		try("intermediate not CA", false, w, pt, l2, mk(inter, root, "inter", "root", false, -d, 365*d), rootC)
		try("forged intermediate", false, w, pt, l2, mk(inter, evil, "inter", "root", true, -d, 365*d), rootC)
		try("reversed", false, w, pt, rootC, l1)
		try("other leaf key", false, w, pt, mk(evil, root, "dev", "root", false, -d, 365*d), rootC)
		try("garbage leaf", false, w, pt, []byte{1, 2, 3}, rootC)
		try("garbage root", false, w, pt, l1, []byte{0x30})
		try("garbage intermediate", false, w, pt, l2, []byte{}, rootC)
		try("nil members", false, w, pt, nil, nil)
		for i := 0; i < c.N(30, 600); i++ {
			b := append([]byte{}, l1...)
			r := c.Rand(fmt.Sprint("cert", i))
			b[r.IntN(len(b))] ^= 1 << r.IntN(8)
			// the outer algorithm parameters aside every byte of a certificate is signed or is the signature
			if cert, err := x509.ParseCertificate(b); err == nil && cert.CheckSignatureFrom(mustCert(rootC)) == nil {
				continue
			}
			try("flipped leaf", false, w, pt, b, rootC)
		}
	}
}

func mustCert(b []byte) *x509.Certificate { x, _ := x509.ParseCertificate(b); return x }

func equal(c *kit.Check) {
	var all []ref.PubKey
	for _, sg := range sgs {
		for i := 0; i < 2; i++ {
			p := keys[sg][i].Pub()
			all = append(all, p)
			for _, t := range []int{1, 5, 6, 10, 11} {
				if t != p.Type {
					q := p
					q.Type = t
					all = append(all, q)
				}
			}
			q := p
			q.Enc = 0
			all = append(all, q)
			q = p
			b := append([]byte{}, p.Body.([]byte)...)
			b[len(b)-1] ^= 1
			q.Body = b
			all = append(all, q)
			q.Body = append(append([]byte{}, p.Body.([]byte)...), 0)
			all = append(all, q)
		}
	}
	for _, a := range all {
		for _, b := range all {
			x, y := pub(a), pub(b)
			want := bytes.Equal(ref.Enc(a), ref.Enc(b))
			var err, err2 error
			p := kit.Try(func() { err, err2 = x.Equal(y), y.Equal(x) })
			c.Must(p == "" && (err == nil) == want && (err2 == nil) == want, "key-equality", "keys %x / %x: equal=%v/%v should be %v %s", ref.Enc(a)[:12], ref.Enc(b)[:12], err == nil, err2 == nil, want, p)
			c.Eval(fmt.Sprintf("equal/%v/%d/%d", want, a.Type, b.Type))
		}
	}
}
