// P04: hashes, HMACs and negotiated algorithms match the FDO specification.
package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
)

var mk = map[int]func() hash.Hash{-16: sha256.New, -43: sha512.New384, 5: sha256.New, 6: sha512.New384}
var types = []int{-16, -43, 5, 6}
var unknown = []int{0, 1, 4, 7, 8, -15, -17, -14, -42, -44, -45, 16, 43, -5, -6, 1 << 20}

func plain(t int, data []byte) []byte { h := mk[t](); h.Write(data); return h.Sum(nil) }
func mac(t int, k, d []byte) []byte   { h := hmac.New(mk[t], k); h.Write(d); return h.Sum(nil) }

func val(t int, b []byte) fdoshared.HashOrHmac {
	return fdoshared.HashOrHmac{Type: fdoshared.HashType(t), Hash: b}
}

func main() {
	kit.Main("P04", func(c *kit.Check) {
		c.Rule = "one evaluation = one real generate/verify/negotiate call judged; distinct = (class, type, data size bucket)"
		c.Assume = []string{"Go crypto/sha256, sha512, hmac are correct"}
		values(c)
		negotiate(c)
		c.Require("altered value refused", 2000)
		c.Require("genuine value accepted", 200)
	})
}

func values(c *kit.Check) {
	c.Parallel(c.N(120, 4000), func(i int) {
		r := c.Rand(fmt.Sprint("v", i))
		n := []int{0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 1000, 70000}[i%17]
		data := kit.Bytes(r, n)
		key := kit.Bytes(r, []int{0, 1, 32, 48, 63, 64, 65, 127, 128, 129, 300}[i%11])
		for _, t := range types {
			isHash := t < 0
			var got fdoshared.HashOrHmac
			var err error
			dk, kk := append([]byte{}, data...), append([]byte{}, key...)
			p := kit.Try(func() {
				if isHash {
					got, err = fdoshared.GenerateFdoHash(dk, fdoshared.HashType(t))
				} else {
					got, err = fdoshared.GenerateFdoHmac(dk, fdoshared.HashType(t), kk)
				}
			})
			want := plain(t, data)
			if !isHash {
				want = mac(t, key, data)
			}
			c.Must(p == "" && err == nil && int(got.Type) == t && bytes.Equal(got.Hash, want), "value-"+fmt.Sprint(t), "type %d over %d bytes, key %d bytes: got type %d %x, want %x, err=%v %s", t, n, len(key), got.Type, got.Hash, want, err, p)
			c.Must(bytes.Equal(dk, data) && bytes.Equal(kk, key), "input-changed", "the input was modified")
			ver := func(v fdoshared.HashOrHmac, d, k []byte) (bool, string) {
				var err error
				p := kit.Try(func() {
					if isHash {
						err = fdoshared.VerifyHash(d, v)
					} else {
						err = fdoshared.VerifyHMac(d, v, k)
					}
				})
				return err == nil, p
			}
			ok, p := ver(val(t, want), data, key)
			c.Must(ok && p == "", "genuine-refused", "type %d, %d bytes: refused %s", t, n, p)
			c.Count("genuine value accepted")
			c.Eval(fmt.Sprintf("ok/%d/%d", t, i%17))
			no := func(class string, v fdoshared.HashOrHmac, d, k []byte) {
				ok, p := ver(v, d, k)
				c.Must(p == "", "verify-crash", "%s type %d: %s", class, t, p)
				c.Must(!ok, "altered-accepted-"+class, "%s: type %d value %x (genuine %x) over %d bytes accepted", class, t, v.Hash, want, len(d))
				c.Eval(fmt.Sprintf("no/%s/%d", class, t))
				c.Count("altered value refused")
			}
			for b := 0; b < len(want)*8; b++ {
				if i%4 != 0 && b%7 != i%7 {
					continue
				}
				x := append([]byte{}, want...)
				x[b/8] ^= 1 << (b % 8)
				no("bit", val(t, x), data, key)
			}
			for l := 0; l < len(want); l++ {
				no("short", val(t, want[:l]), data, key)
			}
			no("nil", val(t, nil), data, key)
			no("long", val(t, append(append([]byte{}, want...), 0)), data, key)
			no("long", val(t, append([]byte{0}, want...)), data, key)
			no("double", val(t, append(append([]byte{}, want...), want...)), data, key)
			no("data longer", val(t, want), append(append([]byte{}, data...), 0), key)
			if n > 0 {
				d2 := append([]byte{}, data...)
				d2[r.IntN(n)] ^= 1 << r.IntN(8)
				no("data bit", val(t, want), d2, key)
				no("data shorter", val(t, want), data[:n-1], key)
			}
			if !isHash {
				if len(key) > 0 {
					k2 := append([]byte{}, key...)
					k2[r.IntN(len(k2))] ^= 1 << r.IntN(8)
					no("key bit", val(t, want), data, k2)
					no("unkeyed", val(t, plain(t, data)), data, key)
					no("empty key", val(t, mac(t, nil, data)), data, key)
				}
				no("key longer", val(t, want), data, append(append([]byte{}, key...), 1))
			}
			for _, o := range append(append([]int{}, types...), unknown...) {
				if o == t {
					continue
				}
				no("type", val(o, want), data, key)
				if f, known := mk[o]; known && (o < 0) != isHash {
					// the right digest for the declared type, but of the other family
					h := f()
					h.Write(data)
					no("family", val(o, h.Sum(nil)), data, key)
					no("family", val(o, mac(o, key, data)), data, key)
				}
			}
		}
		for _, u := range unknown {
			var e1, e2 error
			p := kit.Try(func() {
				_, e1 = fdoshared.GenerateFdoHash(data, fdoshared.HashType(u))
				_, e2 = fdoshared.GenerateFdoHmac(data, fdoshared.HashType(u), key)
			})
			c.Must(p == "" && e1 != nil && e2 != nil, "unknown-type", "type %d: %v %v %s", u, e1, e2, p)
		}
		var e1, e2, e3, e4 error
		p := kit.Try(func() {
			_, e1 = fdoshared.GenerateFdoHash(data, 5)
			_, e2 = fdoshared.GenerateFdoHash(data, 6)
			_, e3 = fdoshared.GenerateFdoHmac(data, -16, key)
			_, e4 = fdoshared.GenerateFdoHmac(data, -43, key)
		})
		c.Must(p == "" && e1 != nil && e2 != nil && e3 != nil && e4 != nil, "wrong-family", "hash of an HMAC type or the reverse gives no error %s", p)
	})
	seen := map[string]bool{}
	for i := 0; i < c.N(200, 5000); i++ {
		for t, n := range map[int]int{5: 32, 6: 48} {
			k := fdoshared.NewHmacKey(fdoshared.HashType(t))
			c.Must(len(k) == n && !seen[string(k)], "hmac-key", "key for type %d: %d bytes, repeated=%v", t, len(k), seen[string(k)])
			seen[string(k)] = true
			c.Eval(fmt.Sprint("key/", t))
		}
	}
}

// FDO 1.1 section 3.3.2 "Hash/HMAC": device attestation key x owner attestation key.
func table(dev, own int) (h, m int) {
	a, b := [2]int{ref.SHA256, ref.HMAC256}, [2]int{ref.SHA384, ref.HMAC384}
	pick := func(x [2]int) (int, int) { return x[0], x[1] }
	switch dev {
	case 90, 91: // EPID
		if own == -35 {
			return pick(b)
		}
		return pick(a)
	case -35:
		return pick(b)
	case -7:
		if own == -35 {
			return pick(b)
		}
		return pick(a)
	}
	return 0, 0
}

func negotiate(c *kit.Check) {
	for _, d := range []int{-7, -35, 90, 91} {
		for _, o := range []int{-7, -35, -257, -258} {
			var got fdoshared.HashHmacTypes
			p := kit.Try(func() { got = fdoshared.NegotiateHashHmacTypes(fdoshared.SgType(d), fdoshared.SgType(o)) })
			h, m := table(d, o)
			c.Must(p == "" && int(got.HashType) == h && int(got.HmacType) == m, fmt.Sprintf("negotiation%d%d", d, o), "device %d owner %d: got %d/%d, the table says %d/%d %s", d, o, got.HashType, got.HmacType, h, m, p)
			c.Eval(fmt.Sprintf("nego/%d/%d", d, o))
		}
	}
}
