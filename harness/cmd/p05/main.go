// P05: a voucher is accepted exactly when every link in it is genuine.
package main

import (
	"bytes"
	"encoding/pem"
	"fmt"
	"math/rand/v2"
	"regexp"
	"strings"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif.local/harness/kit"
	"verif.local/harness/mut"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

var sgs = []int{ref.SgES256, ref.SgES384, ref.SgRS2048, ref.SgRS3072}
var pool = map[int][]ref.Key{}

func key(r *rand.Rand) ref.Key {
	sg := sgs[r.IntN(4)]
	return pool[sg][r.IntN(len(pool[sg]))]
}

type verdict struct {
	ok    bool
	owner ref.PubKey
	why   string
	crash string
}

func real(b []byte) (v verdict) {
	v.crash = kit.Try(func() {
		var o fdoshared.OwnershipVoucher
		if err := fdoshared.CborCust.Unmarshal(b, &o); err != nil {
			v.why = "decode: " + err.Error()
			return
		}
		if err := o.Validate(); err != nil {
			v.why = err.Error()
			// also the getters must survive a bad voucher
			o.GetOVHeader()
			o.GetFinalOwnerPublicKey()
			return
		}
		pk, err := o.GetFinalOwnerPublicKey()
		if err != nil {
			v.why = "owner: " + err.Error()
			return
		}
		if err := sut.ToRef(pk, &v.owner); err != nil {
			v.why = "owner: " + err.Error()
			return
		}
		v.ok = true
	})
	return
}

func indep(b []byte) (v verdict) {
	x, err := ref.ParseVoucher(b)
	if err != nil {
		v.why = err.Error()
		return
	}
	pk, err := x.Validate()
	if err != nil {
		v.why = err.Error()
		return
	}
	return verdict{ok: true, owner: pk}
}

type voucher struct {
	ref.Voucher
	dev  *ref.Device
	keys []ref.Key
}

func fresh(r *rand.Rand, n int) voucher {
	sg := sgs[r.IntN(2)]
	d := ref.NewDevice(sg)
	var ks []ref.Key
	for i := 0; i <= n; i++ {
		ks = append(ks, key(r))
	}
	return voucher{ref.BuildVoucher(d, ks, ref.RandRV()), d, ks}
}

// judge compares the verdicts on one voucher.
func judge(c *kit.Check, class string, b []byte) (verdict, verdict) {
	g, w := real(b), indep(b)
	c.Must(g.crash == "", "crash", "%s: %s voucher=%x", class, g.crash, b)
	if g.crash != "" {
		return g, w
	}
	if g.ok && !w.ok && reencoded(b, w) {
		c.Violation("reencoded-entry-not-hashed", "%s: accepted, though %s; voucher=%x", class, w.why, b)
	} else if g.ok && !w.ok {
		c.Violation("accepted-"+short(class), "%s: accepted, though %s; voucher=%x", class, w.why, b)
	}
	if !g.ok && w.ok {
		c.Violation("genuine-refused-"+short(class), "%s: a genuine voucher is refused: %s; voucher=%x", class, g.why, b)
	}
	if g.ok && w.ok {
		c.Must(bytes.Equal(ref.Enc(g.owner), ref.Enc(w.owner)), "owner-"+short(class), "%s: owner %x, should be %x", class, ref.Enc(g.owner), ref.Enc(w.owner))
		c.Count("genuine voucher accepted")
	} else {
		c.Count("altered voucher refused")
	}
	c.Eval(class)
	return g, w
}

// reencoded tells whether a voucher is genuine except for the way its entries are encoded: known finding.
func reencoded(b []byte, w verdict) bool {
	if !strings.Contains(w.why, "previous hash") {
		return false
	}
	var o fdoshared.OwnershipVoucher
	if fdoshared.CborCust.Unmarshal(b, &o) != nil {
		return false
	}
	var x ref.Raw
	return sut.ToRef(o, &x) == nil && indep(x).ok
}

func short(s string) string { return strings.Fields(s)[0] }

func flip(r *rand.Rand, b []byte) []byte {
	o := append([]byte{}, b...)
	if len(o) > 0 {
		o[r.IntN(len(o))] ^= 1 << r.IntN(8)
	}
	return o
}

// resign rebuilds entry i with the given edit, signed by its proper signer.
func (v *voucher) resign(i int, signer ref.Key, edit func(*ref.OVEntry)) {
	_, e, err := v.Entry(i)
	if err != nil {
		panic(err)
	}
	edit(&e)
	v.Entries[i] = signer.Sign(ref.Enc(e), nil).Tagged()
}

// rechain recomputes and re-signs every entry from i on, as the rightful owners would.
func (v *voucher) rechain(i int) {
	for ; i < len(v.Entries); i++ {
		v.resign(i, v.keys[i], func(e *ref.OVEntry) {
			h, _ := v.Hdr()
			e.Prev = ref.MkHash(v.dev.HashTyp, v.PrevBytes(i))
			e.HdrInfo = ref.MkHash(v.dev.HashTyp, ref.HdrInfoBytes(h))
		})
	}
}

func (v voucher) copy() voucher { return voucher{v.Voucher.Clone(), v.dev, v.keys} }

func (v *voucher) editHdr(f func(*ref.OVHeader)) {
	h, err := v.Hdr()
	if err != nil {
		panic(err)
	}
	f(&h)
	v.Header = ref.Enc(h)
	v.Hmac = ref.MkHmac(v.dev.HmacTyp, v.dev.HmacKey, v.Header)
}

type alt struct {
	name string
	want int // 1 genuine, 0 refused
	v    voucher
}

// alterations with the verdict the alteration itself dictates.
func alterations(r *rand.Rand, base voucher) (out []alt) {
	n := len(base.Entries)
	add := func(name string, want int, f func(v *voucher)) {
		v := base.copy()
		f(&v)
		out = append(out, alt{name, want, v})
	}
	add("genuine", 1, func(v *voucher) {})
	for i := 0; i < n; i++ {
		// of a long history: both ends, and a few positions in between
		if n > 8 && i > 0 && i < n-2 && r.IntN(n) > 2 {
			continue
		}
		if i < n-1 {
			add("drop-entry", 0, func(v *voucher) { v.Entries = append(append([]ref.Raw{}, v.Entries[:i]...), v.Entries[i+1:]...) })
			add("swap-entries", 0, func(v *voucher) { v.Entries[i], v.Entries[i+1] = v.Entries[i+1], v.Entries[i] })
			add("drop-tail", 1, func(v *voucher) { v.Entries = v.Entries[:i+1] })
			add("other-owner-mid", 0, func(v *voucher) {
				v.resign(i, v.keys[i], func(e *ref.OVEntry) { e.Pub = ref.GenKey(-7).Pub() })
			})
			add("resigned-mid", 0, func(v *voucher) {
				v.resign(i, v.keys[i], func(e *ref.OVEntry) { x := []byte("extra"); e.Extra = &x })
			})
			add("extra-rechained", 1, func(v *voucher) {
				v.resign(i, v.keys[i], func(e *ref.OVEntry) { x := []byte("extra"); e.Extra = &x })
				v.rechain(i + 1)
			})
		}
		add("dup-entry", 0, func(v *voucher) {
			v.Entries = append(append(append([]ref.Raw{}, v.Entries[:i+1]...), v.Entries[i]), v.Entries[i+1:]...)
		})
		add("wrong-signer", 0, func(v *voucher) { v.resign(i, ref.GenKey(v.keys[i].Sg), func(e *ref.OVEntry) {}) })
		add("self-signed", 0, func(v *voucher) {
			k := v.keys[i+1]
			if ref.Enc(k.Pub()) != nil && bytes.Equal(ref.Enc(k.Pub()), ref.Enc(v.keys[i].Pub())) {
				k = ref.GenKey(-7)
			}
			v.resign(i, k, func(e *ref.OVEntry) {})
			v.rechain(i + 1)
		})
		add("wrong-signer-rechained", 0, func(v *voucher) {
			v.resign(i, ref.GenKey(v.keys[i].Sg), func(e *ref.OVEntry) {})
			v.rechain(i + 1)
		})
		add("prev-hash-random", 0, func(v *voucher) {
			v.resign(i, v.keys[i], func(e *ref.OVEntry) { e.Prev.Hash = kit.Bytes(r, len(e.Prev.Hash)) })
			v.rechain(i + 1)
		})
		add("prev-hash-empty", 0, func(v *voucher) {
			v.resign(i, v.keys[i], func(e *ref.OVEntry) { e.Prev.Hash = []byte{} })
			v.rechain(i + 1)
		})
		add("prev-hash-truncated", 0, func(v *voucher) {
			v.resign(i, v.keys[i], func(e *ref.OVEntry) { e.Prev.Hash = e.Prev.Hash[:16] })
			v.rechain(i + 1)
		})
		add("prev-hash-type", 0, func(v *voucher) {
			v.resign(i, v.keys[i], func(e *ref.OVEntry) { e.Prev.Type = []int{0, 5, 6, -15, 99}[r.IntN(5)] })
			v.rechain(i + 1)
		})
		add("prev-hash-of-other-entry", 0, func(v *voucher) {
			v.resign(i, v.keys[i], func(e *ref.OVEntry) { e.Prev = ref.MkHash(v.dev.HashTyp, v.PrevBytes((i+1)%(n+1))) })
			v.rechain(i + 1)
		})
		add("hdrinfo-random", 0, func(v *voucher) {
			v.resign(i, v.keys[i], func(e *ref.OVEntry) { e.HdrInfo.Hash = kit.Bytes(r, len(e.HdrInfo.Hash)) })
			v.rechain2(i + 1)
		})
		add("hdrinfo-other-device", 0, func(v *voucher) {
			v.resign(i, v.keys[i], func(e *ref.OVEntry) {
				h, _ := v.Hdr()
				h.Guid = ref.NewGuid()
				e.HdrInfo = ref.MkHash(v.dev.HashTyp, ref.HdrInfoBytes(h))
			})
			v.rechain2(i + 1)
		})
		add("hash-type-mixed", 1, func(v *voucher) {
			v.resign(i, v.keys[i], func(e *ref.OVEntry) {
				t := ref.SHA256 + ref.SHA384 - v.dev.HashTyp
				h, _ := v.Hdr()
				e.Prev, e.HdrInfo = ref.MkHash(t, v.PrevBytes(i)), ref.MkHash(t, ref.HdrInfoBytes(h))
			})
			v.rechain(i + 1)
		})
		add("signature-bit", 0, func(v *voucher) {
			c, _, _ := v.Entry(i)
			c.Sig = flip(r, c.Sig)
			v.Entries[i] = c.Tagged()
			v.rechain(i + 1)
		})
		add("signature-none", 0, func(v *voucher) {
			c, _, _ := v.Entry(i)
			c.Sig = []byte{}
			v.Entries[i] = c.Tagged()
			v.rechain(i + 1)
		})
		add("payload-bit", 0, func(v *voucher) {
			c, _, _ := v.Entry(i)
			c.Payload = flip(r, c.Payload)
			v.Entries[i] = c.Tagged()
			v.rechain3(i + 1)
		})
		add("protected-bit", 0, func(v *voucher) {
			c, _, _ := v.Entry(i)
			c.Prot = flip(r, c.Prot)
			v.Entries[i] = c.Tagged()
			v.rechain3(i + 1)
		})
		add("untagged", 0, func(v *voucher) {
			c, _, _ := v.Entry(i)
			v.Entries[i] = ref.Enc(c)
			v.rechain3(i + 1)
		})
		add("foreign-entry", 0, func(v *voucher) {
			f := fresh(r, n)
			v.Entries[i] = f.Entries[i]
		})
		add("foreign-entry-same-owners", 0, func(v *voucher) {
			// the same owners sold another device: its entries do not fit this voucher
			o := voucher{ref.BuildVoucher(ref.NewDevice(v.dev.Key.Sg), v.keys, ref.RandRV()), v.dev, v.keys}
			v.Entries[i] = o.Entries[i]
		})
	}
	add("foreign-tail-same-owners", 0, func(v *voucher) {
		o := ref.BuildVoucher(ref.NewDevice(v.dev.Key.Sg), v.keys, ref.RandRV())
		v.Entries = o.Entries
	})
	add("extended", 1, func(v *voucher) { v.Extend(v.keys[n], key(r).Pub(), v.dev.HashTyp) })
	add("extended-by-stranger", 0, func(v *voucher) { v.Extend(ref.GenKey(-7), key(r).Pub(), v.dev.HashTyp) })
	add("extended-by-previous-owner", 0, func(v *voucher) {
		k := v.keys[n-1]
		if bytes.Equal(ref.Enc(k.Pub()), ref.Enc(v.keys[n].Pub())) {
			k = ref.GenKey(-7)
		}
		v.Extend(k, key(r).Pub(), v.dev.HashTyp)
	})
	// header
	hdr := func(name string, rechained int, f func(*ref.OVHeader)) {
		add("header-"+name, 0, func(v *voucher) { v.editHdr(f) })
		add("header-"+name+"-rechained", rechained, func(v *voucher) { v.editHdr(f); v.rechain(0) })
		add("header-"+name+"-first-entry-kept-hmac", 0, func(v *voucher) {
			old := v.Hmac
			v.editHdr(f)
			v.Hmac = old
		})
	}
	hdr("guid", 1, func(h *ref.OVHeader) { h.Guid = ref.NewGuid() })
	hdr("devinfo", 1, func(h *ref.OVHeader) { h.DevInfo += "x" })
	for what, f := range map[string]func(string) string{
		"space":   func(s string) string { return s + " " },
		"lead":    func(s string) string { return " " + s },
		"newline": func(s string) string { return s + "\n" },
		"nul":     func(s string) string { return s + "\x00" },
		"case":    swapCase,
		"cut":     func(s string) string { return s[:len(s)/2] + "x" },
	} {
		hdr("devinfo-"+what, 1, func(h *ref.OVHeader) { h.DevInfo = f(h.DevInfo) })
		// everything made to fit but the header info hash of the entries
		add("header-devinfo-"+what+"-stale-hdrinfo", 0, func(v *voucher) {
			v.editHdr(func(h *ref.OVHeader) { h.DevInfo = f(h.DevInfo) })
			v.rechain3(0)
		})
	}
	hdr("devinfo-empty", 0, func(h *ref.OVHeader) { h.DevInfo = "" })
	hdr("rvinfo", 1, func(h *ref.OVHeader) {
		h.RvInfo = ref.Enc(ref.RVInfo{{{Key: 5, Value: ref.Enc("evil.example")}}})
	})
	hdr("rvinfo-empty", 0, func(h *ref.OVHeader) { h.RvInfo = ref.Enc(ref.RVInfo{}) })
	hdr("manufacturer", 0, func(h *ref.OVHeader) { h.Pub = ref.GenKey(-7).Pub() })
	hdr("version", 0, func(h *ref.OVHeader) { h.Ver = []int{0, 1, 100, 102, 65535}[r.IntN(5)] })
	hdr("chain-hash-bit", 0, func(h *ref.OVHeader) { h.ChainHash.Hash = flip(r, h.ChainHash.Hash) })
	hdr("chain-hash-none", 0, func(h *ref.OVHeader) { h.ChainHash = nil })
	hdr("chain-hash-empty", 0, func(h *ref.OVHeader) { h.ChainHash.Hash = []byte{} })
	hdr("chain-hash-type", 0, func(h *ref.OVHeader) { h.ChainHash.Type = []int{0, 5, 6, 77}[r.IntN(4)] })
	hdr("chain-hash-other", 1, func(h *ref.OVHeader) {
		x := ref.ChainHash(ref.SHA256+ref.SHA384-h.ChainHash.Type, base.dev.Chain)
		h.ChainHash = &x
	})
	add("header-bit", 0, func(v *voucher) { v.Header = flip(r, v.Header) })
	add("header-empty", 0, func(v *voucher) { v.Header = []byte{} })
	add("header-trailing", 0, func(v *voucher) { v.Header = append(append([]byte{}, v.Header...), 0) })
	add("hmac-bit", 0, func(v *voucher) { v.Hmac.Hash = flip(r, v.Hmac.Hash) })
	add("hmac-type", 0, func(v *voucher) { v.Hmac.Type = 11 - v.Hmac.Type })
	add("hmac-short", 0, func(v *voucher) { v.Hmac.Hash = v.Hmac.Hash[:len(v.Hmac.Hash)-1] })
	add("hmac-empty", 0, func(v *voucher) { v.Hmac.Hash = []byte{} })
	add("hmac-rechained", 1, func(v *voucher) { v.Hmac.Hash = kit.Bytes(r, len(v.Hmac.Hash)); v.rechain(0) })
	// chain
	ch := func(name string, f func(c [][]byte) [][]byte) {
		add("chain-"+name, 0, func(v *voucher) { x := f(append([][]byte{}, *v.Chain...)); v.Chain = &x })
	}
	ch("short", func(c [][]byte) [][]byte { return c[:len(c)-1] })
	ch("leafless", func(c [][]byte) [][]byte { return c[1:] })
	ch("swapped", func(c [][]byte) [][]byte { c[0], c[1] = c[1], c[0]; return c })
	ch("dup", func(c [][]byte) [][]byte { return append(c, c[len(c)-1]) })
	ch("empty", func(c [][]byte) [][]byte { return [][]byte{} })
	ch("foreign", func(c [][]byte) [][]byte { return ref.ForeignChain(base.dev.Key.Priv.Public()) })
	ch("other-leaf", func(c [][]byte) [][]byte { c[0] = ref.OwnChain(base.dev.Key.Priv.Public())[0]; return c })
	ch("bit", func(c [][]byte) [][]byte { i := r.IntN(len(c)); c[i] = flip(r, c[i]); return c })
	ch("bit-middle", func(c [][]byte) [][]byte { i := len(c) / 2; c[i] = flip(r, c[i]); return c })
	ch("without-middle", func(c [][]byte) [][]byte { i := len(c) / 2; return append(c[:i:i], c[i+1:]...) })
	ch("inserted", func(c [][]byte) [][]byte {
		i := 1 + r.IntN(len(c)-1)
		return append(append(c[:i:i], ref.ForeignChain(base.dev.Key.Priv.Public())[1]), c[i:]...)
	})
	ch("foreign-middle", func(c [][]byte) [][]byte {
		c[len(c)/2] = ref.ForeignChain(base.dev.Key.Priv.Public())[1]
		return c
	})
	ch("middles-swapped", func(c [][]byte) [][]byte {
		i := len(c) / 2
		c[i-1], c[i] = c[i], c[i-1]
		return c
	})
	add("chain-none", 0, func(v *voucher) { v.Chain = nil })
	for _, x := range []int{0, 1, 100, 102, 1010} {
		add("version", 0, func(v *voucher) { v.Ver = x })
	}
	return
}

func swapCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c|32 >= 'a' && c|32 <= 'z' {
			b[i] ^= 32
			return string(b)
		}
	}
	return s + "a"
}

// rechain2 re-hashes from i on, keeping the (genuine) header info.
func (v *voucher) rechain2(i int) { v.rechain(i) }

// rechain3 re-hashes from i on even if the previous entry does not decode.
func (v *voucher) rechain3(i int) {
	for ; i < len(v.Entries); i++ {
		v.resign(i, v.keys[i], func(e *ref.OVEntry) { e.Prev = ref.MkHash(v.dev.HashTyp, v.PrevBytes(i)) })
	}
}

func main() {
	kit.Main("P05", func(c *kit.Check) {
		c.Rule = "one evaluation = the real verdict on one voucher compared with an independent one; distinct = (class of alteration)"
		c.Assume = []string{"a voucher without entries has no owner the rendezvous could check, so it counts as not acceptable by a rendezvous; Validate alone is not judged on it", "dropping the tail of a voucher gives the previous owner's genuine voucher"}
		for _, sg := range sgs {
			for i := 0; i < 4; i++ {
				pool[sg] = append(pool[sg], ref.GenKey(sg))
			}
		}
		c.Parallel(c.N(18, 600), func(i int) {
			r := c.Rand(fmt.Sprint("struct", i))
			n := 1 + i%6
			if i%4 == 3 {
				n = []int{9, 13, 18, 26, 40, 70}[i/4%6]
			}
			if c.Thorough() && i == 300 {
				n = 300
			}
			if i == 17 {
				n = 260 // more than one byte can count
			}
			base := fresh(r, n)
			for _, a := range alterations(r, base) {
				g, w := judge(c, a.name, a.v.Bytes())
				if w.ok != (a.want == 1) {
					// the independent validator itself disagrees with the construction
					c.Broken("independent validator: %s: ok=%v why=%s", a.name, w.ok, w.why)
				}
				c.Sample(a.name, "entries=%d accepted=%v (%s)", len(a.v.Entries), g.ok, g.why)
			}
		})
		bytewise(c)
		structure(c)
		unprotected(c)
		rendezvous(c)
		pems(c)
		c.Require("genuine voucher accepted", 100)
		c.Require("altered voucher refused", 2000)
		c.Require("rendezvous refused", 50)
		c.Require("rendezvous accepted", 5)
	})
}

// offsets whose bytes are the unprotected header of an entry: neither signed nor hashed for the last entry.
func unprotAt(b []byte, v ref.Voucher) map[int]bool {
	m := map[int]bool{}
	for i := range v.Entries {
		at := bytes.Index(b, v.Entries[i])
		c, _, _ := v.Entry(i)
		// tag, array head, protected, then the header
		m[at+2+len(ref.Enc(c.Prot))] = true
	}
	return m
}

func bytewise(c *kit.Check) {
	c.Parallel(c.N(6, 60), func(i int) {
		r := c.Rand(fmt.Sprint("bytes", i))
		base := fresh(r, 1+i%3)
		b := base.Bytes()
		skip := unprotAt(b, base.Voucher)
		for at := range b {
			if skip[at] {
				continue
			}
			m := append([]byte{}, b...)
			m[at] ^= 1 << ((at + i) % 8)
			judge(c, "byte-flip", m)
			if c.Thorough() {
				for k := 0; k < 8; k++ {
					m[at] = b[at] ^ 1<<k
					judge(c, "byte-flip", m)
				}
			}
		}
		for at := 0; at < len(b); at += 1 + len(b)/300 {
			judge(c, "truncated", b[:at])
			m := append(append(append([]byte{}, b[:at]...), byte(r.Uint32())), b[at:]...)
			if !skip[at] {
				judge(c, "inserted", m)
			}
		}
	})
}

func structure(c *kit.Check) {
	c.Parallel(c.N(4, 40), func(i int) {
		r := c.Rand(fmt.Sprint("tree", i))
		base := fresh(r, 1+i%2)
		b := base.Bytes()
		for _, m := range mut.Structural(b) {
			if i > 0 && !c.Thorough() && r.IntN(3) != 0 {
				continue
			}
			g := real(m.Data)
			c.Must(g.crash == "", "crash", "%s: %s voucher=%x", m.What, g.crash, m.Data)
			c.Eval("tree " + strings.Fields(m.What)[0])
			c.Count("malformed voucher survived")
			w := indep(m.Data)
			if g.ok && !w.ok && reencoded(m.Data, w) {
				c.Violation("reencoded-entry-not-hashed", "%s: accepted, though %s; voucher=%x", m.What, w.why, m.Data)
			} else if g.ok && !w.ok && !unhashed(m.What) {
				c.Violation("accepted-tree", "%s: accepted, though %s; voucher=%x", m.What, w.why, m.Data)
			}
		}
		for k := 0; k < c.N(300, 5000); k++ {
			m := mut.Random(r, b)
			g := real(m)
			c.Must(g.crash == "", "crash", "random mutation: %s voucher=%x", g.crash, m)
			c.Eval("tree random")
		}
	})
}

// the unprotected header of an entry is probed separately in unprotected()
var unprotPath = regexp.MustCompile(`\$\.4\.\d+\.0\.1`)

func unhashed(what string) bool { return unprotPath.MatchString(what) }

// unprotected headers of entries: hashed by the next entry, not signed.
func unprotected(c *kit.Check) {
	for i := 0; i < c.N(6, 60); i++ {
		r := c.Rand(fmt.Sprint("unprot", i))
		base := fresh(r, 2)
		// changed after the fact
		v := base.copy()
		e, _, _ := v.Entry(0)
		e.Unprot = ref.Enc(map[int]any{99: "added later"})
		v.Entries[0] = e.Tagged()
		g := real(v.Bytes())
		c.Must(g.crash == "" && !g.ok, "unprotected-header-not-hashed", "an unprotected header added to entry 0 after entry 1 was signed is accepted: voucher=%x %s", v.Bytes(), g.crash)
		v = base.copy()
		e, _, _ = v.Entry(0)
		e.Unprot = ref.Enc(map[int]any{5: []byte("known key")})
		v.Entries[0] = e.Tagged()
		g = real(v.Bytes())
		c.Must(g.crash == "" && !g.ok, "known-unprotected-header-not-hashed", "an unprotected header added to entry 0 after entry 1 was signed is accepted: voucher=%x %s", v.Bytes(), g.crash)
		// present from the start
		v = base.copy()
		e, _, _ = v.Entry(0)
		e.Unprot = ref.Enc(map[int]any{99: "from the start"})
		v.Entries[0] = e.Tagged()
		v.rechain(1)
		g = real(v.Bytes())
		c.Must(g.crash == "" && g.ok, "unprotected-header-genuine-refused", "a genuine voucher whose first entry has an unprotected header is refused: %s voucher=%x %s", g.why, v.Bytes(), g.crash)
		c.Eval("unprotected")
	}
}

func rendezvous(c *kit.Check) {
	s := sut.New(sut.Opt{})
	defer s.Close()
	c.Parallel(c.N(3, 30), func(i int) {
		r := c.Rand(fmt.Sprint("rv", i))
		base := fresh(r, 1+i%4)
		alts := alterations(r, base)
		none := base.copy()
		none.Entries = []ref.Raw{}
		alts = append(alts, alt{"no-entries", 0, none})
		for k, a := range alts {
			if !c.Thorough() && k%3 != i%3 && a.want == 0 {
				continue
			}
			// the presenter signs the redirect with whatever key makes the most sense for the altered voucher
			signer := base.keys[min(len(a.v.Entries), len(base.keys)-1)]
			if a.name == "extended" || a.name == "no-entries" {
				signer = base.keys[0]
			}
			if a.name == "extended" {
				continue
			}
			t := ref.TO0{Conn: ref.Conn{Base: s.URL}}
			if _, err := t.Hello(); err != nil {
				c.Violation("rv-hello", "%v", err)
				return
			}
			body, _ := ref.OwnerSign{Voucher: a.v.Bytes(), Wait: 300, Nonce: t.Nonce, Addrs: []ref.RVAddr{ref.DNSAddr("o.example", 443, 5)}, Signer: signer, HashTyp: ref.SHA256}.Build()
			resp := t.Post(22, body)
			if a.want == 1 {
				c.Must(resp.Ok(23), "rv-genuine-refused", "%s: %s", a.name, resp)
				c.Count("rendezvous accepted")
			} else {
				c.Must(resp.Refused(), "rv-accepted", "%s: the rendezvous answers %s", a.name, resp)
				c.Count("rendezvous refused")
			}
			c.Eval("rv " + a.name)
		}
	})
	for _, p := range s.Panics() {
		c.Violation("crash", "rendezvous %s: %s", p.Path, p.Value)
	}
}

func pems(c *kit.Check) {
	r := c.Rand("pem")
	base := fresh(r, 3)
	vb := pem.EncodeToMemory(&pem.Block{Type: "OWNERSHIP VOUCHER", Bytes: base.Bytes()})
	kb := pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: base.keys[3].PKCS8()})
	try := func(name string, in []byte, want bool) {
		var v *fdoshared.OwnershipVoucher
		var err error
		p := kit.Try(func() { v, err = fdoshared.ValidateVoucherStructFromCert(in) })
		c.Must(p == "", "crash", "pem %s: %s", name, p)
		c.Must(p != "" || (err == nil && v != nil) == want, "pem", "pem %s: err=%v", name, err)
		if want && err == nil && v != nil {
			var b ref.Raw
			err := sut.ToRef(v, &b)
			c.Must(err == nil && bytes.Equal(b, base.Bytes()), "pem", "the voucher read from PEM differs")
		}
		c.Eval("pem " + name)
	}
	try("both", append(append([]byte{}, vb...), kb...), true)
	try("empty", nil, false)
	try("no key", vb, false)
	try("no voucher", kb, false)
	try("reversed", append(append([]byte{}, kb...), vb...), false)
	try("text", []byte("hello"), false)
	try("other type", append(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: base.Bytes()}), kb...), false)
	try("not cbor", append(pem.EncodeToMemory(&pem.Block{Type: "OWNERSHIP VOUCHER", Bytes: []byte{0x85, 1}}), kb...), false)
	try("empty block", append(pem.EncodeToMemory(&pem.Block{Type: "OWNERSHIP VOUCHER"}), kb...), false)
}
