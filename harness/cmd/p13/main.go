// P13: the built-in device and owner clients refuse a server that lies.
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to1"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to0"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"

	"verif.local/harness/kit"
	"verif.local/harness/mut"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// world is one device, its voucher and the server that may lie.
type world struct {
	r      *rand.Rand
	d      *ref.Device
	owner  ref.Key
	mfg    []ref.Key
	v      ref.Voucher
	srv    *ref.Server
	other  ref.Key // an attacker's key
	otherV ref.Voucher

	// nonces of the session at the last 61 and, in a second session, what the first one saw
	hello, dv ref.Nonce
	old       earlier
}

type earlier struct {
	hello, dv, setup ref.Nonce
	body             map[int][]byte // answers as sent
	plain            map[int][]byte // and before encryption
}

func newWorld(r *rand.Rand, devSg, ownerSg, n int) *world {
	w := &world{r: r, d: ref.NewDevice(devSg), owner: ref.GenKeyCached(ownerSg), other: stranger(ownerSg)}
	keys := []ref.Key{}
	for i := 0; i < n; i++ {
		k := ref.GenKey(ref.SgES256)
		if devSg == ref.SgES384 {
			k = ref.GenKey(ref.SgES384)
		}
		keys = append(keys, k)
	}
	w.mfg = keys
	w.v = ref.BuildVoucher(w.d, append(append([]ref.Key{}, keys...), w.owner), ref.RandRV())
	d2 := ref.NewDevice(devSg)
	d2.Guid = w.d.Guid // the same GUID, another device
	w.otherV = ref.BuildVoucher(d2, append(append([]ref.Key{}, keys...), w.owner), ref.RandRV())
	w.srv = ref.NewServer(w.d, w.v, w.owner)
	w.srv.To1d = w.owner.Sign(ref.Enc(ref.To1d{Addrs: []ref.RVAddr{ref.DNSAddr("owner.example.org", 8043, 5)}, Hash: ref.MkHash(ref.SHA256, []byte("x"))}), nil).Tagged()
	w.srv.Sims = []ref.SIM{{Key: "fido_alliance:active", Val: []byte{0xf5}}, {Key: "fido_alliance:dev_conformance", Val: ref.RandBytes(8)}}
	return w
}

var strangers sync.Map

func stranger(sg int) ref.Key {
	f, _ := strangers.LoadOrStore(sg, sync.OnceValue(func() ref.Key { return ref.GenKey(sg) }))
	return f.(func() ref.Key)()
}

type lie struct {
	name string
	min  int // voucher entries needed
	set  func(w *world)
}

// forge serves a voucher that is consistent in itself, its entries signed by the true keys and ending in the
// true owner, over a header and HMAC which the device never made: only the HMAC can tell.
func (w *world) forge(f func(h *ref.OVHeader, header func() []byte) *ref.Hash) {
	h, err := w.v.Hdr()
	if err != nil {
		panic(err)
	}
	v := ref.Voucher{Ver: w.v.Ver, Chain: w.v.Chain, Entries: []ref.Raw{}}
	old := w.v.Hmac
	if x := f(&h, func() []byte { return ref.Enc(h) }); x != nil {
		old = *x
	}
	v.Header, v.Hmac = ref.Enc(h), old
	keys := append(append([]ref.Key{}, w.mfg...), w.owner)
	for i := 1; i < len(keys); i++ {
		v.Extend(keys[i-1], keys[i].Pub(), w.d.HashTyp)
	}
	w.srv.V = v
}

// forged are the vouchers only the HMAC gives away.
func forged() (l []lie) {
	other := func(t int) int {
		if t == ref.HMAC384 {
			return ref.HMAC256
		}
		return ref.HMAC384
	}
	hm := func(name string, f func(w *world, b []byte) ref.Hash) {
		l = append(l, lie{"61 voucher made over " + name, 1, func(w *world) {
			w.forge(func(h *ref.OVHeader, header func() []byte) *ref.Hash { x := f(w, header()); return &x })
		}})
	}
	hm("an HMAC of another secret", func(w *world, b []byte) ref.Hash { return ref.MkHmac(w.d.HmacTyp, ref.RandBytes(len(w.d.HmacKey)), b) })
	hm("an HMAC of another type and secret", func(w *world, b []byte) ref.Hash {
		return ref.MkHmac(other(w.d.HmacTyp), ref.RandBytes(len(w.d.HmacKey)), b)
	})
	hm("the HMAC under another type", func(w *world, b []byte) ref.Hash { return ref.Hash{Type: other(w.v.Hmac.Type), Hash: w.v.Hmac.Hash} })
	hm("the HMAC cut", func(w *world, b []byte) ref.Hash {
		return ref.Hash{Type: w.v.Hmac.Type, Hash: w.v.Hmac.Hash[:w.r.IntN(len(w.v.Hmac.Hash))]}
	})
	hm("an empty HMAC of another type", func(w *world, b []byte) ref.Hash { return ref.Hash{Type: other(w.v.Hmac.Type), Hash: []byte{}} })
	hm("an HMAC with one bit changed", func(w *world, b []byte) ref.Hash { return ref.Hash{Type: w.v.Hmac.Type, Hash: flip(w.r, w.v.Hmac.Hash)} })
	hm("an HMAC with its last bit changed", func(w *world, b []byte) ref.Hash {
		x := append([]byte{}, w.v.Hmac.Hash...)
		x[len(x)-1] ^= 1
		return ref.Hash{Type: w.v.Hmac.Type, Hash: x}
	})
	hm("a plain hash", func(w *world, b []byte) ref.Hash { return ref.MkHash(w.d.HashTyp, b) })
	hm("an HMAC of no known type", func(w *world, b []byte) ref.Hash {
		return ref.Hash{Type: []int{0, 1, 4, 7, 255, -16, -43}[w.r.IntN(7)], Hash: w.v.Hmac.Hash}
	})
	hm("an HMAC of the empty secret", func(w *world, b []byte) ref.Hash { return ref.MkHmac(w.d.HmacTyp, []byte{}, b) })
	hd := func(name string, f func(w *world, h *ref.OVHeader)) {
		l = append(l, lie{"61 voucher made over a header with " + name, 1, func(w *world) {
			w.forge(func(h *ref.OVHeader, header func() []byte) *ref.Hash { f(w, h); return nil })
		}})
	}
	hd("other rendezvous info", func(w *world, h *ref.OVHeader) { h.RvInfo = ref.RandRV() })
	hd("another device info", func(w *world, h *ref.OVHeader) { h.DevInfo += "." })
	hd("another GUID", func(w *world, h *ref.OVHeader) { h.Guid[w.r.IntN(16)] ^= 1 << w.r.IntN(8) })
	hd("another chain hash", func(w *world, h *ref.OVHeader) { x := ref.MkHash(w.d.HashTyp, ref.RandBytes(9)); h.ChainHash = &x })
	return
}

// warm lies come in a second session, after an honest one with the same device.
type warm struct {
	name string
	set  func(w *world)
}

// meet runs an honest session and remembers what was said.
func (w *world) meet(f func() error) error {
	w.old = earlier{body: map[int][]byte{}, plain: map[int][]byte{}}
	w.srv.On61 = func(p p61, u u61, k key, e editP) { w.old.hello, w.old.dv = p.Nonce, *u.Nonce }
	w.srv.On65 = func(p *ref.Setup65, k key, e editP) { w.old.setup = p.Nonce }
	w.srv.OnPlain = func(m int, b *[]byte) { w.old.plain[m] = append([]byte{}, *b...) }
	w.srv.OnAns = func(m int, req []byte, r *ref.Reply) { w.old.body[m+1] = append([]byte{}, r.Body...) }
	err := f()
	w.srv.On61, w.srv.On65, w.srv.OnPlain, w.srv.OnAns = nil, nil, nil, nil
	return err
}

func warmLies() (l []warm) {
	l = []warm{
		{"61 nonce of the session before", on61(func(w *world, p p61, u u61, k key, e editP) { p.Nonce = w.old.hello })},
		{"65 nonce of the session before", on65(func(w *world, p *ref.Setup65, k key, e editP) { p.Nonce = w.old.setup })},
		{"71 nonce of the session before", func(w *world) {
			w.srv.OnNonce = func(m int, n *ref.Nonce) {
				if m == 71 {
					*n = w.old.setup
				}
			}
		}},
		{"61 signed by a stranger in the second session", on61(func(w *world, p p61, u u61, k key, e editP) { *k = w.other })},
		{"61 signed by and naming a stranger in the second session", on61(func(w *world, p p61, u u61, k key, e editP) {
			*k = w.other
			pk := w.other.Pub()
			u.Key = &pk
		})},
		{"61 HMAC damaged in the second session", on61(func(w *world, p p61, u u61, k key, e editP) { p.Hmac.Hash = flip(w.r, p.Hmac.Hash) })},
		{"61 voucher of another device in the second session", on61(func(w *world, p p61, u u61, k key, e editP) {
			p.Header, p.Hmac = w.otherV.Header, w.otherV.Hmac
		})},
		{"65 signed by a stranger in the second session", on65(func(w *world, p *ref.Setup65, k key, e editP) { *k = w.other })},
		{"63 last entry damaged in the second session", on63(func(w *world, a int, n *int, e *ref.Raw) {
			if a == len(w.v.Entries)-1 {
				x := append([]byte{}, *e...)
				x[len(x)-1-w.r.IntN(30)] ^= 1 << w.r.IntN(8)
				*e = x
			}
		})},
	}
	for _, m := range []int{61, 65, 67, 69, 71} {
		l = append(l, warm{fmt.Sprintf("%d replayed from the session before", m), func(w *world) {
			w.srv.OnAns = func(g int, req []byte, r *ref.Reply) {
				if g == m-1 && r.Status == 200 {
					r.Body = w.old.body[m]
				}
			}
		}})
	}
	for _, m := range []int{65, 71} {
		l = append(l, warm{fmt.Sprintf("%d contents of the session before", m), func(w *world) {
			w.srv.OnPlain = func(g int, b *[]byte) {
				if g == m {
					*b = w.old.plain[m]
				}
			}
		}})
	}
	for _, f := range forged() {
		l = append(l, warm{f.name + " in the second session", f.set})
	}
	return
}

// swap puts other nonces of the same session where one is expected.
func swaps() (l []lie) {
	seen := func(w *world, m int, pick func(w *world) ref.Nonce) {
		w.srv.On61 = func(p p61, u u61, k key, e editP) {
			w.hello, w.dv = p.Nonce, *u.Nonce
			if m == 61 {
				p.Nonce = pick(w)
			}
		}
		w.srv.On65 = func(p *ref.Setup65, k key, e editP) {
			if m == 65 {
				p.Nonce = pick(w)
			}
		}
		w.srv.OnNonce = func(g int, n *ref.Nonce) {
			if m == 71 && g == 71 {
				*n = pick(w)
			}
		}
	}
	for _, m := range []int{61, 65, 71} {
		l = append(l, lie{fmt.Sprintf("%d has the owner's own nonce", m), 1, func(w *world) { seen(w, m, func(w *world) ref.Nonce { return w.dv }) }})
		if m != 61 {
			l = append(l, lie{fmt.Sprintf("%d has the nonce of the hello", m), 1, func(w *world) { seen(w, m, func(w *world) ref.Nonce { return w.hello }) }})
		}
	}
	return
}

func flip(r *rand.Rand, b []byte) []byte {
	o := append([]byte{}, b...)
	if len(o) == 0 {
		return []byte{1}
	}
	o[r.IntN(len(o))] ^= 1 << r.IntN(8)
	return o
}

type (
	p61   = *ref.Prove61
	u61   = *ref.Unprot61
	key   = *ref.Key
	editP = *func(*ref.Cose)
)

func on61(f func(w *world, p p61, u u61, k key, e editP)) func(*world) {
	return func(w *world) {
		w.srv.On61 = func(p p61, u u61, k key, e editP) { f(w, p, u, k, e) }
	}
}
func on65(f func(w *world, p *ref.Setup65, k key, e editP)) func(*world) {
	return func(w *world) {
		w.srv.On65 = func(p *ref.Setup65, k key, e editP) { f(w, p, k, e) }
	}
}
func on63(f func(w *world, asked int, n *int, e *ref.Raw)) func(*world) {
	return func(w *world) {
		w.srv.On63 = func(a int, n *int, e *ref.Raw) { f(w, a, n, e) }
	}
}

func to2Lies() []lie {
	l := []lie{
		{"61 signature damaged", 1, on61(func(w *world, p p61, u u61, k key, e editP) {
			*e = func(c *ref.Cose) { c.Sig = flip(w.r, c.Sig) }
		})},
		{"61 signed by a stranger", 1, on61(func(w *world, p p61, u u61, k key, e editP) { *k = w.other })},
		{"61 signed by and naming a stranger", 1, on61(func(w *world, p p61, u u61, k key, e editP) {
			*k = w.other
			pk := w.other.Pub()
			u.Key = &pk
		})},
		{"61 signed by and naming the manufacturer", 1, on61(func(w *world, p p61, u u61, k key, e editP) {
			*k = w.mfg[0]
			pk := w.mfg[0].Pub()
			u.Key = &pk
		})},
		{"61 naming a stranger", 1, on61(func(w *world, p p61, u u61, k key, e editP) {
			pk := w.other.Pub()
			u.Key = &pk
		})},
		{"61 payload altered after signing", 1, on61(func(w *world, p p61, u u61, k key, e editP) {
			*e = func(c *ref.Cose) { c.Payload = flip(w.r, c.Payload) }
		})},
		{"61 without signature", 1, on61(func(w *world, p p61, u u61, k key, e editP) {
			*e = func(c *ref.Cose) { c.Sig = []byte{} }
		})},
		{"61 without owner key", 1, on61(func(w *world, p p61, u u61, k key, e editP) { u.Key = nil })},
		{"61 without device nonce", 1, on61(func(w *world, p p61, u u61, k key, e editP) { u.Nonce = nil })},
		{"61 other nonce", 1, on61(func(w *world, p p61, u u61, k key, e editP) { p.Nonce[w.r.IntN(16)] ^= 1 << w.r.IntN(8) })},
		{"61 nonce differs in the first byte", 1, on61(func(w *world, p p61, u u61, k key, e editP) { p.Nonce[0] ^= 1 << w.r.IntN(8) })},
		{"61 nonce differs in the last byte", 1, on61(func(w *world, p p61, u u61, k key, e editP) { p.Nonce[15] ^= 1 << w.r.IntN(8) })},
		{"61 zero nonce", 1, on61(func(w *world, p p61, u u61, k key, e editP) { p.Nonce = ref.Nonce{} })},
		{"61 hello hash empty", 1, on61(func(w *world, p p61, u u61, k key, e editP) { p.Hello.Hash = []byte{} })},
		{"61 hello hash cut", 1, on61(func(w *world, p p61, u u61, k key, e editP) {
			p.Hello.Hash = p.Hello.Hash[:1+w.r.IntN(len(p.Hello.Hash)-1)]
		})},
		{"61 hello hash longer", 1, on61(func(w *world, p p61, u u61, k key, e editP) {
			p.Hello.Hash = append(append([]byte{}, p.Hello.Hash...), 0)
		})},
		{"61 hello hash last byte", 1, on61(func(w *world, p p61, u u61, k key, e editP) {
			p.Hello.Hash = append([]byte{}, p.Hello.Hash...)
			p.Hello.Hash[len(p.Hello.Hash)-1] ^= 1
		})},
		{"61 hmac empty", 1, on61(func(w *world, p p61, u u61, k key, e editP) { p.Hmac.Hash = []byte{} })},
		{"61 hmac longer", 1, on61(func(w *world, p p61, u u61, k key, e editP) {
			p.Hmac.Hash = append(append([]byte{}, p.Hmac.Hash...), 0)
		})},
		{"61 hmac last byte", 1, on61(func(w *world, p p61, u u61, k key, e editP) {
			p.Hmac.Hash = append([]byte{}, p.Hmac.Hash...)
			p.Hmac.Hash[len(p.Hmac.Hash)-1] ^= 1
		})},
		{"61 hmac under the empty secret", 1, on61(func(w *world, p p61, u u61, k key, e editP) { p.Hmac = ref.MkHmac(p.Hmac.Type, nil, p.Header) })},
		{"61 other signature info", 1, on61(func(w *world, p p61, u u61, k key, e editP) { p.Sig.Info = append([]byte{7}, p.Sig.Info...) })},
		{"61 header altered", 1, on61(func(w *world, p p61, u u61, k key, e editP) { p.Header = flip(w.r, p.Header) })},
		{"61 header of another device", 1, on61(func(w *world, p p61, u u61, k key, e editP) { p.Header = w.otherV.Header })},
		{"61 header and hmac of another device", 1, on61(func(w *world, p p61, u u61, k key, e editP) { p.Header, p.Hmac = w.otherV.Header, w.otherV.Hmac })},
		{"61 hmac altered", 1, on61(func(w *world, p p61, u u61, k key, e editP) { p.Hmac.Hash = flip(w.r, p.Hmac.Hash) })},
		{"61 hmac with another secret", 1, on61(func(w *world, p p61, u u61, k key, e editP) {
			p.Hmac = ref.MkHmac(p.Hmac.Type, ref.RandBytes(32), p.Header)
		})},
		{"61 hmac cut", 1, on61(func(w *world, p p61, u u61, k key, e editP) { p.Hmac.Hash = p.Hmac.Hash[:w.r.IntN(len(p.Hmac.Hash))] })},
		{"61 hmac is a plain hash", 1, on61(func(w *world, p p61, u u61, k key, e editP) {
			t := ref.SHA256
			if p.Hmac.Type == ref.HMAC384 {
				t = ref.SHA384
			}
			p.Hmac = ref.MkHash(t, p.Header)
		})},
		{"61 hello hash of other bytes", 1, on61(func(w *world, p p61, u u61, k key, e editP) {
			p.Hello = ref.MkHash(p.Hello.Type, ref.RandBytes(40))
		})},
		{"61 hello hash altered", 1, on61(func(w *world, p p61, u u61, k key, e editP) { p.Hello.Hash = flip(w.r, p.Hello.Hash) })},
		{"61 other signature type", 1, on61(func(w *world, p p61, u u61, k key, e editP) {
			p.Sig.Sg = map[int]int{-7: -35, -35: -7}[p.Sig.Sg]
		})},
		{"61 no entries", 1, on61(func(w *world, p p61, u u61, k key, e editP) { p.Num = 0 })},
		{"61 one entry too few", 2, on61(func(w *world, p p61, u u61, k key, e editP) { p.Num-- })},
		{"61 one entry too many", 1, func(w *world) {
			w.srv.On61 = func(p p61, u u61, k key, e editP) { p.Num++ }
		}},
		{"61 empty key exchange", 1, on61(func(w *world, p p61, u u61, k key, e editP) { p.XA = []byte{} })},
		{"61 protected header altered", 1, on61(func(w *world, p p61, u u61, k key, e editP) {
			*e = func(c *ref.Cose) { c.Prot = ref.Enc(map[int]int{1: -8}) }
		})},
		{"63 other entry number", 1, on63(func(w *world, a int, n *int, e *ref.Raw) { *n = a + 1 })},
		{"63 number zero for all", 2, on63(func(w *world, a int, n *int, e *ref.Raw) { *n = 0 })},
		{"63 entries exchanged", 2, on63(func(w *world, a int, n *int, e *ref.Raw) {
			*e = w.v.Entries[len(w.v.Entries)-1-a]
			if len(w.v.Entries)%2 == 1 && a == len(w.v.Entries)/2 {
				*e = w.v.Entries[0]
			}
		})},
		{"63 entry repeated", 2, on63(func(w *world, a int, n *int, e *ref.Raw) { *e = w.v.Entries[0] })},
		{"63 signature damaged", 1, on63(func(w *world, a int, n *int, e *ref.Raw) {
			if a == len(w.v.Entries)-1 {
				c, _ := ref.DecCose(*e)
				c.Sig = flip(w.r, c.Sig)
				*e = c.Tagged()
			}
		})},
		{"63 payload altered", 1, on63(func(w *world, a int, n *int, e *ref.Raw) {
			if a == w.r.IntN(len(w.v.Entries)) || a == len(w.v.Entries)-1 {
				c, _ := ref.DecCose(*e)
				c.Payload = flip(w.r, c.Payload)
				*e = c.Tagged()
			}
		})},
		{"63 entry of another voucher", 1, on63(func(w *world, a int, n *int, e *ref.Raw) {
			if a == 0 {
				*e = w.otherV.Entries[0]
			}
		})},
		{"63 all entries of another voucher", 1, on63(func(w *world, a int, n *int, e *ref.Raw) { *e = w.otherV.Entries[a] })},
		{"attacker extends the voucher himself", 1, func(w *world) {
			// 61 is signed by the attacker, the last entry names him but is signed by himself
			n := len(w.v.Entries)
			forged := w.v.Clone()
			forged.Entries = forged.Entries[:n-1]
			forged.Extend(w.other, w.other.Pub(), w.d.HashTyp)
			w.srv.On61 = func(p p61, u u61, k key, e editP) {
				*k = w.other
				pk := w.other.Pub()
				u.Key = &pk
			}
			w.srv.On63 = func(a int, num *int, e *ref.Raw) { *e = forged.Entries[a] }
		}},
		{"attacker appends an entry signed by himself", 1, func(w *world) {
			forged := w.v.Clone()
			forged.Extend(w.other, w.other.Pub(), w.d.HashTyp)
			w.srv.V = forged
			w.srv.Owner = w.other
		}},
		{"attacker presents an entry with a wrong previous hash", 2, func(w *world) {
			// the genuine previous owner signs an entry for the attacker out of another voucher
			forged := w.otherV.Clone()
			forged.Entries = forged.Entries[:len(forged.Entries)-1]
			forged.Extend(w.mfg[len(w.mfg)-1], w.other.Pub(), w.d.HashTyp)
			w.srv.Owner = w.other
			w.srv.On63 = func(a int, n *int, e *ref.Raw) {
				if a == len(w.v.Entries)-1 {
					*e = forged.Entries[a]
				}
			}
		}},
		{"65 other setup nonce", 1, on65(func(w *world, p *ref.Setup65, k key, e editP) { p.Nonce[w.r.IntN(16)] ^= 1 << w.r.IntN(8) })},
		{"65 setup nonce differs in the first byte", 1, on65(func(w *world, p *ref.Setup65, k key, e editP) { p.Nonce[0] ^= 1 << w.r.IntN(8) })},
		{"65 setup nonce differs in the last byte", 1, on65(func(w *world, p *ref.Setup65, k key, e editP) { p.Nonce[15] ^= 1 << w.r.IntN(8) })},
		{"65 zero setup nonce", 1, on65(func(w *world, p *ref.Setup65, k key, e editP) { p.Nonce = ref.Nonce{} })},
		{"65 signature damaged", 1, on65(func(w *world, p *ref.Setup65, k key, e editP) {
			*e = func(c *ref.Cose) { c.Sig = flip(w.r, c.Sig) }
		})},
		{"65 signed by a stranger", 1, on65(func(w *world, p *ref.Setup65, k key, e editP) { *k = w.other })},
		{"65 payload altered after signing", 1, on65(func(w *world, p *ref.Setup65, k key, e editP) {
			*e = func(c *ref.Cose) { c.Payload = flip(w.r, c.Payload) }
		})},
		{"71 other nonce", 1, func(w *world) {
			w.srv.OnNonce = func(m int, n *ref.Nonce) {
				if m == 71 {
					n[w.r.IntN(16)] ^= 1 << w.r.IntN(8)
				}
			}
		}},
		{"71 nonce differs in the first byte", 1, func(w *world) {
			w.srv.OnNonce = func(m int, n *ref.Nonce) {
				if m == 71 {
					n[0] ^= 1 << w.r.IntN(8)
				}
			}
		}},
		{"71 nonce differs in the last byte", 1, func(w *world) {
			w.srv.OnNonce = func(m int, n *ref.Nonce) {
				if m == 71 {
					n[15] ^= 1 << w.r.IntN(8)
				}
			}
		}},
		{"71 fresh nonce", 1, func(w *world) {
			w.srv.OnNonce = func(m int, n *ref.Nonce) {
				if m == 71 {
					*n = ref.NewNonce()
				}
			}
		}},
		{"71 zero nonce", 1, func(w *world) {
			w.srv.OnNonce = func(m int, n *ref.Nonce) {
				if m == 71 {
					*n = ref.Nonce{}
				}
			}
		}},
	}
	for _, m := range []int{65, 67, 69, 71} {
		for name, f := range map[string]func(w *world, b *[]byte){
			"null":            func(w *world, b *[]byte) { *b = []byte{0xf6} },
			"undefined":       func(w *world, b *[]byte) { *b = []byte{0xf7} },
			"a text":          func(w *world, b *[]byte) { *b = ref.Enc("ok") },
			"empty":           func(w *world, b *[]byte) { *b = []byte{} },
			"an empty array":  func(w *world, b *[]byte) { *b = []byte{0x80} },
			"truncated":       func(w *world, b *[]byte) { *b = (*b)[:len(*b)-1] },
			"with extra byte": func(w *world, b *[]byte) { *b = append(append([]byte{}, *b...), 0) },
			"an FDO error": func(w *world, b *[]byte) {
				*b = ref.Enc(ref.FdoError{Code: 500, Prev: uint8(m - 1), Str: "no", Ts: 0, CID: 1})
			},
		} {
			l = append(l, lie{fmt.Sprintf("%d plaintext is %s", m, name), 1, func(w *world) {
				w.srv.OnPlain = func(g int, b *[]byte) {
					if g == m {
						f(w, b)
					}
				}
			}})
		}
		l = append(l, lie{fmt.Sprintf("%d encrypted with another key", m), 1, func(w *world) {
			w.srv.OnKey = func(g int, k *ref.SessKey, c *int) {
				if g == m {
					*k = ref.SessKey{ShSe: ref.RandBytes(len(k.ShSe)), Ctx: k.Ctx}
				}
			}
		}})
		l = append(l, lie{fmt.Sprintf("%d ciphertext damaged", m), 1, func(w *world) {
			w.srv.OnAns = func(g int, req []byte, r *ref.Reply) {
				if g == m-1 && r.Status == 200 {
					if len(r.Body) > 12 { // the last bytes are ciphertext or authentication tag
						n := len(r.Body) - 1 - w.r.IntN(8)
						r.Body[n] ^= 1 << w.r.IntN(8)
					}
				}
			}
		}})
		l = append(l, lie{fmt.Sprintf("%d not encrypted", m), 1, func(w *world) {
			var plain []byte
			w.srv.OnPlain = func(g int, b *[]byte) { plain = append([]byte{}, *b...) }
			w.srv.OnAns = func(g int, req []byte, r *ref.Reply) {
				if g == m-1 && r.Status == 200 {
					r.Body = plain
				}
			}
		}})
		if m > 65 {
			l = append(l, lie{fmt.Sprintf("%d is the device's own message echoed", m), 1, func(w *world) {
				w.srv.OnAns = func(g int, req []byte, r *ref.Reply) {
					if g == m-1 && r.Status == 200 {
						r.Body = append([]byte{}, req...)
					}
				}
			}})
			l = append(l, lie{fmt.Sprintf("%d replays the answer before", m), 1, func(w *world) {
				var last []byte
				w.srv.OnAns = func(g int, req []byte, r *ref.Reply) {
					b := append([]byte{}, r.Body...)
					if g == m-1 && r.Status == 200 && m != 69 {
						r.Body = last
					}
					if g == m-1 && m == 69 && r.Status == 200 && last != nil {
						r.Body, last = last, nil
						return
					}
					if g < m-1 || m != 69 {
						last = b
					}
				}
			}})
		}
	}
	for _, m := range []int{60, 62, 64, 66, 68, 70} {
		l = append(l, generic(m)...)
	}
	return append(append(l, swaps()...), forged()...)
}

// generic are lies possible at every request.
func generic(m int) (l []lie) {
	add := func(name string, f func(w *world, req []byte, r *ref.Reply)) {
		l = append(l, lie{fmt.Sprintf("%d %s", m+1, name), 1, func(w *world) {
			w.srv.OnAns = func(g int, req []byte, r *ref.Reply) {
				if g == m {
					f(w, req, r)
				}
			}
		}})
	}
	errBody := func(code uint16) []byte {
		return ref.Enc(ref.FdoError{Code: code, Prev: uint8(m), Str: "refused", Ts: 0, CID: 1})
	}
	add("error answer", func(w *world, req []byte, r *ref.Reply) { *r = ref.Reply{Status: 500, Type: "255", Body: errBody(100)} })
	add("error answer with success status", func(w *world, req []byte, r *ref.Reply) { r.Type, r.Body = "255", errBody(101) })
	add("error body under the expected type", func(w *world, req []byte, r *ref.Reply) { r.Body = errBody(1) })
	add("status 500 with the honest answer", func(w *world, req []byte, r *ref.Reply) { r.Status = 500 })
	add("status 401 with the honest answer", func(w *world, req []byte, r *ref.Reply) { r.Status = 401 })
	add("status 404 page", func(w *world, req []byte, r *ref.Reply) {
		*r = ref.Reply{Status: 404, Body: []byte("404 page not found\n")}
	})
	add("error answer with empty body", func(w *world, req []byte, r *ref.Reply) { *r = ref.Reply{Status: 500, Type: "255"} })
	add("type 255", func(w *world, req []byte, r *ref.Reply) { r.Type = "255" })
	add("type of the request", func(w *world, req []byte, r *ref.Reply) { r.Type = fmt.Sprint(m) })
	add("type of a later answer", func(w *world, req []byte, r *ref.Reply) { r.Type = fmt.Sprint(m + 3) })
	add("unreadable type", func(w *world, req []byte, r *ref.Reply) { r.Type = "x" })
	add("empty body", func(w *world, req []byte, r *ref.Reply) { r.Body = nil })
	add("null body", func(w *world, req []byte, r *ref.Reply) { r.Body = []byte{0xf6} })
	add("undefined body", func(w *world, req []byte, r *ref.Reply) { r.Body = []byte{0xf7} })
	add("empty array body", func(w *world, req []byte, r *ref.Reply) { r.Body = []byte{0x80} })
	add("text body", func(w *world, req []byte, r *ref.Reply) { r.Body = ref.Enc("hello") })
	add("html body", func(w *world, req []byte, r *ref.Reply) { r.Body = []byte("<html><body>It works</body></html>") })
	add("truncated body", func(w *world, req []byte, r *ref.Reply) {
		if len(r.Body) > 1 {
			r.Body = r.Body[:1+w.r.IntN(len(r.Body)-1)]
		}
	})
	add("random body", func(w *world, req []byte, r *ref.Reply) { r.Body = kit.Bytes(w.r, 1+w.r.IntN(200)) })
	return
}

func to1Lies() (l []lie) {
	l = append(generic(30), generic(32)...)
	l = append(l, lie{"31 other signature type", 1, func(w *world) {
		w.srv.OnSig = func(s *ref.SigInfo) { s.Sg = map[int]int{-7: -35, -35: -7}[s.Sg] }
	}})
	l = append(l, lie{"31 other signature info", 1, func(w *world) {
		w.srv.OnSig = func(s *ref.SigInfo) { s.Info = []byte{1} }
	}})
	for _, n := range []int{0, 8, 15, 17} {
		l = append(l, lie{fmt.Sprintf("31 nonce of %d bytes", n), 1, func(w *world) {
			w.srv.OnAns = func(g int, req []byte, r *ref.Reply) {
				if g == 30 {
					r.Body = ref.Enc([]any{ref.RandBytes(n), ref.SigInfo{Sg: w.d.Key.Sg, Info: []byte{}}})
				}
			}
		}})
	}
	return
}

func to0Lies() (l []lie) {
	l = append(generic(20), generic(22)...)
	for _, n := range []int{0, 8, 15, 17} {
		l = append(l, lie{fmt.Sprintf("21 nonce of %d bytes", n), 1, func(w *world) {
			w.srv.OnAns = func(g int, req []byte, r *ref.Reply) {
				if g == 20 {
					r.Body = ref.Enc([]any{ref.RandBytes(n)})
				}
			}
		}})
	}
	l = append(l, lie{"23 negative wait", 1, func(w *world) {
		w.srv.OnAns = func(g int, req []byte, r *ref.Reply) {
			if g == 22 {
				r.Body = ref.Enc([]any{-1})
			}
		}
	}}, lie{"23 wait is a text", 1, func(w *world) {
		w.srv.OnAns = func(g int, req []byte, r *ref.Reply) {
			if g == 22 {
				r.Body = ref.Enc([]any{"3600"})
			}
		}
	}})
	return
}

// drive runs the in-process device client through a whole onboarding, as the command line tool does.
func drive(w *world, kex string, cipher int) (err error, crash string) {
	crash = kit.Try(func() { err = driveTO2(w, kex, cipher) })
	return
}

func driveTO2(w *world, kex string, cipher int) error {
	cred, err := sut.Credential(w.d, w.v)
	if err != nil {
		panic("credential: " + err.Error())
	}
	q := to2.NewTo2Requestor(fdoshared.SRVEntry{SrvURL: w.srv.URL}, cred, fdoshared.KexSuiteName(kex), fdoshared.CipherSuiteName(cipher))
	p, _, err := q.HelloDevice60(testcom.NULL_TEST)
	if err != nil {
		return fmt.Errorf("60: %w", err)
	}
	var es []fdoshared.CoseSignature
	for i := 0; i < int(p.NumOVEntries); i++ {
		e, _, err := q.GetOVNextEntry62(uint8(i), testcom.NULL_TEST)
		if err != nil {
			return fmt.Errorf("62: %w", err)
		}
		es = append(es, e.OVEntry)
	}
	if err := fdoshared.OVEntryArray(es).VerifyEntries(p.OVHeader, p.HMac); err != nil {
		return fmt.Errorf("entries: %w", err)
	}
	last, err := es[len(es)-1].GetOVEntryPubKey()
	if err != nil {
		return err
	}
	if err := q.ProveOVHdr61PubKey.Equal(last); err != nil {
		return fmt.Errorf("owner: %w", err)
	}
	if _, _, err := q.ProveDevice64(testcom.NULL_TEST); err != nil {
		return fmt.Errorf("64: %w", err)
	}
	if _, _, err := q.DeviceServiceInfoReady66(testcom.NULL_TEST); err != nil {
		return fmt.Errorf("66: %w", err)
	}
	for _, s := range fdoshared.GetDeviceOSSims() {
		if _, _, err := q.DeviceServiceInfo68(fdoshared.DeviceServiceInfo68{ServiceInfo: []fdoshared.ServiceInfoKV{s}, IsMoreServiceInfo: true}, testcom.NULL_TEST); err != nil {
			return fmt.Errorf("68: %w", err)
		}
	}
	for i := 0; ; i++ {
		a, _, err := q.DeviceServiceInfo68(fdoshared.DeviceServiceInfo68{ServiceInfo: []fdoshared.ServiceInfoKV{}}, testcom.NULL_TEST)
		if err != nil {
			return fmt.Errorf("68: %w", err)
		}
		if a.IsDone {
			break
		}
		if i > 50 {
			return fmt.Errorf("68: endless")
		}
	}
	if _, _, err := q.Done70(testcom.NULL_TEST); err != nil {
		return fmt.Errorf("70: %w", err)
	}
	return nil
}

func driveTO1(w *world) (err error, crash string) {
	crash = kit.Try(func() {
		cred, e := sut.Credential(w.d, w.v)
		if e != nil {
			panic("credential: " + e.Error())
		}
		q := to1.NewTo1Requestor(fdoshared.SRVEntry{SrvURL: w.srv.URL}, cred)
		a, _, e := q.HelloRV30(testcom.NULL_TEST)
		if e != nil {
			err = e
			return
		}
		b, _, e := q.ProveToRV32(*a, testcom.NULL_TEST)
		if e != nil {
			err = e
			return
		}
		got, e := fdoshared.CborCust.Marshal(b)
		if e != nil {
			panic(e)
		}
		if c, e := ref.DecCose(got); e != nil || !bytes.Equal(c.Tagged(), w.srv.To1d) {
			err = fmt.Errorf("client returns another redirect")
		}
	})
	return
}

func driveTO0(w *world, svc string) (err error, crash string, wait uint32) {
	crash = kit.Try(func() {
		rec, e := sut.Record(w.v, w.owner)
		if e != nil {
			panic("voucher: " + e.Error())
		}
		q := to0.NewTo0Requestor(fdoshared.SRVEntry{SrvURL: w.srv.URL}, rec, sut.Context(svc, nil))
		a, _, e := q.Hello20(testcom.NULL_TEST)
		if e != nil {
			err = e
			return
		}
		b, _, e := q.OwnerSign22(a.NonceTO0Sign, testcom.NULL_TEST)
		if e != nil {
			err = e
			return
		}
		wait = b.WaitSeconds
	})
	return
}

func faults(w *world) string {
	for _, q := range w.srv.Requests() {
		if q.Fault != "" {
			return fmt.Sprintf("%d: %s", q.Msg, q.Fault)
		}
	}
	return ""
}

func main() {
	kit.Main("P13", func(c *kit.Check) {
		c.Rule = "An honest independent server is accepted by every client; each altered answer makes the client fail, never report success, never crash."
		c.Assume = append(c.Assume, "A missing Message-Type header is tolerated and not judged.",
			"Message 65 is signed by the key it names as replacement owner, so a consistent replacement of both is not a lie.")
		honest(c)
		to2lies(c)
		second(c)
		mutated(c)
		cli(c)
		for _, n := range []string{"honest TO2 accepted", "honest TO1 accepted", "honest TO0 accepted", "lie refused", "CLI honest accepted", "CLI lie refused", "mutated answer survived"} {
			c.Require(n, 1)
		}
	})
}

func honest(c *kit.Check) {
	n := c.N(60, 1500)
	c.Parallel(n, func(i int) {
		r := c.Rand(fmt.Sprint("honest", i))
		ds, os := ref.DeviceSgs[i%2], ref.OwnerSgs[(i/2)%4]
		w := newWorld(r, ds, os, 1+r.IntN(4))
		defer w.srv.Close()
		if r.IntN(3) == 0 {
			w.srv.Sims = nil
		}
		kex := sut.KexFor(r, os)
		ci := sut.Ciphers()[i%len(sut.Ciphers())]
		ok := true
		if err, p := drive(w, kex, ci); err != nil || p != "" {
			c.Violation("honest-to2-refused", "device %s owner %s kex %s cipher %d entries %d: %v %s; server: %s", ref.SgName(ds), ref.SgName(os), kex, ci, len(w.v.Entries), err, p, faults(w))
			ok = false
		} else if f := faults(w); f != "" || w.srv.Finished() != 1 {
			c.Violation("client-message-wrong", "kex %s cipher %d: independent server objects to the device client: %s", kex, ci, f)
		}
		if ok {
			c.Count("honest TO2 accepted")
			c.Eval(fmt.Sprint("to2", ds, os, kex, ci, len(w.v.Entries), len(w.srv.Sims)))
		}
		if err, p := driveTO1(w); err != nil || p != "" {
			c.Violation("honest-to1-refused", "%v %s; server: %s", err, p, faults(w))
		} else if f := faults(w); f != "" {
			c.Violation("client-message-wrong", "TO1: independent server objects: %s", f)
		} else {
			c.Count("honest TO1 accepted")
			c.Eval(fmt.Sprint("to1", ds, os))
		}
		w.srv.Wait = uint32(r.IntN(100000))
		if err, p, wait := driveTO0(w, "http://owner.example.org:8043"); err != nil || p != "" {
			c.Violation("honest-to0-refused", "%v %s; server: %s", err, p, faults(w))
		} else if f := faults(w); f != "" {
			c.Violation("client-message-wrong", "TO0: independent server objects: %s", f)
		} else if wait > w.srv.Wait {
			c.Violation("to0-wait", "server granted %d s, client reports %d", w.srv.Wait, wait)
		} else {
			c.Count("honest TO0 accepted")
			c.Eval(fmt.Sprint("to0", ds, os))
		}
	})
}

func judge(c *kit.Check, what, name string, err error, crash string, detail string) {
	switch {
	case crash != "":
		if kit.FromSUT(crash) {
			c.Violation("crash-"+what+"-"+name, "%s: %s (%s): %s", what, name, detail, crash)
		} else {
			c.Broken("%s %s: harness panic: %s", what, name, crash)
		}
	case err == nil:
		c.Violation("accepted-"+what+"-"+name, "%s client reports success although the server lies: %s (%s)", what, name, detail)
	default:
		c.Count("lie refused")
		c.Eval(what + name + detail)
		c.Sample(what, "%s → %v", name, err)
	}
}

func to2lies(c *kit.Check) {
	l2, l1, l0 := to2Lies(), to1Lies(), to0Lies()
	rounds := c.N(3, 60)
	type job struct {
		kind string
		l    lie
		i    int
	}
	var jobs []job
	for k := 0; k < rounds; k++ {
		for _, l := range l2 {
			jobs = append(jobs, job{"TO2", l, k})
		}
		for _, l := range l1 {
			jobs = append(jobs, job{"TO1", l, k})
		}
		for _, l := range l0 {
			jobs = append(jobs, job{"TO0", l, k})
		}
	}
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		r := c.Rand(fmt.Sprint("lie", j.kind, j.l.name, j.i))
		ds, os := ref.DeviceSgs[r.IntN(2)], ref.OwnerSgs[r.IntN(4)]
		n := max(j.l.min, 1+r.IntN(3))
		if j.l.name == "63 entries exchanged" && n%2 == 1 {
			n++
		}
		w := newWorld(r, ds, os, n)
		defer w.srv.Close()
		j.l.set(w)
		kex := []string{"ECDH256", "ECDH384"}[r.IntN(2)]
		if r.IntN(4) == 0 {
			kex = sut.KexFor(r, os)
		}
		ci := sut.AnyCipher(r)
		d := fmt.Sprintf("%s/%s/%s/%d/%d", ref.SgName(ds), ref.SgName(os), kex, ci, n)
		switch j.kind {
		case "TO2":
			err, p := drive(w, kex, ci)
			judge(c, "TO2", j.l.name, err, p, d)
		case "TO1":
			err, p := driveTO1(w)
			judge(c, "TO1", j.l.name, err, p, d)
		case "TO0":
			err, p, _ := driveTO0(w, "http://owner.example.org:8043")
			judge(c, "TO0", j.l.name, err, p, d)
		}
	})
}

// second: the server is honest in a first session and lies in the next one.
func second(c *kit.Check) {
	ws := warmLies()
	c.Parallel(len(ws)*c.N(2, 40), func(i int) {
		l := ws[i%len(ws)]
		r := c.Rand(fmt.Sprint("warm", i))
		ds, os := ref.DeviceSgs[r.IntN(2)], ref.OwnerSgs[r.IntN(4)]
		w := newWorld(r, ds, os, 1+r.IntN(3))
		defer w.srv.Close()
		kex, ci := sut.KexFor(r, os), sut.AnyCipher(r)
		d := fmt.Sprintf("%s/%s/%s/%d", ref.SgName(ds), ref.SgName(os), kex, ci)
		crash := ""
		if err := w.meet(func() (err error) { err, crash = drive(w, kex, ci); return }); err != nil || crash != "" {
			c.Violation("honest-to2-refused", "before %s: %v %s; server: %s", l.name, err, crash, faults(w))
			return
		}
		l.set(w)
		err, p := drive(w, kex, ci)
		judge(c, "TO2", l.name, err, p, d)
		c.Count("lies in a second session")
	})
	// the same for the redirect: a proof answered with what an earlier session got is still the owner's blob,
	// so only damaged and foreign answers are lies; a long one is not
	c.Parallel(c.N(8, 100), func(i int) {
		r := c.Rand(fmt.Sprint("long", i))
		w := newWorld(r, ref.DeviceSgs[i%2], ref.OwnerSgs[(i/2)%4], 1)
		defer w.srv.Close()
		a := []ref.RVAddr{}
		for k := range 1 + r.IntN(4000) {
			a = append(a, ref.DNSAddr(fmt.Sprintf("owner%d.example.org", k), 8043, 5))
		}
		w.srv.To1d = w.owner.Sign(ref.Enc(ref.To1d{Addrs: a, Hash: ref.MkHash(ref.SHA256, []byte("x"))}), nil).Tagged()
		if err, p := driveTO1(w); err != nil || p != "" {
			c.Violation("honest-to1-refused", "redirect of %d bytes: %v %s; server: %s", len(w.srv.To1d), err, p, faults(w))
		} else {
			c.Count("long redirects accepted")
			c.Eval(fmt.Sprint("long", len(w.srv.To1d)>>13))
		}
	})
}

// mutated answers may or may not be accepted; the client must survive, and if it accepts a signed
// answer its signed content must be what the server signed.
func mutated(c *kit.Check) {
	n := c.N(1500, 60000)
	msgs := []int{21, 23, 31, 33, 61, 61, 61, 63, 63, 65, 67, 69, 71}
	c.Parallel(n, func(i int) {
		r := c.Rand(fmt.Sprint("mut", i))
		m := msgs[i%len(msgs)]
		w := newWorld(r, ref.DeviceSgs[r.IntN(2)], ref.SgES256, 1+r.IntN(2))
		defer w.srv.Close()
		var bad []byte
		alter := func(b []byte) []byte {
			if r.IntN(3) == 0 {
				s := mut.Structural(b)
				if len(s) > 0 {
					return s[r.IntN(len(s))].Data
				}
			}
			if r.IntN(2) == 0 {
				return mut.Byte(r, b)
			}
			return mut.Random(r, b)
		}
		honestCore := [][]byte{}
		core := func(c ref.Cose) []byte { return ref.Enc([]any{c.Prot, c.Payload, c.Sig}) }
		level := r.IntN(2) // 61: outside or, re-signed, inside
		switch {
		case m >= 65:
			w.srv.OnPlain = func(g int, b *[]byte) {
				if g == m {
					*b = alter(*b)
					bad = *b
				}
			}
		case m == 61 && level == 1:
			w.srv.On61 = func(p p61, u u61, k key, e editP) {
				*e = func(x *ref.Cose) {
					x.Payload = alter(x.Payload)
					bad = x.Payload
					*x = w.owner.Sign(x.Payload, x.Unprot)
				}
			}
		default:
			w.srv.OnAns = func(g int, req []byte, rp *ref.Reply) {
				if g == m-1 && rp.Status == 200 {
					if m == 61 {
						if x, err := ref.DecCose(rp.Body); err == nil {
							honestCore = append(honestCore, core(x))
						}
					}
					if m == 63 {
						var p struct {
							_ struct{} `cbor:",toarray"`
							N int
							E ref.Raw
						}
						if ref.Dec(rp.Body, &p) == nil {
							if x, err := ref.DecCose(p.E); err == nil {
								honestCore = append(honestCore, core(x))
							}
						}
					}
					rp.Body = alter(rp.Body)
					bad = rp.Body
				}
			}
		}
		var err error
		var p string
		switch {
		case m == 21 || m == 23:
			err, p, _ = driveTO0(w, "http://owner.example.org:8043")
		case m == 31 || m == 33:
			cred, e := sut.Credential(w.d, w.v)
			if e != nil {
				panic(e)
			}
			p = kit.Try(func() {
				q := to1.NewTo1Requestor(fdoshared.SRVEntry{SrvURL: w.srv.URL}, cred)
				a, _, e := q.HelloRV30(testcom.NULL_TEST)
				if e == nil {
					_, _, e = q.ProveToRV32(*a, testcom.NULL_TEST)
				}
				err = e
			})
		default:
			err, p = drive(w, "ECDH256", 1)
		}
		if p != "" {
			if kit.FromSUT(p) {
				c.Violation(fmt.Sprintf("crash-mutated-%d", m), "answer %d altered to %s: %s", m, kit.Hex(bad), p)
			} else {
				c.Broken("harness panic: %s", p)
			}
			return
		}
		c.Count("mutated answer survived")
		c.Eval(fmt.Sprint("mut", m, err == nil, hex.EncodeToString(bad)))
		if err != nil {
			c.Count(fmt.Sprintf("mutated %d refused", m))
			return
		}
		c.Count(fmt.Sprintf("mutated %d accepted", m))
		if m == 61 && level == 0 {
			if x, e := ref.DecCose(bad); e == nil && !bytes.Equal(core(x), honestCore[0]) && !sigEquivalent(x, honestCore[0]) {
				c.Violation("accepted-altered-61", "signed content altered and accepted: %s", kit.Hex(bad))
			}
		}
	})
}

// sigEquivalent: protected header and payload unchanged (an ECDSA signature has equivalent forms).
func sigEquivalent(x ref.Cose, hc []byte) bool {
	var p []ref.Raw
	if ref.Dec(hc, &p) != nil {
		return false
	}
	return bytes.Equal(ref.Enc(x.Prot), p[0]) && bytes.Equal(ref.Enc(x.Payload), p[1])
}

func cli(c *kit.Check) {
	if _, err := sut.BuildCLI(); err != nil {
		c.Broken("%v", err)
		return
	}
	dir, err := os.MkdirTemp(sut.Scratch(), "cli")
	if err != nil {
		panic(err)
	}
	run := func(r *rand.Rand, kind string, i int, l *lie) {
		name := "honest"
		n := 1 + r.IntN(3)
		if l != nil {
			name = l.name
			n = max(n, l.min)
			if l.name == "63 entries exchanged" && n%2 == 1 {
				n++
			}
		}
		w := newWorld(r, ref.DeviceSgs[r.IntN(2)], ref.OwnerSgs[r.IntN(4)], n)
		defer w.srv.Close()
		if l != nil {
			l.set(w)
		}
		d, _ := os.MkdirTemp(dir, "run")
		defer os.RemoveAll(d)
		f := filepath.Join(d, "dev.pem")
		os.WriteFile(f, sut.CredFile(w.d, w.v), 0o600)
		res, err := sut.CLI(d, nil, "iop", kind, w.srv.URL, f)
		if err != nil {
			c.Broken("running the program: %v", err)
			return
		}
		ok := strings.Contains(res.Text(), "Success")
		switch {
		case res.TimedOut:
			c.Broken("program ran out of time: %s", name)
		case res.Crashed():
			c.Violation("cli-crash-"+kind+"-"+name, "iop %s against a server with: %s: %s", kind, name, res.Tail())
		case l == nil && !ok:
			c.Violation("cli-honest-refused", "iop %s refuses an honest server (device %s, owner %s): %s; server: %s", kind, ref.SgName(w.d.Key.Sg), ref.SgName(w.owner.Sg), res.Tail(), faults(w))
		case l == nil:
			if f := faults(w); f != "" {
				c.Violation("client-message-wrong", "iop %s: independent server objects: %s", kind, f)
			}
			c.Count("CLI honest accepted")
			c.Eval("cli honest" + kind)
		case ok:
			c.Violation("cli-accepted-"+kind+"-"+name, "iop %s reports success although the server lies: %s: %s", kind, name, res.Tail())
		default:
			c.Count("CLI lie refused")
			c.Eval("cli" + kind + name)
		}
	}
	for k := 0; k < c.N(1, 8); k++ {
		c.Parallel(8, func(i int) {
			run(c.Rand(fmt.Sprint("clih", k, i)), []string{"to2", "to1"}[i%2], i, nil)
		})
		l2, l1 := to2Lies(), to1Lies()
		c.Parallel(len(l2)+len(l1), func(i int) {
			r := c.Rand(fmt.Sprint("cli", k, i))
			if i < len(l2) {
				run(r, "to2", i, &l2[i])
			} else {
				run(r, "to1", i, &l1[i-len(l2)])
			}
		})
	}
}
