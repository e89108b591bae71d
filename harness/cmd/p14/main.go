// P14: no received bytes can crash a service; the answer is always the protocol's or a protocol error.
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"net/http"
	"time"

	tdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	listenertestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"

	"github.com/fxamacker/cbor/v2"

	"verif.local/harness/kit"
	"verif.local/harness/mut"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

var client = &http.Client{Timeout: 120 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 64}}

// known error codes of the protocol
var codes = map[uint16]bool{1: true, 2: true, 3: true, 4: true, 5: true, 6: true, 7: true, 8: true, 100: true, 101: true, 102: true, 500: true}

type world struct {
	c *kit.Check
	s *sut.SUT
	r *rand.Rand
	p *sut.Party
	// stage
	t0 *ref.TO0
	t1 *ref.TO1
	t2 *ref.TO2
}

func (w *world) conn() ref.Conn { return ref.Conn{Base: w.s.URL, HC: client} }

// register makes the rendezvous know the device.
func (w *world) register() error {
	t := &ref.TO0{Conn: w.conn()}
	if _, err := t.Hello(); err != nil {
		return err
	}
	b, _ := w.own22(t.Nonce).Build()
	_, err := ref.AcceptedWait(t.Post(22, b))
	return err
}

func (w *world) own22(n ref.Nonce) ref.OwnerSign {
	return ref.OwnerSign{Voucher: w.p.V.Bytes(), Wait: 3000, Nonce: n, Addrs: []ref.RVAddr{ref.DNSAddr("do.example.org", 8043, 3)}, Signer: w.p.Owner, HashTyp: w.p.Dev.HashTyp}
}

// stage brings a session to the point where message m is due and returns its token.
func (w *world) stage(m int) (string, error) {
	w.t0, w.t1, w.t2 = nil, nil, nil
	switch m {
	case 20, 30, 60:
		return "", nil
	case 22:
		w.t0 = &ref.TO0{Conn: w.conn()}
		_, err := w.t0.Hello()
		return w.t0.Tok, err
	case 32:
		w.t1 = &ref.TO1{Conn: w.conn(), Dev: w.p.Dev}
		_, err := w.t1.Hello()
		return w.t1.Tok, err
	}
	t := w.p.RandTO2(w.r)
	if w.r.IntN(12) != 0 {
		t.KexName = []string{"ECDH256", "ECDH384"}[w.r.IntN(2)]
	}
	t.HC = client
	w.t2 = t
	if _, err := t.Hello(); err != nil {
		return "", err
	}
	if m == 62 {
		return t.Tok, nil
	}
	if err := t.GetEntries(); err != nil {
		return "", err
	}
	if err := t.MakeKex(); err != nil {
		return "", err
	}
	if m == 64 {
		return t.Tok, nil
	}
	if _, err := t.Prove(); err != nil {
		return "", err
	}
	if m == 66 {
		return t.Tok, nil
	}
	if _, err := t.Ready(); err != nil {
		return "", err
	}
	if m == 68 {
		if w.r.IntN(2) == 0 {
			if _, _, err := t.Info(true, ref.Mandatory()[:1+w.r.IntN(8)]); err != nil {
				return "", err
			}
		}
		return t.Tok, nil
	}
	return t.Tok, t.InfoAll([][]ref.SIM{ref.Mandatory()})
}

// honest gives the due message and the layers that can be altered with a wrapper that makes the
// rest consistent again.
type layer struct {
	name string
	data []byte
	wrap func([]byte) []byte
}

// listen registers the device for conformance tests of which none is running, so that it is served honestly.
func (w *world) listen() {
	rec, err := sut.Record(w.p.V, w.p.Owner)
	if err != nil {
		panic(err)
	}
	g, err := rec.Voucher.GetOVHeader()
	if err != nil {
		panic(err)
	}
	if err := tdbs.NewListenerTestDB(w.s.DB).Save(listenertestsdeps.NewDevice_RequestListenerInst(rec, g.OVGuid)); err != nil {
		panic(err)
	}
	w.c.Count("device registered for tests")
}

func ident(b []byte) []byte { return b }

func (w *world) layers(m int) (l []layer) {
	add := func(n string, d []byte, f func([]byte) []byte) { l = append(l, layer{n, d, f}) }
	resign := func(k ref.Key, c ref.Cose) func([]byte) []byte {
		return func(b []byte) []byte { return k.Sign(b, c.Unprot).Tagged() }
	}
	switch m {
	case 20:
		add("body", ref.Enc([]any{}), ident)
	case 30:
		add("body", ref.Enc(ref.Hello30{Guid: w.p.Dev.Guid, Sig: ref.SigInfo{Sg: w.p.Dev.Key.Sg, Info: []byte{}}}), ident)
	case 60:
		t := w.p.RandTO2(w.r)
		add("body", ref.Enc(t.Hello60()), ident)
	case 62:
		add("body", ref.Enc([]any{0}), ident)
	case 22:
		o := w.own22(w.t0.Nonce)
		b, to1d := o.Build()
		add("body", b, ident)
		d := ref.Enc(ref.To0d{Voucher: o.Voucher, Wait: o.Wait, Nonce: o.Nonce})
		mk := func(d []byte) []byte {
			h := ref.MkHash(o.HashTyp, d)
			c := o.Signer.Sign(ref.Enc(ref.To1d{Addrs: o.Addrs, Hash: h}), nil)
			return ref.Enc([]any{d, ref.Raw(c.Tagged())})
		}
		add("to0d", d, mk)
		add("voucher", o.Voucher, func(v []byte) []byte {
			return mk(append(append([]byte{0x83}, v...), append(ref.Enc(o.Wait), ref.Enc(o.Nonce)...)...))
		})
		c, _ := ref.DecCose(to1d)
		add("to1d payload", c.Payload, func(p []byte) []byte { return ref.Enc([]any{d, ref.Raw(w.p.Owner.Sign(p, nil).Tagged())}) })
		hdr := w.p.V.Header
		add("voucher header", hdr, func(h []byte) []byte {
			v := w.p.V.Clone()
			v.Header = h
			v.Hmac = ref.MkHmac(w.p.Dev.HmacTyp, w.p.Dev.HmacKey, h)
			return mk(append(append([]byte{0x83}, v.Bytes()...), append(ref.Enc(o.Wait), ref.Enc(o.Nonce)...)...))
		})
		ec, _, _ := w.p.V.Entry(len(w.p.V.Entries) - 1)
		add("voucher entry", ec.Payload, func(e []byte) []byte {
			v := w.p.V.Clone()
			v.Entries[len(v.Entries)-1] = w.p.Owner.Sign(e, nil).Tagged()
			return mk(append(append([]byte{0x83}, v.Bytes()...), append(ref.Enc(o.Wait), ref.Enc(o.Nonce)...)...))
		})
	case 32:
		e := ref.EAT{Nonce: w.t1.Nonce[:], UEID: ref.UEID(w.p.Dev.Guid)}.Bytes()
		c := w.p.Dev.Key.Sign(e, nil)
		add("body", c.Tagged(), ident)
		add("eat", e, resign(w.p.Dev.Key, c))
	case 64:
		b := w.t2.Proof().Bytes()
		c, _ := ref.DecCose(b)
		add("body", b, ident)
		add("eat", c.Payload, resign(w.p.Dev.Key, c))
		add("exchange", w.t2.Kex.Share, func(x []byte) []byte {
			p := w.t2.Proof()
			p.XB = x
			return p.Bytes()
		})
	default:
		var plain []byte
		switch m {
		case 66:
			plain = ref.Enc([]any{ref.MkHmac(w.p.Dev.HmacTyp, w.p.Dev.HmacKey, []byte("h")), uint16(1400)})
		case 68:
			plain = ref.Enc(ref.Msg68{More: w.r.IntN(2) == 0, Info: ref.Mandatory()})
		case 70:
			plain = ref.Enc([]any{w.t2.NonceDv})
		}
		enc := func(b []byte) []byte {
			e, err := ref.Wrap(w.t2.Sess, w.t2.Cipher, b, nil)
			if err != nil {
				panic(err)
			}
			return e
		}
		add("plaintext", plain, enc)
		add("envelope", enc(plain), ident)
	}
	return
}

func deep(kind byte, n int) []byte { return append(bytes.Repeat([]byte{kind}, n), 0x00) }

// blobs are bodies unrelated to any message.
func (w *world) blob() []byte {
	r := w.r
	switch r.IntN(16) {
	case 0:
		return nil
	case 1:
		return []byte{0xf6}
	case 2:
		return deep(0x81, 1+r.IntN(20000))
	case 3:
		return deep(0xd8, 1+r.IntN(1000))
	case 4:
		return deep(0xa1, 1+r.IntN(5000))
	case 5:
		return []byte{0x9b, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}
	case 6:
		return []byte{0x5b, 0x00, 0x00, 0x00, 0xff, 0xff, 0xff, 0xff, 0xff}
	case 7:
		return []byte{0xbb, 0x00, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}
	case 8:
		return bytes.Repeat([]byte{0x5f}, 1+r.IntN(400))
	case 9:
		return kit.Bytes(r, 1+r.IntN(1<<uint(8+r.IntN(13))))
	case 10:
		return []byte("<?xml version='1.0'?>")
	case 11:
		return append([]byte{0xd2, 0x84}, kit.Bytes(r, r.IntN(60))...)
	case 12:
		return append([]byte{0xd0, 0x83}, kit.Bytes(r, r.IntN(60))...)
	case 13:
		b := []byte{0x98, 0xff}
		for i := 0; i < 255; i++ {
			b = append(b, 0xf6)
		}
		return b
	case 14:
		v := mut.Values[r.IntN(len(mut.Values))]
		return v
	default:
		return kit.Bytes(r, r.IntN(100))
	}
}

// sendIn posts message m with the given content of one of its layers.
func (w *world) sendIn(m int, tok string, l layer, what string, d []byte) bool {
	ok := w.send(m, tok, l.name+" "+what, l.wrap(d))
	bad := l.name != "exchange" && cbor.Wellformed(d) != nil // the exchange is not CBOR
	if bad {
		w.c.Count("content is not one item")
	}
	w.c.Must(!ok || !bad, fmt.Sprintf("content-not-an-item-%d", m), "message %d (%s %s): the content is not one CBOR item, and is answered with message %d: %s", m, l.name, what, m+1, kit.Hex(d))
	return ok
}

// send posts body as message m and judges the answer. It returns whether it was accepted.
func (w *world) send(m int, tok, what string, body []byte) bool {
	k := w.conn()
	k.Tok = tok
	r := k.Post(m, body)
	c := w.c
	c.Count(fmt.Sprintf("message %d sent", m))
	state := "?"
	switch {
	case r.Err != nil:
		why := r.Err.Error()
		for _, p := range w.s.Panics() {
			why += fmt.Sprintf("\npanic at %s: %s\n%s", p.Path, p.Value, p.Stack)
		}
		c.Violation(fmt.Sprintf("no-answer-%d-%s", m, what), "message %d (%s) gets no answer: %s\nbody %s", m, what, why, kit.Hex(body))
		return true
	case r.Msg == 255:
		e, err := r.Error()
		state = fmt.Sprintf("%d/%d", r.Status, e.Code)
		c.Must(err == nil, fmt.Sprintf("error-body-%d", m), "message %d (%s): error answer cannot be decoded: %v: %s", m, what, err, kit.Hex(r.Body))
		if err == nil {
			c.Must(int(e.Prev) == m, fmt.Sprintf("error-names-%d", m), "message %d (%s): the error names message %d (%s)", m, what, e.Prev, e.Str)
			c.Must(codes[e.Code], fmt.Sprintf("error-code-%d", m), "message %d (%s): error code %d (%s)", m, what, e.Code, e.Str)
		}
		c.Must(r.Status >= 400 && r.Status < 600, fmt.Sprintf("error-status-%d", m), "message %d (%s): error answer with HTTP status %d", m, what, r.Status)
		c.Count("protocol error answers")
	case r.Status == 200 && r.Msg == m+1:
		state = "ok"
		c.Must(len(r.Body) > 0, fmt.Sprintf("empty-answer-%d", m), "message %d (%s): answer %d is empty", m, what, m+1)
		c.Must(cbor.Wellformed(body) == nil, fmt.Sprintf("not-an-item-%d", m), "message %d (%s): a body that is not one CBOR item (%v) is answered with message %d: %s", m, what, cbor.Wellformed(body), m+1, kit.Hex(body))
		c.Count("accepted")
	default:
		c.Violation(fmt.Sprintf("no-protocol-answer-%d", m), "message %d (%s): neither an answer nor a protocol error: %s", m, what, r)
	}
	c.Eval(fmt.Sprintf("%d|%s|%s|%x", m, what, state, body))
	return r.Status == 200
}

func (w *world) stray(m int, toks []string) string {
	switch w.r.IntN(8) {
	case 0:
		return ""
	case 1:
		return "Bearer "
	case 2:
		return "Bearer " + string(bytes.Repeat([]byte("A"), 1+w.r.IntN(60000)))
	case 3:
		return "Bearer session-"
	case 4:
		return "Basic dXNlcjpwYXNz"
	case 5:
		return "Bearer voucher-" + hex.EncodeToString(w.p.Dev.Guid[:])
	default:
		return toks[w.r.IntN(len(toks))]
	}
}

var msgs = []int{20, 22, 30, 32, 60, 62, 64, 66, 68, 70}

func round(c *kit.Check, label string, n int) {
	w := &world{c: c, r: c.Rand(label), s: sut.New(sut.Opt{})}
	defer w.s.Close()
	var err error
	w.p, err = w.s.NewParty(ref.DeviceSgs[w.r.IntN(2)], ref.OwnerSgs[w.r.IntN(4)], 1+w.r.IntN(3))
	if err == nil {
		err = w.register()
	}
	if err != nil {
		c.Violation("honest-before", "%s: %v", label, err)
		return
	}
	if w.r.IntN(2) == 0 {
		w.listen()
	}
	toks := []string{"Bearer x"}
	honest := func(when string) bool {
		t := w.p.TO2("ECDH256", 1)
		t.HC = client
		err := t.Run(nil)
		if err == nil {
			err = w.register()
		}
		if err == nil {
			t1 := &ref.TO1{Conn: w.conn(), Dev: w.p.Dev}
			if _, err = t1.Hello(); err == nil {
				if r := t1.Prove(); !r.Ok(33) {
					err = fmt.Errorf("32: %s", r)
				}
			}
		}
		if err != nil {
			c.Violation("honest-after", "%s: honest onboarding fails %s: %v %v", label, when, err, w.s.Panics())
			return false
		}
		c.Count("honest onboarding afterwards")
		return true
	}
	for _, m := range msgs {
		for done := 0; done < n; {
			tok, err := w.stage(m)
			if err != nil {
				c.Violation("stage", "%s: cannot reach message %d: %v", label, m, err)
				return
			}
			if tok != "" {
				toks = append(toks, tok)
			}
			for _, l := range w.layers(m) {
				list := mut.Structural(l.data)
				for k := 0; k < 12 && done < n; k++ {
					done++
					var what string
					var d []byte
					switch w.r.IntN(4) {
					case 0, 1:
						if len(list) > 0 {
							x := list[w.r.IntN(len(list))]
							what, d = "structural", x.Data
							break
						}
						fallthrough
					case 2:
						what, d = "random", mut.Random(w.r, l.data)
					default:
						what, d = "bytes", mut.Byte(w.r, l.data)
					}
					if w.sendIn(m, tok, l, what, d) {
						break // the session has moved on
					}
				}
			}
			for k := 0; k < 4; k++ {
				done++
				w.send(m, tok, "unrelated bytes", w.blob())
			}
			// out of order, with foreign or broken tokens
			o := msgs[w.r.IntN(len(msgs))]
			if ls := w.layers(m); len(ls) > 0 {
				w.send(o, tok, "body of another message", ls[0].wrap(ls[0].data))
				w.send(m, w.stray(m, toks), "stray token", ls[0].wrap(ls[0].data))
			}
			w.send(o, w.stray(o, toks), "stray token, unrelated bytes", w.blob())
		}
		if !honest(fmt.Sprintf("after hostile messages %d", m)) {
			return
		}
	}
	for _, p := range w.s.Panics() {
		c.Violation("panic-"+p.Path, "handler panic: %s\n%s", p.Value, p.Stack)
	}
}

// exhaustive runs every structural mutation of every layer of message m.
func exhaustive(c *kit.Check, m int, part, parts int) {
	w := &world{c: c, r: c.Rand(fmt.Sprint("exh", m, part)), s: sut.New(sut.Opt{})}
	defer w.s.Close()
	var err error
	if w.p, err = w.s.NewParty(ref.DeviceSgs[(m/2)%2], ref.SgES256, 2); err == nil {
		err = w.register()
	}
	if err != nil {
		c.Violation("honest-before", "%v", err)
		return
	}
	nl := 1
	for li := 0; li < nl; li++ {
		var ls []layer
		var list []mut.M
		for k, tok, total := part, "", 1<<30; k < total; k += parts {
			if tok == "" || k == part {
				if tok, err = w.stage(m); err != nil {
					c.Violation("stage", "message %d: %v", m, err)
					return
				}
				ls = w.layers(m)
				nl = len(ls)
				list = mut.Structural(ls[li].data)
				total = len(list)
			}
			if k >= total {
				break
			}
			if w.sendIn(m, tok, ls[li], "structural", list[k].Data) {
				tok = ""
			}
			c.Count("structural mutations")
		}
	}
	for _, p := range w.s.Panics() {
		c.Violation("panic-"+p.Path, "handler panic: %s\n%s", p.Value, p.Stack)
	}
}

// short sends every layer of message m cut off at every length up to 40 and at some beyond.
func short(c *kit.Check, m int, listed bool) {
	w := &world{c: c, r: c.Rand(fmt.Sprint("short", m, listed)), s: sut.New(sut.Opt{})}
	defer w.s.Close()
	var err error
	if w.p, err = w.s.NewParty(ref.SgES256, ref.DeviceSgs[w.r.IntN(2)], 2); err == nil {
		err = w.register()
	}
	if err != nil {
		c.Violation("honest-before", "%v", err)
		return
	}
	if listed {
		w.listen()
	}
	nl := 1
	for li := 0; li < nl; li++ {
		for n := 0; ; {
			tok, err := w.stage(m)
			if err != nil {
				c.Violation("stage", "message %d: %v", m, err)
				return
			}
			ls := w.layers(m)
			nl = len(ls)
			d := ls[li].data
			if n >= len(d) {
				break
			}
			for n < len(d) {
				cut := n
				if n++; n > 40 {
					n += w.r.IntN(1 + len(d)/24)
				}
				c.Count("cut off")
				if w.sendIn(m, tok, ls[li], "cut off", append([]byte{}, d[:cut]...)) {
					break
				}
			}
		}
	}
	for _, p := range w.s.Panics() {
		c.Violation("panic-"+p.Path, "handler panic: %s\n%s", p.Value, p.Stack)
	}
}

// trailing sends every layer of message m followed by further bytes.
func trailing(c *kit.Check, m int, listed bool) {
	w := &world{c: c, r: c.Rand(fmt.Sprint("trailing", m, listed)), s: sut.New(sut.Opt{})}
	defer w.s.Close()
	var err error
	if w.p, err = w.s.NewParty(ref.DeviceSgs[w.r.IntN(2)], ref.DeviceSgs[w.r.IntN(2)], 2); err == nil {
		err = w.register()
	}
	if err != nil {
		c.Violation("honest-before", "%v", err)
		return
	}
	if listed {
		w.listen()
	}
	const kinds = 7
	for li, nl := 0, 1; li < nl; li++ {
		tok := ""
		for n := 0; n < kinds; n++ {
			if tok == "" || n == 0 {
				if tok, err = w.stage(m); err != nil {
					c.Violation("stage", "message %d: %v", m, err)
					return
				}
			}
			ls := w.layers(m)
			nl = len(ls)
			d := append([]byte{}, ls[li].data...)
			switch n {
			case 0:
				d = append(d, 0)
			case 1:
				d = append(d, 0xf6)
			case 2:
				d = append(d, 0xff)
			case 3:
				d = append(d, d...)
			case 4:
				d = append(d, 0x80)
			case 5:
				d = append(d, kit.Bytes(w.r, 1+w.r.IntN(40))...)
			case 6:
				d = append(d, make([]byte, 1+w.r.IntN(4096))...)
			}
			c.Count("followed by further bytes")
			if w.sendIn(m, tok, ls[li], "followed by further bytes", d) {
				tok = ""
			}
		}
	}
	for _, p := range w.s.Panics() {
		c.Violation("panic-"+p.Path, "handler panic: %s\n%s", p.Value, p.Stack)
	}
}

// endless sends vouchers with as many entries as fit, and more than the protocol can count.
func endless(c *kit.Check) {
	s := sut.New(sut.Opt{})
	defer s.Close()
	for _, n := range []int{127, 128, 254, 255, 256, 257, 300} {
		p := &sut.Party{Dev: ref.NewDevice(ref.SgES256), Owner: ref.GenKeyCached(ref.SgES256), URL: s.URL}
		keys := make([]ref.Key, n+1)
		for i := range keys {
			keys[i] = p.Owner
		}
		p.V = ref.BuildVoucher(p.Dev, keys, ref.RandRV())
		w := &world{c: c, s: s, r: c.Rand(fmt.Sprint("endless", n)), p: p}
		tok, err := w.stage(22)
		if err != nil {
			c.Violation("stage", "message 22: %v", err)
			return
		}
		b, _ := w.own22(w.t0.Nonce).Build()
		w.send(22, tok, fmt.Sprintf("voucher with %d entries", n), b)
		if err := s.AddVoucher(p.V, p.Owner); err != nil {
			c.Count("long voucher not storable")
		}
		t := p.TO2("ECDH256", 1)
		t.HC = client
		w.send(60, "", fmt.Sprintf("voucher with %d entries", n), ref.Enc(t.Hello60()))
		k := w.conn()
		r := k.Post(60, ref.Enc(t.Hello60()))
		tok = r.Auth()
		if tok == "" {
			tok = "Bearer x"
		}
		for _, i := range []int{0, 1, 127, 128, n - 2, n - 1, n, n + 1, 255, 256, 257} {
			w.send(62, tok, fmt.Sprintf("entry %d of %d", i, n), ref.Enc([]any{i}))
		}
		c.Count("long voucher")
	}
	for _, p := range s.Panics() {
		c.Violation("panic-"+p.Path, "handler panic: %s\n%s", p.Value, p.Stack)
	}
}

// odd vouchers are what a careless operator may have loaded into the owner service.
func oddVouchers(c *kit.Check) {
	s := sut.New(sut.Opt{})
	defer s.Close()
	r := c.Rand("odd")
	edits := []struct {
		name string
		f    func(v *ref.Voucher)
	}{
		{"no certificate chain", func(v *ref.Voucher) { v.Chain = nil }},
		{"empty certificate chain", func(v *ref.Voucher) { v.Chain = &[][]byte{} }},
		{"junk certificates", func(v *ref.Voucher) { v.Chain = &[][]byte{{1, 2, 3}} }},
		{"no entries", func(v *ref.Voucher) { v.Entries = []ref.Raw{} }},
		{"junk header", func(v *ref.Voucher) { v.Header = []byte{0x80} }},
		{"empty entry", func(v *ref.Voucher) {
			v.Entries[len(v.Entries)-1] = ref.Tag(18, []any{[]byte{}, map[int]int{}, []byte{}, []byte{}})
		}},
	}
	for _, e := range edits {
		p := &sut.Party{Dev: ref.NewDevice(ref.SgES256), Owner: ref.GenKeyCached(ref.SgES256), URL: s.URL}
		v := ref.BuildVoucher(p.Dev, []ref.Key{p.Owner, p.Owner, p.Owner}, ref.RandRV())
		e.f(&v)
		p.V = v
		if pn := kit.Try(func() {
			if err := s.AddVoucher(v, p.Owner); err != nil {
				c.Count("odd voucher not storable")
			}
		}); pn != "" {
			c.Violation("odd-voucher-store", "storing a voucher with %s panics: %s", e.name, pn)
			continue
		}
		t := p.RandTO2(r)
		t.HC = client
		w := &world{c: c, s: s, r: r, p: p, t2: t}
		t.Kex, _ = ref.NewKex("ECDH256", true, nil)
		t.KexName = "ECDH256"
		h := t.Hello60()
		k := w.conn()
		resp := k.Post(60, ref.Enc(h))
		tok := resp.Auth()
		if tok == "" {
			tok = "Bearer x"
		}
		w.send(60, "", "voucher with "+e.name, ref.Enc(h))
		for i := 0; i < 3; i++ {
			w.send(62, tok, "voucher with "+e.name, ref.Enc([]any{i}))
		}
		w.send(64, tok, "voucher with "+e.name, t.Proof().Bytes())
		w.send(66, tok, "voucher with "+e.name, []byte{0x80})
		c.Count("odd voucher")
	}
}

// underTest: the device is registered for device conformance tests, so the service lies on purpose;
// whatever the device sends it must still get an answer.
func underTest(c *kit.Check, label string, n int) {
	s := sut.New(sut.Opt{})
	defer s.Close()
	w := &world{c: c, r: c.Rand(label), s: s}
	var err error
	if w.p, err = s.NewParty(ref.SgES256, ref.SgES256, 2); err == nil {
		err = w.register()
	}
	if err != nil {
		c.Violation("honest-before", "%v", err)
		return
	}
	rec, err := sut.Record(w.p.V, w.p.Owner)
	if err != nil {
		panic(err)
	}
	g, err := rec.Voucher.GetOVHeader()
	if err != nil {
		panic(err)
	}
	lst := listenertestsdeps.NewDevice_RequestListenerInst(rec, g.OVGuid)
	db := tdbs.NewListenerTestDB(s.DB)
	if w.r.IntN(12) != 0 {
		lst.To1.StartNewTestRun()
		lst.To2.StartNewTestRun()
	}
	if err := db.Save(lst); err != nil {
		panic(err)
	}
	toks := []string{"Bearer x"}
	var t *ref.TO2
	var t1 *ref.TO1
	post := func(m int, tok string, body []byte) ref.Resp {
		k := w.conn()
		k.Tok = tok
		r := k.Post(m, body)
		c.Count("message to a device test")
		if r.Err != nil {
			why := r.Err.Error()
			for _, p := range s.Panics() {
				why += fmt.Sprintf("\npanic at %s: %s\n%s", p.Path, p.Value, p.Stack)
			}
			c.Violation(fmt.Sprintf("under-test-no-answer-%d", m), "device under test, message %d: no answer: %s\nbody %s", m, why, kit.Hex(body))
		} else if !(r.Msg == 255 && r.Refused()) && !(r.Msg == m+1 && r.Status == 200) {
			c.Violation(fmt.Sprintf("under-test-no-protocol-answer-%d", m), "device under test, message %d: neither answer nor protocol error: %s", m, r)
		}
		c.Eval(fmt.Sprintf("ut|%d|%d|%d|%x", m, r.Status, r.Msg, body))
		if a := r.Auth(); a != "" {
			toks = append(toks, a)
		}
		return r
	}
	for k := 0; k < n; k++ {
		// an impertinent device: goes on with whatever it has, sometimes altered
		if t == nil || w.r.IntN(6) == 0 {
			t = w.p.TO2("ECDH256", ref.Suites[0].ID)
			h := t.Hello60()
			t.HelloRaw = ref.Enc(h)
			b := t.HelloRaw
			if w.r.IntN(5) == 0 {
				b = mut.Random(w.r, b)
			}
			r := post(60, "", b)
			t.Tok = r.Auth()
			t.Accept61(r, h)
			if t.Tok == "" {
				t.Tok = toks[w.r.IntN(len(toks))]
			}
			if t.MakeKex() != nil {
				t.Kex, _ = ref.NewKex("ECDH256", true, nil)
				t.Sess = ref.SessKey{ShSe: ref.RandBytes(64)}
			}
		}
		if t1 == nil || w.r.IntN(5) == 0 {
			t1 = &ref.TO1{Conn: w.conn(), Dev: w.p.Dev}
			r := post(30, "", ref.Enc(ref.Hello30{Guid: w.p.Dev.Guid, Sig: ref.SigInfo{Sg: w.p.Dev.Key.Sg, Info: []byte{}}}))
			var a ref.Ack31
			ref.Dec(r.Body, &a)
			t1.Nonce, t1.Tok = a.Nonce, r.Auth()
		}
		enc := func(b []byte) []byte {
			switch w.r.IntN(9) {
			case 0:
				b = mut.Random(w.r, b)
			case 1:
				b = append([]byte{}, b[:w.r.IntN(min(len(b), 24))]...)
			}
			e, err := ref.Wrap(t.Sess, t.Cipher, b, nil)
			if err != nil {
				return b
			}
			return e
		}
		switch []int{32, 62, 62, 62, 64, 64, 66, 66, 68, 68, 70, 70}[w.r.IntN(12)] {
		case 32:
			b := t1.Dev.Key.Sign(ref.EAT{Nonce: t1.Nonce[:], UEID: ref.UEID(t1.Dev.Guid)}.Bytes(), nil).Tagged()
			if w.r.IntN(5) == 0 {
				b = mut.Random(w.r, b)
			}
			post(32, t1.Tok, b)
			t1 = nil
		case 62:
			post(62, t.Tok, ref.Enc([]any{w.r.IntN(3)}))
		case 64:
			b := t.Proof().Bytes()
			if w.r.IntN(5) == 0 {
				b = mut.Random(w.r, b)
			}
			t.Accept65(post(64, t.Tok, b))
		case 66:
			post(66, t.Tok, enc(ref.Enc([]any{nil, nil})))
		case 68:
			post(68, t.Tok, enc(ref.Enc(ref.Msg68{More: w.r.IntN(3) == 0, Info: ref.Mandatory()})))
		case 70:
			post(70, t.Tok, enc(ref.Enc([]any{t.NonceDv})))
		}
	}
	for _, p := range s.Panics() {
		c.Violation("panic-"+p.Path, "handler panic: %s\n%s", p.Value, p.Stack)
	}
}

func main() {
	kit.Main("P14", func(c *kit.Check) {
		c.Rule = "Every posted byte string is answered with status 200 and the following message, or a decodable FDO error with a known code that names the message; a body or content that is not one CBOR item gets the error; no handler panics; honest onboarding works afterwards."
		c.Assume = append(c.Assume, "Only the error's form is judged here, not which error a particular defect deserves.",
			"A client time limit of 120 s stands for no answer at all.")
		oddVouchers(c)
		endless(c)
		c.Parallel(2*len(msgs), func(i int) { short(c, msgs[i/2], i%2 == 0) })
		c.Parallel(2*len(msgs), func(i int) { trailing(c, msgs[i/2], i%2 == 0) })
		rounds, per := c.N(16, 120), c.N(24, 400)
		c.Parallel(rounds, func(i int) { round(c, fmt.Sprint("round", i), per) })
		parts := c.N(4, 4)
		stride := c.N(2, 1) // quick looks at every second structural mutation
		type job struct{ m, p int }
		var jobs []job
		for _, m := range msgs {
			for p := 0; p < parts; p++ {
				jobs = append(jobs, job{m, p})
			}
		}
		c.Parallel(len(jobs), func(i int) {
			off := 0
			if stride > 1 {
				off = int(uint64(c.Seed) % uint64(stride))
			}
			exhaustive(c, jobs[i].m, jobs[i].p+parts*off, parts*stride)
		})
		c.Parallel(c.N(16, 300), func(i int) { underTest(c, fmt.Sprint("ut", i), c.N(50, 200)) })
		for _, m := range msgs {
			c.Require(fmt.Sprintf("message %d sent", m), 100)
		}
		c.Require("protocol error answers", 1000)
		c.Require("accepted", 10)
		c.Require("honest onboarding afterwards", 10)
		c.Require("structural mutations", 500)
		c.Require("message to a device test", 300)
		c.Require("odd voucher", 3)
		c.Require("long voucher", 7)
		c.Require("cut off", 500)
		c.Require("followed by further bytes", 150)
		c.Require("content is not one item", 500)
		c.Require("device registered for tests", 5)
	})
}
