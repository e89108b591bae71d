// P09: onboarding steps succeed only in protocol order and within one session.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"strings"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// Protocol progress of one session: the last step that succeeded.
const (
	s61   = iota // hello answered
	s63          // at least one entry fetched
	s65          // device proven
	s67          // service info ready
	s69          // service info under way
	sDone        // owner announced completion
	s71          // finished
	sOver        // refused everything since an error: an allowed reaction
)

var names = []string{"61", "63", "65", "67", "69", "69done", "71", "dead"}

// ops a client can try on a session
const (
	oEntry = iota
	oProve
	oReady
	oMore // 68 with more to come
	oLast // 68, device finished
	oDone
	nOps
)

var opNames = []string{"62", "64", "66", "68more", "68last", "70"}
var opMsg = []int{62, 64, 66, 68, 68, 70}

func allowed(st, op int) bool {
	switch op {
	case oEntry:
		return st == s61 || st == s63
	case oProve:
		return st == s63
	case oReady:
		return st == s65
	case oMore, oLast:
		return st == s67 || st == s69
	case oDone:
		return st == sDone
	}
	return false
}

type sess struct {
	p       *sut.Party
	t       *ref.TO2
	st      int
	tainted bool // a message was refused in it
	lates   int
	sentAll bool // mandatory service info went out
	started bool // owner has begun to send
	next    int
	trace   []string
	token   string // owner secret for this device
}

type world struct {
	c      *kit.Check
	s      *sut.SUT
	tokens map[*sut.Party]string
	all    []*sut.Party
}

func (w *world) open(r *rand.Rand, p *sut.Party) *sess {
	x := &sess{p: p, t: p.RandTO2(r), token: w.tokens[p]}
	if _, err := x.t.Hello(); err != nil {
		w.c.Violation("hello", "%v", err)
		return nil
	}
	w.c.Count("session")
	return x
}

// leak: nothing secret of any device, decrypted or not, in a refusal.
func (w *world) leak(x *sess, r ref.Resp, what string) {
	for p, tok := range w.tokens {
		w.c.Must(!bytes.Contains(r.Body, []byte(tok)), "leak", "%s: the answer carries the secret of device %x: %x", what, p.Dev.Guid, r.Body)
	}
	if x != nil && len(x.t.Sess.ShSe) > 0 {
		w.c.Must(!bytes.Contains(r.Body, x.t.Sess.ShSe), "leak", "%s: the answer carries the session secret", what)
	}
}

// body prepares the message an op would send in its place, best effort when it is out of order.
func (x *sess) body(r *rand.Rand, op int) []byte {
	key := x.t.Sess
	enc := func(v any) []byte {
		b, err := ref.Wrap(key, x.t.Cipher, ref.Enc(v), nil)
		if err != nil {
			return []byte{}
		}
		return b
	}
	switch op {
	case oEntry:
		return ref.Enc([]any{x.next % max(1, x.t.NumEntries)})
	case oProve:
		if x.t.Kex == nil {
			x.t.MakeKex()
		}
		return x.t.Proof().Bytes()
	case oReady:
		return enc([]any{ref.MkHmac(x.p.Dev.HmacTyp, x.p.Dev.HmacKey, []byte("x")), uint16(1400)})
	case oMore:
		return enc(ref.Msg68{More: true, Info: x.sims()})
	case oLast:
		return enc(ref.Msg68{More: false, Info: x.sims()})
	}
	return enc([]any{x.t.NonceDv})
}

func (x *sess) sims() []ref.SIM {
	if x.sentAll {
		// asking for the rest, or with more to tell
		return []ref.SIM{{Key: "vendor:late", Val: []byte{1}}, {Key: "vendor:later", Val: []byte{2}}}[:x.late()]
	}
	return ref.Mandatory()
}

// late alternates.
func (x *sess) late() int {
	x.lates++
	return x.lates % 3
}

// accept judges a positive answer to op and advances the model.
func (x *sess) accept(w *world, op int, resp ref.Resp) error {
	switch op {
	case oEntry:
		var p struct {
			_     struct{} `cbor:",toarray"`
			Num   int
			Entry ref.Raw
		}
		if err := ref.Dec(resp.Body, &p); err != nil {
			return err
		}
		i := x.next % x.t.NumEntries
		if p.Num != i || !bytes.Equal(p.Entry, x.p.V.Entries[i]) {
			return fmt.Errorf("entry %d of another voucher or index (%d)", i, p.Num)
		}
		x.next++
		x.st = s63
	case oProve:
		if err := x.t.Accept65(resp); err != nil {
			return err
		}
		if x.t.Setup.Guid != x.p.Dev.Guid {
			return fmt.Errorf("setup for device %x", x.t.Setup.Guid)
		}
		x.st = s65
	case oReady:
		if _, err := x.t.Unwrap(resp, 67); err != nil {
			return err
		}
		x.st = s67
	case oMore, oLast:
		b, err := x.t.Unwrap(resp, 69)
		if err != nil {
			return err
		}
		var m ref.Msg69
		if err := ref.Dec(b, &m); err != nil {
			return err
		}
		x.sentAll = true
		for _, i := range m.Info {
			for p, tok := range w.tokens {
				if p != x.p && bytes.Contains(i.Val, []byte(tok)) {
					return fmt.Errorf("service info of device %x sent to %x", p.Dev.Guid, x.p.Dev.Guid)
				}
			}
		}
		x.t.OwnerSIMs = append(x.t.OwnerSIMs, m.Info...)
		if m.Done {
			x.st = sDone
		} else {
			x.st = s69
		}
	case oDone:
		b, err := x.t.Unwrap(resp, 71)
		if err != nil {
			return err
		}
		var p struct {
			_ struct{} `cbor:",toarray"`
			N ref.Nonce
		}
		if err := ref.Dec(b, &p); err != nil {
			return err
		}
		if p.N != x.t.NonceSetup {
			return fmt.Errorf("setup nonce of another session")
		}
		x.st = s71
	}
	return nil
}

// step sends op in session x and judges the answer.
func (w *world) step(r *rand.Rand, x *sess, op int) {
	c := w.c
	before := x.st
	saved := x.t.NonceSetup
	body := x.body(r, op)
	resp := x.t.Post(opMsg[op], body)
	ok := resp.Ok(opMsg[op] + 1)
	x.trace = append(x.trace, fmt.Sprintf("%s@%s:%v", opNames[op], names[before], ok))
	where := func() string {
		return fmt.Sprintf("device %d owner %d %s cipher %d, history %s: %s", x.p.Dev.Key.Sg, x.p.Owner.Sg, x.t.KexName, x.t.Cipher, strings.Join(x.trace, " "), resp)
	}
	cls := fmt.Sprintf("%s after %s", opNames[op], names[before])
	c.Eval(cls)
	if allowed(before, op) {
		if !ok {
			if x.tainted {
				// a service may give up a session after an error in it
				c.Must(resp.Refused(), "answer", "%s", where())
				x.st = sOver
				c.Count("given up after error")
				return
			}
			c.Violation("refused-"+opNames[op], "in order but refused: %s", where())
			x.st = sOver
			return
		}
		if err := x.accept(w, op, resp); err != nil {
			c.Violation("content-"+opNames[op], "%v: %s", err, where())
			x.st = sOver
			return
		}
		c.Must(resp.Auth() == x.t.Tok, "token", "session token changed to %q: %s", resp.Auth(), where())
		c.Count("step accepted")
		return
	}
	if op == oProve {
		x.t.NonceSetup = saved
	}
	c.Must(resp.Refused(), "out-of-order-"+opNames[op]+"-after-"+names[before], "%s body=%x", where(), resp.Body)
	w.leak(x, resp, where())
	x.tainted = true
	c.Count("step refused")
	c.Sample(cls, "%s", resp)
}

// next is the op that follows the protocol, or -1.
func (x *sess) honest() int {
	switch x.st {
	case s61:
		return oEntry
	case s63:
		if x.next < x.t.NumEntries {
			return oEntry
		}
		return oProve
	case s65:
		return oReady
	case s67, s69:
		return oLast
	case sDone:
		return oDone
	}
	return -1
}

func (w *world) finish(r *rand.Rand, x *sess) {
	for n := 0; n < 300; n++ {
		op := x.honest()
		if op < 0 {
			break
		}
		w.step(r, x, op)
	}
	c := w.c
	if x.st == s71 {
		c.Count("completed")
		if x.token != "" {
			got := ""
			for _, i := range x.t.OwnerSIMs {
				got += string(i.Val)
			}
			c.Must(strings.Contains(got, x.token), "owner-info", "device %x did not get its own service info: %v", x.p.Dev.Guid, x.t.OwnerSIMs)
		}
	} else {
		c.Must(x.tainted, "not-completed", "a session that followed the protocol ended in %s: %v", names[x.st], x.trace)
	}
}

// foreign sends a message of x under a token that is not its own.
func (w *world) foreign(r *rand.Rand, x, y *sess, other []string) {
	c := w.c
	op := oProve + r.IntN(nOps-oProve)
	if x.t.Kex == nil {
		x.t.MakeKex()
	}
	saved := x.t.NonceSetup
	body := x.body(r, op)
	x.t.NonceSetup = saved
	kind, tok := "none", ""
	switch k := r.IntN(5); {
	case k == 0:
	case k == 1:
		kind, tok = "invented", "Bearer "+[]string{"8d8ac610-566d-4ef0-9c22-186b2a5ed793", "x", "session-", strings.Repeat("a", 2000), "../" + x.t.Tok[7:], strings.ToUpper(x.t.Tok[7:])}[r.IntN(6)]
		if tok == x.t.Tok {
			return
		}
	case k == 2 && len(other) > 0:
		kind, tok = "rendezvous", other[r.IntN(len(other))]
	default:
		if y == x {
			return
		}
		kind, tok = "session", y.t.Tok
		y.tainted = true
	}
	conn := ref.Conn{Base: x.t.Base, Tok: tok}
	resp := conn.Post(opMsg[op], body)
	what := fmt.Sprintf("%s of session %s under a foreign token (%s %q) in state %s", opNames[op], names[x.st], kind, tok, names[y.st])
	c.Must(resp.Refused(), "foreign-"+kind, "%s: %s", what, resp)
	w.leak(x, resp, what)
	c.Eval("foreign " + kind + " " + opNames[op])
	c.Count("foreign refused")
}

// emptyKey sends an encrypted message under keys anyone can derive.
func (w *world) emptyKey(r *rand.Rand, x *sess) {
	c := w.c
	k := []ref.SessKey{{}, {ShSe: []byte{}, Ctx: []byte{}}, {ShSe: make([]byte, 32)}, {ShSe: x.t.XA}}[r.IntN(4)]
	op := oReady + r.IntN(nOps-oReady)
	saved := x.t.Sess
	x.t.Sess = k
	body := x.body(r, op)
	x.t.Sess = saved
	resp := x.t.Post(opMsg[op], body)
	x.tainted = true
	c.Must(resp.Refused(), "empty-key", "%s under a guessable key in state %s: %s", opNames[op], names[x.st], resp)
	w.leak(x, resp, "guessable key")
	c.Eval("empty key " + opNames[op] + names[x.st])
	c.Count("foreign refused")
}

func main() {
	kit.Main("P09", func(c *kit.Check) {
		c.Rule = "one evaluation = one protocol message judged by the session automaton; distinct = (message, state of its session) and (kind of foreign token, message)"
		for _, sg := range ref.OwnerSgs {
			ref.GenKeyCached(sg)
		}
		d := sut.NewDashboard()
		defer d.Close()
		// devices are created first, so that the configuration can name them
		r := c.Rand("parties")
		w := &world{c: c, tokens: map[*sut.Party]string{}}
		var mapping [][]string
		for i := 0; i < 12; i++ {
			dev := ref.NewDevice(ref.DeviceSgs[i%2])
			own := ref.GenKeyCached(ref.OwnerSgs[(i/2)%4])
			p := &sut.Party{Dev: dev, Owner: own}
			keys := []ref.Key{}
			for n := 0; n <= r.IntN(3); n++ {
				keys = append(keys, ref.GenKeyCached(own.Sg))
			}
			p.V = ref.BuildVoucher(dev, append(keys, own), ref.RandRV())
			if i%3 != 2 {
				w.tokens[p] = fmt.Sprintf("secret-of-%d-%x", i, kit.Bytes(r, 12))
				mapping = append(mapping, []string{fmt.Sprintf("%x", dev.Guid[:]), w.tokens[p]})
			}
			w.all = append(w.all, p)
		}
		mj, _ := json.Marshal(mapping)
		w.s = sut.New(sut.Opt{KV: map[fdoshared.CONFIG_ENTRY]any{
			fdoshared.CFG_ENV_INTEROP_ENABLED: true, fdoshared.CFG_ENV_INTEROP_DASHBOARD_URL: d.URL, fdoshared.CFG_ENV_INTEROP_DO_TOKEN_MAPPING: string(mj)}})
		defer w.s.Close()
		for _, p := range w.all {
			p.URL = w.s.URL
			if err := w.s.AddVoucher(p.V, p.Owner); err != nil {
				c.Broken("%v", err)
			}
		}
		w.suffixes()
		w.interleaved()
		w.matrix()
		w.endings()
		for _, p := range w.s.Panics() {
			c.Violation("crash", "%s: %s\n%s", p.Path, p.Value, p.Stack)
		}
		c.Require("completed", 100)
		c.Require("step refused", 500)
		c.Require("foreign refused", 100)
		c.Require("final message with another nonce refused", 100)
	})
}

// endings: the final message is answered only if it repeats the nonce this session issued for the proof.
func (w *world) endings() {
	c := w.c
	c.Parallel(c.N(24, 300), func(i int) {
		r := c.Rand(fmt.Sprint("ending", i))
		x, y := w.open(r, w.all[i%len(w.all)]), w.open(r, w.all[r.IntN(len(w.all))])
		if x == nil || y == nil {
			return
		}
		for k := 0; k < 200 && x.honest() != oDone && x.st != s71; k++ {
			w.step(r, x, x.honest())
		}
		if x.honest() != oDone || x.st == s71 {
			return // reported by step
		}
		bit := func(k int) ref.Nonce {
			n := x.t.NonceDv
			n[k] ^= 1 << r.IntN(8)
			return n
		}
		var rev ref.Nonce
		for k, b := range x.t.NonceDv {
			rev[15-k] = b
		}
		for what, b := range map[string]any{
			"the setup nonce":                    []any{x.t.NonceSetup},
			"the nonce of the hello":             []any{x.t.NonceOV},
			"the proof nonce of another session": []any{y.t.NonceDv},
			"a fresh nonce":                      []any{ref.NewNonce()},
			"zeros":                              []any{ref.Nonce{}},
			"its first byte changed":             []any{bit(0)},
			"its last byte changed":              []any{bit(15)},
			"one bit changed":                    []any{bit(1 + r.IntN(14))},
			"it reversed":                        []any{rev},
			"its first half":                     []any{x.t.NonceDv[:8]},
			"an empty nonce":                     []any{[]byte{}},
			"no nonce":                           []any{},
			"a null nonce":                       []any{nil},
			"the GUID":                           []any{x.p.Dev.Guid},
			"null":                               nil,
		} {
			resp := x.t.PostEnc(70, ref.Enc(b))
			if resp.Refused() {
				c.Count("final message with another nonce refused")
			} else {
				c.Violation("final-nonce", "device %d owner %d %s cipher %d: a final message with %s instead of the proof nonce: %s", x.p.Dev.Key.Sg, x.p.Owner.Sg, x.t.KexName, x.t.Cipher, what, resp)
				return
			}
			c.Eval("ending/" + what)
		}
	})
}

// suffixes: from every honest prefix, every sequence of the next few messages.
func (w *world) suffixes() {
	c := w.c
	depth := c.N(3, 5)
	n := 1
	for i := 0; i < depth; i++ {
		n *= nOps
	}
	prefixes := 7
	c.Parallel(n*prefixes, func(i int) {
		r := c.Rand(fmt.Sprint("suffix", i))
		prefix, code := i%prefixes, i/prefixes
		x := w.open(r, w.all[r.IntN(len(w.all))])
		if x == nil {
			return
		}
		// cheap suites: the order is what matters here
		for k := 0; k < 200 && x.st < prefix && x.st != s71; k++ {
			op := x.honest()
			if x.st == s67 && prefix == s69 {
				op = oMore
			}
			if x.st == s69 && prefix == s69 {
				break
			}
			if prefix == s63 && x.st == s63 {
				break
			}
			w.step(r, x, op)
		}
		for k := 0; k < depth; k++ {
			w.step(r, x, code%nOps)
			code /= nOps
		}
		w.finish(r, x)
		c.Count("orderings")
	})
	c.Extra("orderings_per_prefix", n)
}

// interleaved: several sessions at once, random steps, token swaps.
func (w *world) interleaved() {
	c := w.c
	c.Parallel(c.N(150, 4000), func(i int) {
		r := c.Rand(fmt.Sprint("inter", i))
		// a few rendezvous tokens
		var other []string
		for k := 0; k < 2; k++ {
			t := ref.TO0{Conn: ref.Conn{Base: w.s.URL}}
			t.Hello()
			other = append(other, t.Tok)
		}
		var xs []*sess
		same := w.all[r.IntN(len(w.all))]
		for k := 0; k < 4; k++ {
			p := same // two sessions of one device, others anywhere
			if k > 1 {
				p = w.all[r.IntN(len(w.all))]
			}
			if x := w.open(r, p); x != nil {
				xs = append(xs, x)
			}
		}
		if len(xs) < 4 {
			return
		}
		clean := r.IntN(4) // this one only follows the protocol and is never touched
		for k := 0; k < 60; k++ {
			x := xs[r.IntN(len(xs))]
			if x == xs[clean] {
				if op := x.honest(); op >= 0 {
					w.step(r, x, op)
				}
				continue
			}
			y := xs[r.IntN(len(xs))]
			if y == xs[clean] {
				y = x
			}
			switch q := r.IntN(10); {
			case q < 5:
				if op := x.honest(); op >= 0 {
					w.step(r, x, op)
				} else {
					w.step(r, x, r.IntN(nOps))
				}
			case q < 7:
				w.step(r, x, r.IntN(nOps))
			case q == 7:
				w.emptyKey(r, x)
			default:
				w.foreign(r, x, y, other)
			}
		}
		for _, k := range r.Perm(len(xs)) {
			w.finish(r, xs[k])
		}
		tok, key := map[string]bool{}, map[string]bool{}
		for _, x := range xs {
			c.Must(!tok[x.t.Tok], "token-shared", "two sessions share the token %q", x.t.Tok)
			tok[x.t.Tok] = true
			if len(x.t.Sess.ShSe) > 0 {
				c.Must(!key[string(x.t.Sess.ShSe)], "key-shared", "two sessions share their keys")
				key[string(x.t.Sess.ShSe)] = true
			}
		}
		c.Eval("interleaved")
	})
}

// matrix: every combination of key types, key exchange and cipher completes.
func (w *world) matrix() {
	c := w.c
	type combo struct {
		dev, own int
		kex      string
		cipher   int
	}
	var all []combo
	for _, dv := range ref.DeviceSgs {
		for _, ow := range ref.OwnerSgs {
			for _, k := range ref.KexSuites {
				if (k == "ASYMKEX2048" && ow != ref.SgRS2048) || (k == "ASYMKEX3072" && ow != ref.SgRS3072) {
					continue
				}
				for _, ci := range sut.Ciphers() {
					all = append(all, combo{dv, ow, k, ci})
				}
			}
		}
	}
	r := c.Rand("matrix")
	if !c.Thorough() {
		// every pair of values at least once is reached by a third of the combinations
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		all = all[:len(all)/3]
	}
	c.Extra("suite_combinations", len(all))
	c.Parallel(len(all), func(i int) {
		r := c.Rand(fmt.Sprint("matrix", i))
		k := all[i]
		var p *sut.Party
		for _, q := range w.all {
			if q.Dev.Key.Sg == k.dev && q.Owner.Sg == k.own && (p == nil || r.IntN(2) == 0) {
				p = q
			}
		}
		x := &sess{p: p, t: p.TO2(k.kex, k.cipher), token: w.tokens[p]}
		if _, err := x.t.Hello(); err != nil {
			c.Violation("hello", "%+v: %v", k, err)
			return
		}
		w.finish(r, x)
		c.Eval(fmt.Sprint(k))
	})
}
