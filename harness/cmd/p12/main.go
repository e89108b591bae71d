// P12: service info is exchanged once, in order, complete and to the right device.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"strings"

	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

var mandatory = []string{"active", "os", "arch", "version", "device", "sep", "bin", "nummodules", "modules"}

func text(r *rand.Rand) []byte {
	n := []int{0, 1, 5, 23, 24, 60, 255, 256, 3000}[r.IntN(9)]
	s := strings.Repeat([]string{"x", "é", "riscv;"}[r.IntN(3)], n)
	return ref.Enc(s[:len(s)-len(s)%6+0])
}

// value of the right kind.
func value(r *rand.Rand, name string) []byte {
	switch name {
	case "active":
		return []byte{0xf5}
	case "nummodules":
		return ref.Enc(uint64(r.IntN([]int{2, 30, 300, 70000}[r.IntN(4)])))
	case "modules":
		m := []any{r.IntN(4), 0}
		for range 1 + r.IntN(5) {
			m = append(m, fmt.Sprint("mod", r.IntN(100)))
		}
		m[1] = len(m) - 2
		return ref.Enc(m)
	}
	return text(r)
}

// wrong is a value that is not of the kind.
func wrong(r *rand.Rand, name string) (string, []byte) {
	type v struct {
		n string
		b []byte
	}
	vs := []v{{"null", []byte{0xf6}}, {"undefined", []byte{0xf7}}, {"nothing", []byte{}}, {"map", ref.Enc(map[int]int{1: 2})}, {"float", ref.Enc(1.5)},
		{"truncated", []byte{0x65, 'a'}}, {"reserved", []byte{0x1c}}, {"negative", ref.Enc(-1)}, {"byte string", ref.Enc([]byte("linux"))}, {"trailing byte", append(value(r, name), 0)}}
	if name != "nummodules" {
		vs = append(vs, v{"number", ref.Enc(7)})
	}
	if name != "active" {
		vs = append(vs, v{"bool", []byte{0xf5}})
	}
	if name != "modules" {
		vs = append(vs, v{"array", ref.Enc([]any{"a"})})
	} else {
		vs = append(vs, v{"short array", ref.Enc([]any{0})}, v{"empty array", ref.Enc([]any{})}, v{"names only", ref.Enc([]any{"a", "b", "c"})}, v{"second not a number", ref.Enc([]any{0, "1", "a"})},
			v{"first negative", ref.Enc([]any{-1, 1, "a"})}, v{"name not text", ref.Enc([]any{0, 2, "a", 5})}, v{"name of bytes", ref.Enc([]any{0, 1, []byte("a")})}, v{"name null", ref.Enc([]any{0, 1, nil})})
		long := []any{0, 0}
		for i := range 3 + r.IntN(60) {
			long = append(long, fmt.Sprint("module", i))
		}
		vs = append(vs, v{"long list ending in a number", ref.Enc(append(append([]any{}, long...), 7))}, v{"long list ending in null", ref.Enc(append(append([]any{}, long...), nil))})
		long[2+r.IntN(len(long)-2)] = []byte("x")
		vs = append(vs, v{"long list with a byte string", ref.Enc(long)})
	}
	switch name {
	case "active", "nummodules", "modules":
		vs = append(vs, v{"text", ref.Enc("text")})
	default:
		vs = append(vs, v{"not UTF-8", []byte{0x62, 0xff, 0xfe}})
	}
	x := vs[r.IntN(len(vs))]
	return x.n, x.b
}

// simList is a complete list in random order with other modules' messages between.
func simList(r *rand.Rand) (l []ref.SIM) {
	for _, n := range mandatory {
		l = append(l, ref.SIM{Key: "devmod:" + n, Val: value(r, n)})
	}
	for range r.IntN(3) {
		n := mandatory[r.IntN(9)]
		l = append(l, ref.SIM{Key: "devmod:" + n, Val: value(r, n)})
	}
	for i := range r.IntN(6) {
		k := []string{"devmod:sn", "devmod:tmp", "fido_alliance:log", "vendor:x", "", "devmod:", "devmod", "fido_alliance:dev_conformance"}[r.IntN(8)]
		l = append(l, ref.SIM{Key: k, Val: kit.Bytes(r, []int{0, 1, 10, i, 4000}[r.IntN(5)])})
	}
	if r.IntN(10) == 0 {
		for range 300 {
			l = append(l, ref.SIM{Key: "bulk:x", Val: kit.Bytes(r, 2)})
		}
	}
	if r.IntN(12) == 0 { // as much as a message may carry
		l = append(l, ref.SIM{Key: "bulk:image", Val: kit.Bytes(r, 65300+r.IntN(220))})
	}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return
}

// split cuts the list, with empty messages here and there.
func split(r *rand.Rand, l []ref.SIM) (out [][]ref.SIM) {
	mode := r.IntN(4)
	for len(l) > 0 {
		n := len(l)
		switch mode {
		case 1:
			n = 1 + r.IntN(len(l))
		case 2:
			n = r.IntN(min(len(l), 4) + 1)
		case 3:
			n = 1
		}
		if len(l) > 100 {
			n = max(n, 20)
		}
		n = min(n, len(l))
		for k := range n {
			if len(l[k].Val) > 60000 { // alone in its message
				n = max(k, 1)
				break
			}
		}
		out = append(out, l[:n])
		l = l[n:]
	}
	if len(out) == 0 || r.IntN(3) == 0 {
		out = append(out, nil)
	}
	return
}

type env struct {
	c   *kit.Check
	s   *sut.SUT
	on  bool
	tok map[ref.Guid]string
}

func (e *env) want(g ref.Guid) []ref.SIM {
	t, ok := e.tok[g]
	if !ok || !e.on {
		return nil
	}
	return []ref.SIM{{Key: "fido_alliance:active", Val: []byte{0xf5}}, {Key: "fido_alliance:dev_conformance", Val: []byte(t)}}
}

func same(a, b []ref.SIM) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Key != b[i].Key || !bytes.Equal(a[i].Val, b[i].Val) {
			return false
		}
	}
	return true
}

func brief(l []ref.SIM) string {
	var b strings.Builder
	for i, s := range l {
		if i > 40 {
			return b.String() + "…"
		}
		fmt.Fprintf(&b, " %s(%d)", s.Key, len(s.Val))
	}
	return b.String()
}

// stored reads what the owner service has collected in the session.
func (e *env) stored(t *ref.TO2) ([]ref.SIM, bool) {
	x, err := dodbs.NewSessionDB(e.s.DB).GetSessionEntry([]byte(strings.TrimPrefix(t.Tok, "Bearer ")))
	if err != nil {
		return nil, false
	}
	var l []ref.SIM
	for _, s := range x.DeviceSIMs {
		l = append(l, ref.SIM{Key: string(s.ServiceInfoKey), Val: s.ServiceInfoVal})
	}
	return l, true
}

// conv is one onboarding whose service info part is driven step by step.
type conv struct {
	e       *env
	r       *rand.Rand
	t       *ref.TO2
	what    string
	batches [][]ref.SIM
	sent    []ref.SIM
	got     []ref.SIM
	done    bool
	rounds  int
	late    bool
}

func (e *env) open(r *rand.Rand, p *sut.Party, what string) *conv {
	t := p.RandTO2(r)
	_, err := t.Hello()
	if err == nil {
		err = t.GetEntries()
	}
	if err == nil {
		_, err = t.Prove()
	}
	if err == nil {
		_, err = t.Ready()
	}
	if err != nil {
		e.c.Violation("honest", "%s: %v", what, err)
		return nil
	}
	return &conv{e: e, r: r, t: t, what: what}
}

func (v *conv) post(more bool, l []ref.SIM) (ref.Msg69, ref.Resp, error) {
	if l == nil {
		l = []ref.SIM{}
	}
	m, resp, err := v.t.Info(more, l)
	if err == nil {
		// the list must be there, even when empty
		var raw []ref.Raw
		ok := ref.Dec(v.t.LastPayload, &raw) == nil && len(raw) == 3 && len(raw[2]) > 0 && raw[2][0]>>5 == 4
		v.e.c.Must(ok, "list-absent", "%s: 69 is %x", v.what, v.t.LastPayload)
		v.sent = append(v.sent, l...)
		v.e.c.CountN("device messages delivered", len(l))
		if len(l) == 1 && len(l[0].Val) > 60000 {
			v.e.c.Count("messages of full size delivered")
		}
	}
	return m, resp, err
}

func (v *conv) checkStored(when string) {
	if got, ok := v.e.stored(v.t); ok {
		v.e.c.Must(same(got, v.sent), "device-list", "%s %s: the owner holds%s, the device sent%s", v.what, when, brief(got), brief(v.sent))
		v.e.c.Count("collected list compared")
	}
}

// next sends one message; false at the end.
func (v *conv) next() bool {
	c := v.e.c
	want := v.e.want(v.t.Dev.Guid)
	if len(v.batches) > 0 {
		b := v.batches[0]
		v.batches = v.batches[1:]
		last := len(v.batches) == 0
		m, _, err := v.post(!last, b)
		if err != nil {
			c.Violation("refused", "%s: %v for%s", v.what, err, brief(b))
			return false
		}
		if !last {
			c.Must(!m.More && !m.Done && len(m.Info) == 0, "interrupts", "%s: the owner answers %+v while the device has more", v.what, m)
			c.Count("rounds with more to come")
			return true
		}
		return v.owner(m, want)
	}
	// the owner's turn; the device may still have something to say
	var l []ref.SIM
	more := false
	if v.r.IntN(3) == 0 {
		v.late = true
		for range v.r.IntN(3) {
			l = append(l, ref.SIM{Key: "vendor:late", Val: kit.Bytes(v.r, 5)})
		}
		more = v.r.IntN(2) == 0
	}
	m, _, err := v.post(more, l)
	if err != nil {
		c.Violation("refused", "%s: owner's turn: %v", v.what, err)
		return false
	}
	if more {
		c.Must(!m.Done && len(m.Info) == 0, "interrupts", "%s: the owner answers %+v while the device has more again", v.what, m)
		return true
	}
	return v.owner(m, want)
}

func (v *conv) owner(m ref.Msg69, want []ref.SIM) bool {
	c := v.e.c
	v.rounds++
	v.got = append(v.got, m.Info...)
	c.CountN("owner messages received", len(m.Info))
	if !m.Done {
		c.Must(m.More, "neither", "%s: round %d neither done nor more", v.what, v.rounds)
		c.Must(len(v.got) < len(want), "not-done", "%s: all of%s sent, not done", v.what, brief(want))
		if v.rounds > len(want)+5 {
			c.Violation("endless", "%s: %d rounds", v.what, v.rounds)
			return false
		}
		return true
	}
	c.Must(!m.More, "done-and-more", "%s: %+v", v.what, m)
	c.Must(same(v.got, want), "owner-list", "%s: the owner sent%s %q, configured%s", v.what, brief(v.got), vals(v.got), brief(want))
	v.done = true
	v.checkStored("at the end")
	// no further rounds
	for range 1 + v.r.IntN(2) {
		resp := v.t.PostEnc(68, ref.Enc(ref.Msg68{More: v.r.IntN(2) == 0, Info: []ref.SIM{{Key: "vendor:after", Val: []byte{1}}}}))
		c.Must(resp.Refused(), "round-after-done", "%s: %s", v.what, resp)
		c.Count("round after done refused")
	}
	v.checkStored("after more rounds")
	if _, err := v.t.Done(); err != nil {
		c.Violation("not-finished", "%s: %v", v.what, err)
	}
	c.Count("exchange complete")
	c.Eval(fmt.Sprintf("exchange own=%d dev=%d late=%v", len(want), min(len(v.sent), 40), v.late))
	return false
}

func vals(l []ref.SIM) (o []string) {
	for _, s := range l {
		o = append(o, string(s.Val))
	}
	return
}

// config makes an owner service with a token mapping and some devices.
func config(c *kit.Check, r *rand.Rand, i int) (*env, []*sut.Party, func()) {
	e := &env{c: c, on: i%4 != 3, tok: map[ref.Guid]string{}}
	var devs []*ref.Device
	var rows [][]string
	n := 4
	for k := range n {
		d := ref.NewDevice(ref.DeviceSgs[r.IntN(2)])
		if k > 0 && r.IntN(2) == 0 { // near twins
			d.Guid = devs[0].Guid
			d.Guid[15-r.IntN(3)] ^= byte(k)
		}
		devs = append(devs, d)
		if k == 0 || r.IntN(3) > 0 {
			t := strings.Repeat(fmt.Sprintf("token-%d-%d-", i, k), 1+r.IntN(30))
			h := hex.EncodeToString(d.Guid[:])
			if r.IntN(2) == 0 {
				h = strings.ToUpper(h)
			}
			rows = append(rows, []string{h, t})
			e.tok[d.Guid] = t
		}
	}
	// mapped, but not here
	rows = append(rows, []string{hex.EncodeToString(kit.Bytes(r, 16)), "somebody else's token"})
	r.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
	js, _ := json.Marshal(rows)
	dash := sut.NewDashboard()
	kv := map[fdoshared.CONFIG_ENTRY]any{fdoshared.CFG_ENV_INTEROP_ENABLED: e.on, fdoshared.CFG_ENV_INTEROP_DASHBOARD_URL: dash.URL,
		fdoshared.CFG_ENV_INTEROP_DASHBOARD_DO_AUTHZ: "do", fdoshared.CFG_ENV_INTEROP_DASHBOARD_RV_AUTHZ: "rv", fdoshared.CFG_ENV_INTEROP_DO_TOKEN_MAPPING: string(js)}
	e.s = sut.New(sut.Opt{KV: kv})
	var ps []*sut.Party
	for _, d := range devs {
		o := ref.GenKeyCached(ref.OwnerSgs[r.IntN(4)])
		p := &sut.Party{Dev: d, Owner: o, URL: e.s.URL, V: ref.BuildVoucher(d, []ref.Key{o, o}, ref.RandRV())}
		if err := e.s.AddVoucher(p.V, o); err != nil {
			c.Broken("%v", err)
		}
		ps = append(ps, p)
	}
	return e, ps, func() {
		for _, p := range e.s.Panics() {
			c.Violation("crash", "%s: %s\n%s", p.Path, p.Value, p.Stack)
		}
		e.s.Close()
		dash.Close()
	}
}

func main() {
	kit.Main("P12", func(c *kit.Check) {
		c.Rule = "one evaluation = one complete exchange, or one incomplete or ill-formed one refused; distinct = (owner list length, device list length, late messages) and (defect, module message)"
		for _, sg := range ref.OwnerSgs {
			ref.GenKeyCached(sg)
		}
		c.Parallel(c.N(24, 200), func(i int) {
			r := c.Rand(fmt.Sprint("cfg", i))
			e, ps, end := config(c, r, i)
			defer end()
			exchanges(e, r, ps)
			defects(e, r, ps)
		})
		c.Require("exchange complete", 150)
		c.Require("collected list compared", 300)
		c.Require("rounds with more to come", 300)
		c.Require("owner messages received", 100)
		c.Require("incomplete refused", 100)
		c.Require("ill-formed refused", 200)
		c.Require("unreadable refused", 50)
	})
}

// exchanges: interleaved sessions of all devices of one service.
func exchanges(e *env, r *rand.Rand, ps []*sut.Party) {
	var live []*conv
	for k := range e.c.N(3, 6) * len(ps) {
		p := ps[k%len(ps)]
		if v := e.open(r, p, fmt.Sprintf("session %d of device %x", k, p.Dev.Guid)); v != nil {
			v.batches = split(r, simList(r))
			live = append(live, v)
		}
	}
	for len(live) > 0 {
		n := r.IntN(len(live))
		if !live[n].next() {
			live = append(live[:n], live[n+1:]...)
		} else if r.IntN(6) == 0 {
			live[n].checkStored("on the way")
		}
	}
}

// defects: lists that must not pass.
func defects(e *env, r *rand.Rand, ps []*sut.Party) {
	c := e.c
	for k, name := range mandatory {
		p := ps[(k+r.IntN(2))%len(ps)]
		// without it
		if v := e.open(r, p, "without "+name); v != nil {
			var l []ref.SIM
			for _, s := range simList(r) {
				if s.Key != "devmod:"+name {
					l = append(l, s)
				} else if r.IntN(2) == 0 {
					l = append(l, ref.SIM{Key: []string{"devmod:" + name + "x", "devmod:" + strings.ToUpper(name), name, "vendor:" + name}[r.IntN(4)], Val: s.Val})
				}
			}
			v.refuse(split(r, l), "incomplete", "without "+name)
			c.Count("incomplete refused")
			c.Eval("without " + name)
		}
		// ill-formed
		for range c.N(2, 6) {
			w, b := wrong(r, name)
			if v := e.open(r, p, name+" as "+w); v != nil {
				l := simList(r)
				for i := range l {
					if l[i].Key == "devmod:"+name {
						l[i].Val = b
						break
					}
				}
				v.refuse(split(r, l), "ill-formed", name+" as "+w)
				c.Count("ill-formed refused")
				c.Eval("ill-formed " + name + " " + w)
			}
		}
	}
	// ill-formed once, well-formed another time
	for _, name := range mandatory {
		w, b := wrong(r, name)
		if v := e.open(r, ps[r.IntN(len(ps))], "also "+name+" as "+w); v != nil {
			l := simList(r)
			at := []int{0, len(l), r.IntN(len(l) + 1)}[r.IntN(3)]
			l = append(append(append([]ref.SIM{}, l[:at]...), ref.SIM{Key: "devmod:" + name, Val: b}), l[at:]...)
			v.refuse(split(r, l), "ill-formed", "also "+name+" as "+w)
			c.Count("ill-formed refused")
			c.Eval("also ill-formed " + name)
		}
	}
	// messages 68 that cannot be read add nothing
	for range 4 {
		p := ps[r.IntN(len(ps))]
		v := e.open(r, p, "unreadable message between")
		if v == nil {
			continue
		}
		v.batches = split(r, simList(r))
		for more := true; more; more = v.next() {
			l := ref.Enc(ref.Msg68{More: true, Info: []ref.SIM{{Key: "vendor:bad", Val: []byte{1}}}})
			bad := [][]byte{{}, {0xf6}, {0x80}, l[:len(l)-1], ref.Enc([]any{true}), ref.Enc([]any{1, []any{}}), ref.Enc([]any{true, []any{[]any{"vendor:bad"}}}), ref.Enc([]any{true, []any{[]any{1, []byte{1}}}}), ref.Enc([]any{true, []any{[]any{"a:b", "text"}}})}[r.IntN(9)]
			resp := v.t.PostEnc(68, bad)
			if bytes.Equal(bad, []byte{0xf6}) && !resp.Refused() {
				c.Count("null taken for an empty message")
				break
			}
			c.Must(resp.Refused(), "unreadable", "%x: %s", bad, resp)
			c.Count("unreadable refused")
			c.Eval(fmt.Sprintf("unreadable %x", bad[:min(2, len(bad))]))
		}
	}
}

// refuse sends batches of which the last must be refused, and the session must not get to its end.
func (v *conv) refuse(bs [][]ref.SIM, sig, what string) {
	c := v.e.c
	for i, b := range bs {
		m, resp, err := v.post(i+1 < len(bs), b)
		if i+1 < len(bs) {
			if err != nil {
				return // refused earlier is as good
			}
			c.Must(!m.Done && len(m.Info) == 0, "interrupts", "%s: %+v", what, m)
			continue
		}
		c.Must(resp.Refused(), sig+"-accepted", "%s: %s %+v, list%s", what, resp, m, brief(v.sent))
	}
	resp := v.t.PostEnc(70, ref.Enc([]any{v.t.NonceDv}))
	c.Must(resp.Refused(), sig+"-finished", "%s: onboarding ends: %s", what, resp)
}
