// P28: interop reporting tells the dashboard exactly what has been completed, and nothing else depends on it.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to0"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	tdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	listenertestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"

	"verif.local/harness/kit"
	"verif.local/harness/lst"
	"verif.local/harness/mut"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// event is what the dashboard has to be told.
type event struct {
	auth  string
	guid  ref.Guid
	proto int
	nonce ref.Nonce
}

func (e event) String() string {
	return fmt.Sprintf("TO%d of device %x nonce %x as %q", e.proto, e.guid, e.nonce, e.auth)
}

// book collects what must have been reported.
type book struct {
	sync.Mutex
	want  map[event]int
	about map[ref.Nonce]string
}

func newBook() *book { return &book{want: map[event]int{}, about: map[ref.Nonce]string{}} }

func (b *book) expect(e event) {
	b.Lock()
	defer b.Unlock()
	b.want[e]++
}

// note remembers how a session went, for the reports.
func (b *book) note(n ref.Nonce, what string) {
	b.Lock()
	defer b.Unlock()
	b.about[n] += what + "; "
}

var answers atomic.Int64

// modes of the dashboard
var modes = []struct {
	name string
	f    func(http.ResponseWriter)
}{
	{"plain", nil},
	{"body", func(w http.ResponseWriter) { w.Write(make([]byte, 1<<20)) }},
	{"500 junk", func(w http.ResponseWriter) { w.WriteHeader(500); w.Write([]byte("no\xff")) }},
	{"500 empty", func(w http.ResponseWriter) { w.WriteHeader(500) }},
	{"fdo error", func(w http.ResponseWriter) {
		w.WriteHeader(500)
		w.Write(ref.Enc([]any{500, 32, "dashboard is unhappy", 0, 1}))
	}},
	{"401", func(w http.ResponseWriter) { w.WriteHeader(401) }},
	{"404", func(w http.ResponseWriter) { http.Error(w, "not here", 404) }},
	{"message", func(w http.ResponseWriter) {
		w.Header().Set("Message-Type", "255")
		w.Header().Set("Authorization", "dash")
		w.Write(ref.Enc([]any{1}))
	}},
	{"varied", func(w http.ResponseWriter) {
		l := []int{503, 429, 502, 408, 201, 202, 204, 301, 308, 400, 403, 409, 504, 503}
		w.Header().Set("Retry-After", "0")
		w.WriteHeader(l[int(answers.Add(1))%len(l)])
	}},
	{"busy", func(w http.ResponseWriter) { w.Header().Set("Retry-After", "0"); w.WriteHeader(503) }},
	{"closed", func(w http.ResponseWriter) { panic(http.ErrAbortHandler) }},
	{"slow", func(w http.ResponseWriter) { time.Sleep(30 * time.Millisecond) }},
	{"gone", nil},
	{"off", nil},
}

var bases = []string{"", "/", "/base", "/base/", "/a/b", "/x%20y"}

type world struct {
	c     *kit.Check
	dash  *sut.Dashboard
	base  string
	mode  string
	s     *sut.SUT
	rv    string
	do    string
	b     *book
	token map[ref.Guid]string
}

func (w *world) kv(mapping string) map[fdoshared.CONFIG_ENTRY]any {
	return map[fdoshared.CONFIG_ENTRY]any{fdoshared.CFG_ENV_INTEROP_ENABLED: w.mode != "off", fdoshared.CFG_ENV_INTEROP_DASHBOARD_URL: w.dash.URL + w.base,
		fdoshared.CFG_ENV_INTEROP_DASHBOARD_DO_AUTHZ: w.do, fdoshared.CFG_ENV_INTEROP_DASHBOARD_RV_AUTHZ: w.rv, fdoshared.CFG_ENV_INTEROP_DO_TOKEN_MAPPING: mapping}
}

func newDash(w *world, r *rand.Rand, i int) {
	m := modes[i%len(modes)]
	w.mode = m.name
	w.base = bases[r.IntN(len(bases))]
	w.dash = sut.NewDashboard()
	w.dash.Config.ErrorLog = nil
	w.dash.Answer = m.f
	if m.name == "gone" {
		w.dash.CloseClientConnections()
		w.dash.Close()
	}
	w.rv, w.do = fmt.Sprintf("Bearer rv-%d", i), fmt.Sprintf("Bearer do %d", i)
	if r.IntN(4) == 0 {
		w.do = w.rv // one account for both
	}
	w.b = newBook()
}

func (w *world) silent() bool { return w.mode == "off" || w.mode == "gone" }

func (w *world) path() string {
	u := strings.ReplaceAll(w.base, "%20", " ")
	return strings.TrimSuffix(u, "/") + "/logger/101/msg"
}

// settle compares what was reported with what was completed; extra holds events that may or may not come.
func (w *world) settle(what string, extra map[event]bool) {
	c := w.c
	got := map[event]int{}
	var all []sut.IopEvent
	short := func() bool {
		for e, n := range w.b.want {
			if got[e] < n {
				return true
			}
		}
		return false
	}
	pull := func() {
		for _, x := range w.dash.Events() {
			all = append(all, x)
			got[event{x.Auth, x.Guid, x.Proto, x.Nonce}]++
		}
	}
	if w.silent() {
		pull()
		for _, x := range all {
			c.Violation("reported-while-off", "%s: without interop reporting the dashboard is told %x", what, x.Raw)
		}
		c.Count("quiet configurations")
		return
	}
	pull()
	for k := 0; k < 200 && short(); k++ {
		time.Sleep(50 * time.Millisecond)
		pull()
	}
	time.Sleep(50 * time.Millisecond)
	pull()
	for _, x := range all {
		bad := ""
		switch {
		case x.Bad != "":
			bad = "unreadable: " + x.Bad
		case string(x.Raw) != string(ref.Enc([]any{x.Guid[:], x.Proto, x.Nonce[:]})):
			bad = "not the three elements"
		case x.Method != "POST":
			bad = "method " + x.Method
		case x.Path != w.path():
			bad = fmt.Sprintf("path %q for base %q", x.Path, w.base)
		case x.Type != "application/cbor":
			bad = "content type " + x.Type
		}
		c.Must(bad == "", "event-form", "%s: %s: %x", what, bad, x.Raw)
		c.Count("events received")
	}
	for e, n := range w.b.want {
		g := got[e]
		c.CountN("completed exchanges compared", n)
		switch {
		case g < n:
			c.Violation(fmt.Sprintf("not-reported/TO%d", e.proto), "%s, dashboard %s: %s completed %d times, reported %d times (%s)", what, w.mode, e, n, g, w.b.about[e.nonce])
		case g > n:
			c.Violation(fmt.Sprintf("reported-again/TO%d", e.proto), "%s, dashboard %s: %s completed %d times, reported %d times (%s)", what, w.mode, e, n, g, w.b.about[e.nonce])
		}
	}
	for e, n := range got {
		if w.b.want[e] == 0 && !extra[e] {
			c.Violation(fmt.Sprintf("false-report/TO%d", e.proto), "%s, dashboard %s: %d times reported %s, but no such exchange was completed (session: %q)", what, w.mode, n, e, w.b.about[e.nonce])
		}
	}
}

func main() {
	kit.Main("P28", func(c *kit.Check) {
		c.Rule = "one evaluation = one exchange, completed or not, whose report (or absence of one) was compared with the dashboard's log; distinct = (protocol, course of the session, dashboard behaviour)"
		c.Assume = append(c.Assume, "A dashboard that never answers (the tool waits up to 30 s for it) is not explored.",
			"Whether a genuine answer given during a conformance run is reported is not judged; a defective one must not be.")
		for _, sg := range ref.OwnerSgs {
			ref.GenKeyCached(sg)
		}
		done := make(chan bool)
		go func() {
			defer close(done)
			if p := kit.Try(func() { cli(c) }); p != "" {
				c.Broken("cli: %s", p)
			}
		}()
		c.Parallel(c.N(36, 360), func(i int) { servers(c, i) })
		c.Parallel(c.N(24, 240), func(i int) { client(c, i) })
		c.Parallel(c.N(16, 160), func(i int) { conformance(c, i) })
		<-done
		c.Require("events received", 300)
		c.Require("completed TO0", 60)
		c.Require("completed TO1", 60)
		c.Require("completed TO2", 60)
		c.Require("refused", 100)
		c.Require("abandoned", 30)
		c.Require("quiet configurations", 4)
		c.Require("client registrations", 20)
		c.Require("client refusals", 10)
		c.Require("defective conformance answers", 60)
		c.Require("program runs compared", 6)
		c.Require("accounts given to devices compared", 60)
	})
}

// others adds rows of devices that are not here, so that a row may be anywhere in a short or long list.
func others(r *rand.Rand, rows [][]string) [][]string {
	n := []int{0, 0, 3, 8, 13, 20, 40}[r.IntN(7)]
	for k := range n {
		g := ref.NewGuid()
		rows = append(rows, []string{hex.EncodeToString(g[:]), fmt.Sprintf("token of another %d", k)})
	}
	r.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
	return rows
}

// servers: concurrent clients of a rendezvous and owner service.
func servers(c *kit.Check, i int) {
	r := c.Rand(fmt.Sprint("srv", i))
	w := &world{c: c, token: map[ref.Guid]string{}}
	newDash(w, r, i)
	var rows [][]string
	var ds []*ref.Device
	for k := range 4 {
		d := ref.NewDevice(ref.DeviceSgs[(i+k)%2])
		ds = append(ds, d)
		if k%2 == 0 {
			w.token[d.Guid] = fmt.Sprintf("token %d", k)
			rows = append(rows, []string{hex.EncodeToString(d.Guid[:]), w.token[d.Guid]})
		}
	}
	rows = others(r, rows)
	js, _ := json.Marshal(rows)
	w.s = sut.New(sut.Opt{KV: w.kv(string(js))})
	defer func() {
		for _, p := range w.s.Panics() {
			c.Violation("crash", "%s: %s\n%s", p.Path, p.Value, p.Stack)
		}
		w.s.Close()
		if w.mode != "gone" {
			w.dash.Close()
		}
	}()
	var ps []*sut.Party
	for _, d := range ds {
		o := ref.GenKeyCached(ref.OwnerSgs[r.IntN(4)])
		p := &sut.Party{Dev: d, Owner: o, URL: w.s.URL, V: ref.BuildVoucher(d, []ref.Key{o, o}, ref.RandRV())}
		if err := w.s.AddVoucher(p.V, o); err != nil {
			c.Broken("%v", err)
		}
		ps = append(ps, p)
		w.register(r, p, "first")
	}
	var wg sync.WaitGroup
	for a := range 5 {
		ar := c.Rand(fmt.Sprint("srv", i, "actor", a))
		wg.Add(1)
		go func() {
			defer wg.Done()
			if p := kit.Try(func() {
				for range c.N(7, 14) {
					p := ps[ar.IntN(len(ps))]
					switch ar.IntN(4) {
					case 0:
						w.register(ar, p, []string{"honest", "wrong nonce", "wrong key", "mutated", "other voucher", "repeated", "abandoned"}[ar.IntN(7)])
					case 1:
						w.device(ar, p, 1)
					default:
						w.device(ar, p, 2)
					}
				}
			}); p != "" {
				c.Broken("actor: %s", p)
			}
		}()
	}
	wg.Wait()
	w.settle("servers", nil)
}

// tokens looks whether the owner gives the device the account it is mapped to, and no other.
func (w *world) tokens(g ref.Guid, given []ref.SIM) {
	var got []string
	active := false
	for _, x := range given {
		switch x.Key {
		case "fido_alliance:active":
			active = true
		case "fido_alliance:dev_conformance":
			got = append(got, string(x.Val))
		}
	}
	want := []string{}
	if w.mode != "off" && w.token[g] != "" {
		want = append(want, w.token[g])
	}
	w.c.Must(active == (len(want) > 0) && fmt.Sprint(got) == fmt.Sprint(want), "device-account", "dashboard %s: device %x is given the accounts %q, is mapped to %q", w.mode, g, got, want)
	w.c.Count("accounts given to devices compared")
}

// register plays TO0.
func (w *world) register(r *rand.Rand, p *sut.Party, how string) {
	c := w.c
	t := &ref.TO0{Conn: ref.Conn{Base: p.URL}}
	if _, err := t.Hello(); err != nil {
		c.Violation("honest-refused", "dashboard %s: %v", w.mode, err)
		return
	}
	w.b.note(t.Nonce, "TO0 "+how)
	c.Eval(fmt.Sprint("to0 ", how, " ", w.mode))
	o := p.OwnerSign(t.Nonce)
	switch how {
	case "abandoned":
		c.Count("abandoned")
		return
	case "wrong nonce":
		o.Nonce = ref.NewNonce()
	case "wrong key":
		o.Signer = ref.GenKey(ref.SgES256)
	case "other voucher":
		x := ref.BuildVoucher(ref.NewDevice(p.Dev.Key.Sg), []ref.Key{p.Owner, p.Owner}, ref.RandRV())
		x.Hmac, x.Entries = p.V.Hmac, p.V.Entries
		o.Voucher = x.Bytes()
	}
	b, _ := o.Build()
	if how == "mutated" {
		b = mut.Random(r, b)
	}
	n := 1
	if how == "repeated" {
		n = 2
	}
	for k := range n {
		resp := t.Post(22, b)
		if resp.Ok(23) {
			// whatever was accepted is this device's voucher
			w.b.expect(event{w.rv, p.Dev.Guid, 0, t.Nonce})
			c.Count("completed TO0")
		} else if resp.Err == nil {
			c.Count("refused")
		}
		if k == 0 && (how == "first" || how == "honest" || how == "repeated") {
			if _, err := ref.AcceptedWait(resp); err != nil {
				c.Violation("honest-refused", "dashboard %s: registration: %v: %s", w.mode, err, resp)
			}
		}
		if how == "wrong nonce" || how == "wrong key" {
			c.Must(!resp.Ok(23), "accepted-wrong", "%s: %s", how, resp)
		}
	}
}

func (w *world) complete(x *lst.Sess, to int) {
	if to == 1 {
		w.b.expect(event{w.rv, x.P.Dev.Guid, 1, x.T1.Nonce})
		w.c.Count("completed TO1")
		return
	}
	w.b.expect(event{w.do, x.P.Dev.Guid, 2, x.T2.NonceSetup})
	w.c.Count("completed TO2")
}

func (w *world) noteSess(x *lst.Sess, what string) {
	if x.T1 != nil {
		w.b.note(x.T1.Nonce, what)
	} else {
		w.b.note(x.T2.NonceSetup, what)
	}
}

// device plays TO1 or TO2 with mistakes, repetitions and early ends.
func (w *world) device(r *rand.Rand, p *sut.Party, to int) {
	c := w.c
	x := lst.Open(p, r, to)
	last := lst.Steps(to)[len(lst.Steps(to))-1]
	spoilAt, leaveAt, again := 0, 0, false
	st := lst.Steps(to)
	switch r.IntN(5) {
	case 0:
		spoilAt = st[r.IntN(len(st))]
	case 1:
		leaveAt = st[r.IntN(len(st))]
	case 2:
		spoilAt = last
	case 3:
		again = true
	}
	c.Eval(fmt.Sprint("to", to, " spoil ", spoilAt, " leave ", leaveAt, " again ", again, " ", w.mode))
	hurt := false
	for {
		if x.Due == leaveAt {
			w.noteSess(x, "abandoned")
			c.Count("abandoned")
			return
		}
		if x.Due == spoilAt && !hurt {
			hurt = true
			what, resp := x.Spoil(r)
			w.noteSess(x, fmt.Sprintf("%s at %d", what, x.Due))
			if resp.Err != nil {
				c.Violation("no-answer", "dashboard %s: %d: %v", w.mode, x.Due, resp.Err)
				return
			}
			c.Must(!resp.Ok(x.Due+1), "accepted-wrong", "%d with %s is accepted", x.Due, what)
			c.Count("refused")
			if x.Due == 30 || x.Due == 60 || r.IntN(2) == 0 {
				return
			}
		}
		due := x.Due
		resp := x.Send()
		if due == last {
			w.noteSess(x, "last message sent")
		}
		if due == last && resp.Ok(last+1) {
			w.complete(x, to)
		}
		if err := x.Accept(resp); err != nil {
			// a session may be over after a refusal
			c.Must(hurt, "honest-refused", "dashboard %s: %d: %v", w.mode, due, err)
			return
		}
		var given []ref.SIM
		for due == 68 {
			var m ref.Msg69
			b, err := x.T2.Unwrap(resp, 69)
			if err == nil {
				err = ref.Dec(b, &m)
			}
			if err != nil {
				c.Must(hurt, "honest-refused", "dashboard %s: 68: %v", w.mode, err)
				return
			}
			if given = append(given, m.Info...); m.Done {
				if !hurt {
					w.tokens(p.Dev.Guid, given)
				}
				break
			}
			resp = x.T2.PostEnc(68, ref.Enc(ref.Msg68{More: false, Info: []ref.SIM{}}))
		}
		if due == last && again {
			for range 2 {
				if resp := x.Send(); resp.Ok(last + 1) {
					w.complete(x, to)
				} else {
					c.Count("refused")
				}
			}
		}
		if !x.Next(resp) {
			return
		}
	}
}

// client: the owner service's own TO0 client against a rendezvous whose answers are sometimes spoilt on the way.
func client(c *kit.Check, i int) {
	r := c.Rand(fmt.Sprint("client", i))
	w := &world{c: c}
	newDash(w, r, i)
	defer func() {
		if w.mode != "gone" {
			w.dash.Close()
		}
	}()
	var spoil func(msg int, rec *httptest.ResponseRecorder)
	var last *httptest.ResponseRecorder
	rv := sut.New(sut.Opt{Tap: func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
			rec := httptest.NewRecorder()
			h.ServeHTTP(rec, q)
			last = rec
			if strings.HasSuffix(q.URL.Path, "/22") && spoil != nil {
				spoil(22, rec)
			} else if strings.HasSuffix(q.URL.Path, "/20") && spoil != nil {
				spoil(20, rec)
			}
			for k, v := range rec.Header() {
				rw.Header()[k] = v
			}
			rw.WriteHeader(rec.Code)
			rw.Write(rec.Body.Bytes())
		})
	}})
	defer rv.Close()
	ctx := sut.Context("http://owner.example.org:8043", w.kv("[]"))
	body := func(rec *httptest.ResponseRecorder, b []byte) { rec.Body.Reset(); rec.Body.Write(b) }
	lies := []struct {
		name string
		f    func(int, *httptest.ResponseRecorder)
	}{
		{"honest", nil}, {"honest", nil},
		{"status", func(m int, rec *httptest.ResponseRecorder) {
			if m == 22 {
				rec.Code = 500
			}
		}},
		{"error", func(m int, rec *httptest.ResponseRecorder) {
			if m == 22 {
				rec.Code = 500
				rec.Header().Set("Message-Type", "255")
				body(rec, ref.Enc([]any{2, 22, "no", 0, 1}))
			}
		}},
		{"junk", func(m int, rec *httptest.ResponseRecorder) {
			if m == 22 {
				body(rec, []byte{0xff, 0})
			}
		}},
		{"error with 200", func(m int, rec *httptest.ResponseRecorder) {
			if m == 22 {
				rec.Header().Set("Message-Type", "255")
				body(rec, ref.Enc([]any{2, 22, "no", 0, 1}))
			}
		}},
		{"type", func(m int, rec *httptest.ResponseRecorder) {
			if m == 22 {
				rec.Header().Set("Message-Type", "33")
			}
		}},
		{"nonce", func(m int, rec *httptest.ResponseRecorder) {
			if m == 20 {
				n := ref.NewNonce()
				body(rec, ref.Enc([]any{n[:]}))
			}
		}},
		{"no session", func(m int, rec *httptest.ResponseRecorder) {
			if m == 20 {
				rec.Header().Set("Authorization", "Bearer nothing")
			}
		}},
		{"empty", func(m int, rec *httptest.ResponseRecorder) {
			if m == 22 {
				body(rec, nil)
			}
		}},
	}
	for k, l := range lies {
		p := &sut.Party{Dev: ref.NewDevice(ref.DeviceSgs[(i+k)%2]), Owner: ref.GenKeyCached(ref.OwnerSgs[r.IntN(4)])}
		p.V = ref.BuildVoucher(p.Dev, []ref.Key{p.Owner, p.Owner}, ref.RandRV())
		rec, err := sut.Record(p.V, p.Owner)
		if err != nil {
			c.Broken("%v", err)
		}
		spoil = l.f
		var nonce ref.Nonce
		crash := kit.Try(func() {
			q := to0.NewTo0Requestor(fdoshared.SRVEntry{SrvURL: rv.URL}, rec, ctx)
			a, _, e := q.Hello20(testcom.NULL_TEST)
			if e != nil {
				err = e
				return
			}
			nonce = ref.Nonce(a.NonceTO0Sign)
			_, _, err = q.OwnerSign22(a.NonceTO0Sign, testcom.NULL_TEST)
		})
		if crash != "" {
			c.Violation("client-crash", "%s: %s", l.name, crash)
			return
		}
		w.b.note(nonce, "client "+l.name)
		c.Eval("client " + l.name + " " + w.mode)
		if err != nil {
			c.Must(l.name != "honest", "honest-refused", "dashboard %s: the owner's registration fails: %v", w.mode, err)
			c.Count("client refusals")
			continue
		}
		c.Must(l.f == nil, "client-success", "%s: the client reports success, answer was %d %x", l.name, last.Code, last.Body.Bytes())
		w.b.expect(event{w.do, p.Dev.Guid, 0, nonce})
		c.Count("client registrations")
	}
	w.settle("owner's client", nil)
}

// conformance: deliberately defective answers are no completed exchanges.
func conformance(c *kit.Check, i int) {
	r := c.Rand(fmt.Sprint("conf", i))
	w := &world{c: c}
	for k := i; ; k++ { // any dashboard that records
		newDash(w, r, k)
		if !w.silent() {
			break
		}
		if w.mode == "off" {
			w.dash.Close()
		}
	}
	defer w.dash.Close()
	w.s = sut.New(sut.Opt{KV: w.kv("[]")})
	defer w.s.Close()
	p, err := w.s.NewParty(ref.DeviceSgs[i%2], ref.OwnerSgs[r.IntN(4)], 1+r.IntN(3))
	if err != nil {
		c.Broken("%v", err)
	}
	w.register(r, p, "first")
	rec, err := sut.Record(p.V, p.Owner)
	if err != nil {
		c.Broken("%v", err)
	}
	inst := listenertestsdeps.NewDevice_RequestListenerInst(rec, fdoshared.FdoGuid(p.Dev.Guid))
	to := 1 + i%2
	if to == 1 {
		inst.To1.StartNewTestRun()
	} else {
		inst.To2.StartNewTestRun()
	}
	if err := tdbs.NewListenerTestDB(w.s.DB).Save(inst); err != nil {
		c.Broken("%v", err)
	}
	extra := map[event]bool{}
	n := c.N(12, 40)
	if to == 2 {
		n = c.N(32, 60)
	}
	for range n {
		x := lst.Open(p, r, to)
		for {
			due := x.Due
			resp := x.Send()
			if resp.Err != nil {
				break
			}
			err := x.Accept(resp)
			c.Count("conformance answers")
			if err != nil {
				c.Count("defective conformance answers")
				w.noteSess(x, fmt.Sprintf("conformance: %d: %v", due, err))
				c.Eval(fmt.Sprint("conformance ", due, " ", w.mode))
				break
			}
			if due == 32 {
				extra[event{w.rv, p.Dev.Guid, 1, x.T1.Nonce}] = true
			} else if due == 70 {
				extra[event{w.do, p.Dev.Guid, 2, x.T2.NonceSetup}] = true
			}
			if !x.Next(resp) {
				break
			}
		}
	}
	w.settle("conformance run", extra)
	for _, p := range w.s.Panics() {
		c.Violation("crash", "%s: %s\n%s", p.Path, p.Value, p.Stack)
	}
}

// cli: the device and owner commands of the program.
func cli(c *kit.Check) {
	if _, err := sut.BuildCLI(); err != nil {
		c.Broken("%v", err)
	}
	for i := range c.N(4, 16) {
		r := c.Rand(fmt.Sprint("cli", i))
		w := &world{c: c, token: map[ref.Guid]string{}}
		k := []int{0, 2, 10, 11, 1, 3, 4, 5, 6, 7, 8, 9}[i%12]
		newDash(w, r, k)
		dir := filepath.Join(sut.Scratch(), fmt.Sprint("p28-cli", i))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			c.Broken("%v", err)
		}
		program(w, r, dir)
		if w.mode != "gone" {
			w.dash.Close()
		}
		os.RemoveAll(dir)
	}
}

func program(w *world, r *rand.Rand, dir string) {
	c := w.c
	var ds []*ref.Device
	var rows [][]string
	for k := range 4 {
		d := ref.NewDevice(ref.DeviceSgs[k%2])
		ds = append(ds, d)
		if k != 1 {
			w.token[d.Guid] = fmt.Sprintf("Bearer device-%d-%s", k, hex.EncodeToString(kit.Bytes(r, 8)))
			rows = append(rows, []string{hex.EncodeToString(d.Guid[:]), w.token[d.Guid]})
		}
	}
	rows = others(r, rows)
	js, _ := json.Marshal(rows)
	spoilt := false
	w.s = sut.New(sut.Opt{KV: w.kv(string(js)), Tap: func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
			if spoilt && strings.HasSuffix(q.URL.Path, "/70") {
				rec := httptest.NewRecorder()
				h.ServeHTTP(rec, q)
				rw.Header().Set("Message-Type", "71")
				io.WriteString(rw, "\x82\x00\x00")
				return
			}
			h.ServeHTTP(rw, q)
		})
	}})
	defer w.s.Close()
	env := []string{"FDO_SERVICE_URL=" + w.s.URL}
	if w.mode != "off" {
		env = append(env, "INTEROP_DASHBOARD_URL="+w.dash.URL+w.base, "INTEROP_DASHBOARD_RV_AUTHZ="+w.rv, "INTEROP_DASHBOARD_DO_AUTHZ="+w.do, "INTEROP_DO_TOKEN_MAPPING="+string(js))
	}
	// the owner's database, then its registrations
	db, err := sut.OpenDir(dir)
	if err != nil {
		c.Broken("%v", err)
	}
	files := map[ref.Guid]string{}
	for k, d := range ds {
		o := ref.GenKeyCached(ref.OwnerSgs[(k+r.IntN(4))%4])
		v := ref.BuildVoucher(d, []ref.Key{o, o}, ref.RandRV())
		if err := w.s.AddVoucher(v, o); err != nil {
			c.Broken("%v", err)
		}
		e, err := sut.Record(v, o)
		if err != nil {
			c.Broken("%v", err)
		}
		if err := dodbs.NewVoucherDB(db).Save(e); err != nil {
			c.Broken("%v", err)
		}
		files[d.Guid] = filepath.Join(dir, fmt.Sprintf("dev%d.pem", k))
		if err := os.WriteFile(files[d.Guid], sut.CredFile(d, v), 0o600); err != nil {
			c.Broken("%v", err)
		}
	}
	db.Close()
	run, err := sut.CLI(dir, env, "iop", "rv_push_vouchers", w.s.URL)
	if err != nil {
		c.Broken("%v", err)
	}
	ok := strings.Count(run.Text(), "Success TO0")
	c.Must(ok == len(ds) && run.Code == 0, "push", "dashboard %s: %d of %d registrations succeed: %s", w.mode, ok, len(ds), run.Tail())
	// the nonces are known to the two sides only: their reports must agree
	evs := wait(w, 2*ok)
	perDev := map[ref.Guid]map[string][]ref.Nonce{}
	for _, e := range evs {
		c.Must(e.Proto == 0 && e.Bad == "" && e.Path == w.path() && e.Method == "POST", "event-form", "push: %+v", e)
		if perDev[e.Guid] == nil {
			perDev[e.Guid] = map[string][]ref.Nonce{}
		}
		perDev[e.Guid][e.Auth] = append(perDev[e.Guid][e.Auth], e.Nonce)
	}
	if w.silent() {
		c.Must(len(evs) == 0, "reported-while-off", "%d reports", len(evs))
	} else {
		for _, d := range ds {
			x := perDev[d.Guid]
			a, b := x[w.rv], x[w.do]
			if w.rv == w.do {
				c.Must(len(a) == 2 && a[0] == a[1], "push-report", "device %x: reports %v", d.Guid, x)
			} else {
				c.Must(len(a) == 1 && len(b) == 1 && a[0] == b[0], "push-report", "device %x: one registration, but the rendezvous reports %x and the owner %x", d.Guid, a, b)
			}
		}
		c.Must(len(perDev) == len(ds), "push-report", "reports on %d devices for %d registrations", len(perDev), len(ds))
	}
	c.Count("program runs compared")
	c.Eval("push " + w.mode)
	for k, d := range ds {
		spoilt = k == 3
		run, err := sut.CLI(dir, env, "iop", "to2", w.s.URL, files[d.Guid])
		if err != nil {
			c.Broken("%v", err)
		}
		c.Must(strings.Contains(run.Text(), "Success To2") == !spoilt, "to2", "dashboard %s, final answer spoilt: %v: %s", w.mode, spoilt, run.Tail())
		n := 1
		if w.token[d.Guid] != "" && !spoilt {
			n = 2
		}
		evs := wait(w, n)
		if w.silent() {
			c.Must(len(evs) == 0, "reported-while-off", "%d reports", len(evs))
			continue
		}
		var auths []string
		for _, e := range evs {
			auths = append(auths, e.Auth)
			c.Must(e.Proto == 2 && e.Guid == d.Guid && e.Bad == "" && e.Path == w.path() && e.Method == "POST" && e.Nonce == evs[0].Nonce, "event-form", "to2: %+v", e)
		}
		good := len(evs) == n && auths[0] == w.do && (n == 1 || auths[1] == w.token[d.Guid])
		c.Must(good, "to2-report", "dashboard %s: device %x (token %q, final answer spoilt: %v): reported by %q", w.mode, d.Guid, w.token[d.Guid], spoilt, auths)
		c.Count("program runs compared")
		c.Eval(fmt.Sprint("to2 program ", n, spoilt, w.mode))
	}
}

// wait collects n events, and any there are beyond.
func wait(w *world, n int) (evs []sut.IopEvent) {
	if w.silent() {
		return w.dash.Events()
	}
	evs = w.dash.Events()
	for k := 0; k < 200 && len(evs) < n; k++ {
		time.Sleep(50 * time.Millisecond)
		evs = append(evs, w.dash.Events()...)
	}
	time.Sleep(50 * time.Millisecond)
	return append(evs, w.dash.Events()...)
}
