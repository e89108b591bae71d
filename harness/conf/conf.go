// Package conf runs the tool's conformance tests against a scripted server and relates every verdict to what that server saw and did.
package conf

import (
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"
	"time"

	"github.com/dgraph-io/badger/v4"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	tdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	reqtestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/testexec"

	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// World is one device, its owner, a server for both and a store for the tool.
type World struct {
	Dev   *ref.Device
	Owner ref.Key
	V     ref.Voucher
	Srv   *ref.Server
	DB    *badger.DB
	Req   *tdbs.RequestTestDB
	Devs  *dbs.DeviceBaseDB
	Cred  fdoshared.WawDeviceCredential

	Mfg   []ref.Key   // who signed each entry of V
	Other ref.Key     // nobody the device knows
	Peer  ref.Voucher // of another device, through the same hands
}

func New(r *rand.Rand, devSg, ownerSg, entries, sims int) (*World, error) {
	w := &World{Dev: ref.NewDevice(devSg), Owner: ref.GenKeyCached(ownerSg), DB: sut.MemDB()}
	keys := []ref.Key{}
	for len(keys) < entries {
		keys = append(keys, ref.GenKeyCached(ownerSg))
	}
	w.V = ref.BuildVoucher(w.Dev, append(keys, w.Owner), ref.RandRV())
	w.Mfg, w.Other = keys, ref.StrangerKey(ownerSg, append(keys, w.Owner)...)
	w.Peer = ref.BuildVoucher(ref.NewDevice(devSg), append(append([]ref.Key{}, keys...), w.Owner), ref.RandRV())
	w.Srv = ref.NewServer(w.Dev, w.V, w.Owner)
	w.Srv.Strict = true
	w.Srv.To1d = w.Owner.Sign(ref.Enc(ref.To1d{Addrs: []ref.RVAddr{ref.DNSAddr("owner.example.org", 8043, 5)}, Hash: ref.MkHash(ref.SHA256, []byte("x"))}), nil).Tagged()
	for i := 0; i < sims; i++ {
		w.Srv.Sims = append(w.Srv.Sims, ref.SIM{Key: fmt.Sprintf("vendor%d:thing", i), Val: []byte{0x18, byte(30 + r.IntN(200))}})
	}
	w.Req, w.Devs = tdbs.NewRequestTestDB(w.DB), dbs.NewDeviceBaseDB(w.DB)
	var err error
	if w.Cred, err = sut.Credential(w.Dev, w.V); err != nil {
		return nil, err
	}
	return w, w.Devs.Save(w.Cred)
}

func (w *World) Close() { w.Srv.Close(); w.DB.Close() }

// Inst creates the test instance of a protocol (0, 1 or 2) for the server at url.
func (w *World) Inst(to int, url string) (reqtestsdeps.RequestTestInst, error) {
	i := reqtestsdeps.NewRequestTestInst(url, fdoshared.FdoToProtocol(to))
	i.FdoSeedIDs = fdoshared.FdoSeedIDs{fdoshared.SgType(w.Dev.Key.Sg): fdoshared.FdoGuidList{w.Cred.DCGuid}}
	if to == 2 {
		e, err := sut.Record(w.V, w.Owner)
		if err != nil {
			return i, err
		}
		e.SgType = fdoshared.SgType(w.Owner.Sg)
		i.TestVouchers = reqtestsdeps.TestVouchers{testcom.NULL_TEST: {{VoucherDBEntry: e, WawDeviceCredential: w.Cred}}}
	}
	return i, w.Req.Save(i)
}

// Execute runs all tests of the instance.
func (w *World) Execute(to int, i reqtestsdeps.RequestTestInst) {
	ctx := sut.Context("http://owner.example.org:8043", nil)
	switch to {
	case 0:
		testexec.ExecuteRVTestsTo0(i, w.Req, w.Devs, ctx)
	case 1:
		testexec.ExecuteRVTestsTo1(i, w.Req, w.Devs, ctx)
	default:
		testexec.ExecuteDOTestsTo2(i, w.Req)
	}
}

// Tests lists what a protocol's run consists of.
func Tests(to int) (out []testcom.FDOTestID) {
	switch to {
	case 0:
		return slices.Concat(testcom.FIDO_TEST_LIST_RVT_20, testcom.FIDO_TEST_LIST_RVT_22, testcom.FIDO_TEST_LIST_VOUCHER)
	case 1:
		return slices.Concat(testcom.FIDO_TEST_LIST_DEVT_30, testcom.FIDO_TEST_LIST_DEVT_32)
	}
	return slices.Concat(testcom.FIDO_TEST_LIST_DOT_60, testcom.FIDO_TEST_LIST_DOT_62, testcom.FIDO_TEST_LIST_DOT_64,
		testcom.FIDO_TEST_LIST_DOT_66, testcom.FIDO_TEST_LIST_DOT_68, testcom.FIDO_TEST_LIST_DOT_70)
}

// Positive tells the tests whose request is correct.
func Positive(id testcom.FDOTestID) bool {
	return strings.HasSuffix(string(id), "_POSITIVE") || strings.HasSuffix(string(id), "_CHECK_RESP")
}

// Msg is the message a test is about.
func Msg(id testcom.FDOTestID) int {
	for _, x := range []struct {
		m int
		l []testcom.FDOTestID
	}{{20, testcom.FIDO_TEST_LIST_RVT_20}, {22, testcom.FIDO_TEST_LIST_RVT_22}, {22, testcom.FIDO_TEST_LIST_VOUCHER}, {30, testcom.FIDO_TEST_LIST_DEVT_30},
		{32, testcom.FIDO_TEST_LIST_DEVT_32}, {60, testcom.FIDO_TEST_LIST_DOT_60}, {62, testcom.FIDO_TEST_LIST_DOT_62}, {64, testcom.FIDO_TEST_LIST_DOT_64},
		{66, testcom.FIDO_TEST_LIST_DOT_66}, {68, testcom.FIDO_TEST_LIST_DOT_68}, {70, testcom.FIDO_TEST_LIST_DOT_70}} {
		if slices.Contains(x.l, id) {
			return x.m
		}
	}
	return 0
}

// Seen is one request and how it was answered.
type Seen struct {
	Msg   int
	Fault string // why the request is defective, "" when correct
	How   string // kind of answer
	Good  bool   // correct request: answered correctly; defective request: refused properly
}

// Segment is what happened for one verdict.
type Segment struct {
	ID    testcom.FDOTestID
	State testcom.FDOTestState
	Seen  []Seen
}

func (s Segment) String() string {
	b := &strings.Builder{}
	fmt.Fprintf(b, "%s passed=%v testId=%q error=%q after", s.ID, s.State.Passed, s.State.TestID, s.State.Error)
	for _, q := range s.Seen {
		fmt.Fprintf(b, " %d(%s%s)", q.Msg, q.How, map[bool]string{true: "", false: "; defect: " + q.Fault}[q.Fault == ""])
	}
	return b.String()
}

// Choose decides how a request is answered; it may change rep, whose value is the honest answer. last is the latest honest success answer to the same message.
type Choose func(msg int, fault string, rep *ref.Reply, last []byte) (how string, good bool)

// Trace executes a run and returns the verdicts in order with the requests that led to them.
func (w *World) Trace(to int, choose Choose) (segs []Segment, rest []Seen, inst *reqtestsdeps.RequestTestInst, err error) {
	i, err := w.Inst(to, w.Srv.URL)
	if err != nil {
		return nil, nil, nil, err
	}
	known := map[testcom.FDOTestID]testcom.FDOTestState{}
	var cur []Seen
	look := func() {
		e, gerr := w.Req.Get(i.Uuid)
		if gerr != nil {
			err = gerr
			return
		}
		inst = e
		for id, st := range e.CurrentTestRun.Tests {
			if old, ok := known[id]; ok && old == st {
				continue
			}
			known[id] = st
			segs = append(segs, Segment{id, st, cur})
			cur = nil
		}
	}
	last := map[int][]byte{}
	prev := map[int][]byte{} // the success answer of the session before
	w.Srv.OnReq = func(q *ref.Request, rep *ref.Reply) {
		look()
		l := last[q.Msg]
		if q.Fault == "" {
			prev[q.Msg], last[q.Msg] = l, append([]byte{}, rep.Body...)
		}
		how, good := choose(q.Msg, q.Fault, rep, l)
		cur = append(cur, Seen{q.Msg, q.Fault, how, good})
	}
	w.Execute(to, i)
	w.Srv.OnReq = nil
	w.Srv.Requests()
	look()
	return segs, cur, inst, err
}

// Refusals and bad answers.

func fdoErr(r *rand.Rand, msg int) []byte {
	codes := []uint16{1, 2, 3, 4, 5, 6, 100, 101, 102, 500}
	ts := []ref.Raw{{0xf6}, {0}, ref.Enc(uint64(1700000000)), append(ref.Raw{0xc1}, ref.Enc(uint64(1700000000+r.IntN(1000000)))...), append(ref.Raw{0xc0}, ref.Enc("2024-01-02T03:04:05Z")...)}
	return ref.Enc(ref.FdoError{Code: codes[r.IntN(len(codes))], Prev: uint8(msg), Str: []string{"", "bad", "Fehlermeldung äöü"}[r.IntN(3)], Ts: ts[r.IntN(len(ts))], CID: uint(r.IntN(70000))})
}

// Refusal names one way of answering a defective request.
type Refusal struct {
	Name   string
	Proper bool
	Do     func(r *rand.Rand, msg int, rep *ref.Reply, last []byte)
}

func fail(rep *ref.Reply, r *rand.Rand, b []byte) {
	st := []int{400, 401, 403, 404, 405, 409, 415, 422, 500, 501, 503}
	rep.Status, rep.Type, rep.Token, rep.Body = st[r.IntN(len(st))], "255", "", b
}

var Refusals = []Refusal{
	{"honest", true, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) {}},
	{"error", true, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) { fail(rep, r, fdoErr(r, m)) }},
	{"error-2", true, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) { fail(rep, r, fdoErr(r, m)) }},
	{"accepts", false, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) { accept(rep, m, last) }},
	{"error-with-200", false, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) {
		fail(rep, r, fdoErr(r, m))
		rep.Status = 200
	}},
	{"error-with-200-as-answer", false, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) {
		fail(rep, r, fdoErr(r, m))
		rep.Status, rep.Type = 200, fmt.Sprint(m+1)
	}},
	{"status-without-body", false, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) { fail(rep, r, nil) }},
	{"status-with-garbage", false, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) {
		fail(rep, r, append([]byte{0xff}, ref.RandBytes(r.IntN(30))...))
	}},
	{"status-with-text", false, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) {
		fail(rep, r, []byte("Internal Server Error\n"))
	}},
	{"status-with-cut-error", false, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) {
		b := fdoErr(r, m)
		fail(rep, r, b[:r.IntN(len(b))])
	}},
	{"status-with-short-error", false, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) {
		fail(rep, r, ref.Enc([]any{100, m, "bad", 0}))
	}},
	{"status-with-mistyped-error", false, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) {
		fail(rep, r, ref.Enc([]any{"100", m, "bad", 0, 1}))
	}},
	{"status-with-answer", false, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) {
		fail(rep, r, nil)
		accept(rep, m, last)
		rep.Status = 500
	}},
	{"drop", false, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) { rep.Drop = true }},
}

func accept(rep *ref.Reply, m int, last []byte) {
	rep.Status, rep.Type, rep.Body = 200, fmt.Sprint(m+1), last
	if last == nil {
		rep.Body = ref.Enc([]any{make([]byte, 16)})
		if m == 22 {
			rep.Body = ref.Enc([]any{3600})
		}
	}
}

// Bad is one way of answering a correct request wrongly.
type Bad struct {
	Name string
	Msgs []int // nil: all
	Do   func(r *rand.Rand, msg int, rep *ref.Reply, last []byte)
}

var Bads = []Bad{
	{"refuses", nil, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) { fail(rep, r, fdoErr(r, m)) }},
	{"refuses-with-200", nil, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) {
		fail(rep, r, fdoErr(r, m))
		rep.Status = 200
	}},
	{"refuses-as-answer", nil, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) { rep.Body = fdoErr(r, m) }},
	{"garbage", nil, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) {
		rep.Body = append([]byte{0xff}, ref.RandBytes(r.IntN(40))...)
	}},
	{"empty", nil, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) { rep.Body = nil }},
	{"cut", nil, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) { rep.Body = rep.Body[:r.IntN(len(rep.Body))] }},
	{"null", nil, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) { rep.Body = []byte{0xf6} }},
	{"empty-array", nil, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) { rep.Body = []byte{0x80} }},
	{"number", nil, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) { rep.Body = []byte{0x07} }},
	{"other-message-type", nil, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) {
		rep.Type = fmt.Sprint(m + 2 + r.IntN(20))
	}},
	{"error-status", nil, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) {
		rep.Status = []int{400, 404, 500, 503}[r.IntN(4)]
	}},
	{"drop", nil, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) { rep.Drop = true }},
	{"stale", []int{60, 64, 66, 68, 70}, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) {
		if rep.Body = last; last == nil {
			rep.Body = []byte{0x80}
		}
	}},
	{"other-entry", []int{62}, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) {
		var e []ref.Raw
		if ref.Dec(rep.Body, &e) == nil && len(e) == 2 {
			var n int
			ref.Dec(e[0], &n)
			e[0] = ref.Enc(n + 1 + r.IntN(3))
			rep.Body = ref.Enc(e)
		} else {
			rep.Body = []byte{0x80}
		}
	}},
	{"other-siginfo", []int{30}, func(r *rand.Rand, m int, rep *ref.Reply, last []byte) {
		rep.Body = ref.Enc([]any{make([]byte, 16), []any{-36 - r.IntN(9), []byte{}}})
	}},
}

// For tells whether the bad answer applies to a message.
func (b Bad) For(m int) bool { return b.Msgs == nil || slices.Contains(b.Msgs, m) }

// Deadline gives up on a run that does not end.
func Deadline(d time.Duration, f func()) bool {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			panic(p)
		}
		return true
	case <-time.After(d):
		return false
	}
}

// Lie is a well formed answer with wrong contents.
type Lie struct {
	Name string
	Msg  int // the request answered
	Min  int // voucher entries needed
	Set  func(w *World, r *rand.Rand)
}

func flip(r *rand.Rand, b []byte) []byte {
	o := append([]byte{}, b...)
	o[r.IntN(len(o))] ^= 1 << r.IntN(8)
	return o
}

func on61(f func(w *World, r *rand.Rand, p *ref.Prove61, u *ref.Unprot61, k *ref.Key, e *func(*ref.Cose))) func(*World, *rand.Rand) {
	return func(w *World, r *rand.Rand) {
		w.Srv.On61 = func(p *ref.Prove61, u *ref.Unprot61, k *ref.Key, e *func(*ref.Cose)) { f(w, r, p, u, k, e) }
	}
}

func on65(f func(w *World, r *rand.Rand, p *ref.Setup65, k *ref.Key, e *func(*ref.Cose))) func(*World, *rand.Rand) {
	return func(w *World, r *rand.Rand) {
		w.Srv.On65 = func(p *ref.Setup65, k *ref.Key, e *func(*ref.Cose)) { f(w, r, p, k, e) }
	}
}

func on63(f func(w *World, r *rand.Rand, asked int, n *int, e *ref.Raw)) func(*World, *rand.Rand) {
	return func(w *World, r *rand.Rand) {
		w.Srv.On63 = func(a int, n *int, e *ref.Raw) { f(w, r, a, n, e) }
	}
}

// Lies can be told from the truth as soon as the answer is there; those of message 62 when all entries are.
var Lies = []Lie{
	{"signature damaged", 60, 1, on61(func(w *World, r *rand.Rand, p *ref.Prove61, u *ref.Unprot61, k *ref.Key, e *func(*ref.Cose)) {
		*e = func(c *ref.Cose) { c.Sig = flip(r, c.Sig) }
	})},
	{"signed by a stranger", 60, 1, on61(func(w *World, r *rand.Rand, p *ref.Prove61, u *ref.Unprot61, k *ref.Key, e *func(*ref.Cose)) {
		*k = w.Other
	})},
	{"payload altered after signing", 60, 1, on61(func(w *World, r *rand.Rand, p *ref.Prove61, u *ref.Unprot61, k *ref.Key, e *func(*ref.Cose)) {
		*e = func(c *ref.Cose) { c.Payload = flip(r, c.Payload) }
	})},
	{"no owner key", 60, 1, on61(func(w *World, r *rand.Rand, p *ref.Prove61, u *ref.Unprot61, k *ref.Key, e *func(*ref.Cose)) {
		u.Key = nil
	})},
	{"other nonce", 60, 1, on61(func(w *World, r *rand.Rand, p *ref.Prove61, u *ref.Unprot61, k *ref.Key, e *func(*ref.Cose)) {
		p.Nonce[r.IntN(16)] ^= 1 << r.IntN(8)
	})},
	{"hello hash altered", 60, 1, on61(func(w *World, r *rand.Rand, p *ref.Prove61, u *ref.Unprot61, k *ref.Key, e *func(*ref.Cose)) {
		p.Hello.Hash = flip(r, p.Hello.Hash)
	})},
	{"hmac altered", 60, 1, on61(func(w *World, r *rand.Rand, p *ref.Prove61, u *ref.Unprot61, k *ref.Key, e *func(*ref.Cose)) {
		p.Hmac.Hash = flip(r, p.Hmac.Hash)
	})},
	{"header and hmac of another device", 60, 1, on61(func(w *World, r *rand.Rand, p *ref.Prove61, u *ref.Unprot61, k *ref.Key, e *func(*ref.Cose)) {
		p.Header, p.Hmac = w.Peer.Header, w.Peer.Hmac
	})},
	{"other signature type", 60, 1, on61(func(w *World, r *rand.Rand, p *ref.Prove61, u *ref.Unprot61, k *ref.Key, e *func(*ref.Cose)) {
		p.Sig.Sg = map[int]int{-7: -35, -35: -7}[p.Sig.Sg]
	})},
	{"signature of an entry damaged", 62, 1, func(w *World, r *rand.Rand) {
		x := r.IntN(len(w.V.Entries))
		w.Srv.On63 = func(a int, n *int, e *ref.Raw) {
			if a == x {
				c, _ := ref.DecCose(*e)
				c.Sig = flip(r, c.Sig)
				*e = c.Tagged()
			}
		}
	}},
	{"last signature damaged", 62, 1, on63(func(w *World, r *rand.Rand, a int, n *int, e *ref.Raw) {
		if a == len(w.V.Entries)-1 {
			c, _ := ref.DecCose(*e)
			c.Sig = flip(r, c.Sig)
			*e = c.Tagged()
		}
	})},
	{"entry of another voucher", 62, 1, func(w *World, r *rand.Rand) {
		x := r.IntN(len(w.V.Entries))
		w.Srv.On63 = func(a int, n *int, e *ref.Raw) {
			if a == x {
				*e = w.Peer.Entries[a]
			}
		}
	}},
	{"all entries of another voucher", 62, 1, on63(func(w *World, r *rand.Rand, a int, n *int, e *ref.Raw) { *e = w.Peer.Entries[a] })},
	{"entries exchanged", 62, 2, on63(func(w *World, r *rand.Rand, a int, n *int, e *ref.Raw) {
		if n := len(w.V.Entries); a >= n-2 {
			*e = w.V.Entries[2*n-3-a]
		}
	})},
	{"last entry names another owner", 62, 1, func(w *World, r *rand.Rand) {
		// genuine, but made out to somebody else than the one who signs 61
		f := w.V.Clone()
		f.Entries = f.Entries[:len(f.Entries)-1]
		f.Extend(w.Mfg[len(w.Mfg)-1], w.Other.Pub(), w.Dev.HashTyp)
		w.Srv.On63 = func(a int, n *int, e *ref.Raw) { *e = f.Entries[a] }
	}},
	{"last entry signed by its own owner", 62, 1, func(w *World, r *rand.Rand) {
		f := w.V.Clone()
		f.Entries = f.Entries[:len(f.Entries)-1]
		f.Extend(w.Other, w.Owner.Pub(), w.Dev.HashTyp)
		w.Srv.On63 = func(a int, n *int, e *ref.Raw) { *e = f.Entries[a] }
	}},
	{"entry number one too high", 62, 1, func(w *World, r *rand.Rand) {
		x := r.IntN(len(w.V.Entries))
		w.Srv.On63 = func(a int, n *int, e *ref.Raw) {
			if a == x {
				*n = a + 1
			}
		}
	}},
	{"entry number zero", 62, 2, on63(func(w *World, r *rand.Rand, a int, n *int, e *ref.Raw) { *n = 0 })},
	{"signature damaged", 64, 1, on65(func(w *World, r *rand.Rand, p *ref.Setup65, k *ref.Key, e *func(*ref.Cose)) {
		*e = func(c *ref.Cose) { c.Sig = flip(r, c.Sig) }
	})},
	{"signed by a stranger", 64, 1, on65(func(w *World, r *rand.Rand, p *ref.Setup65, k *ref.Key, e *func(*ref.Cose)) { *k = w.Other })},
	{"other setup nonce", 64, 1, on65(func(w *World, r *rand.Rand, p *ref.Setup65, k *ref.Key, e *func(*ref.Cose)) {
		p.Nonce[r.IntN(16)] ^= 1 << r.IntN(8)
	})},
	{"other nonce", 70, 1, func(w *World, r *rand.Rand) {
		w.Srv.OnNonce = func(m int, n *ref.Nonce) {
			if m == 71 {
				n[r.IntN(16)] ^= 1 << r.IntN(8)
			}
		}
	}},
}

func init() {
	for _, m := range []int{64, 66, 68, 70} {
		Lies = append(Lies, Lie{"encrypted with another key", m, 1, func(w *World, r *rand.Rand) {
			w.Srv.OnKey = func(g int, k *ref.SessKey, c *int) {
				if g == m+1 {
					*k = ref.SessKey{ShSe: ref.RandBytes(len(k.ShSe)), Ctx: k.Ctx}
				}
			}
		}}, Lie{"plaintext cut", m, 1, func(w *World, r *rand.Rand) {
			w.Srv.OnPlain = func(g int, b *[]byte) {
				if g == m+1 {
					*b = (*b)[:len(*b)-1]
				}
			}
		}})
	}
}
