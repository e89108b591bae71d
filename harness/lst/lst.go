// Package lst plays a device under test against the tool's listener and predicts what the tool must record.
package lst

import (
	"errors"
	"fmt"
	"math/rand/v2"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"

	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

const Positive = string(testcom.FIDO_LISTENER_POSITIVE)

// Steps are the requests of a protocol in order.
func Steps(to int) []int {
	if to == 1 {
		return []int{30, 32}
	}
	return []int{60, 62, 64, 66, 68, 70}
}

var lists = map[int][]testcom.FDOTestID{
	30: testcom.FIDO_LISTENER_30_LIST, 32: testcom.FIDO_LISTENER_32_LIST,
	60: testcom.FIDO_LISTENER_60_LIST, 62: testcom.FIDO_LISTENER_62_LIST, 64: testcom.FIDO_LISTENER_64_LIST,
	66: testcom.FIDO_LISTENER_66_LIST, 68: testcom.FIDO_LISTENER_68_LIST, 70: testcom.FIDO_LISTENER_70_LIST,
}

// Tests are the tests of a step in order, the positive one last.
func Tests(step int) (l []string) {
	for _, t := range lists[step] {
		l = append(l, string(t))
	}
	return append(l, Positive)
}

// Count is the number of tests of a whole run.
func Count(to int) (n int) {
	for _, s := range Steps(to) {
		n += len(Tests(s))
	}
	return
}

// ---- the device ----

// Sess is a session of the device in which message Due is next.
type Sess struct {
	P    *sut.Party
	Due  int
	Prev int // the answer before, as the device sees it (0: none)
	T1   *ref.TO1
	T2   *ref.TO2
	h60  ref.Hello60
	ent  int // entry asked for
	more bool
	Fin  bool // the owner has finished its service info

	ahead bool // the due message is out of turn
}

// Open starts a session.
func Open(p *sut.Party, r *rand.Rand, to int) *Sess {
	s := &Sess{P: p, Due: 30}
	c := ref.Conn{Base: p.URL}
	if to == 1 {
		s.T1 = &ref.TO1{Conn: c, Dev: p.Dev}
		return s
	}
	s.Due = 60
	s.T2 = p.RandTO2(r)
	if r.IntN(8) != 0 { // the finite field suites are slow
		s.T2.KexName = []string{"ECDH256", "ECDH384"}[r.IntN(2)]
	}
	return s
}

// To walks honestly until message m is due.
func To(p *sut.Party, r *rand.Rand, m int) (*Sess, error) {
	to := 2
	if m < 60 {
		to = 1
	}
	s := Open(p, r, to)
	for s.Due != m {
		if err := s.Step(); err != nil {
			return nil, err
		}
	}
	return s, nil
}

// Step sends the due message, accepts the answer and moves on.
func (s *Sess) Step() error {
	at := s.Due
	resp := s.Send()
	if err := s.Accept(resp); err != nil {
		return fmt.Errorf("%d: %w", at, err)
	}
	s.Next(resp)
	return nil
}

// Send sends an honest due message.
func (s *Sess) Send() ref.Resp {
	switch s.Due {
	case 30:
		return s.T1.Post(30, ref.Enc(ref.Hello30{Guid: s.P.Dev.Guid, Sig: ref.SigInfo{Sg: s.P.Dev.Key.Sg, Info: []byte{}}}))
	case 32:
		return s.T1.Prove()
	case 60:
		s.h60 = s.T2.Hello60()
		s.T2.HelloRaw = ref.Enc(s.h60)
		return s.T2.Post(60, s.T2.HelloRaw)
	case 62:
		return s.T2.Post(62, ref.Enc([]any{s.ent}))
	case 64:
		if s.T2.Kex == nil {
			if err := s.T2.MakeKex(); err != nil {
				return ref.Resp{Err: err, Msg: -1}
			}
		}
		return s.T2.Post(64, s.T2.Proof().Bytes())
	case 66:
		return s.T2.PostEnc(66, ref.Enc([]any{ref.MkHmac(s.P.Dev.HmacTyp, s.P.Dev.HmacKey, []byte("new header")), uint16(1400)}))
	case 68:
		if s.more {
			return s.T2.PostEnc(68, ref.Enc(ref.Msg68{More: true, Info: ref.Mandatory()[:3]}))
		}
		return s.T2.PostEnc(68, ref.Enc(ref.Msg68{More: false, Info: ref.Mandatory()}))
	case 70:
		return s.T2.PostEnc(70, ref.Enc([]any{s.T2.NonceDv}))
	}
	panic("no message")
}

// More makes the next device service info an unfinished one.
func (s *Sess) More() { s.more = true }

// Entry selects the voucher entry to ask for.
func (s *Sess) Entry(i int) { s.ent = i }

// Ahead makes the device leave out what comes before message m.
func (s *Sess) Ahead(m int) { s.Due, s.ahead = m, true }

// Spoil sends a due message which the server must refuse although it belongs to the session.
func (s *Sess) Spoil(r *rand.Rand) (what string, resp ref.Resp) {
	junk := func() []byte { return [][]byte{{0x80}, {0x81, 0xf4}, ref.Enc("x"), {0xff}, {}}[r.IntN(5)] }
	if s.ahead {
		return "out of turn", s.Send()
	}
	switch s.Due {
	case 30:
		s.T1.Tok = ""
		return "unknown guid", s.T1.Post(30, ref.Enc(ref.Hello30{Guid: ref.NewGuid(), Sig: ref.SigInfo{Sg: s.P.Dev.Key.Sg, Info: []byte{}}}))
	case 32:
		switch r.IntN(3) {
		case 0:
			return "garbage", s.T1.Post(32, junk())
		case 1:
			n := ref.NewNonce()
			return "wrong nonce", s.T1.Post(32, s.P.Dev.Key.Sign(ref.EAT{Nonce: n[:], UEID: ref.UEID(s.P.Dev.Guid)}.Bytes(), nil).Tagged())
		}
		k := ref.GenKeyCached(s.P.Dev.Key.Sg)
		return "wrong key", s.T1.Post(32, k.Sign(ref.EAT{Nonce: s.T1.Nonce[:], UEID: ref.UEID(s.P.Dev.Guid)}.Bytes(), nil).Tagged())
	case 60:
		h := s.T2.Hello60()
		h.Kex = "ECDH999"
		return "unknown key exchange", s.T2.Post(60, ref.Enc(h))
	case 62:
		if r.IntN(2) == 0 {
			return "entry out of range", s.T2.Post(62, ref.Enc([]any{200}))
		}
		return "garbage", s.T2.Post(62, junk())
	case 64:
		if s.T2.Kex == nil {
			if err := s.T2.MakeKex(); err != nil {
				return "", ref.Resp{Err: err, Msg: -1}
			}
		}
		p := s.T2.Proof()
		switch r.IntN(3) {
		case 0:
			return "garbage", s.T2.Post(64, junk())
		case 1:
			n := ref.NewNonce()
			p.Nonce = n[:]
			return "wrong nonce", s.T2.Post(64, p.Bytes())
		}
		p.Signer = ref.GenKeyCached(s.P.Dev.Key.Sg)
		return "wrong key", s.T2.Post(64, p.Bytes())
	case 66:
		return "garbage", s.T2.PostEnc(66, []byte{0x81, 0x61, 0x78})
	case 68:
		return "garbage", s.T2.PostEnc(68, []byte{0x81, 0x61, 0x78})
	case 70:
		if r.IntN(2) == 0 {
			return "garbage", s.T2.PostEnc(70, []byte{0x81, 0x61, 0x78})
		}
		return "wrong nonce", s.T2.PostEnc(70, ref.Enc([]any{ref.NewNonce()}))
	}
	panic("no message")
}

// Accept verifies the answer to the honest due message as a careful device does.
func (s *Sess) Accept(r ref.Resp) error {
	if !r.Ok(s.Due + 1) {
		return errors.New(r.String())
	}
	switch s.Due {
	case 30:
		var x ref.Ack31
		if r.Auth() == "" {
			return errors.New("31 without authorization")
		}
		if err := ref.Dec(r.Body, &x); err != nil {
			return err
		}
		s.T1.Nonce, s.T1.Tok = x.Nonce, r.Auth()
		return nil
	case 32:
		c, err := ref.DecCose(r.Body)
		if err != nil {
			return err
		}
		return c.Verify(s.P.Owner.Pub())
	case 60:
		return s.T2.Accept61(r, s.h60)
	case 62:
		var x struct {
			_     struct{} `cbor:",toarray"`
			Num   uint8
			Entry ref.Raw
		}
		if err := ref.Dec(r.Body, &x); err != nil {
			return err
		}
		if int(x.Num) != s.ent {
			return fmt.Errorf("entry %d in answer to %d", x.Num, s.ent)
		}
		e := append(append([]ref.Raw{}, s.P.V.Entries[:s.ent]...), x.Entry)
		_, err := ref.Voucher{Ver: 101, Header: s.T2.OVHRaw, Hmac: s.T2.OVHmac, Chain: &s.P.Dev.Chain, Entries: e}.Validate()
		return err
	case 64:
		return s.T2.Accept65(r)
	}
	b, err := s.T2.Unwrap(r, s.Due+1)
	if err != nil {
		return err
	}
	switch s.Due {
	case 66:
		var p struct {
			_  struct{} `cbor:",toarray"`
			Sz *uint16
		}
		return ref.Dec(b, &p)
	case 68:
		var m ref.Msg69
		if err := ref.Dec(b, &m); err != nil {
			return err
		}
		if s.more && (m.Done || m.More || len(m.Info) != 0) {
			return errors.New("owner service info before the device has finished")
		}
		return nil
	}
	var p struct {
		_ struct{} `cbor:",toarray"`
		N ref.Nonce
	}
	if err := ref.Dec(b, &p); err != nil {
		return err
	}
	if p.N != s.T2.NonceSetup {
		return errors.New("71: wrong NonceTO2SetupDv")
	}
	return nil
}

// Next goes on with the session after an answer, whether or not it was acceptable; false when the answer does not allow it.
func (s *Sess) Next(r ref.Resp) bool {
	s.Prev = s.Due + 1
	switch s.Due {
	case 30:
		s.T1.Tok = r.Auth()
		s.Due = 32
		return s.T1.Tok != ""
	case 60:
		s.T2.Tok = r.Auth()
		s.Due = 62
		return s.T2.Tok != ""
	case 62:
		if s.ent+1 < s.T2.NumEntries {
			s.ent++
			return true
		}
		s.Due = 64
	case 64, 66:
		s.Due += 2
	case 68:
		if s.more {
			s.more = false
			return true
		}
		s.Due = 70
	default:
		return false
	}
	return true
}

// Skip makes the session jump to a later message.
func (s *Sess) Skip(m int) { s.Due = m }

// Named says whether the answer carries the defect its test is named after.
func (s *Sess) Named(id string, r ref.Resp) error {
	switch testcom.FDOTestID(id) {
	case testcom.FIDO_LISTENER_DEVICE_60_MISSING_AUTHZ_HEADER:
		if r.Auth() != "" {
			return errors.New("the authorization header is there")
		}
	case testcom.FIDO_LISTENER_DEVICE_60_BAD_NONCE_TO2PROVEOV, testcom.FIDO_LISTENER_DEVICE_60_BAD_EBSIGNINFO,
		testcom.FIDO_LISTENER_DEVICE_60_BAD_HELLODEVICEHASH, testcom.FIDO_LISTENER_DEVICE_60_BAD_OVHDR_OVHEADER:
		c, err := ref.DecCose(r.Body)
		var p ref.Prove61
		if err == nil {
			err = ref.Dec(c.Payload, &p)
		}
		if err == nil {
			err = c.Verify(s.P.Owner.Pub())
		}
		if err != nil {
			return fmt.Errorf("more than the named field is bad: %w", err)
		}
		bad := map[testcom.FDOTestID]bool{
			testcom.FIDO_LISTENER_DEVICE_60_BAD_NONCE_TO2PROVEOV: p.Nonce != s.h60.Nonce,
			testcom.FIDO_LISTENER_DEVICE_60_BAD_EBSIGNINFO:       p.Sig.Sg != s.h60.Sig.Sg,
			testcom.FIDO_LISTENER_DEVICE_60_BAD_HELLODEVICEHASH:  !p.Hello.Is(s.T2.HelloRaw),
			testcom.FIDO_LISTENER_DEVICE_60_BAD_OVHDR_OVHEADER:   !p.Hmac.IsHmac(s.P.Dev.HmacKey, p.Header),
		}
		for k, v := range bad {
			if v != (string(k) == id) {
				return fmt.Errorf("field of %s bad: %v", k, v)
			}
		}
	case testcom.FIDO_LISTENER_DEVICE_62_BAD_OVENTRYNUM:
		var x struct {
			_     struct{} `cbor:",toarray"`
			Num   uint8
			Entry ref.Raw
		}
		if err := ref.Dec(r.Body, &x); err != nil {
			return err
		}
		if int(x.Num) == s.ent {
			return errors.New("the entry number is right")
		}
	case testcom.FIDO_LISTENER_DEVICE_64_BAD_NONCE_TO2SETUPDV, testcom.FIDO_LISTENER_DEVICE_70_BAD_NONCE_TO2SETUPDV64,
		testcom.FIDO_LISTENER_DEVICE_66_BAD_ENCODING, testcom.FIDO_LISTENER_DEVICE_68_BAD_ENCODING,
		testcom.FIDO_LISTENER_DEVICE_70_BAD_DONE71_ENCODING,
		testcom.FIDO_LISTENER_DEVICE_64_BAD_SETUPDEVICE_BYTES, testcom.FIDO_LISTENER_DEVICE_64_BAD_SETUPDEVICE_COSE_SIGNATURE, testcom.FIDO_LISTENER_DEVICE_64_BAD_SETUPDEVICE_PAYLOAD:
		if _, err := s.T2.Unwrap(r, s.Due+1); err != nil {
			return fmt.Errorf("more than the content is bad: %w", err)
		}
	}
	return nil
}

// ---- the expected record ----

type Verdict struct {
	ID   string
	Pass bool
}

func (v Verdict) String() string {
	if v.Pass {
		return v.ID + "+"
	}
	return v.ID + "-"
}

type Run struct {
	ID    string // as the tool named it
	Tests []Verdict
	Done  bool
}

// Model is the expected state of one protocol's runs of a device.
type Model struct {
	To      int
	Runs    []*Run // newest first
	Active  *Run
	Step    int // index in Steps
	Idx     int
	Pending string
}

func (m *Model) Cmd() int { return Steps(m.To)[m.Step] }

func (m *Model) Start() *Run {
	r := &Run{}
	m.Runs = append([]*Run{r}, m.Runs...)
	m.Active, m.Step, m.Idx, m.Pending = r, 0, 0, ""
	return r
}

func (m *Model) Delete(id string) {
	for i, r := range m.Runs {
		if r.ID == id {
			m.Runs = append(append([]*Run{}, m.Runs[:i]...), m.Runs[i+1:]...)
			if r == m.Active {
				m.Active, m.Pending = nil, ""
			}
			return
		}
	}
}

func (m *Model) note(pass bool) {
	m.Active.Tests = append(m.Active.Tests, Verdict{m.Pending, pass})
	m.Pending = ""
}

// Expect is what the device must see in answer to a message.
type Expect int

const (
	Normal  Expect = iota // as if no run were active
	Bad                   // the defective answer of Posed
	Good                  // the honest answer of the positive test
	Refused               // an error
	Any                   // not judged
)

// Message is a message the device sends: its number, whether the session had just been answered with the same message's answer, whether it is honest.
func (m *Model) Message(cmd int, again, honest bool) (e Expect, posed string) {
	if m.Active == nil {
		return Normal, ""
	}
	at := -1
	for i, s := range Steps(m.To) {
		if s == cmd {
			at = i
		}
	}
	if at < m.Step {
		return Normal, ""
	}
	if at > m.Step {
		if m.Pending == "" {
			return Normal, ""
		}
		m.note(false)
		if m.To == 1 {
			return Any, ""
		}
		return Refused, ""
	}
	if m.Pending != "" {
		if cmd == 68 && again {
			m.note(false)
			return Refused, ""
		}
		m.note(true)
	}
	l := Tests(cmd)
	m.Pending = l[m.Idx]
	posed = m.Pending
	if m.Idx+1 < len(l) {
		m.Idx++
	}
	if !honest {
		m.note(false)
		return Refused, posed
	}
	if posed != Positive {
		return Bad, posed
	}
	m.note(true)
	m.Step, m.Idx = m.Step+1, 0
	if m.Step == len(Steps(m.To)) {
		m.Active.Done, m.Active, m.Step = true, nil, 0
	}
	return Good, posed
}

// Compare relates the runs listed by the tool to the expected ones; the newest one may still be unnamed.
func (m *Model) Compare(got []sut.LstRun) error {
	if len(got) != len(m.Runs) {
		return fmt.Errorf("%d runs listed, expected %d", len(got), len(m.Runs))
	}
	seen := map[string]bool{}
	for i, w := range m.Runs {
		g := got[i]
		if seen[g.Uuid] || g.Uuid == "" {
			return fmt.Errorf("run %d has no identity of its own: %q", i, g.Uuid)
		}
		seen[g.Uuid] = true
		if w.ID == "" {
			w.ID = g.Uuid
		}
		if w.ID != g.Uuid {
			return fmt.Errorf("run %d is %s, expected %s", i, g.Uuid, w.ID)
		}
		if g.Protocol != m.To {
			return fmt.Errorf("run %d belongs to protocol %d, expected %d", i, g.Protocol, m.To)
		}
		if g.Completed != w.Done {
			return fmt.Errorf("run %d completed: %v, expected %v", i, g.Completed, w.Done)
		}
		var have []Verdict
		for _, t := range g.Tests {
			have = append(have, Verdict{t.TestID, t.Passed})
			if t.Passed != (t.Error == "") {
				return fmt.Errorf("verdict of %s: passed %v with error %q", t.TestID, t.Passed, t.Error)
			}
		}
		if fmt.Sprint(have) != fmt.Sprint(w.Tests) {
			return fmt.Errorf("run %d records %v, expected %v", i, have, w.Tests)
		}
	}
	return nil
}

var _ = fdoshared.To1
