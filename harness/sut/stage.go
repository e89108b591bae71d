package sut

import (
	"fmt"
	"math/rand/v2"

	"verif.local/harness/ref"
)

// Msgs are the requests of the three protocols in order.
var Msgs = []int{20, 22, 30, 32, 60, 62, 64, 66, 68, 70}

// First tells whether m opens a session.
func First(m int) bool { return m == 20 || m == 30 || m == 60 }

// At is a session in which message Msg is due.
type At struct {
	Msg  int
	Tok  string
	Body []byte // an honest body of the due message
	T0   *ref.TO0
	T1   *ref.TO1
	T2   *ref.TO2
	p    *Party
	h60  ref.Hello60
}

// OwnerSign is an honest registration of the party at the rendezvous.
func (p *Party) OwnerSign(n ref.Nonce) ref.OwnerSign {
	return ref.OwnerSign{Voucher: p.V.Bytes(), Wait: 3000, Nonce: n, Addrs: []ref.RVAddr{ref.DNSAddr("do.example.org", 8043, 3)}, Signer: p.Owner, HashTyp: p.Dev.HashTyp}
}

// Register makes the rendezvous know the device.
func (p *Party) Register() error {
	t := &ref.TO0{Conn: ref.Conn{Base: p.URL}}
	if _, err := t.Hello(); err != nil {
		return err
	}
	b, _ := p.OwnerSign(t.Nonce).Build()
	_, err := ref.AcceptedWait(t.Post(22, b))
	return err
}

// Reach plays honestly until message m is due. The party must be registered for 32.
func (p *Party) Reach(r *rand.Rand, m int) (*At, error) {
	c := ref.Conn{Base: p.URL}
	a := &At{Msg: m, p: p}
	switch m {
	case 20:
		a.T0 = &ref.TO0{Conn: c}
		a.Body = ref.Enc([]any{})
		return a, nil
	case 22:
		a.T0 = &ref.TO0{Conn: c}
		if _, err := a.T0.Hello(); err != nil {
			return nil, err
		}
		a.Tok = a.T0.Tok
		a.Body, _ = p.OwnerSign(a.T0.Nonce).Build()
		return a, nil
	case 30:
		a.T1 = &ref.TO1{Conn: c, Dev: p.Dev}
		a.Body = ref.Enc(ref.Hello30{Guid: p.Dev.Guid, Sig: ref.SigInfo{Sg: p.Dev.Key.Sg, Info: []byte{}}})
		return a, nil
	case 32:
		a.T1 = &ref.TO1{Conn: c, Dev: p.Dev}
		if _, err := a.T1.Hello(); err != nil {
			return nil, err
		}
		a.Tok = a.T1.Tok
		a.Body = p.Dev.Key.Sign(ref.EAT{Nonce: a.T1.Nonce[:], UEID: ref.UEID(p.Dev.Guid)}.Bytes(), nil).Tagged()
		return a, nil
	}
	t := p.RandTO2(r)
	if r.IntN(8) != 0 {
		t.KexName = []string{"ECDH256", "ECDH384"}[r.IntN(2)]
	}
	a.T2 = t
	if m == 60 {
		a.h60 = t.Hello60()
		t.HelloRaw = ref.Enc(a.h60)
		a.Body = t.HelloRaw
		return a, nil
	}
	if _, err := t.Hello(); err != nil {
		return nil, err
	}
	a.Tok = t.Tok
	if m == 62 {
		a.Body = ref.Enc([]any{0})
		return a, nil
	}
	if err := t.GetEntries(); err != nil {
		return nil, err
	}
	if err := t.MakeKex(); err != nil {
		return nil, err
	}
	if m == 64 {
		a.Body = t.Proof().Bytes()
		return a, nil
	}
	if _, err := t.Prove(); err != nil {
		return nil, err
	}
	var plain []byte
	switch m {
	case 66:
		plain = ref.Enc([]any{ref.MkHmac(p.Dev.HmacTyp, p.Dev.HmacKey, []byte("new header")), uint16(1400)})
	case 68, 70:
		if _, err := t.Ready(); err != nil {
			return nil, err
		}
		plain = ref.Enc(ref.Msg68{More: false, Info: ref.Mandatory()})
		if m == 70 {
			if err := t.InfoAll([][]ref.SIM{ref.Mandatory()}); err != nil {
				return nil, err
			}
			plain = ref.Enc([]any{t.NonceDv})
		}
	default:
		return nil, fmt.Errorf("no message %d", m)
	}
	var err error
	a.Body, err = ref.Wrap(t.Sess, t.Cipher, plain, nil)
	return a, err
}

// Accept verifies the answer to the honest body as the client of that protocol would.
func (a *At) Accept(r ref.Resp) error {
	if !r.Ok(a.Msg + 1) {
		return fmt.Errorf("%s", r)
	}
	switch a.Msg {
	case 20:
		var x struct {
			_ struct{} `cbor:",toarray"`
			N ref.Nonce
		}
		return ref.Dec(r.Body, &x)
	case 22:
		_, err := ref.AcceptedWait(r)
		return err
	case 30:
		var x ref.Ack31
		return ref.Dec(r.Body, &x)
	case 32:
		c, err := ref.DecCose(r.Body)
		if err != nil {
			return err
		}
		return c.Verify(a.p.Owner.Pub())
	case 60:
		return a.T2.Accept61(r, a.h60)
	case 62:
		var x struct {
			_     struct{} `cbor:",toarray"`
			Num   uint8
			Entry ref.Raw
		}
		if err := ref.Dec(r.Body, &x); err != nil {
			return err
		}
		if x.Num != 0 {
			return fmt.Errorf("entry %d in answer to 0", x.Num)
		}
		return nil
	case 64:
		return a.T2.Accept65(r)
	}
	_, err := a.T2.Unwrap(r, a.Msg+1)
	return err
}
