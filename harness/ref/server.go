package ref

import (
	"bytes"
	"crypto/rsa"
	"encoding/hex"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
)

// Reply is an answer of the scripted server before it is sent.
type Reply struct {
	Status int
	Type   string // Message-Type header, "" sends none
	Token  string
	Body   []byte
	Drop   bool // break the connection instead
}

// Request is one message received by the scripted server.
type Request struct {
	Msg   int
	Token string
	Body  []byte
	Hdr   http.Header
	Fault string // what an honest server would object to
}

// Unprot61 is the unprotected header of message 61; nil fields are left out.
type Unprot61 struct {
	Nonce *Nonce
	Key   *PubKey
}

func (u Unprot61) Raw() Raw {
	m := map[int]any{}
	if u.Nonce != nil {
		m[256] = *u.Nonce
	}
	if u.Key != nil {
		m[257] = *u.Key
	}
	return Enc(m)
}

// Server is an independent rendezvous and owner service for one device, honest unless a hook lies.
type Server struct {
	*httptest.Server
	V     Voucher
	Owner Key
	Dev   *Device // public part and HMAC secret are used to check the client only
	To1d  Raw     // what 33 returns
	Wait  uint32
	Sims  []SIM // owner service info, one per message 69
	MaxSz uint16

	// hooks; they run with the lock held
	On61    func(p *Prove61, u *Unprot61, signer *Key, edit *func(*Cose))
	On63    func(asked int, num *int, entry *Raw)
	On65    func(p *Setup65, signer *Key, edit *func(*Cose))
	OnPlain func(msg int, b *[]byte)               // plaintext of 65, 67, 69, 71 before encryption
	OnKey   func(msg int, k *SessKey, cipher *int) // keys used to encrypt that answer
	OnNonce func(msg int, n *Nonce)                // nonce in 21, 31, 71
	OnAns   func(msg int, req []byte, r *Reply)    // final say; msg is the request
	OnSig   func(s *SigInfo)                       // eBSigInfo of 31
	OnReq   func(q *Request, r *Reply)             // after OnAns; q.Fault tells whether the request was refused

	// Strict ends a session at the first error and objects to anything the specification does not allow.
	Strict bool

	mu   sync.Mutex
	reqs []Request
	sess map[string]*srvSess
	done int
}

type srvSess struct {
	next      map[int]bool
	nonce     Nonce // 21, 31 or NonceTO2ProveDv
	setup     Nonce
	h         Hello60
	kex       *Kex
	key       SessKey
	cipher    int
	entry     int
	simsSent  int
	devSims   []SIM
	ownerTurn bool
	replyHmac bool
}

func NewServer(d *Device, v Voucher, owner Key) *Server {
	s := &Server{Dev: d, V: v, Owner: owner, sess: map[string]*srvSess{}, Wait: 3600, MaxSz: 1500}
	s.Server = httptest.NewServer(s)
	return s
}

// Requests returns and clears what was received.
func (s *Server) Requests() []Request {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := s.reqs
	s.reqs = nil
	return r
}

// Finished counts completed onboardings since the last call.
func (s *Server) Finished() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := s.done
	s.done = 0
	return n
}

type refusal struct {
	code int
	text string
}

func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	msg, err := strconv.Atoi(strings.TrimPrefix(r.URL.Path, "/fdo/101/msg/"))
	s.mu.Lock()
	q := Request{Msg: msg, Token: r.Header.Get("Authorization"), Body: body, Hdr: r.Header.Clone()}
	rep := Reply{Status: 200, Type: strconv.Itoa(msg + 1), Token: q.Token}
	func() {
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			f, ok := e.(refusal)
			if !ok {
				panic(e)
			}
			q.Fault = f.text
			if s.Strict {
				delete(s.sess, q.Token)
			}
			rep.Status, rep.Type = 500, "255"
			rep.Body = Enc(FdoError{Code: uint16(f.code), Prev: uint8(msg), Str: f.text, Ts: Raw{0}, CID: 1})
		}()
		if err != nil {
			panic(refusal{101, "path " + r.URL.Path})
		}
		if r.Method != "POST" {
			panic(refusal{101, "method " + r.Method})
		}
		if ct := r.Header.Get("Content-Type"); ct != "application/cbor" {
			panic(refusal{101, "content type " + ct})
		}
		rep.Body = s.answer(msg, body, &q, &rep)
	}()
	if s.OnAns != nil {
		s.OnAns(msg, body, &rep)
	}
	if s.OnReq != nil {
		s.OnReq(&q, &rep)
	}
	s.reqs = append(s.reqs, q)
	s.mu.Unlock()
	if rep.Drop {
		panic(http.ErrAbortHandler)
	}
	if rep.Type != "" {
		w.Header().Set("Message-Type", rep.Type)
	}
	if rep.Token != "" {
		w.Header().Set("Authorization", rep.Token)
	}
	w.Header().Set("Content-Type", "application/cbor")
	w.WriteHeader(rep.Status)
	w.Write(rep.Body)
}

func need(b bool, code int, f string, a ...any) {
	if !b {
		panic(refusal{code, fmt.Sprintf(f, a...)})
	}
}
func want(err error, f string) {
	if err != nil {
		panic(refusal{100, f + ": " + err.Error()})
	}
}

func (s *Server) answer(msg int, body []byte, q *Request, rep *Reply) []byte {
	fresh := func(next ...int) *srvSess {
		n := &srvSess{next: map[int]bool{}, nonce: NewNonce()}
		for _, i := range next {
			n.next[i] = true
		}
		rep.Token = "Bearer " + hex.EncodeToString(RandBytes(12))
		s.sess[rep.Token] = n
		return n
	}
	nonce := func(m int, n Nonce) Nonce {
		if s.OnNonce != nil {
			s.OnNonce(m, &n)
		}
		return n
	}
	switch msg {
	case 20:
		var v []any
		want(Dec(body, &v), "20")
		need(len(v) == 0, 100, "20 has %d elements", len(v))
		return Enc(ack21{Nonce: nonce(21, fresh(22).nonce)})
	case 30:
		var h Hello30
		want(Dec(body, &h), "30")
		need(h.Guid == s.Dev.Guid, 6, "30 names another GUID")
		need(h.Sig.Sg == s.Dev.Key.Sg, 100, "30 names signature type %d", h.Sig.Sg)
		si := h.Sig
		n := fresh(32).nonce
		if s.OnSig != nil {
			s.OnSig(&si)
		}
		return Enc(Ack31{Nonce: nonce(31, n), Sig: si})
	case 60:
		var h Hello60
		want(Dec(body, &h), "60")
		need(h.Guid == s.Dev.Guid, 6, "60 names another GUID")
		need(h.Sig.Sg == s.Dev.Key.Sg, 100, "60 names signature type %d", h.Sig.Sg)
		n := fresh(62)
		n.h, n.cipher = h, h.Cipher
		var rk *rsa.PublicKey
		if p, ok := s.Owner.Priv.Public().(*rsa.PublicKey); ok {
			rk = p
		}
		k, err := NewKex(h.Kex, false, rk)
		want(err, "60 kex "+h.Kex)
		n.kex = k
		p := Prove61{Header: s.V.Header, Num: uint8(len(s.V.Entries)), Hmac: s.V.Hmac, Nonce: h.Nonce, Sig: h.Sig, XA: k.Share,
			Hello: MkHash(s.Dev.HashTyp, body), Max: h.Max}
		dv, pk := n.nonce, s.Owner.Pub()
		u := Unprot61{Nonce: &dv, Key: &pk}
		signer := s.Owner
		var edit func(*Cose)
		if s.On61 != nil {
			s.On61(&p, &u, &signer, &edit)
		}
		c := signer.Sign(Enc(p), u.Raw())
		if edit != nil {
			edit(&c)
		}
		return c.Tagged()
	}
	n := s.sess[q.Token]
	need(n != nil, 1, "message %d with unknown token %q", msg, q.Token)
	need(n.next[msg], 101, "message %d not expected", msg)
	switch msg {
	case 22:
		var m msg22
		want(Dec(body, &m), "22")
		var d To0d
		want(Dec(m.To0d, &d), "to0d")
		need(d.Nonce == n.nonce, 3, "22 has another nonce")
		v, err := ParseVoucher(d.Voucher)
		want(err, "22 voucher")
		owner, err := v.Validate()
		want(err, "22 voucher")
		c, err := DecCose(m.To1d)
		want(err, "to1d")
		want(c.Verify(owner), "to1d signature")
		var t To1d
		want(Dec(c.Payload, &t), "to1d payload")
		need(t.Hash.Is(m.To0d), 3, "to1d hash")
		if s.Strict {
			need(len(t.Addrs) > 0, 100, "to1d without addresses")
			for _, a := range t.Addrs {
				need(a.IP != nil || a.DNS != nil, 100, "to1d address without IP and DNS name")
			}
		}
		delete(s.sess, q.Token)
		w := s.Wait
		if d.Wait < w {
			w = d.Wait
		}
		return Enc([]any{w})
	case 32:
		c, err := DecCose(body)
		want(err, "32")
		need(c.VerifyWith(s.Dev.Key.Priv.Public()), 101, "32 signature")
		want(checkEAT(c.Payload, n.nonce, s.Dev.Guid, nil), "32")
		delete(s.sess, q.Token)
		return s.To1d
	case 62:
		var m struct {
			_ struct{} `cbor:",toarray"`
			N int
		}
		want(Dec(body, &m), "62")
		need(m.N == n.entry, 100, "62 asks entry %d, expected %d", m.N, n.entry)
		num, e := m.N, s.V.Entries[m.N]
		n.entry++
		if n.entry == len(s.V.Entries) {
			n.next = map[int]bool{64: true}
		}
		if s.On63 != nil {
			s.On63(m.N, &num, &e)
		}
		return Enc([]any{num, e})
	case 64:
		c, err := DecCose(body)
		want(err, "64")
		need(c.VerifyWith(s.Dev.Key.Priv.Public()), 101, "64 signature")
		var u map[int]Raw
		want(Dec(c.Unprot, &u), "64 unprotected")
		want(Dec(u[-259], &n.setup), "64 setup nonce")
		var fdo struct {
			_  struct{} `cbor:",toarray"`
			XB []byte
		}
		want(checkEAT(c.Payload, n.nonce, s.Dev.Guid, &fdo), "64")
		rp, _ := s.Owner.Priv.(*rsa.PrivateKey)
		n.key, err = n.kex.Derive(fdo.XB, false, rp)
		want(err, "64 key exchange")
		n.next = map[int]bool{66: true}
		h, err := s.V.Hdr()
		want(err, "own voucher")
		p := Setup65{RV: h.RvInfo, Guid: h.Guid, Nonce: n.setup, Owner: s.Owner.Pub()}
		signer := s.Owner
		var edit func(*Cose)
		if s.On65 != nil {
			s.On65(&p, &signer, &edit)
		}
		sc := signer.Sign(Enc(p), nil)
		if edit != nil {
			edit(&sc)
		}
		return s.seal(n, 65, sc.Tagged())
	}
	plain, err := Unwrap(n.key, n.cipher, body)
	want(err, fmt.Sprintf("%d cannot be decrypted", msg))
	switch msg {
	case 66:
		var m struct {
			_    struct{} `cbor:",toarray"`
			Hmac *Hash
			Max  *uint16
		}
		want(Dec(plain, &m), "66")
		n.next = map[int]bool{68: true}
		return s.seal(n, 67, Enc([]any{s.MaxSz}))
	case 68:
		var m Msg68
		want(Dec(plain, &m), "68")
		if s.Strict {
			var x struct {
				_    struct{} `cbor:",toarray"`
				More bool
				Info Raw
			}
			want(Dec(plain, &x), "68")
			need(len(x.Info) > 0 && x.Info[0]>>5 == 4, 100, "68 service info is not an array")
			need(!n.ownerTurn || !m.More && len(m.Info) == 0, 101, "68 device service info after it was complete")
			n.ownerTurn = !m.More
		}
		n.devSims = append(n.devSims, m.Info...)
		a := Msg69{Info: []SIM{}}
		if !m.More {
			if n.simsSent < len(s.Sims) {
				a.Info = s.Sims[n.simsSent : n.simsSent+1]
				n.simsSent++
			}
			a.More = n.simsSent < len(s.Sims)
			a.Done = !a.More
			if a.Done {
				n.next = map[int]bool{70: true}
			}
		}
		return s.seal(n, 69, Enc(a))
	case 70:
		var m struct {
			_ struct{} `cbor:",toarray"`
			N Nonce
		}
		want(Dec(plain, &m), "70")
		need(m.N == n.nonce, 101, "70 nonce")
		n.next = map[int]bool{}
		s.done++
		return s.seal(n, 71, Enc([]any{nonce(71, n.setup)}))
	}
	panic(refusal{101, "message " + strconv.Itoa(msg)})
}

func checkEAT(payload []byte, n Nonce, g Guid, fdo any) error {
	var m map[int]Raw
	if err := Dec(payload, &m); err != nil {
		return err
	}
	var en, ue []byte
	if err := Dec(m[10], &en); err != nil {
		return err
	}
	if err := Dec(m[256], &ue); err != nil {
		return err
	}
	if !bytes.Equal(en, n[:]) {
		return fmt.Errorf("EAT nonce")
	}
	if !bytes.Equal(ue, UEID(g)) {
		return fmt.Errorf("EAT UEID")
	}
	if fdo != nil {
		return Dec(m[-257], fdo)
	}
	return nil
}

func (s *Server) seal(n *srvSess, msg int, plain []byte) []byte {
	if s.OnPlain != nil {
		s.OnPlain(msg, &plain)
	}
	k, c := n.key, n.cipher
	if s.OnKey != nil {
		s.OnKey(msg, &k, &c)
	}
	b, err := Wrap(k, c, plain, nil)
	want(err, "seal")
	return b
}

// DevSims returns the device service info of a session token; for the only session when tok is "".
func (s *Server) DevSims() (out []SIM) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, n := range s.sess {
		out = append(out, n.devSims...)
	}
	return
}
