package ref

import (
	"bytes"
	"crypto/rsa"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
)

// ---- HTTP ----

type Resp struct {
	Status int
	Msg    int // Message-Type header, -1 if absent or unparsable
	Hdr    http.Header
	Body   []byte
	Err    error // transport failure
}

func (r Resp) Auth() string { return r.Hdr.Get("Authorization") }

// Error decodes the body as FDO error message.
func (r Resp) Error() (FdoError, error) {
	var e FdoError
	if r.Err != nil {
		return e, r.Err
	}
	if r.Msg != 255 {
		return e, fmt.Errorf("message type %d", r.Msg)
	}
	err := Dec(r.Body, &e)
	return e, err
}

func (r Resp) String() string {
	if r.Err != nil {
		return "transport error: " + r.Err.Error()
	}
	if e, err := r.Error(); err == nil {
		return fmt.Sprintf("HTTP %d error message code=%d prev=%d %q", r.Status, e.Code, e.Prev, e.Str)
	}
	b := r.Body
	if len(b) > 60 {
		b = b[:60]
	}
	return fmt.Sprintf("HTTP %d msg %d body(%d) %x", r.Status, r.Msg, len(r.Body), b)
}

// Ok tells whether this is the protocol response want.
func (r Resp) Ok(want int) bool { return r.Err == nil && r.Status == 200 && r.Msg == want }

// Refused tells whether this is a proper protocol error.
func (r Resp) Refused() bool {
	_, err := r.Error()
	return err == nil && r.Status >= 400 && r.Status < 600
}

type Conn struct {
	Base string
	HC   *http.Client
	Tok  string
}

var hc = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 256, MaxIdleConns: 1024}}

func (c *Conn) client() *http.Client {
	if c.HC != nil {
		return c.HC
	}
	return hc
}

func MsgURL(base string, msg int) string {
	return strings.TrimRight(base, "/") + "/fdo/101/msg/" + strconv.Itoa(msg)
}

func (c *Conn) Post(msg int, body []byte) Resp {
	h := http.Header{"Content-Type": {"application/cbor"}, "Message-Type": {strconv.Itoa(msg)}}
	if c.Tok != "" {
		h.Set("Authorization", c.Tok)
	}
	return c.Do("POST", MsgURL(c.Base, msg), h, body)
}

func (c *Conn) Do(method, url string, h http.Header, body []byte) Resp {
	req, err := http.NewRequest(method, url, bytes.NewReader(body))
	if err != nil {
		return Resp{Err: err, Msg: -1}
	}
	req.Header = h
	resp, err := c.client().Do(req)
	if err != nil {
		return Resp{Err: err, Msg: -1}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return Resp{Err: err, Msg: -1}
	}
	r := Resp{Status: resp.StatusCode, Hdr: resp.Header, Body: b, Msg: -1}
	if n, err := strconv.Atoi(resp.Header.Get("Message-Type")); err == nil {
		r.Msg = n
	}
	return r
}

// ---- common message parts ----

type Nonce [16]byte

func NewNonce() (n Nonce) { copy(n[:], RandBytes(16)); return }

type SigInfo struct {
	_    struct{} `cbor:",toarray"`
	Sg   int
	Info []byte
}

type RVAddr struct {
	_     struct{} `cbor:",toarray"`
	IP    []byte
	DNS   *string
	Port  uint16
	Proto uint8
}

type To1d struct {
	_     struct{} `cbor:",toarray"`
	Addrs []RVAddr
	Hash  Hash
}

type To0d struct {
	_       struct{} `cbor:",toarray"`
	Voucher Raw
	Wait    uint32
	Nonce   Nonce
}

type msg22 struct {
	_    struct{} `cbor:",toarray"`
	To0d []byte
	To1d Raw
}

type ack21 struct {
	_     struct{} `cbor:",toarray"`
	Nonce Nonce
}

func DNSAddr(name string, port uint16, proto uint8) RVAddr {
	return RVAddr{DNS: &name, Port: port, Proto: proto}
}

// ---- TO0 client ----

type TO0 struct {
	Conn
	Nonce Nonce
}

func (t *TO0) Hello() (Resp, error) {
	r := t.Post(20, Enc([]any{}))
	if !r.Ok(21) {
		return r, errors.New("20: " + r.String())
	}
	var a ack21
	if err := Dec(r.Body, &a); err != nil {
		return r, err
	}
	t.Nonce, t.Tok = a.Nonce, r.Auth()
	if t.Tok == "" {
		return r, errors.New("21 without authorization")
	}
	return r, nil
}

// OwnerSign is what can be varied in message 22.
type OwnerSign struct {
	Voucher Raw
	Wait    uint32
	Nonce   Nonce
	Addrs   []RVAddr
	Signer  Key
	HashTyp int
	// overrides
	To0dHash *Hash
	EditTo1d func(*Cose)
}

func (o OwnerSign) Build() (body []byte, to1d Raw) {
	d := Enc(To0d{Voucher: o.Voucher, Wait: o.Wait, Nonce: o.Nonce})
	h := MkHash(o.HashTyp, d)
	if o.To0dHash != nil {
		h = *o.To0dHash
	}
	c := o.Signer.Sign(Enc(To1d{Addrs: o.Addrs, Hash: h}), nil)
	if o.EditTo1d != nil {
		o.EditTo1d(&c)
	}
	to1d = c.Tagged()
	return Enc(msg22{To0d: d, To1d: to1d}), to1d
}

func AcceptedWait(r Resp) (uint32, error) {
	if !r.Ok(23) {
		return 0, errors.New(r.String())
	}
	var a struct {
		_    struct{} `cbor:",toarray"`
		Wait uint32
	}
	err := Dec(r.Body, &a)
	return a.Wait, err
}

// ---- TO1 client ----

type TO1 struct {
	Conn
	Dev   *Device
	Nonce Nonce
}

type Hello30 struct {
	_    struct{} `cbor:",toarray"`
	Guid Guid
	Sig  SigInfo
}

type Ack31 struct {
	_     struct{} `cbor:",toarray"`
	Nonce Nonce
	Sig   SigInfo
}

func (t *TO1) Hello() (Resp, error) { return t.HelloAs(t.Dev.Guid, t.Dev.Key.Sg) }
func (t *TO1) HelloAs(g Guid, sg int) (Resp, error) {
	r := t.Post(30, Enc(Hello30{Guid: g, Sig: SigInfo{Sg: sg, Info: []byte{}}}))
	if !r.Ok(31) {
		return r, errors.New("30: " + r.String())
	}
	var a Ack31
	if err := Dec(r.Body, &a); err != nil {
		return r, err
	}
	if a.Sig.Sg != sg {
		return r, fmt.Errorf("31 names signature type %d, asked %d", a.Sig.Sg, sg)
	}
	t.Nonce, t.Tok = a.Nonce, r.Auth()
	if t.Tok == "" {
		return r, errors.New("31 without authorization")
	}
	return r, nil
}

// EAT is a device attestation token payload.
type EAT struct {
	Nonce []byte
	UEID  []byte
	FDO   Raw
}

func (e EAT) Bytes() []byte {
	m := map[int]any{10: e.Nonce, 256: e.UEID}
	if e.FDO != nil {
		m[-257] = e.FDO
	}
	return Enc(m)
}
func UEID(g Guid) []byte { return append([]byte{1}, g[:]...) }

func (t *TO1) Prove() Resp {
	c := t.Dev.Key.Sign(EAT{Nonce: t.Nonce[:], UEID: UEID(t.Dev.Guid)}.Bytes(), nil)
	return t.Post(32, c.Tagged())
}

// ---- TO2 client ----

type TO2 struct {
	Conn
	Dev         *Device
	KexName     string
	Cipher      int
	MaxSz       uint16
	ReadySz     int  // owner message size in 66: 0 for 1400, negative for null
	NoHmac      bool // no replacement HMAC in 66
	Voucher     *Voucher // optional: what the device expects
	HelloRaw    []byte
	NonceOV     Nonce
	NonceDv     Nonce
	NonceSetup  Nonce
	OwnerKey    PubKey
	OVH         OVHeader
	OVHRaw      []byte
	OVHmac      Hash
	NumEntries  int
	XA          []byte
	Kex         *Kex
	Sess        SessKey
	Entries     []Raw
	Setup       Setup65
	OwnerSIMs   []SIM
	LastPayload []byte
}

type Hello60 struct {
	_      struct{} `cbor:",toarray"`
	Max    uint16
	Guid   Guid
	Nonce  Nonce
	Kex    string
	Cipher int
	Sig    SigInfo
}

type Prove61 struct {
	_      struct{} `cbor:",toarray"`
	Header []byte
	Num    uint8
	Hmac   Hash
	Nonce  Nonce
	Sig    SigInfo
	XA     []byte
	Hello  Hash
	Max    uint16
}

type Setup65 struct {
	_     struct{} `cbor:",toarray"`
	RV    Raw
	Guid  Guid
	Nonce Nonce
	Owner PubKey
}

type SIM struct {
	_   struct{} `cbor:",toarray"`
	Key string
	Val []byte
}

type Msg68 struct {
	_    struct{} `cbor:",toarray"`
	More bool
	Info []SIM
}
type Msg69 struct {
	_    struct{} `cbor:",toarray"`
	More bool
	Done bool
	Info []SIM
}

func (t *TO2) Hello60() Hello60 {
	if t.MaxSz == 0 {
		t.MaxSz = 2048
	}
	t.NonceOV = NewNonce()
	return Hello60{Max: t.MaxSz, Guid: t.Dev.Guid, Nonce: t.NonceOV, Kex: t.KexName, Cipher: t.Cipher, Sig: SigInfo{Sg: t.Dev.Key.Sg, Info: []byte{}}}
}

func (t *TO2) Hello() (Resp, error) {
	h := t.Hello60()
	t.HelloRaw = Enc(h)
	r := t.Post(60, t.HelloRaw)
	return r, t.Accept61(r, h)
}

// Accept61 fully verifies message 61 as an honest device would.
func (t *TO2) Accept61(r Resp, h Hello60) error {
	if !r.Ok(61) {
		return errors.New("60: " + r.String())
	}
	t.Tok = r.Auth()
	if t.Tok == "" {
		return errors.New("61 without authorization")
	}
	c, err := DecCose(r.Body)
	if err != nil {
		return fmt.Errorf("61: %w", err)
	}
	var u map[int]Raw
	if err := Dec(c.Unprot, &u); err != nil {
		return fmt.Errorf("61 unprotected: %w", err)
	}
	if err := Dec(u[256], &t.NonceDv); err != nil {
		return fmt.Errorf("61 nonce: %w", err)
	}
	if err := Dec(u[257], &t.OwnerKey); err != nil {
		return fmt.Errorf("61 owner key: %w", err)
	}
	if err := c.Verify(t.OwnerKey); err != nil {
		return fmt.Errorf("61: %w", err)
	}
	var p Prove61
	if err := Dec(c.Payload, &p); err != nil {
		return fmt.Errorf("61 payload: %w", err)
	}
	t.LastPayload = c.Payload
	if p.Nonce != h.Nonce {
		return errors.New("61: wrong NonceTO2ProveOV")
	}
	if p.Sig.Sg != h.Sig.Sg {
		return errors.New("61: wrong eBSigInfo")
	}
	if !p.Hello.Is(t.HelloRaw) {
		return errors.New("61: wrong HelloDevice hash")
	}
	if err := Dec(p.Header, &t.OVH); err != nil {
		return fmt.Errorf("61 header: %w", err)
	}
	t.OVHRaw, t.OVHmac, t.NumEntries, t.XA = p.Header, p.Hmac, int(p.Num), p.XA
	if t.OVH.Guid != h.Guid {
		return errors.New("61: voucher of another device")
	}
	if !p.Hmac.IsHmac(t.Dev.HmacKey, p.Header) {
		return errors.New("61: header HMAC")
	}
	return nil
}

func (t *TO2) GetEntry(i int) (Resp, error) {
	r := t.Post(62, Enc([]any{i}))
	if !r.Ok(63) {
		return r, errors.New("62: " + r.String())
	}
	var p struct {
		_     struct{} `cbor:",toarray"`
		Num   uint8
		Entry Raw
	}
	if err := Dec(r.Body, &p); err != nil {
		return r, err
	}
	if int(p.Num) != i {
		return r, fmt.Errorf("63: entry %d, asked %d", p.Num, i)
	}
	t.Entries = append(t.Entries, p.Entry)
	return r, nil
}

func (t *TO2) GetEntries() error {
	for i := 0; i < t.NumEntries; i++ {
		if _, err := t.GetEntry(i); err != nil {
			return err
		}
	}
	// the voucher as received must be genuine and name the owner key of message 61
	v := Voucher{Ver: 101, Header: t.OVHRaw, Hmac: t.OVHmac, Chain: &t.Dev.Chain, Entries: t.Entries}
	o, err := v.Validate()
	if err != nil {
		return fmt.Errorf("voucher received: %w", err)
	}
	if !o.Equal(t.OwnerKey) {
		return errors.New("voucher owner is not the key of message 61")
	}
	return nil
}

// MakeKex prepares the device share.
func (t *TO2) MakeKex() error {
	var rk *rsa.PublicKey
	if pub, err := t.OwnerKey.Parse(); err == nil {
		rk, _ = pub.(*rsa.PublicKey)
	}
	k, err := NewKex(t.KexName, true, rk)
	if err != nil {
		return err
	}
	t.Kex = k
	t.Sess, err = k.Derive(t.XA, true, nil)
	return err
}

// Prove64 is what can be varied in message 64.
type Prove64 struct {
	Nonce, UEID []byte
	XB          []byte
	FDO         Raw // overrides XB
	Signer      Key
	SetupNonce  *Nonce
	Edit        func(*Cose)
}

func (t *TO2) Proof() Prove64 {
	t.NonceSetup = NewNonce()
	n := t.NonceSetup
	return Prove64{Nonce: t.NonceDv[:], UEID: UEID(t.Dev.Guid), XB: t.Kex.Share, Signer: t.Dev.Key, SetupNonce: &n}
}

func (p Prove64) Bytes() []byte {
	fdo := p.FDO
	if fdo == nil {
		fdo = Enc([]any{p.XB})
	}
	u := map[int]any{}
	if p.SetupNonce != nil {
		u[-259] = *p.SetupNonce
	}
	c := p.Signer.Sign(EAT{Nonce: p.Nonce, UEID: p.UEID, FDO: fdo}.Bytes(), Enc(u))
	if p.Edit != nil {
		p.Edit(&c)
	}
	return c.Tagged()
}

func (t *TO2) Prove() (Resp, error) {
	if t.Kex == nil {
		if err := t.MakeKex(); err != nil {
			return Resp{}, err
		}
	}
	r := t.Post(64, t.Proof().Bytes())
	return r, t.Accept65(r)
}

func (t *TO2) Unwrap(r Resp, want int) ([]byte, error) {
	if !r.Ok(want) {
		return nil, errors.New(r.String())
	}
	b, err := Unwrap(t.Sess, t.Cipher, r.Body)
	if err != nil {
		return nil, fmt.Errorf("%d: cannot be decrypted with the session keys: %w", want, err)
	}
	t.LastPayload = b
	return b, nil
}

func (t *TO2) Accept65(r Resp) error {
	b, err := t.Unwrap(r, 65)
	if err != nil {
		return fmt.Errorf("64: %w", err)
	}
	c, err := DecCose(b)
	if err != nil {
		return fmt.Errorf("65: %w", err)
	}
	if err := c.Verify(t.OwnerKey); err != nil {
		return fmt.Errorf("65: %w", err)
	}
	if err := Dec(c.Payload, &t.Setup); err != nil {
		return fmt.Errorf("65 payload: %w", err)
	}
	if t.Setup.Nonce != t.NonceSetup {
		return errors.New("65: wrong NonceTO2SetupDv")
	}
	return nil
}

func (t *TO2) PostEnc(msg int, plain []byte) Resp {
	b, err := Wrap(t.Sess, t.Cipher, plain, nil)
	if err != nil {
		return Resp{Err: err, Msg: -1}
	}
	return t.Post(msg, b)
}

func (t *TO2) Ready() (Resp, error) {
	var hm, sz any = MkHmac(t.Dev.HmacTyp, t.Dev.HmacKey, []byte("new header")), uint16(1400)
	if t.NoHmac {
		hm = nil
	}
	switch {
	case t.ReadySz > 0:
		sz = uint16(t.ReadySz)
	case t.ReadySz < 0:
		sz = nil
	}
	r := t.PostEnc(66, Enc([]any{hm, sz}))
	b, err := t.Unwrap(r, 67)
	if err != nil {
		return r, fmt.Errorf("66: %w", err)
	}
	var p struct {
		_  struct{} `cbor:",toarray"`
		Sz *uint16
	}
	return r, Dec(b, &p)
}

func Mandatory() []SIM {
	return []SIM{{Key: "devmod:active", Val: []byte{0xf5}}, {Key: "devmod:os", Val: Enc("linux")}, {Key: "devmod:arch", Val: Enc("riscv")},
		{Key: "devmod:version", Val: Enc("1.0")}, {Key: "devmod:device", Val: Enc("ref")}, {Key: "devmod:sep", Val: Enc(";")}, {Key: "devmod:bin", Val: Enc("riscv")},
		{Key: "devmod:nummodules", Val: Enc(1)}, {Key: "devmod:modules", Val: Enc([]any{0, 1, "fido_alliance"})}}
}

func (t *TO2) Info(more bool, sims []SIM) (Msg69, Resp, error) {
	var m Msg69
	if sims == nil {
		sims = []SIM{}
	}
	r := t.PostEnc(68, Enc(Msg68{More: more, Info: sims}))
	b, err := t.Unwrap(r, 69)
	if err != nil {
		return m, r, fmt.Errorf("68: %w", err)
	}
	if err := Dec(b, &m); err != nil {
		return m, r, err
	}
	t.OwnerSIMs = append(t.OwnerSIMs, m.Info...)
	return m, r, nil
}

// InfoAll runs the service info loop with the given device batches.
func (t *TO2) InfoAll(batches [][]SIM) error {
	for i, b := range batches {
		m, _, err := t.Info(i+1 < len(batches), b)
		if err != nil {
			return err
		}
		if i+1 < len(batches) && (m.Done || m.More || len(m.Info) != 0) {
			return fmt.Errorf("69: owner answers %+v although the device has more", m)
		}
		if i+1 == len(batches) {
			for n := 0; !m.Done; n++ {
				if n > 300 {
					return errors.New("owner never done")
				}
				if m, _, err = t.Info(false, nil); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func (t *TO2) Done() (Resp, error) {
	r := t.PostEnc(70, Enc([]any{t.NonceDv}))
	b, err := t.Unwrap(r, 71)
	if err != nil {
		return r, fmt.Errorf("70: %w", err)
	}
	var p struct {
		_ struct{} `cbor:",toarray"`
		N Nonce
	}
	if err := Dec(b, &p); err != nil {
		return r, err
	}
	if p.N != t.NonceSetup {
		return r, errors.New("71: wrong NonceTO2SetupDv")
	}
	return r, nil
}

// Run performs a whole honest onboarding.
func (t *TO2) Run(batches [][]SIM) error {
	if _, err := t.Hello(); err != nil {
		return err
	}
	if err := t.GetEntries(); err != nil {
		return err
	}
	if _, err := t.Prove(); err != nil {
		return err
	}
	if _, err := t.Ready(); err != nil {
		return err
	}
	if batches == nil {
		batches = [][]SIM{Mandatory()}
	}
	if err := t.InfoAll(batches); err != nil {
		return err
	}
	_, err := t.Done()
	return err
}
