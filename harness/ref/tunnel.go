package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
	"hash"
	"math/big"
)

// ---- KDF ----

type SessKey struct{ ShSe, Ctx []byte }

func KDF(n int, hmacType int, key, ctx []byte) []byte {
	var mk func() hash.Hash = sha256.New
	if hmacType == HMAC384 {
		mk = sha512.New384
	}
	var out []byte
	for i := 1; len(out) < n; i++ {
		m := hmac.New(mk, key)
		m.Write([]byte{byte(i)})
		m.Write([]byte("FIDO-KDF\x00AutomaticOnboardTunnel"))
		m.Write(ctx)
		m.Write([]byte{byte(n * 8 >> 8), byte(n * 8)})
		out = append(out, m.Sum(nil)...)
	}
	return out[:n]
}

// ---- suites ----

type Suite struct {
	ID           int
	Mode         string // gcm, ccm, ctr
	Key, Nonce   int
	Implemented  bool
	MacKey, Hmac int
}

var Suites = []Suite{
	{ID: 1, Mode: "gcm", Key: 16, Nonce: 12, Implemented: true},
	{ID: 3, Mode: "gcm", Key: 32, Nonce: 12, Implemented: true},
	{ID: 30, Mode: "ccm", Key: 16, Nonce: 13, Implemented: true},
	{ID: 31, Mode: "ccm", Key: 32, Nonce: 13, Implemented: true},
	{ID: 32, Mode: "ccm", Key: 16, Nonce: 7, Implemented: true},
	{ID: 33, Mode: "ccm", Key: 32, Nonce: 7, Implemented: true},
	{ID: -17760704, Mode: "ctr", Key: 16, Nonce: 16, MacKey: 32, Hmac: HMAC256, Implemented: true},
	{ID: -17760703, Mode: "cbc"}, {ID: -17760705, Mode: "cbc"}, {ID: -17760706, Mode: "ctr256"},
}

func SuiteByID(id int) (Suite, bool) {
	for _, s := range Suites {
		if s.ID == id {
			return s, true
		}
	}
	return Suite{}, false
}

type env0 struct {
	_      struct{} `cbor:",toarray"`
	Prot   []byte
	Unprot map[int64]Raw
	Ct     []byte
}
type macOuter struct {
	_       struct{} `cbor:",toarray"`
	Prot    []byte
	Unprot  map[int64]Raw
	Payload []byte
	Tag     []byte
}

// Parts of an envelope, for tampering and IV monitoring.
type Envelope struct {
	Suite      Suite
	Prot       []byte
	IV, Ct     []byte
	OuterProt  []byte
	OuterTag   []byte
	Additional map[int64]Raw
}

func ParseEnvelope(b []byte, id int) (Envelope, error) {
	s, ok := SuiteByID(id)
	if !ok || !s.Implemented {
		return Envelope{}, errors.New("suite")
	}
	e := Envelope{Suite: s}
	in := b
	if s.Mode == "ctr" {
		var o macOuter
		if err := Dec(b, &o); err != nil {
			return e, err
		}
		e.OuterProt, e.OuterTag = o.Prot, o.Tag
		in = o.Payload
	}
	c, err := Untag(in, 16)
	if err != nil {
		return e, err
	}
	var v env0
	if err := Dec(c, &v); err != nil {
		return e, err
	}
	e.Prot, e.Ct, e.Additional = v.Prot, v.Ct, v.Unprot
	if iv, ok := v.Unprot[5]; ok {
		if err := Dec(iv, &e.IV); err != nil {
			return e, err
		}
	}
	return e, nil
}

func (e Envelope) inner() []byte {
	m := map[int64]Raw{}
	for k, v := range e.Additional {
		m[k] = v
	}
	if e.IV != nil {
		m[5] = Enc(e.IV)
	} else {
		delete(m, 5)
	}
	return Tag(16, env0{Prot: e.Prot, Unprot: m, Ct: e.Ct})
}

func (e Envelope) Bytes() []byte {
	if e.Suite.Mode == "ctr" {
		return Enc(macOuter{Prot: e.OuterProt, Unprot: map[int64]Raw{}, Payload: e.inner(), Tag: e.OuterTag})
	}
	return e.inner()
}

func (e *Envelope) macOver(svk []byte) []byte {
	// COSE Mac_structure as the tool frames it: tag 17 around ["MAC0", protected map, h'', payload]
	return MkHmac(HMAC256, svk, Tag(17, []any{"MAC0", Raw(e.OuterProt), []byte{}, e.inner()})).Hash
}

func aad(prot []byte) []byte { return Enc([]any{"Encrypt0", prot, []byte{}}) }

// Wrap encrypts with the independent implementation. iv nil = random.
func Wrap(k SessKey, id int, plain, iv []byte) ([]byte, error) {
	s, ok := SuiteByID(id)
	if !ok || !s.Implemented {
		return nil, errors.New("suite not implemented")
	}
	if iv == nil {
		iv = RandBytes(s.Nonce)
	}
	e := Envelope{Suite: s, Prot: Enc(map[int]int{1: id}), IV: iv}
	switch s.Mode {
	case "gcm":
		b, _ := aes.NewCipher(KDF(s.Key, HMAC256, k.ShSe, k.Ctx))
		g, err := cipher.NewGCM(b)
		if err != nil {
			return nil, err
		}
		e.Ct = g.Seal(nil, iv, plain, aad(e.Prot))
	case "ccm":
		e.Ct = CCMSeal(KDF(s.Key, HMAC256, k.ShSe, k.Ctx), iv, plain, aad(e.Prot), 16)
	case "ctr":
		keys := KDF(s.Key+s.MacKey, HMAC256, k.ShSe, k.Ctx)
		b, _ := aes.NewCipher(keys[s.MacKey:])
		e.Ct = make([]byte, len(plain))
		cipher.NewCTR(b, iv).XORKeyStream(e.Ct, plain)
		e.OuterProt = Enc(map[int]int{1: HMAC256})
		e.OuterTag = e.macOver(keys[:s.MacKey])
	}
	return e.Bytes(), nil
}

func Unwrap(k SessKey, id int, b []byte) (plain []byte, err error) {
	defer func() { // parts of a damaged frame may not be encodable again
		if p := recover(); p != nil {
			plain, err = nil, fmt.Errorf("unwrap: %v", p)
		}
	}()
	e, err := ParseEnvelope(b, id)
	if err != nil {
		return nil, err
	}
	s := e.Suite
	var prot map[int]int
	if err := Dec(e.Prot, &prot); err != nil {
		return nil, err
	}
	if prot[1] != id {
		return nil, fmt.Errorf("alg %d, want %d", prot[1], id)
	}
	if len(e.IV) != s.Nonce {
		return nil, fmt.Errorf("iv length %d", len(e.IV))
	}
	switch s.Mode {
	case "gcm":
		blk, _ := aes.NewCipher(KDF(s.Key, HMAC256, k.ShSe, k.Ctx))
		g, err := cipher.NewGCM(blk)
		if err != nil {
			return nil, err
		}
		return g.Open(nil, e.IV, e.Ct, aad(e.Prot))
	case "ccm":
		return CCMOpen(KDF(s.Key, HMAC256, k.ShSe, k.Ctx), e.IV, e.Ct, aad(e.Prot), 16)
	case "ctr":
		keys := KDF(s.Key+s.MacKey, HMAC256, k.ShSe, k.Ctx)
		if !hmac.Equal(e.macOver(keys[:s.MacKey]), e.OuterTag) {
			return nil, errors.New("mac")
		}
		blk, _ := aes.NewCipher(keys[s.MacKey:])
		out := make([]byte, len(e.Ct))
		cipher.NewCTR(blk, e.IV).XORKeyStream(out, e.Ct)
		return out, nil
	}
	return nil, errors.New("suite")
}

// RawOpen / key access for forging authenticated but odd envelopes.
func (k SessKey) CtrKeys() (svk, sek []byte) {
	b := KDF(48, HMAC256, k.ShSe, k.Ctx)
	return b[:32], b[32:]
}
func (e *Envelope) Remac(k SessKey) {
	svk, _ := k.CtrKeys()
	e.OuterTag = e.macOver(svk)
}

// ---- AES-CCM, straight from RFC 3610 ----

func ccmParts(key, nonce, plain, aad []byte, tagLen int) (mac []byte, ctr func([]byte) []byte) {
	blk, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	L := 15 - len(nonce)
	b0 := make([]byte, 16)
	b0[0] = byte(8*((tagLen-2)/2) + L - 1)
	if len(aad) > 0 {
		b0[0] |= 0x40
	}
	copy(b0[1:], nonce)
	n := uint64(len(plain))
	for i := 0; i < L; i++ {
		b0[15-i] = byte(n >> (8 * i))
	}
	x := make([]byte, 16)
	blk.Encrypt(x, b0)
	absorb := func(d []byte) {
		for len(d) > 0 {
			m := 16
			if len(d) < 16 {
				m = len(d)
			}
			for i := 0; i < m; i++ {
				x[i] ^= d[i]
			}
			blk.Encrypt(x, x)
			d = d[m:]
		}
	}
	if len(aad) > 0 {
		var h []byte
		if len(aad) < 0xff00 {
			h = binary.BigEndian.AppendUint16(nil, uint16(len(aad)))
		} else {
			h = binary.BigEndian.AppendUint32([]byte{0xff, 0xfe}, uint32(len(aad)))
		}
		absorb(append(h, aad...))
	}
	absorb(plain)
	key0 := make([]byte, 16)
	mk := func(i uint64) []byte {
		a := make([]byte, 16)
		a[0] = byte(L - 1)
		copy(a[1:], nonce)
		for j := 0; j < L; j++ {
			a[15-j] = byte(i >> (8 * j))
		}
		o := make([]byte, 16)
		blk.Encrypt(o, a)
		return o
	}
	copy(key0, mk(0))
	mac = make([]byte, tagLen)
	for i := range mac {
		mac[i] = x[i] ^ key0[i]
	}
	ctr = func(in []byte) []byte {
		out := make([]byte, len(in))
		for i := range in {
			if i%16 == 0 {
				copy(key0, mk(uint64(i/16+1)))
			}
			out[i] = in[i] ^ key0[i%16]
		}
		return out
	}
	return
}

func CCMSeal(key, nonce, plain, aad []byte, tagLen int) []byte {
	mac, ctr := ccmParts(key, nonce, plain, aad, tagLen)
	return append(ctr(plain), mac...)
}
func CCMOpen(key, nonce, ct, aad []byte, tagLen int) ([]byte, error) {
	if len(ct) < tagLen {
		return nil, errors.New("short")
	}
	body, tag := ct[:len(ct)-tagLen], ct[len(ct)-tagLen:]
	_, ctr := ccmParts(key, nonce, nil, nil, tagLen)
	plain := ctr(body)
	mac, _ := ccmParts(key, nonce, plain, aad, tagLen)
	if !hmac.Equal(mac, tag) {
		return nil, errors.New("tag")
	}
	return plain, nil
}

// ---- key exchange ----

var KexSuites = []string{"ECDH256", "ECDH384", "DHKEXid14", "DHKEXid15", "ASYMKEX2048", "ASYMKEX3072"}

func hexInt(s string) *big.Int { i, _ := new(big.Int).SetString(s, 16); return i }

// RFC 3526 primes from their defining formula 2^n - 2^(n-64) - 1 + 2^64 * (floor(2^(n-130) pi) + c).
func modpPrime(n uint, c int64) *big.Int {
	pi := floorPi(n - 130)
	p := new(big.Int).Lsh(big.NewInt(1), n)
	p.Sub(p, new(big.Int).Lsh(big.NewInt(1), n-64))
	p.Sub(p, big.NewInt(1))
	pi.Add(pi, big.NewInt(c))
	p.Add(p, pi.Lsh(pi, 64))
	return p
}

// floorPi computes floor(2^k * pi) with Machin's formula.
func floorPi(k uint) *big.Int {
	prec := k + 64
	one := new(big.Int).Lsh(big.NewInt(1), prec)
	atanInv := func(x int64) *big.Int {
		sum := new(big.Int)
		term := new(big.Int).Div(one, big.NewInt(x))
		x2 := big.NewInt(x * x)
		for i, sign := int64(1), 1; term.Sign() != 0; i, sign = i+2, -sign {
			t := new(big.Int).Div(term, big.NewInt(i))
			if sign > 0 {
				sum.Add(sum, t)
			} else {
				sum.Sub(sum, t)
			}
			term.Div(term, x2)
		}
		return sum
	}
	a := atanInv(5)
	a.Mul(a, big.NewInt(16))
	b := atanInv(239)
	b.Mul(b, big.NewInt(4))
	a.Sub(a, b)
	return a.Rsh(a, 64)
}

var P14 = modpPrime(2048, 124476)
var P15 = modpPrime(3072, 1690314)

type Kex struct {
	Suite string
	Share []byte // what is sent to the peer
	ec    *ecdh.PrivateKey
	x     *big.Int
	rnd   []byte
}

func kexEC(s string) (ecdh.Curve, int, int) {
	if s == "ECDH256" {
		return ecdh.P256(), 32, 16
	}
	return ecdh.P384(), 48, 48
}
func kexP(s string) *big.Int {
	if s == "DHKEXid14" {
		return P14
	}
	return P15
}

func ecShare(pub *ecdh.PublicKey, n int, rnd []byte) []byte {
	p := pub.Bytes() // 04 X Y
	var b bytes.Buffer
	w := func(x []byte) { binary.Write(&b, binary.BigEndian, uint16(len(x))); b.Write(x) }
	w(p[1 : 1+n])
	w(p[1+n:])
	w(rnd)
	return b.Bytes()
}

// NewECKexWith builds an exchange from a given scalar (used to construct leading-zero points).
func NewECKexWith(suite string, scalar []byte) (*Kex, error) {
	c, n, r := kexEC(suite)
	k, err := c.NewPrivateKey(scalar)
	if err != nil {
		return nil, err
	}
	rnd := RandBytes(r)
	return &Kex{Suite: suite, ec: k, rnd: rnd, Share: ecShare(k.PublicKey(), n, rnd)}, nil
}

// NewKex makes an exchange. peerRSA is given on the device side of ASYMKEX.
func NewKex(suite string, device bool, peerRSA *rsa.PublicKey) (*Kex, error) {
	switch suite {
	case "ECDH256", "ECDH384":
		c, n, r := kexEC(suite)
		k, err := c.GenerateKey(rand.Reader)
		if err != nil {
			return nil, err
		}
		rnd := RandBytes(r)
		return &Kex{Suite: suite, ec: k, rnd: rnd, Share: ecShare(k.PublicKey(), n, rnd)}, nil
	case "DHKEXid14", "DHKEXid15":
		p := kexP(suite)
		x, _ := rand.Int(rand.Reader, new(big.Int).Sub(p, big.NewInt(3)))
		x.Add(x, big.NewInt(2))
		y := new(big.Int).Exp(big.NewInt(2), x, p)
		return &Kex{Suite: suite, x: x, Share: y.FillBytes(make([]byte, (p.BitLen()+7)/8))}, nil
	case "ASYMKEX2048", "ASYMKEX3072":
		n := 32
		if suite == "ASYMKEX3072" {
			n = 96
		}
		rnd := RandBytes(n)
		k := &Kex{Suite: suite, rnd: rnd, Share: rnd}
		if device {
			if peerRSA == nil {
				return nil, errors.New("asym kex needs RSA owner key")
			}
			ct, err := rsa.EncryptOAEP(sha256.New(), rand.Reader, peerRSA, rnd, nil)
			if err != nil {
				return nil, err
			}
			k.Share = ct
		}
		return k, nil
	}
	return nil, errors.New("kex suite " + suite)
}

// Derive computes the session secret. ownerPriv is used on the owner side of ASYMKEX.
func (k *Kex) Derive(peer []byte, device bool, ownerPriv *rsa.PrivateKey) (SessKey, error) {
	switch k.Suite {
	case "ECDH256", "ECDH384":
		c, n, r := kexEC(k.Suite)
		var f [3][]byte
		rest := peer
		for i := range f {
			if len(rest) < 2 {
				return SessKey{}, errors.New("short share")
			}
			l := int(binary.BigEndian.Uint16(rest))
			if len(rest) < 2+l {
				return SessKey{}, errors.New("short share")
			}
			f[i] = rest[2 : 2+l]
			rest = rest[2+l:]
		}
		if len(rest) != 0 || len(f[0]) > n || len(f[1]) > n || len(f[2]) != r {
			return SessKey{}, errors.New("share structure")
		}
		pt := make([]byte, 1+2*n)
		pt[0] = 4
		copy(pt[1+n-len(f[0]):], f[0])
		copy(pt[1+2*n-len(f[1]):], f[1])
		pk, err := c.NewPublicKey(pt)
		if err != nil {
			return SessKey{}, err
		}
		sx, err := k.ec.ECDH(pk)
		if err != nil {
			return SessKey{}, err
		}
		dev, own := k.rnd, f[2]
		if !device {
			dev, own = f[2], k.rnd
		}
		return SessKey{ShSe: append(append(append([]byte{}, sx...), dev...), own...), Ctx: []byte{}}, nil
	case "DHKEXid14", "DHKEXid15":
		p := kexP(k.Suite)
		y := new(big.Int).SetBytes(peer)
		if y.Cmp(big.NewInt(2)) < 0 || y.Cmp(new(big.Int).Sub(p, big.NewInt(1))) >= 0 {
			return SessKey{}, errors.New("share range")
		}
		s := new(big.Int).Exp(y, k.x, p)
		return SessKey{ShSe: s.FillBytes(make([]byte, (p.BitLen()+7)/8)), Ctx: []byte{}}, nil
	case "ASYMKEX2048", "ASYMKEX3072":
		if device {
			if len(peer) != len(k.rnd) {
				return SessKey{}, errors.New("owner random length")
			}
			return SessKey{ShSe: k.rnd, Ctx: peer}, nil
		}
		d, err := rsa.DecryptOAEP(sha256.New(), nil, ownerPriv, peer, nil)
		if err != nil {
			return SessKey{}, err
		}
		if len(d) != len(k.rnd) {
			return SessKey{}, errors.New("device random length")
		}
		return SessKey{ShSe: d, Ctx: k.rnd}, nil
	}
	return SessKey{}, errors.New("kex")
}

// LeadingZeroScalar finds (deterministically from start) an EC key whose X, Y or both-side secret
// has a leading zero byte according to pred.
func LeadingZeroScalar(suite string, pred func(x, y []byte) bool) *Kex {
	c, n, _ := kexEC(suite)
	var curve elliptic.Curve = elliptic.P256()
	if n == 48 {
		curve = elliptic.P384()
	}
	_ = curve
	for {
		k, err := c.GenerateKey(rand.Reader)
		if err != nil {
			panic(err)
		}
		p := k.PublicKey().Bytes()
		if pred(p[1:1+n], p[1+n:]) {
			kx, _ := NewECKexWith(suite, k.Bytes())
			return kx
		}
	}
}

// PrivateScalar gives the EC private scalar.
func (k *Kex) PrivateScalar() []byte { return k.ec.Bytes() }

// RawX gives the shared x-coordinate of two exchanges of this package.
func RawX(a, b *Kex) []byte {
	s, err := a.ec.ECDH(b.ec.PublicKey())
	if err != nil {
		panic(err)
	}
	return s
}
