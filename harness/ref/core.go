// Package ref is an independent implementation of the parts of FDO 1.1 the code under test
// implements: COSE, vouchers, key exchange, tunnel envelopes, TO0/TO1/TO2 clients and servers.
// It imports nothing from the code under test.
package ref

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"errors"
	"fmt"
	"math/big"
	"sync"

	"github.com/fxamacker/cbor/v2"
)

// ---- CBOR helpers ----

func Enc(v any) []byte {
	b, err := cbor.Marshal(v)
	if err != nil {
		panic("ref: cbor marshal: " + err.Error())
	}
	return b
}
func Dec(b []byte, v any) error { return cbor.Unmarshal(b, v) }

type Raw = cbor.RawMessage

func Tag(n uint64, v any) Raw { return Enc(cbor.RawTag{Number: n, Content: Enc(v)}) }

func Untag(b []byte, want uint64) ([]byte, error) {
	var t cbor.RawTag
	if err := cbor.Unmarshal(b, &t); err != nil {
		return nil, err
	}
	if t.Number != want {
		return nil, fmt.Errorf("tag %d, want %d", t.Number, want)
	}
	return t.Content, nil
}

// ---- identifiers ----

const (
	SgES256  = -7
	SgES384  = -35
	SgRS2048 = -257
	SgRS3072 = -258

	PkRSA2048 = 1
	PkRSAPKCS = 5
	PkRSAPSS  = 6
	PkP256    = 10
	PkP384    = 11

	EncX509    = 1
	EncX5CHAIN = 2
	EncCOSE    = 3

	SHA256  = -16
	SHA384  = -43
	HMAC256 = 5
	HMAC384 = 6
)

var OwnerSgs = []int{SgES256, SgES384, SgRS2048, SgRS3072}
var DeviceSgs = []int{SgES256, SgES384}

func SgName(sg int) string {
	return map[int]string{SgES256: "P256", SgES384: "P384", SgRS2048: "RSA2048", SgRS3072: "RSA3072"}[sg]
}

type Hash struct {
	_    struct{} `cbor:",toarray"`
	Type int
	Hash []byte
}

func MkHash(typ int, data []byte) Hash {
	switch typ {
	case SHA256:
		h := sha256.Sum256(data)
		return Hash{Type: typ, Hash: h[:]}
	case SHA384:
		h := sha512.Sum384(data)
		return Hash{Type: typ, Hash: h[:]}
	}
	panic(fmt.Sprint("ref: hash type ", typ))
}
func MkHmac(typ int, key, data []byte) Hash {
	switch typ {
	case HMAC256:
		m := hmac.New(sha256.New, key)
		m.Write(data)
		return Hash{Type: typ, Hash: m.Sum(nil)}
	case HMAC384:
		m := hmac.New(sha512.New384, key)
		m.Write(data)
		return Hash{Type: typ, Hash: m.Sum(nil)}
	}
	panic(fmt.Sprint("ref: hmac type ", typ))
}
func (h Hash) Is(data []byte) bool {
	if h.Type != SHA256 && h.Type != SHA384 {
		return false
	}
	return bytes.Equal(MkHash(h.Type, data).Hash, h.Hash)
}
func (h Hash) IsHmac(key, data []byte) bool {
	if h.Type != HMAC256 && h.Type != HMAC384 {
		return false
	}
	return bytes.Equal(MkHmac(h.Type, key, data).Hash, h.Hash)
}

// ---- keys ----

type PubKey struct {
	_    struct{} `cbor:",toarray"`
	Type int
	Enc  int
	Body any
}

type Key struct {
	Sg   int
	Priv crypto.Signer
}

func GenKey(sg int) Key {
	var k crypto.Signer
	var err error
	switch sg {
	case SgES256:
		k, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	case SgES384:
		k, err = ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
	case SgRS2048:
		k, err = rsa.GenerateKey(rand.Reader, 2048)
	case SgRS3072:
		k, err = rsa.GenerateKey(rand.Reader, 3072)
	default:
		panic("ref: key kind")
	}
	if err != nil {
		panic(err)
	}
	return Key{sg, k}
}

func PkTypeOf(sg int) int {
	return map[int]int{SgES256: PkP256, SgES384: PkP384, SgRS2048: PkRSA2048, SgRS3072: PkRSAPKCS}[sg]
}

func (k Key) Pub() PubKey {
	b, err := x509.MarshalPKIXPublicKey(k.Priv.Public())
	if err != nil {
		panic(err)
	}
	return PubKey{Type: PkTypeOf(k.Sg), Enc: EncX509, Body: b}
}
func (k Key) PKCS8() []byte {
	b, err := x509.MarshalPKCS8PrivateKey(k.Priv)
	if err != nil {
		panic(err)
	}
	return b
}
func ParseKey(der []byte, sg int) (Key, error) {
	if k, err := x509.ParsePKCS8PrivateKey(der); err == nil {
		if s, ok := k.(crypto.Signer); ok {
			return Key{sg, s}, nil
		}
	}
	if k, err := x509.ParseECPrivateKey(der); err == nil {
		return Key{sg, k}, nil
	}
	if k, err := x509.ParsePKCS1PrivateKey(der); err == nil {
		return Key{sg, k}, nil
	}
	return Key{}, errors.New("unparsable private key")
}
func SgOfPublic(pub any) int {
	switch p := pub.(type) {
	case *ecdsa.PublicKey:
		if p.Curve == elliptic.P256() {
			return SgES256
		}
		if p.Curve == elliptic.P384() {
			return SgES384
		}
	case *rsa.PublicKey:
		if p.N.BitLen() == 2048 {
			return SgRS2048
		}
		if p.N.BitLen() == 3072 {
			return SgRS3072
		}
	}
	return 0
}
func (p PubKey) Parse() (any, error) {
	if p.Enc != EncX509 {
		return nil, fmt.Errorf("public key encoding %d", p.Enc)
	}
	b, ok := p.Body.([]byte)
	if !ok {
		return nil, errors.New("public key body is no byte string")
	}
	k, err := x509.ParsePKIXPublicKey(b)
	if err != nil {
		return nil, err
	}
	return k, nil
}
func (p PubKey) Equal(o PubKey) bool { return bytes.Equal(Enc(p), Enc(o)) }

// ---- COSE Sign1 ----

type Cose struct {
	_       struct{} `cbor:",toarray"`
	Prot    []byte
	Unprot  Raw
	Payload []byte
	Sig     []byte
}

func (c Cose) Tagged() Raw { return Tag(18, c) }
func DecCose(b []byte) (Cose, error) {
	var c Cose
	in, err := Untag(b, 18)
	if err != nil {
		return c, err
	}
	err = Dec(in, &c)
	return c, err
}
func EmptyMap() Raw { return Raw{0xa0} }

func SigStructure(prot, payload []byte) []byte {
	return Enc([]any{"Signature1", prot, []byte{}, payload})
}

func Digest(sg int, data []byte) ([]byte, crypto.Hash) {
	switch sg {
	case SgES256, SgRS2048:
		h := sha256.Sum256(data)
		return h[:], crypto.SHA256
	case SgES384, SgRS3072:
		h := sha512.Sum384(data)
		return h[:], crypto.SHA384
	}
	panic("ref: digest kind")
}

func (k Key) SignRaw(data []byte) []byte {
	d, ch := Digest(k.Sg, data)
	switch p := k.Priv.(type) {
	case *ecdsa.PrivateKey:
		n := (p.Curve.Params().BitSize + 7) / 8
		r, s, err := ecdsa.Sign(rand.Reader, p, d)
		if err != nil {
			panic(err)
		}
		out := make([]byte, 2*n)
		r.FillBytes(out[:n])
		s.FillBytes(out[n:])
		return out
	case *rsa.PrivateKey:
		s, err := rsa.SignPKCS1v15(rand.Reader, p, ch, d)
		if err != nil {
			panic(err)
		}
		return s
	}
	panic("ref: sign kind")
}

func (k Key) Sign(payload []byte, unprot Raw) Cose {
	prot := Enc(map[int]int{1: k.Sg})
	if unprot == nil {
		unprot = EmptyMap()
	}
	return Cose{Prot: prot, Unprot: unprot, Payload: payload, Sig: k.SignRaw(SigStructure(prot, payload))}
}

func VerifyRaw(pub any, data, sig []byte) bool {
	sg := SgOfPublic(pub)
	if sg == 0 {
		return false
	}
	d, ch := Digest(sg, data)
	switch p := pub.(type) {
	case *ecdsa.PublicKey:
		n := (p.Curve.Params().BitSize + 7) / 8
		if len(sig) != 2*n {
			return false
		}
		return ecdsa.Verify(p, d, new(big.Int).SetBytes(sig[:n]), new(big.Int).SetBytes(sig[n:]))
	case *rsa.PublicKey:
		return rsa.VerifyPKCS1v15(p, ch, d, sig) == nil
	}
	return false
}

// Verify checks signature and that the declared key type matches the key.
func (c Cose) Verify(pk PubKey) error {
	pub, err := pk.Parse()
	if err != nil {
		return err
	}
	sg := SgOfPublic(pub)
	switch pk.Type {
	case PkP256:
		if sg != SgES256 {
			return errors.New("key is not P-256")
		}
	case PkP384:
		if sg != SgES384 {
			return errors.New("key is not P-384")
		}
	case PkRSA2048:
		if sg != SgRS2048 {
			return errors.New("key is not RSA 2048")
		}
	case PkRSAPKCS:
		if sg != SgRS2048 && sg != SgRS3072 {
			return errors.New("key is not RSA")
		}
	default:
		return fmt.Errorf("key type %d", pk.Type)
	}
	if !VerifyRaw(pub, SigStructure(c.Prot, c.Payload), c.Sig) {
		return errors.New("bad signature")
	}
	return nil
}

func (c Cose) VerifyWith(pub any) bool { return VerifyRaw(pub, SigStructure(c.Prot, c.Payload), c.Sig) }

// ---- FDO error message ----

type FdoError struct {
	_    struct{} `cbor:",toarray"`
	Code uint16
	Prev uint8
	Str  string
	Ts   any
	CID  any
}

func RandBytes(n int) []byte {
	b := make([]byte, n)
	rand.Read(b)
	return b
}

var keyMu sync.Mutex
var keyPool = map[int]Key{}

// GenKeyCached gives one fixed key per type and process.
func GenKeyCached(sg int) Key {
	keyMu.Lock()
	defer keyMu.Unlock()
	if k, ok := keyPool[sg]; ok {
		return k
	}
	keyPool[sg] = GenKey(sg)
	return keyPool[sg]
}

var rsaPool = map[int][]Key{}
var rsaNext = map[int]int{}

// GenKeyPooled makes a new key; RSA keys, which take long, come from a small pool.
func GenKeyPooled(sg int) Key {
	if sg != SgRS2048 && sg != SgRS3072 {
		return GenKey(sg)
	}
	keyMu.Lock()
	defer keyMu.Unlock()
	if len(rsaPool[sg]) == 0 {
		var wg sync.WaitGroup
		rsaPool[sg] = make([]Key, 6)
		for i := range rsaPool[sg] {
			wg.Add(1)
			go func() { defer wg.Done(); rsaPool[sg][i] = GenKey(sg) }()
		}
		wg.Wait()
	}
	rsaNext[sg]++
	return rsaPool[sg][rsaNext[sg]%6]
}

// StrangerKey is a key that is none of the given ones.
func StrangerKey(sg int, not ...Key) Key {
	for {
		k := GenKeyPooled(sg)
		same := false
		for _, n := range not {
			if p, ok := k.Priv.Public().(interface{ Equal(crypto.PublicKey) bool }); ok && p.Equal(n.Priv.Public()) {
				same = true
			}
		}
		if !same {
			return k
		}
	}
}

// RSAPub spares callers the import.
type RSAPub = rsa.PublicKey

// RSAOf gives the RSA public key of k, or nil.
func RSAOf(k Key) *rsa.PublicKey {
	p, _ := k.Priv.Public().(*rsa.PublicKey)
	return p
}
