package ref

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"time"
)

type Guid [16]byte

var (
	guidMu   sync.Mutex
	guidKin  Guid
	guidSeen = map[Guid]bool{}
)

// NewGuid is a GUID never used before; every other one differs from an earlier one in a single byte only.
func NewGuid() (g Guid) {
	guidMu.Lock()
	defer guidMu.Unlock()
	for g == (Guid{}) || guidSeen[g] {
		var b [3]byte
		rand.Read(b[:])
		if g = guidKin; b[0]&1 == 0 && b[2] != 0 && g != (Guid{}) {
			g[b[1]%16] ^= b[2]
		} else {
			rand.Read(g[:])
		}
	}
	guidSeen[g], guidKin = true, g
	return
}

// Reserve keeps a GUID from being given to a device; false if one has it already.
func Reserve(g Guid) bool {
	guidMu.Lock()
	defer guidMu.Unlock()
	if guidSeen[g] {
		return false
	}
	guidSeen[g] = true
	return true
}

type RVInstr struct {
	_     struct{} `cbor:",toarray"`
	Key   uint8
	Value []byte
}
type RVInfo [][]RVInstr

type OVHeader struct {
	_         struct{} `cbor:",toarray"`
	Ver       int
	Guid      Guid
	RvInfo    Raw
	DevInfo   string
	Pub       PubKey
	ChainHash *Hash
}

type OVEntry struct {
	_       struct{} `cbor:",toarray"`
	Prev    Hash
	HdrInfo Hash
	Extra   *[]byte
	Pub     PubKey
}

// Voucher is a voucher with its parts still encoded.
type Voucher struct {
	_       struct{} `cbor:",toarray"`
	Ver     int
	Header  []byte
	Hmac    Hash
	Chain   *[][]byte
	Entries []Raw // tagged COSE
}

func (v Voucher) Bytes() []byte { return Enc(v) }

func (v Voucher) Clone() Voucher {
	var o Voucher
	if err := Dec(v.Bytes(), &o); err != nil {
		panic(err)
	}
	return o
}

func (v Voucher) Hdr() (h OVHeader, err error) { err = Dec(v.Header, &h); return }

func HdrInfoBytes(h OVHeader) []byte { return append(append([]byte{}, h.Guid[:]...), h.DevInfo...) }

// ---- devices ----

type Device struct {
	Guid    Guid
	Key     Key
	HmacKey []byte
	HmacTyp int
	HashTyp int
	Info    string
	Chain   [][]byte // leaf, intermediates, root
}

type ca struct {
	root, inter   []byte
	rootK, interK *ecdsa.PrivateKey
	interC        *x509.Certificate
	deep          [][]byte // further intermediates, each issued by the one before it
	deepC         []*x509.Certificate
	deepK         []*ecdsa.PrivateKey
}

var theCA *ca
var caOnce sync.Once

func getCA() *ca {
	caOnce.Do(func() { theCA = newCA() })
	return theCA
}

func newCA() *ca {
	c := &ca{}
	c.rootK, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	c.interK, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	mk := func(name string, serial int64) *x509.Certificate {
		return &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * 365 * time.Hour),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	}
	rt := mk("ref root", 1)
	var err error
	if c.root, err = x509.CreateCertificate(rand.Reader, rt, rt, &c.rootK.PublicKey, c.rootK); err != nil {
		panic(err)
	}
	rc, _ := x509.ParseCertificate(c.root)
	if c.inter, err = x509.CreateCertificate(rand.Reader, mk("ref intermediate", 2), rc, &c.interK.PublicKey, c.rootK); err != nil {
		panic(err)
	}
	c.interC, _ = x509.ParseCertificate(c.inter)
	above, aboveK := c.interC, c.interK
	for i := int64(0); i < 4; i++ {
		k, _ := ecdsa.GenerateKey([]elliptic.Curve{elliptic.P384(), elliptic.P256()}[i%2], rand.Reader)
		b, err := x509.CreateCertificate(rand.Reader, mk(fmt.Sprint("ref intermediate ", i+2), 3+i), above, &k.PublicKey, aboveK)
		if err != nil {
			panic(err)
		}
		x, _ := x509.ParseCertificate(b)
		c.deep, c.deepC, c.deepK = append(c.deep, b), append(c.deepC, x), append(c.deepK, k)
		above, aboveK = x, k
	}
	return c
}

// chain is a certificate chain of n+2 certificates for the key.
func (c *ca) chain(pub any, name string, n int) [][]byte {
	switch n {
	case 0:
		r, _ := x509.ParseCertificate(c.root)
		return [][]byte{c.issue(pub, name, r, c.rootK), c.root}
	case 1:
		return [][]byte{c.leaf(pub, name), c.inter, c.root}
	}
	out := [][]byte{c.issue(pub, name, c.deepC[n-2], c.deepK[n-2])}
	for i := n - 2; i >= 0; i-- {
		out = append(out, c.deep[i])
	}
	return append(out, c.inter, c.root)
}

func (c *ca) leaf(pub any, name string) []byte { return c.issue(pub, name, c.interC, c.interK) }

func (c *ca) issue(pub any, name string, by *x509.Certificate, key *ecdsa.PrivateKey) []byte {
	t := &x509.Certificate{SerialNumber: new(big.Int).SetBytes(RandBytes(12)), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * 365 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, BasicConstraintsValid: true}
	b, err := x509.CreateCertificate(rand.Reader, t, by, pub, key)
	if err != nil {
		panic(err)
	}
	return b
}

// deviceInfo: any text may be the device info of a voucher; nothing may depend on how it looks.
func deviceInfo(g Guid, base string) string {
	switch g[15] % 12 {
	case 0:
		return " " + base
	case 1:
		return base + " "
	case 2:
		return base + "\r\n"
	case 3:
		return "\t" + base + "\x00x"
	case 4:
		return "Gerät №7 — 装置 " + base
	case 5:
		return strings.Repeat(base+"/", 8)
	case 6:
		return "D"
	case 7:
		return strings.ToUpper(base) + "%20\"'<&"
	}
	return base
}

func NewDevice(sg int) *Device {
	c := getCA()
	d := &Device{Guid: NewGuid(), Key: GenKeyPooled(sg)}
	d.Info = deviceInfo(d.Guid, "ref-device "+SgName(sg))
	d.HashTyp, d.HmacTyp = SHA256, HMAC256
	sz := 32
	if sg == SgES384 {
		d.HashTyp, d.HmacTyp, sz = SHA384, HMAC384, 48
	}
	d.HmacKey = RandBytes(sz)
	// most chains have one intermediate, some none or up to five
	n := [16]int{0, 2, 3, 5, 4, 0}
	inters := 1
	if k := d.Guid[14] % 16; k < 6 {
		inters = n[k]
	}
	d.Chain = c.chain(d.Key.Priv.Public(), "dev", inters)
	return d
}

// AuthorityKeys are the keys of the intermediate and the root certificate of every device of NewDevice.
func AuthorityKeys() (inter, root Key) {
	c := getCA()
	return Key{Sg: SgES256, Priv: c.interK}, Key{Sg: SgES256, Priv: c.rootK}
}

// ForeignChain is a chain of another CA for the given public key.
func ForeignChain(pub any) [][]byte {
	c := newCA()
	return [][]byte{c.leaf(pub, "foreign"), c.inter, c.root}
}
func OwnChain(pub any) [][]byte {
	c := getCA()
	return [][]byte{c.leaf(pub, "own"), c.inter, c.root}
}

func ChainHash(typ int, chain [][]byte) Hash { return MkHash(typ, bytes.Join(chain, nil)) }

func DefaultRV() Raw {
	return Enc(RVInfo{{{Key: 5, Value: Enc("rv.example.org")}, {Key: 3, Value: Enc(8040)}, {Key: 4, Value: Enc(8040)}, {Key: 12, Value: Enc(1)}}})
}

// RandRV is some rendezvous information, different each time.
func RandRV() (out Raw) {
	b := RandBytes(8)
	var info RVInfo
	for n := 0; n <= int(b[0]%3); n++ {
		d := []RVInstr{{Key: 5, Value: Enc(fmt.Sprintf("rv-%x.example.org", RandBytes(4)))}, {Key: 3, Value: Enc(int(b[1]) << 4)}}
		if b[2]&1 == 0 {
			d = append(d, RVInstr{Key: 4, Value: Enc(8000 + int(b[3]))})
		}
		if b[2]&2 == 0 {
			d = append(d, RVInstr{Key: 12, Value: Enc(int(b[4] % 7))})
		}
		if b[2]&4 == 0 {
			d = append(d, RVInstr{Key: 2, Value: Enc(RandBytes(4))})
		}
		if b[2]&8 == 0 {
			d = append(d, RVInstr{Key: 13, Value: Enc(int(b[5]) * 70)})
		}
		if b[2]&16 == 0 {
			d = append(d, RVInstr{Key: 9, Value: Enc("ssid of " + string(rune('a'+b[6]%26)))}, RVInstr{Key: 10, Value: Enc("päss word")})
		}
		info = append(info, d)
	}
	return Enc(info)
}

// BuildVoucher makes a genuine voucher: keys[0] is the manufacturer, keys[i] the owner after entry i.
func BuildVoucher(d *Device, keys []Key, rv Raw) Voucher {
	ch := ChainHash(d.HashTyp, d.Chain)
	h := OVHeader{Ver: 101, Guid: d.Guid, RvInfo: rv, DevInfo: d.Info, Pub: keys[0].Pub(), ChainHash: &ch}
	v := Voucher{Ver: 101, Header: Enc(h), Chain: &d.Chain, Entries: []Raw{}}
	v.Hmac = MkHmac(d.HmacTyp, d.HmacKey, v.Header)
	for i := 1; i < len(keys); i++ {
		v.Extend(keys[i-1], keys[i].Pub(), d.HashTyp)
	}
	return v
}

func (v *Voucher) PrevBytes(i int) []byte {
	if i == 0 {
		return append(append([]byte{}, v.Header...), Enc(v.Hmac)...)
	}
	return v.Entries[i-1]
}

// Extend appends an entry signed by signer naming pub.
func (v *Voucher) Extend(signer Key, pub PubKey, hashTyp int) {
	h, err := v.Hdr()
	if err != nil {
		panic(err)
	}
	e := OVEntry{Prev: MkHash(hashTyp, v.PrevBytes(len(v.Entries))), HdrInfo: MkHash(hashTyp, HdrInfoBytes(h)), Pub: pub}
	v.Entries = append(v.Entries, signer.Sign(Enc(e), nil).Tagged())
}

func (v Voucher) Entry(i int) (c Cose, e OVEntry, err error) {
	if c, err = DecCose(v.Entries[i]); err != nil {
		return
	}
	err = Dec(c.Payload, &e)
	return
}

// ParseVoucher decodes strictly.
func ParseVoucher(b []byte) (v Voucher, err error) { err = Dec(b, &v); return }

// Validate is the independent decision: genuine or not, and who owns it.
func (v Voucher) Validate() (owner PubKey, err error) {
	if v.Ver != 101 {
		return owner, errors.New("voucher version")
	}
	h, err := v.Hdr()
	if err != nil {
		return owner, err
	}
	if h.Ver != 101 {
		return owner, errors.New("header version")
	}
	var rv RVInfo
	if err := Dec(h.RvInfo, &rv); err != nil {
		return owner, err
	}
	if len(rv) == 0 {
		return owner, errors.New("no rendezvous info")
	}
	if h.DevInfo == "" {
		return owner, errors.New("no device info")
	}
	if v.Chain == nil || h.ChainHash == nil {
		return owner, errors.New("no certificate chain")
	}
	if !h.ChainHash.Is(bytes.Join(*v.Chain, nil)) {
		return owner, errors.New("certificate chain hash")
	}
	if len(v.Entries) == 0 {
		return owner, errors.New("no entries")
	}
	cur := h.Pub
	for i := range v.Entries {
		c, e, err := v.Entry(i)
		if err != nil {
			return owner, fmt.Errorf("entry %d: %w", i, err)
		}
		if !e.Prev.Is(v.PrevBytes(i)) {
			return owner, fmt.Errorf("entry %d: previous hash", i)
		}
		if !e.HdrInfo.Is(HdrInfoBytes(h)) {
			return owner, fmt.Errorf("entry %d: header info hash", i)
		}
		if err := c.Verify(cur); err != nil {
			return owner, fmt.Errorf("entry %d: %w", i, err)
		}
		cur = e.Pub
	}
	return cur, nil
}

// ValidChain checks that the certificate chain certifies some key and ends in its own root.
func ValidChain(chain [][]byte) (*x509.Certificate, error) {
	if len(chain) < 2 {
		return nil, errors.New("chain too short")
	}
	var cs []*x509.Certificate
	for _, b := range chain {
		c, err := x509.ParseCertificate(b)
		if err != nil {
			return nil, err
		}
		cs = append(cs, c)
	}
	for i := 0; i+1 < len(cs); i++ {
		if err := cs[i].CheckSignatureFrom(cs[i+1]); err != nil {
			return nil, err
		}
	}
	return cs[0], nil
}

// VoucherRecord is what the owner service stores and what the PEM file holds.
type VoucherRecord struct {
	_       struct{} `cbor:",toarray"`
	Voucher Voucher
	Sg      int
	Priv    []byte
}
