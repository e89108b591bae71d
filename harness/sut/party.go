package sut

import (
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"sync"

	"verif.local/harness/ref"
)

// Party is a device whose voucher the owner service holds.
type Party struct {
	Dev   *ref.Device
	Owner ref.Key
	V     ref.Voucher
	URL   string
}

// NewParty installs a voucher with n entries for a fresh device.
func (s *SUT) NewParty(devSg, ownerSg, n int) (*Party, error) {
	p := &Party{Dev: ref.NewDevice(devSg), Owner: ref.GenKeyCached(ownerSg), URL: s.URL}
	// the owner service must be able to sign for the final key; the ones before are arbitrary
	keys := []ref.Key{}
	for len(keys) < n {
		keys = append(keys, ref.GenKeyCached(ownerSg))
	}
	keys = append(keys, p.Owner)
	p.V = ref.BuildVoucher(p.Dev, keys, ref.RandRV())
	return p, s.AddVoucher(p.V, p.Owner)
}

func KexFor(r *rand.Rand, ownerSg int) string {
	ks := append([]string{}, ref.KexSuites[:3]...)
	if r.IntN(4) == 0 {
		ks = append(ks, "DHKEXid15")
	}
	switch ownerSg {
	case ref.SgRS2048:
		ks = append(ks, "ASYMKEX2048")
	case ref.SgRS3072:
		ks = append(ks, "ASYMKEX3072")
	}
	return ks[r.IntN(len(ks))]
}

// Ciphers are the implemented cipher suites.
func Ciphers() (ids []int) {
	for _, s := range ref.Suites {
		if s.Implemented {
			ids = append(ids, s.ID)
		}
	}
	return
}

func AnyCipher(r *rand.Rand) int { c := Ciphers(); return c[r.IntN(len(c))] }

func (p *Party) TO2(kex string, cipher int) *ref.TO2 {
	return &ref.TO2{Conn: ref.Conn{Base: p.URL}, Dev: p.Dev, KexName: kex, Cipher: cipher}
}

// RandTO2 picks suites at random.
func (p *Party) RandTO2(r *rand.Rand) *ref.TO2 {
	t := p.TO2(KexFor(r, p.Owner.Sg), AnyCipher(r))
	t.ReadySz = []int{0, 0, 0, -1, 16, 256, 1300, 2048, 8192, 65535}[r.IntN(10)]
	t.NoHmac = r.IntN(3) == 0
	return t
}

// IopEvent is one report to the interop dashboard.
type IopEvent struct {
	Method, Path, Auth, Type string
	Guid                     ref.Guid
	Proto                    int
	Nonce                    ref.Nonce
	Raw                      []byte
	Bad                      string
}

// Dashboard is a stand-in for the interop dashboard.
type Dashboard struct {
	*httptest.Server
	mu     sync.Mutex
	events []IopEvent
	// Answer, when set, writes the response.
	Answer func(http.ResponseWriter)
}

func NewDashboard() *Dashboard {
	d := &Dashboard{}
	d.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		e := IopEvent{Method: r.Method, Path: r.URL.Path, Auth: r.Header.Get("Authorization"), Type: r.Header.Get("Content-Type"), Raw: b}
		var p struct {
			_     struct{} `cbor:",toarray"`
			Guid  ref.Guid
			Proto int
			Nonce ref.Nonce
		}
		if err := ref.Dec(b, &p); err != nil {
			e.Bad = fmt.Sprint(err)
		}
		e.Guid, e.Proto, e.Nonce = p.Guid, p.Proto, p.Nonce
		d.mu.Lock()
		d.events = append(d.events, e)
		a := d.Answer
		d.mu.Unlock()
		if a != nil {
			a(w)
		}
	}))
	return d
}

// Events returns and clears what was reported.
func (d *Dashboard) Events() []IopEvent {
	d.mu.Lock()
	defer d.mu.Unlock()
	e := d.events
	d.events = nil
	return e
}
