// P16: protocol sessions are unique, private to their protocol, and expire.
package main

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"fmt"
	"io"
	"math/bits"
	mrand "math/rand/v2"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	fdorv "github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
	"github.com/google/uuid"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// meter counts what is drawn from the system's secure random source.
type meter struct {
	in io.Reader
	n  atomic.Int64
}

func (m *meter) Read(p []byte) (int, error) {
	n, err := m.in.Read(p)
	m.n.Add(int64(n))
	return n, err
}

// observed collects values that must never repeat and must look random.
type observed struct {
	mu   sync.Mutex
	seen map[string]int
	dup  []string
	bits []int
	n    int
	prev []byte
	diff int // sum of differing bits between successive values
}

func (o *observed) add(b []byte) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.seen == nil {
		o.seen = map[string]int{}
		o.bits = make([]int, 8*len(b))
	}
	if o.seen[string(b)]++; o.seen[string(b)] == 2 {
		o.dup = append(o.dup, hex.EncodeToString(b))
	}
	if len(o.bits) != 8*len(b) {
		return
	}
	o.n++
	for i := range o.bits {
		o.bits[i] += int(b[i/8]>>(i%8)) & 1
	}
	if o.prev != nil {
		for i := range b {
			o.diff += bits.OnesCount8(b[i] ^ o.prev[i])
		}
	}
	o.prev = b
}

// judge: no repetition, and nearly all of the 128 bits vary freely and independently of the last value.
func (o *observed) judge(c *kit.Check, what string) {
	c.Must(len(o.dup) == 0, "repeated-"+what, "%s repeats: %v", what, o.dup)
	free := 0
	for _, k := range o.bits {
		if k > o.n/3 && k < o.n*2/3 {
			free++
		}
	}
	c.Must(free >= 100, "structured-"+what, "%s: only %d of %d bits vary freely over %d sessions", what, free, len(o.bits), o.n)
	per := float64(o.diff) / float64(o.n-1)
	c.Must(per > 40, "serial-"+what, "%s: successive values differ in %.1f bits only", what, per)
	c.CountN("values observed", o.n)
	c.Extra(what, fmt.Sprintf("%d values, %d free bits, %.1f bits change from one to the next", o.n, free, per))
}

// raw turns a token into its 16 bytes of a UUID, or the bytes themselves.
func tokenBytes(tok string) []byte {
	t := strings.TrimPrefix(tok, "Bearer ")
	if u, err := uuid.Parse(t); err == nil {
		return u[:]
	}
	return []byte(t)
}

func uniqueness(c *kit.Check, sec *meter) {
	s := sut.New(sut.Opt{})
	defer s.Close()
	p, err := s.NewParty(ref.SgES256, ref.SgES256, 1)
	if err == nil {
		err = p.Register()
	}
	if err != nil {
		c.Violation("honest", "%v", err)
		return
	}
	var toks, n0, n1, n2, dOV, dSet observed
	// secure randomness drawn per session, one at a time
	for _, m := range []int{20, 30} {
		const k = 300
		before := sec.n.Load()
		for i := 0; i < k; i++ {
			a, err := p.Reach(c.Rand("acc"), m)
			if err != nil {
				panic(err)
			}
			cn := ref.Conn{Base: s.URL}
			if r := cn.Post(m, a.Body); !r.Ok(m + 1) {
				c.Violation("honest", "message %d: %s", m, r)
				return
			}
		}
		used := float64(sec.n.Load()-before) / k
		c.Must(used >= 28, fmt.Sprintf("secure-randomness-%d", m), "a session opened by message %d has a token and a nonce but draws only %.1f bytes from the secure random source", m, used)
		c.Extra(fmt.Sprintf("secure bytes per session of message %d", m), used)
		c.Count("randomness measured")
	}
	n := c.N(3000, 60000)
	c.Parallel(n, func(i int) {
		r := c.Rand(fmt.Sprint("u", i))
		for _, m := range []int{22, 32, 62} {
			if m == 62 && i%4 != 0 {
				continue
			}
			a, err := p.Reach(r, m)
			if err != nil {
				c.Violation("honest", "message %d: %v", m, err)
				return
			}
			toks.add(tokenBytes(a.Tok))
			switch m {
			case 22:
				n0.add(a.T0.Nonce[:])
			case 32:
				n1.add(a.T1.Nonce[:])
			case 62:
				n2.add(a.T2.NonceDv[:])
			}
			c.Eval("u" + a.Tok)
			c.Count("sessions opened")
		}
	})
	toks.judge(c, "session token")
	n0.judge(c, "NonceTO0Sign")
	n1.judge(c, "NonceTO1Proof")
	n2.judge(c, "NonceTO2ProveDv")
	// the bundled device's own nonces
	cred, err := sut.Credential(p.Dev, p.V)
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	srv := ref.NewServer(p.Dev, p.V, p.Owner)
	defer srv.Close()
	c.Parallel(c.N(200, 2000), func(i int) {
		q := to2.NewTo2Requestor(fdoshared.SRVEntry{SrvURL: srv.URL}, cred, "ECDH256", fdoshared.CIPHER_A128GCM)
		if _, _, err := q.HelloDevice60(testcom.NULL_TEST); err != nil {
			c.Violation("device", "%v", err)
			return
		}
		c.Count("device hello")
	})
	mu.Lock()
	for _, q := range srv.Requests() {
		if q.Msg == 60 {
			var h ref.Hello60
			if ref.Dec(q.Body, &h) == nil {
				dOV.add(h.Nonce[:])
			}
		}
	}
	mu.Unlock()
	for i := 0; i < c.N(100, 600); i++ {
		n := setupNonce(c, p, s)
		if n != nil {
			dSet.add(n)
		}
	}
	dOV.judge(c, "NonceTO2ProveOV of the bundled device")
	dSet.judge(c, "NonceTO2SetupDv of the bundled device")
	for i := 0; i < 4; i++ {
		// a token and a nonce are also different from one another
		for k := range toks.seen {
			if n0.seen[k]+n1.seen[k]+n2.seen[k] > 0 {
				c.Violation("token-is-nonce", "the token %x is also a nonce", k)
			}
		}
	}
}

// setupNonce lets the bundled device prove itself and reads the nonce it chose off the wire.
func setupNonce(c *kit.Check, p *sut.Party, s *sut.SUT) []byte {
	cred, err := sut.Credential(p.Dev, p.V)
	if err != nil {
		panic(err)
	}
	srv := ref.NewServer(p.Dev, p.V, p.Owner)
	defer srv.Close()
	q := to2.NewTo2Requestor(fdoshared.SRVEntry{SrvURL: srv.URL}, cred, "ECDH256", fdoshared.CIPHER_A128GCM)
	m, _, err := q.HelloDevice60(testcom.NULL_TEST)
	if err != nil {
		return nil
	}
	for i := 0; i < int(m.NumOVEntries); i++ {
		if _, _, err := q.GetOVNextEntry62(uint8(i), testcom.NULL_TEST); err != nil {
			return nil
		}
	}
	kit.Try(func() { q.ProveDevice64(testcom.NULL_TEST) })
	for _, r := range srv.Requests() {
		if r.Msg != 64 {
			continue
		}
		cs, err := ref.DecCose(r.Body)
		if err != nil {
			return nil
		}
		var u map[int]ref.Raw
		var n ref.Nonce
		if ref.Dec(cs.Unprot, &u) == nil && ref.Dec(u[-259], &n) == nil {
			c.Count("device setup nonce")
			return n[:]
		}
	}
	return nil
}

// ---- a token is worth nothing elsewhere ----

type origin struct {
	name  string
	proto int
	at    *sut.At
	tok   string
}

func proto(m int) int {
	switch {
	case m < 30:
		return 0
	case m < 60:
		return 1
	}
	return 2
}

func apiLogin(s *sut.SUT) (string, error) {
	r, err := http.Post(s.URL+"/api/user/login/onprem", "application/json", strings.NewReader("{}"))
	if err == nil && r.StatusCode != 200 {
		r.Body.Close()
		r, err = http.Get(s.URL + "/api/user/login/onprem")
	}
	if err != nil {
		return "", err
	}
	defer r.Body.Close()
	for _, k := range r.Cookies() {
		if k.Name == "session" && k.Value != "" {
			return k.Value, nil
		}
	}
	b, _ := io.ReadAll(r.Body)
	return "", fmt.Errorf("login: HTTP %d %s", r.StatusCode, b)
}

func loggedIn(s *sut.SUT, cookie string) int {
	q, _ := http.NewRequest("GET", s.URL+"/api/user/loggedin", nil)
	q.Header.Set("Cookie", "session="+cookie)
	r, err := http.DefaultClient.Do(q)
	if err != nil {
		return -1
	}
	io.Copy(io.Discard, r.Body)
	r.Body.Close()
	return r.StatusCode
}

func cross(c *kit.Check, label string, devSg, ownerSg int) {
	s := sut.New(sut.Opt{API: true})
	defer s.Close()
	r := c.Rand(label)
	p, err := s.NewParty(devSg, ownerSg, 1+r.IntN(3))
	if err == nil {
		err = p.Register()
	}
	if err != nil {
		c.Violation("honest", "%s: %v", label, err)
		return
	}
	cookie, err := apiLogin(s)
	if err != nil {
		c.Violation("api-login", "%v", err)
		return
	}
	if st := loggedIn(s, cookie); st != 200 {
		c.Violation("api-login", "the session of a login is answered with %d", st)
		return
	}
	var from []origin
	for _, m := range []int{22, 32, 62, 64, 66, 68, 70} {
		a, err := p.Reach(r, m)
		if err != nil {
			c.Violation("honest", "%s: message %d: %v", label, m, err)
			return
		}
		from = append(from, origin{fmt.Sprintf("session due for %d", m), proto(m), a, a.Tok})
	}
	from = append(from, origin{"management session", 3, nil, "Bearer " + cookie})
	for _, id := range []string{"", "session-", "x", strings.Repeat("0", 36), "00000000-0000-0000-0000-000000000000", "voucher-" + hex.EncodeToString(p.Dev.Guid[:]), "../voucher-"} {
		from = append(from, origin{"unknown session " + id, 9, nil, "Bearer " + id})
	}
	for _, t := range []int{22, 32, 62, 64, 66, 68, 70} {
		for _, o := range from {
			if o.proto == proto(t) {
				continue
			}
			a, err := p.Reach(r, t)
			if err != nil {
				c.Violation("honest", "%s: message %d: %v", label, t, err)
				return
			}
			bodies := map[string][]byte{"body for another session": a.Body}
			nonces := map[string]ref.Nonce{"zero": {}}
			if o.at != nil {
				switch o.proto {
				case 0:
					nonces["its own"] = o.at.T0.Nonce
				case 1:
					nonces["its own"] = o.at.T1.Nonce
				case 2:
					nonces["its own"] = o.at.T2.NonceDv
					nonces["setup"] = o.at.T2.NonceSetup
					nonces["ov"] = o.at.T2.NonceOV
				}
			}
			for k, n := range nonces {
				switch t {
				case 22:
					bodies[k+" nonce"], _ = p.OwnerSign(n).Build()
				case 32:
					bodies[k+" nonce"] = p.Dev.Key.Sign(ref.EAT{Nonce: n[:], UEID: ref.UEID(p.Dev.Guid)}.Bytes(), nil).Tagged()
				case 64:
					q := a.T2.Proof()
					q.Nonce = n[:]
					bodies[k+" nonce"] = q.Bytes()
				case 62:
					bodies["entry "+k] = ref.Enc([]any{1})
				}
			}
			if t >= 66 {
				// wrapped with the key of an unestablished session
				for _, key := range []ref.SessKey{{}, {ShSe: []byte{}}} {
					if b, err := ref.Wrap(key, a.T2.Cipher, ref.Enc([]any{nil}), nil); err == nil {
						bodies[fmt.Sprintf("empty key %d", len(bodies))] = b
					}
				}
			}
			for what, b := range bodies {
				cn := ref.Conn{Base: s.URL, Tok: o.tok}
				x := cn.Post(t, b)
				ok := x.Err == nil && x.Refused()
				c.Must(ok, fmt.Sprintf("foreign-%d-%d", o.proto, t), "message %d (%s) with the token of a %s: %s", t, what, o.name, x)
				c.Eval(fmt.Sprintf("f|%s|%d|%s|%d", o.name, t, what, x.Status))
				c.Count("foreign tokens refused")
			}
		}
	}
	// nothing but the token itself opens a session, however alike
	for _, o := range from {
		tok := strings.TrimPrefix(o.tok, "Bearer ")
		if tok == "" || o.at == nil && o.proto != 3 {
			continue
		}
		for what, v := range alike(r, tok) {
			if v == tok {
				continue
			}
			if o.proto == 3 {
				st := loggedIn(s, v)
				c.Must(st >= 400 && st < 500, "alike-login", "a management session is opened by its identifier %s: HTTP %d", what, st)
			} else {
				cn := ref.Conn{Base: s.URL, Tok: "Bearer " + v}
				x := cn.Post(o.at.Msg, o.at.Body)
				c.Must(x.Err == nil && x.Refused(), "alike-token", "the %s is opened by its token %s: %s", o.name, what, x)
			}
			c.Eval("alike|" + o.name + "|" + what)
			c.Count("similar tokens refused")
		}
	}
	// protocol tokens do not open the management interface
	for _, o := range from {
		if o.proto == 3 {
			continue
		}
		st := loggedIn(s, strings.TrimPrefix(o.tok, "Bearer "))
		c.Must(st >= 400 && st < 500, "protocol-token-as-login", "the token of a %s used as management session: HTTP %d", o.name, st)
		c.Count("protocol token as login")
	}
	// and all of the sessions still serve their owners
	for _, o := range from {
		if o.at == nil {
			continue
		}
		cn := ref.Conn{Base: s.URL, Tok: o.tok}
		x := cn.Post(o.at.Msg, o.at.Body)
		err := o.at.Accept(x)
		c.Must(err == nil, fmt.Sprintf("own-session-%d", o.at.Msg), "the %s does not serve its owner any more: %v", o.name, err)
		c.Count("own session afterwards")
	}
	if st := loggedIn(s, cookie); st != 200 {
		c.Violation("own-session-api", "management session lost: %d", st)
	}
	for _, x := range s.Panics() {
		c.Violation("panic-"+x.Path, "handler panic: %s\n%s", x.Value, x.Stack)
	}
}

// alike are values similar to a token.
func alike(r *mrand.Rand, tok string) map[string]string {
	i := r.IntN(len(tok))
	x := []byte(tok)
	if x[i] ^= 1; tok[i] == '-' {
		x[i] = '_'
	}
	return map[string]string{
		"in upper case":          strings.ToUpper(tok),
		"without hyphens":        strings.ReplaceAll(tok, "-", ""),
		"as a URN":               "urn:uuid:" + tok,
		"in braces":              "{" + tok + "}",
		"cut by one":             tok[:len(tok)-1],
		"cut in half":            tok[:len(tok)/2],
		"longer by one":          tok + "0",
		"twice":                  tok + tok,
		"after the key's prefix": "session-" + tok,
		"with one other":         string(x),
		"with a slash":           tok + "/",
		"escaped":                strings.ReplaceAll(tok, "-", "%2d"),
	}
}

// ---- expiry ----

type rec struct {
	key, val []byte
	exp      uint64
	meta     byte
}

func scan(db *badger.DB, want string) (out []rec) {
	db.View(func(t *badger.Txn) error {
		it := t.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			i := it.Item()
			if !bytes.Contains(i.Key(), []byte(want)) {
				continue
			}
			v, _ := i.ValueCopy(nil)
			out = append(out, rec{i.KeyCopy(nil), v, i.ExpiresAt(), i.UserMeta()})
		}
		return nil
	})
	return
}

// expire makes the store treat the record as past its time.
func expire(db *badger.DB, x rec) {
	err := db.Update(func(t *badger.Txn) error {
		e := badger.NewEntry(x.key, x.val).WithMeta(x.meta)
		e.ExpiresAt = uint64(time.Now().Unix()) - 5
		return t.SetEntry(e)
	})
	if err != nil {
		panic(err)
	}
}

const maxLife = 24 * 3600 // seconds; what still counts as bounded for a protocol session

func expiry(c *kit.Check, label string) {
	s := sut.New(sut.Opt{API: true})
	defer s.Close()
	r := c.Rand(label)
	p, err := s.NewParty(ref.DeviceSgs[r.IntN(2)], ref.OwnerSgs[r.IntN(2)], 1+r.IntN(3))
	if err == nil {
		err = p.Register()
	}
	if err != nil {
		c.Violation("honest", "%v", err)
		return
	}
	// record expiry along a whole onboarding, with failures in between
	track := func(what, tok string, first *uint64) *rec {
		now := uint64(time.Now().Unix())
		l := scan(s.DB, strings.TrimPrefix(tok, "Bearer "))
		if !c.Must(len(l) == 1, "session-records", "%s: %d records for the session", what, len(l)) {
			return nil
		}
		x := l[0]
		c.Must(x.exp != 0, "never-expires", "%s: the session never expires", what)
		if *first == 0 {
			*first = x.exp
			c.Must(x.exp <= now+maxLife, "lives-long", "%s: the session lives %d s", what, x.exp-now)
			c.Must(x.exp > now+30, "lives-short", "%s: the session lives %d s only", what, int64(x.exp)-int64(now))
		}
		c.Must(x.exp <= *first, "life-extended", "%s: use has extended the session by %d s", what, int64(x.exp)-int64(*first))
		c.Count("expiry observed")
		c.Eval(fmt.Sprintf("e|%s|%d", what, x.exp == *first))
		return &x
	}
	var f uint64
	t := p.RandTO2(r)
	t.KexName = "ECDH256"
	if _, err := t.Hello(); err != nil {
		c.Violation("honest", "%v", err)
		return
	}
	track("after 60", t.Tok, &f)
	time.Sleep(1100 * time.Millisecond) // the store counts seconds: an extension becomes visible
	for i := 0; i < t.NumEntries; i++ {
		t.GetEntry(i)
		track("after 62", t.Tok, &f)
	}
	if err := t.MakeKex(); err != nil {
		panic(err)
	}
	t.Post(64, []byte{0x80})
	track("after a bad 64", t.Tok, &f)
	_, err = t.Prove()
	track("after 64", t.Tok, &f)
	if err == nil {
		_, err = t.Ready()
	}
	track("after 66", t.Tok, &f)
	for i := 0; i < 5 && err == nil; i++ {
		if i == 2 {
			t.Post(68, []byte{0x80})
		}
		_, _, err = t.Info(true, ref.Mandatory()[:1])
		track("after 68", t.Tok, &f)
	}
	if err == nil {
		err = t.InfoAll([][]ref.SIM{ref.Mandatory()})
	}
	track("after the last 68", t.Tok, &f)
	if err == nil {
		_, err = t.Done()
	}
	c.Must(err == nil, "honest", "onboarding: %v", err)
	if len(scan(s.DB, strings.TrimPrefix(t.Tok, "Bearer "))) != 0 {
		track("after 70", t.Tok, &f)
	}
	for _, m := range []int{22, 32} {
		var f uint64
		a, err := p.Reach(r, m)
		if err != nil {
			c.Violation("honest", "%v", err)
			return
		}
		track(fmt.Sprint("before ", m), a.Tok, &f)
		time.Sleep(1100 * time.Millisecond)
		cn := ref.Conn{Base: s.URL, Tok: a.Tok}
		cn.Post(m, []byte{0x80})
		if x := cn.Post(m, a.Body); !x.Ok(m + 1) {
			c.Violation("honest", "%d: %s", m, x)
		}
		if len(scan(s.DB, strings.TrimPrefix(a.Tok, "Bearer "))) != 0 {
			track(fmt.Sprint("after ", m), a.Tok, &f)
		}
	}
	// an expired session is worth nothing, at every step
	for _, m := range []int{22, 32, 62, 64, 66, 68, 70} {
		a, err := p.Reach(r, m)
		if err != nil {
			c.Violation("honest", "%v", err)
			return
		}
		l := scan(s.DB, strings.TrimPrefix(a.Tok, "Bearer "))
		for _, x := range l {
			expire(s.DB, x)
		}
		cn := ref.Conn{Base: s.URL, Tok: a.Tok}
		for k := 0; k < 2; k++ {
			x := cn.Post(m, a.Body)
			c.Must(x.Err == nil && x.Refused(), fmt.Sprintf("expired-%d", m), "message %d in an expired session: %s", m, x)
			c.Count("expired sessions refused")
			c.Eval(fmt.Sprintf("x|%d|%d", m, x.Status))
		}
		c.Must(len(scan(s.DB, strings.TrimPrefix(a.Tok, "Bearer "))) == 0, "expired-revived", "message %d brought the expired session back", m)
	}
	// management sessions too
	cookie, err := apiLogin(s)
	if err != nil {
		c.Violation("api-login", "%v", err)
		return
	}
	l := scan(s.DB, cookie)
	if c.Must(len(l) == 1 && l[0].exp != 0 && l[0].exp < uint64(time.Now().Unix())+32*24*3600, "api-session-life", "management session records: %d, without bounded life", len(l)) {
		for i := 0; i < 3; i++ {
			loggedIn(s, cookie)
		}
		m := scan(s.DB, cookie)
		c.Must(len(m) == 1 && m[0].exp == l[0].exp, "api-life-extended", "use changed the life of a management session")
		expire(s.DB, l[0])
		st := loggedIn(s, cookie)
		c.Must(st >= 400, "api-expired", "expired management session answered with HTTP %d", st)
		c.Count("management session expiry")
	}
}

// stores: the session tables themselves, used directly in every order.
func stores(c *kit.Check, r *mrand.Rand, n int) {
	db := sut.MemDB()
	defer db.Close()
	rv, do, ap := fdorv.NewSessionDB(db), dodbs.NewSessionDB(db), dbs.NewSessionDB(db)
	type ent struct {
		kind int
		id   []byte
		exp  uint64
		val  string
	}
	var live []ent
	enc := func(v any) string { return string(ref.Enc(v)) }
	for k := 0; k < n; k++ {
		var id []byte
		var err error
		if len(live) == 0 || r.IntN(3) == 0 {
			kind := r.IntN(3)
			nonce := fdoshared.NewFdoNonce()
			var v any
			switch kind {
			case 0:
				e := fdorv.SessionEntry{Protocol: fdoshared.To0, NonceTO0Sign: nonce}
				id, err = rv.NewSessionEntry(e)
				v = e.NonceTO0Sign
			case 1:
				e := dodbs.SessionEntry{Protocol: fdoshared.To2, NonceTO2ProveOV60: nonce}
				id, err = do.NewSessionEntry(e)
				v = e.NonceTO2ProveOV60
			default:
				e := dbs.SessionEntry{Email: hex.EncodeToString(nonce[:])}
				id, err = ap.NewSessionEntry(e)
				v = e.Email
			}
			if err != nil {
				c.Violation("store-new", "%v", err)
				return
			}
			l := scan(db, string(id))
			if !c.Must(len(l) == 1 && l[0].exp != 0, "store-life", "new session of kind %d without bounded life", kind) {
				return
			}
			live = append(live, ent{kind, id, l[0].exp, enc(v)})
			c.Count("store: created")
			continue
		}
		i := r.IntN(len(live))
		e := &live[i]
		switch r.IntN(4) {
		case 0, 1: // update
			nonce := fdoshared.NewFdoNonce()
			var v any
			switch e.kind {
			case 0:
				x := fdorv.SessionEntry{Protocol: fdoshared.To1, NonceTO0Sign: nonce}
				err, v = rv.UpdateSessionEntry(e.id, x), nonce
			case 1:
				x := dodbs.SessionEntry{Protocol: fdoshared.To2, NonceTO2ProveOV60: nonce}
				err, v = do.UpdateSessionEntry(e.id, x), nonce
			default:
				x := dbs.SessionEntry{Email: hex.EncodeToString(nonce[:])}
				err, v = ap.UpdateSessionEntry(e.id, x), x.Email
			}
			l := scan(db, string(e.id))
			if c.Must(err == nil && len(l) == 1, "store-update", "update of a live session: %v", err) {
				e.val = enc(v)
				c.Must(l[0].exp != 0 && l[0].exp <= e.exp, fmt.Sprintf("store-extended-%d", e.kind), "updating a session of kind %d changed its end from %d to %d", e.kind, e.exp, l[0].exp)
			}
			c.Count("store: updated")
		case 2: // read back
			var v any
			switch e.kind {
			case 0:
				if x, er := rv.GetSessionEntry(e.id); er == nil {
					v = x.NonceTO0Sign
				}
			case 1:
				if x, er := do.GetSessionEntry(e.id); er == nil {
					v = x.NonceTO2ProveOV60
				}
			default:
				if x, er := ap.GetSessionEntry(e.id); er == nil {
					v = x.Email
				}
			}
			c.Must(v != nil && enc(v) == e.val, "store-read", "session of kind %d reads %v", e.kind, v)
			c.Count("store: read")
		default: // expire, then nobody can revive it
			l := scan(db, string(e.id))
			if len(l) == 1 {
				expire(db, l[0])
			}
			switch e.kind {
			case 0:
				rv.UpdateSessionEntry(e.id, fdorv.SessionEntry{})
				_, err = rv.GetSessionEntry(e.id)
			case 1:
				do.UpdateSessionEntry(e.id, dodbs.SessionEntry{})
				_, err = do.GetSessionEntry(e.id)
			default:
				if r.IntN(2) == 0 {
					ap.DeleteSessionEntry(e.id)
				} else {
					ap.UpdateSessionEntry(e.id, dbs.SessionEntry{})
				}
				_, err = ap.GetSessionEntry(e.id)
			}
			c.Must(err != nil, fmt.Sprintf("store-revived-%d", e.kind), "an expired session of kind %d can be read after an update", e.kind)
			live = append(live[:i], live[i+1:]...)
			c.Count("store: expired")
		}
		c.Eval(fmt.Sprintf("s|%d", k))
	}
}

func main() {
	sec := &meter{in: rand.Reader}
	rand.Reader = sec
	uuid.SetRand(sec)
	kit.Main("P16", func(c *kit.Check) {
		c.Rule = "No token or nonce repeats, all bits vary freely, and each session draws at least 28 bytes from the secure random source; every token is refused at every other protocol and at the management interface; the recorded end of a session is bounded and never moves; an expired session is refused and never revived."
		c.Assume = append(c.Assume, "Passage of time is brought about by moving the recorded end of the session into the past.", "Up to a day counts as a bounded life of a protocol session, up to a month for a management session.")
		uniqueness(c, sec)
		ds, os := ref.DeviceSgs, ref.OwnerSgs
		c.Parallel(c.N(8, 60), func(i int) { cross(c, fmt.Sprint("cross", i), ds[i%len(ds)], os[(i/2)%len(os)]) })
		c.Parallel(c.N(8, 60), func(i int) { expiry(c, fmt.Sprint("exp", i)) })
		c.Parallel(c.N(4, 40), func(i int) { stores(c, c.Rand(fmt.Sprint("st", i)), c.N(300, 2000)) })
		c.Require("values observed", 5000)
		c.Require("randomness measured", 2)
		c.Require("device hello", 100)
		c.Require("device setup nonce", 50)
		c.Require("similar tokens refused", 50)
		c.Require("foreign tokens refused", 1000)
		c.Require("own session afterwards", 20)
		c.Require("expiry observed", 50)
		c.Require("expired sessions refused", 50)
		c.Require("management session expiry", 4)
		c.Require("store: updated", 100)
		c.Require("store: expired", 100)
	})
}
