// P27: the command line tool completes a whole onboarding on its own.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

const voucherPEM = "OWNERSHIP VOUCHER"
const credPEM = "WAW FDO DEVICE CREDENTIAL"

func main() {
	kit.Main("P27", func(c *kit.Check) {
		c.Rule = "the real program runs whole onboardings in scratch directories, and every command with broken inputs and refusing servers; files, database and redirects are read independently"
		if _, err := sut.BuildCLI(); err != nil {
			c.Broken("%v", err)
		}
		lanes := c.N(4, 16)
		c.Parallel(lanes+5, func(i int) {
			switch {
			case i < lanes:
				lane(c, i)
			case i == lanes:
				brokenVouchers(c)
			case i == lanes+1:
				conversions(c)
			case i == lanes+3:
				crowd(c)
				redirects(c)
			case i == lanes+4:
				liars(c)
			default:
				brokenArguments(c)
				pushes(c)
			}
		})
		for k, n := range map[string]int{"identities generated": 12, "vouchers loaded": 12, "registrations pushed": 12, "redirects reported": 12, "onboardings reported": 12,
			"device protocols refused": 40, "broken vouchers refused": 20, "vouchers decoded": 10, "vouchers converted": 10, "pushes refused": 8, "broken arguments": 12,
			"vouchers of a crowd registered": 130, "redirects of several addresses": 10, "lying owners refused": 20} {
			c.Require(k, n)
		}
	})
}

func uuid(g ref.Guid) string {
	h := hex.EncodeToString(g[:])
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

// made is one identity the program generated.
type made struct {
	file, voucherFile string
	cred              sut.Cred
	v                 ref.Voucher
	keyDER            []byte
	dev               *ref.Device
	sg                string
}

func readPEM(f, typ string) ([]byte, []byte, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, nil, err
	}
	k, rest := pem.Decode(b)
	if k == nil || k.Type != typ {
		return nil, nil, fmt.Errorf("%s: no %s", f, typ)
	}
	return k.Bytes, rest, nil
}

// identities reads what the program left in dir.
func identities(dir string) (map[ref.Guid]*made, error) {
	m := map[ref.Guid]*made{}
	fs, _ := filepath.Glob(filepath.Join(dir, "_dis", "*"))
	for _, f := range fs {
		b, _, err := readPEM(f, credPEM)
		if err != nil {
			return nil, err
		}
		x := &made{file: f}
		if err := ref.Dec(b, &x.cred); err != nil {
			return nil, fmt.Errorf("%s: %w", f, err)
		}
		if m[x.cred.Guid] != nil {
			return nil, fmt.Errorf("two credentials of %x", x.cred.Guid)
		}
		k, err := ref.ParseKey(x.cred.Priv, x.cred.Sig.Sg)
		if err != nil {
			return nil, fmt.Errorf("%s: %w", f, err)
		}
		x.dev = &ref.Device{Guid: x.cred.Guid, Key: k, Chain: x.cred.Chain, HmacKey: x.cred.Secret, HmacTyp: x.cred.HmacAlg, HashTyp: x.cred.HashAlg, Info: x.cred.Info}
		m[x.cred.Guid] = x
	}
	fs, _ = filepath.Glob(filepath.Join(dir, "_vouchers", "*.pem"))
	n := 0
	for _, f := range fs {
		b, rest, err := readPEM(f, voucherPEM)
		if err != nil {
			return nil, err
		}
		v, err := ref.ParseVoucher(b)
		if err != nil {
			return nil, err
		}
		h, err := v.Hdr()
		if err != nil {
			return nil, err
		}
		x := m[h.Guid]
		if x == nil || x.voucherFile != "" {
			return nil, fmt.Errorf("voucher of %x without credential or repeated", h.Guid)
		}
		k, _ := pem.Decode(rest)
		if k == nil {
			return nil, fmt.Errorf("%s: no key", f)
		}
		x.v, x.voucherFile, x.keyDER = v, f, k.Bytes
		n++
	}
	if n != len(m) {
		return nil, fmt.Errorf("%d credentials, %d vouchers", len(m), n)
	}
	return m, nil
}

var envLine = regexp.MustCompile(`(?m)^.*\.env file.*$`)
var progress = regexp.MustCompile(`^(\S+ \S+ )?(Starting|Requesting|Sending|Receiving|Doing)`)

// complains tells whether a run that did not succeed says so.
func complains(r sut.Run) bool {
	if r.Code != 0 {
		return true
	}
	t := strings.TrimSpace(envLine.ReplaceAllString(r.Text(), ""))
	l := strings.Split(t, "\n")
	return t != "" && !progress.MatchString(l[len(l)-1])
}

// refused judges a run that cannot succeed.
func refused(c *kit.Check, what, marker string, r sut.Run, err error) bool {
	if err != nil || r.TimedOut {
		c.Broken("%s: %v", what, err)
		return false
	}
	if strings.Contains(r.Text(), marker) {
		c.Violation("claims-success-"+sig(what), "%s: the program claims success: %s", what, r.Tail())
		return false
	}
	if strings.Contains(r.Text(), "runtime error") || strings.Contains(r.Text(), "fatal error") {
		c.Violation("crash-"+sig(what), "%s: the program crashes: %s", what, r.Tail())
		return false
	}
	c.Eval("refused " + what)
	return c.Must(complains(r), "silent-"+sig(what), "%s: the program reports no error: exit %d, %q", what, r.Code, r.Tail())
}

func sig(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '-' || r >= 'a' && r <= 'z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, strings.ToLower(s))
}

func scratch(c *kit.Check, name string) string {
	d := filepath.Join(sut.Scratch(), name)
	if err := os.MkdirAll(d, 0o755); err != nil {
		c.Broken("%v", err)
	}
	return d
}

func seeded(c *kit.Check, dir string) {
	db, err := sut.OpenDir(dir)
	if err != nil {
		c.Broken("%v", err)
	}
	if _, err := sut.Seed(db, 2); err != nil {
		c.Broken("%v", err)
	}
	db.Close()
}

// services are addresses of the owner service and what the device is told.
var services = []struct{ url, port, want string }{
	{"http://owner.example.org:8123", "", " DNS: owner.example.org Port: 8123"},
	{"https://owner.example.net", "", " DNS: owner.example.net Port: 443"},
	{"http://10.20.30.40:99", "", " IP: 10.20.30.40 Port: 99"},
	{"", "9123", " DNS: localhost Port: 9123"},
	{"http://[2001:db8::17]:8080", "", " IP: 2001:db8::17 Port: 8080"},
	{"http://owner.example.com", "", " DNS: owner.example.com Port: 80"},
	{"https://192.0.2.7:8443/", "", " IP: 192.0.2.7 Port: 8443"},
	{"", "", " DNS: localhost Port: 8080"},
}

var gets = regexp.MustCompile(`(?m)Success( .*)$`)

func lane(c *kit.Check, i int) {
	r := c.Rand(fmt.Sprint("lane", i))
	do, rv := scratch(c, fmt.Sprint("do", i)), scratch(c, fmt.Sprint("rv", i))
	defer os.RemoveAll(do)
	defer os.RemoveAll(rv)
	seeded(c, rv)
	seeded(c, do)
	// 1. identities; the two folders come with the program
	for _, d := range []string{"_dis", "_vouchers"} {
		if err := os.Mkdir(filepath.Join(do, d), 0o755); err != nil {
			c.Broken("%v", err)
		}
	}
	n := 5 + r.IntN(2)
	for k := 0; k < n; k++ {
		run, err := sut.CLI(do, nil, "iop", "generate")
		if err != nil {
			c.Broken("%v", err)
		}
		if !c.Must(run.Code == 0, "generate", "iop generate: exit %d: %s", run.Code, run.Tail()) {
			return
		}
	}
	ids, err := identities(do)
	if !c.Must(err == nil, "generate-files", "iop generate leaves: %v", err) {
		return
	}
	c.Must(len(ids) == n, "generate-count", "%d runs of iop generate left %d identities", n, len(ids))
	var order []ref.Guid
	for g, x := range ids {
		order = append(order, g)
		owner, err := x.v.Validate()
		if !c.Must(err == nil, "generate-voucher", "iop generate: voucher: %v", err) {
			return
		}
		pub, err := owner.Parse()
		if err != nil {
			c.Violation("generate-voucher", "owner key: %v", err)
			return
		}
		x.sg = ref.SgName(x.cred.Sig.Sg) + "/" + ref.SgName(ref.SgOfPublic(pub))
		c.Count("identities generated")
		c.Eval("identity " + x.sg)
	}
	sort.Slice(order, func(a, b int) bool { return bytes.Compare(order[a][:], order[b][:]) < 0 })
	// 2. vouchers into the owner service, the last identity stays unknown
	last := ids[order[n-1]]
	aside := filepath.Join(do, "aside.pem")
	if err := os.Rename(last.voucherFile, aside); err != nil {
		c.Broken("%v", err)
	}
	os.WriteFile(filepath.Join(do, "_vouchers", "notes.txt"), []byte("no voucher"), 0o644)
	os.MkdirAll(filepath.Join(do, "_vouchers", "sub.pem"), 0o755)
	order = order[:n-1]
	load, err := sut.CLI(do, nil, "iop", "do_load_vouchers", "./_vouchers")
	if err != nil {
		c.Broken("%v", err)
	}
	c.Must(load.Code == 0, "load", "do_load_vouchers: exit %d: %s", load.Code, load.Tail())
	if !loaded(c, do, load, ids, order) {
		return
	}
	// 3. registration
	pr, err := sut.Serve(rv, nil)
	if err != nil {
		c.Violation("serve", "%v", err)
		return
	}
	defer pr.Kill()
	env := func(url, port string) (e []string) {
		if url != "" {
			e = append(e, "FDO_SERVICE_URL="+url)
		}
		if port != "" {
			e = append(e, "PORT="+port)
		}
		return
	}
	// the second registration replaces the first
	first := services[(i+4)%len(services)]
	if !registered(c, do, pr.URL, ids, order, env(first.url, first.port), first.url+first.port, first.want, 2) {
		return
	}
	sv := services[i%len(services)]
	if !registered(c, do, pr.URL, ids, order, env(sv.url, sv.port), sv.url+sv.port, sv.want, len(order)) {
		return
	}
	// 5. onboarding
	dp, err := sut.Serve(do, nil)
	if err != nil {
		c.Violation("serve", "%v", err)
		return
	}
	defer dp.Kill()
	for _, g := range order {
		run, err := sut.CLI(rv, nil, "iop", "to2", dp.URL, ids[g].file)
		if err != nil {
			c.Broken("%v", err)
		}
		if c.Must(strings.Contains(run.Text(), "Success To2") && run.Code == 0, "to2", "to2 of a known device %s reports no success: exit %d: %s", ids[g].sg, run.Code, run.Tail()) {
			c.Count("onboardings reported")
			c.Eval("onboarding " + ids[g].sg)
		}
	}
	// 6. what must be refused while both run
	a, b := ids[order[0]], ids[order[1]]
	refuse := func(what, cmd, url, file string) {
		run, err := sut.CLI(rv, nil, "iop", cmd, url, file)
		if refused(c, cmd+" "+what, "Success", run, err) {
			c.Count("device protocols refused")
		}
	}
	refuse("unregistered device", "to1", pr.URL, last.file)
	refuse("unknown device", "to2", dp.URL, last.file)
	refuse("rendezvous as owner", "to2", pr.URL, a.file)
	refuse("owner as rendezvous", "to1", dp.URL, a.file)
	for what, edit := range map[string]func(x *sut.Cred){
		"key of another device":      func(x *sut.Cred) { x.Priv, x.Sig = b.cred.Priv, b.cred.Sig },
		"identity of another device": func(x *sut.Cred) { x.Guid = b.cred.Guid },
	} {
		f := filepath.Join(rv, sig(what)+".pem")
		x := a.cred
		edit(&x)
		os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: credPEM, Bytes: ref.Enc(x)}), 0o600)
		refuse(what, "to1", pr.URL, f)
		refuse(what, "to2", dp.URL, f)
	}
	x := a.cred
	x.Secret = kit.Bytes(r, len(x.Secret))
	f := filepath.Join(rv, "secret.pem")
	os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: credPEM, Bytes: ref.Enc(x)}), 0o600)
	refuse("another secret", "to2", dp.URL, f)
	good, _ := os.ReadFile(a.file)
	k, _ := pem.Decode(good)
	vf, _ := os.ReadFile(a.voucherFile)
	for what, b := range map[string][]byte{
		"empty file":              {},
		"junk file":               kit.Bytes(r, 300),
		"voucher instead of cred": vf,
		"other block type":        pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: k.Bytes}),
		"truncated credential":    pem.EncodeToMemory(&pem.Block{Type: credPEM, Bytes: k.Bytes[:len(k.Bytes)/2]}),
		"empty credential":        pem.EncodeToMemory(&pem.Block{Type: credPEM, Bytes: ref.Enc([]any{})}),
		"trailing bytes":          pem.EncodeToMemory(&pem.Block{Type: credPEM, Bytes: append(append([]byte{}, k.Bytes...), 0)}),
		"cut text":                good[:len(good)-40],
	} {
		f := filepath.Join(rv, sig(what)+".pem")
		os.WriteFile(f, b, 0o600)
		refuse(what, "to1", pr.URL, f)
		refuse(what, "to2", dp.URL, f)
	}
	refuse("missing file", "to1", pr.URL, filepath.Join(rv, "nowhere.pem"))
	refuse("missing file", "to2", dp.URL, filepath.Join(rv, "nowhere.pem"))
	refuse("directory as file", "to2", dp.URL, rv)
	for what, u := range map[string]string{"closed port": fmt.Sprintf("http://127.0.0.1:%d", sut.FreePort()), "no url": "::", "empty url": "", "other scheme": "ftp://127.0.0.1/"} {
		refuse(what, "to1", u, a.file)
		refuse(what, "to2", u, a.file)
	}
	// the database belongs to the running server
	run, err := sut.CLI(do, nil, "iop", "do_load_vouchers", "./_vouchers")
	refused(c, "load while serving", "Saved voucher", run, err)
	run, err = sut.CLI(do, nil, "iop", "rv_push_vouchers", pr.URL)
	refused(c, "push while serving", "Success", run, err)
	c.Must(pr.Alive() && dp.Alive(), "server-died", "a server has ended: %s", pr.Output()+dp.Output())
	dp.Kill()
	// 7. the last one, with a key that is not its owner's
	if i%2 == 0 {
		wrong(c, r, do, pr.URL, aside, last)
	}
}

// registered pushes all vouchers and asks for the redirects of the first few devices.
func registered(c *kit.Check, do, rv string, ids map[ref.Guid]*made, order []ref.Guid, env []string, as, want string, few int) bool {
	push, err := sut.CLI(do, env, "iop", "rv_push_vouchers", rv)
	if err != nil {
		c.Broken("%v", err)
	}
	all := true
	for _, g := range order {
		ok := c.Must(strings.Contains(push.Text(), "Success TO0 "+uuid(g)), "push", "rv_push_vouchers of a voucher %s does not report success: exit %d: %s", ids[g].sg, push.Code, push.Tail())
		if all = all && ok; ok {
			c.Count("registrations pushed")
		}
	}
	c.Must(strings.Count(push.Text(), "Success TO0 ") == len(order), "push-count", "rv_push_vouchers reports %d successes for %d vouchers", strings.Count(push.Text(), "Success TO0 "), len(order))
	// redirects
	for _, g := range order[:few] {
		run, err := sut.CLI(do, nil, "iop", "to1", rv, ids[g].file)
		if err != nil {
			c.Broken("%v", err)
		}
		m := gets.FindStringSubmatch(run.Text())
		if !c.Must(m != nil && run.Code == 0, "to1", "to1 of a registered device %s reports no success: exit %d: %s", ids[g].sg, run.Code, run.Tail()) {
			continue
		}
		got := strings.Join(strings.Fields(m[1]), " ")
		c.Must(got == strings.TrimSpace(want), "to1-address", "to1 reports %q, registered was %q as %q", got, as, want)
		c.Count("redirects reported")
		c.Eval("redirect " + want)
		// the independent device gets the same
		t := &ref.TO1{Conn: ref.Conn{Base: rv}, Dev: ids[g].dev}
		if _, err := t.Hello(); err != nil {
			c.Violation("redirect", "independent device: %v", err)
		} else {
			c.Must(t.Prove().Ok(33), "redirect", "the independent device gets no redirect")
		}
	}
	return all
}

// crowd: many vouchers in one folder are all loaded and all registered.
func crowd(c *kit.Check) {
	r := c.Rand("crowd")
	dir := scratch(c, "crowd")
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, "in")
	os.MkdirAll(in, 0o755)
	n := c.N(130, 600) + r.IntN(20)
	want := map[ref.Guid]*ref.Device{}
	k := ref.GenKeyCached(ref.SgES256)
	for i := range n {
		d := ref.NewDevice(ref.SgES256)
		v := ref.BuildVoucher(d, []ref.Key{k, k}, ref.RandRV())
		os.WriteFile(filepath.Join(in, fmt.Sprintf("%d.pem", i)), voucherFile(v.Bytes(), k), 0o600)
		want[d.Guid] = d
	}
	run, err := sut.CLI(dir, nil, "iop", "do_load_vouchers", in)
	if err != nil {
		c.Broken("%v", err)
	}
	s := sut.New(sut.Opt{})
	defer s.Close()
	push, err := sut.CLI(dir, []string{"FDO_SERVICE_URL=http://10.9.8.7:65"}, "iop", "rv_push_vouchers", s.URL)
	if err != nil {
		c.Broken("%v", err)
	}
	saved, pushed, told := 0, 0, 0
	for g, d := range want {
		if strings.Contains(run.Text(), "Saved voucher for "+uuid(g)) {
			saved++
		}
		if strings.Contains(push.Text(), "Success TO0 "+uuid(g)) {
			pushed++
		}
		t := &ref.TO1{Conn: ref.Conn{Base: s.URL}, Dev: d}
		if _, err := t.Hello(); err == nil && t.Prove().Ok(33) {
			told++
		}
	}
	c.Must(run.Code == 0 && saved == n, "crowd-load", "do_load_vouchers of %d vouchers reports %d saved, exit %d", n, saved, run.Code)
	c.Must(push.Code == 0 && pushed == n && told == n, "crowd-push", "rv_push_vouchers of %d vouchers reports %d, %d devices get their redirect, exit %d", n, pushed, told, push.Code)
	c.Eval("crowd")
	c.CountN("vouchers of a crowd registered", told)
}

// redirects: what to1 prints is one address the owner has signed.
func redirects(c *kit.Check) {
	r := c.Rand("redirects")
	dir := scratch(c, "redirects")
	defer os.RemoveAll(dir)
	s := sut.New(sut.Opt{})
	defer s.Close()
	for i := range c.N(12, 120) {
		d, v, k := party(r)
		var as []ref.RVAddr
		want := map[string]bool{}
		for j := 1 + r.IntN(4); j > 0; j-- {
			a := ref.RVAddr{Port: uint16(1 + r.IntN(65535)), Proto: []uint8{3, 5}[r.IntN(2)]}
			t := ""
			if r.IntN(3) > 0 {
				n := fmt.Sprintf("owner%d-%d.example.org", i, j)
				a.DNS, t = &n, " DNS: "+n
			}
			if a.DNS == nil || r.IntN(3) == 0 {
				a.IP = kit.Bytes(r, []int{4, 16}[r.IntN(2)])
				a.IP[0] |= 0x20
				t += " IP: " + net.IP(a.IP).String()
			}
			as = append(as, a)
			want[strings.TrimSpace(t)+fmt.Sprintf(" Port: %d", a.Port)] = true
		}
		t := &ref.TO0{Conn: ref.Conn{Base: s.URL}}
		if _, err := t.Hello(); err != nil {
			c.Violation("redirect", "%v", err)
			return
		}
		body, _ := ref.OwnerSign{Voucher: v.Bytes(), Wait: 1000, Nonce: t.Nonce, Addrs: as, Signer: k, HashTyp: d.HashTyp}.Build()
		if x := t.Post(22, body); !c.Must(x.Ok(23), "redirect", "registration with %d addresses: %s", len(as), x) {
			continue
		}
		f := filepath.Join(dir, "d.pem")
		os.WriteFile(f, sut.CredFile(d, v), 0o600)
		run, err := sut.CLI(dir, nil, "iop", "to1", s.URL, f)
		if err != nil {
			c.Broken("%v", err)
		}
		m := gets.FindStringSubmatch(run.Text())
		if !c.Must(m != nil && run.Code == 0, "to1", "to1 of a registered device reports no success: exit %d: %s", run.Code, run.Tail()) {
			continue
		}
		got := strings.Join(strings.Fields(m[1]), " ")
		c.Must(want[got], "to1-several", "to1 reports %q, the owner has signed %q", got, want)
		c.Eval(fmt.Sprint("addresses ", len(as)))
		c.Count("redirects of several addresses")
	}
}

// liars: to2 claims no success with an owner whose answers are not the honest ones.
func liars(c *kit.Check) {
	r := c.Rand("liars")
	dir := scratch(c, "liars")
	defer os.RemoveAll(dir)
	var mu sync.Mutex
	at := 0
	var lie func(q *http.Request, body []byte, again func(body []byte) []byte) []byte
	lied := 0
	s := sut.New(sut.Opt{Tap: func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
			mu.Lock()
			defer mu.Unlock()
			in, _ := io.ReadAll(q.Body)
			ask := func(b []byte) *httptest.ResponseRecorder {
				rec := httptest.NewRecorder()
				x := q.Clone(q.Context())
				x.Body, x.ContentLength = io.NopCloser(bytes.NewReader(b)), int64(len(b))
				h.ServeHTTP(rec, x)
				return rec
			}
			rec := ask(in)
			out := rec.Body.Bytes()
			if at != 0 && strings.HasSuffix(q.URL.Path, fmt.Sprint("/", at)) && rec.Code == 200 {
				n := lie(q, append([]byte{}, out...), func(b []byte) []byte { return ask(b).Body.Bytes() })
				if !bytes.Equal(n, out) {
					out = n
					lied++
				}
			}
			for k, v := range rec.Header() {
				if k != "Content-Length" {
					rw.Header()[k] = v
				}
			}
			rw.WriteHeader(rec.Code)
			rw.Write(out)
		})
	}})
	defer s.Close()
	type entry63 struct {
		_     struct{} `cbor:",toarray"`
		Num   int
		Entry ref.Raw
	}
	flip := func(_ *http.Request, b []byte, _ func([]byte) []byte) []byte {
		b[len(b)-1-r.IntN(min(len(b), 30))] ^= 1 << r.IntN(8)
		return b
	}
	var kept []byte // the answer to the first request
	type liar struct {
		what string
		at   int
		lie  func(q *http.Request, b []byte, again func([]byte) []byte) []byte
	}
	number := func(d int) func(*http.Request, []byte, func([]byte) []byte) []byte {
		return func(_ *http.Request, b []byte, _ func([]byte) []byte) []byte {
			var e entry63
			if ref.Dec(b, &e) == nil && (e.Num > 0 || d > 0) {
				e.Num += d
				return ref.Enc(e)
			}
			return b
		}
	}
	all := []liar{
		{"honest", 0, nil},
		{"entry number too high", 62, number(1)},
		{"entry number too low", 62, number(-1)},
		{"entry number far off", 62, number(100)},
		{"first entry again", 62, func(_ *http.Request, b []byte, again func([]byte) []byte) []byte { return again(ref.Enc([]any{0})) }},
		{"last entry first", 62, func(_ *http.Request, b []byte, again func([]byte) []byte) []byte {
			if kept == nil {
				kept = again(ref.Enc([]any{1}))
				return kept
			}
			return b
		}},
		{"first entry under each number", 62, func(_ *http.Request, b []byte, _ func([]byte) []byte) []byte {
			var e, f entry63
			if kept == nil {
				kept = b
			}
			if ref.Dec(kept, &f) != nil || ref.Dec(b, &e) != nil {
				return b
			}
			f.Num = e.Num
			return ref.Enc(f)
		}},
		{"damaged entry", 62, flip},
		{"damaged header", 60, flip},
		{"damaged setup", 64, flip},
		{"damaged ready", 66, flip},
		{"damaged service info", 68, flip},
		{"damaged done", 70, flip},
		{"nothing to hello", 60, func(*http.Request, []byte, func([]byte) []byte) []byte { return nil }},
		{"nothing to done", 70, func(*http.Request, []byte, func([]byte) []byte) []byte { return nil }},
	}
	for i := 0; i < c.N(2*len(all), 12*len(all)); i++ {
		l := all[i%len(all)]
		d := ref.NewDevice([]int{ref.SgES256, ref.SgES384}[r.IntN(2)])
		k := ref.GenKeyCached(ref.SgES256)
		keys := []ref.Key{k, k, k}
		for j := r.IntN(6); j > 0; j-- {
			keys = append(keys, k)
		}
		v := ref.BuildVoucher(d, keys, ref.RandRV())
		if err := s.AddVoucher(v, k); err != nil {
			c.Broken("%v", err)
		}
		f := filepath.Join(dir, "d.pem")
		os.WriteFile(f, sut.CredFile(d, v), 0o600)
		at, lie, lied, kept = l.at, l.lie, 0, nil
		run, err := sut.CLI(dir, nil, "iop", "to2", s.URL, f)
		if l.at == 0 {
			c.Must(err == nil && run.Code == 0 && strings.Contains(run.Text(), "Success To2"), "to2", "to2 with %d entries: exit %d: %s", len(keys)-1, run.Code, run.Tail())
			continue
		}
		if lied == 0 {
			c.Count("owners without occasion to lie")
			continue
		}
		if refused(c, "to2 with an owner: "+l.what, "Success To2", run, err) {
			c.Count("lying owners refused")
		}
	}
}

// loaded compares what a load reports with the voucher store.
func loaded(c *kit.Check, dir string, run sut.Run, ids map[ref.Guid]*made, want []ref.Guid) bool {
	db, err := sut.OpenDir(dir)
	if err != nil {
		c.Violation("database", "%v", err)
		return false
	}
	defer db.Close()
	vs := dodbs.NewVoucherDB(db)
	l, err := vs.List()
	c.Must(err == nil && len(l) == len(want), "load-count", "%d vouchers stored, %d expected (%v)", len(l), len(want), err)
	ok := true
	for _, g := range want {
		x := ids[g]
		if !c.Must(strings.Contains(run.Text(), "Saved voucher for "+uuid(g)), "load-report", "do_load_vouchers does not report %s: %s", uuid(g), run.Tail()) {
			ok = false
			continue
		}
		var gg [16]byte = g
		e, err := vs.Get(gg)
		if !c.Must(err == nil, "load-lost", "a voucher reported as saved is not stored: %v", err) {
			ok = false
			continue
		}
		var b ref.Raw
		err = sut.ToRef(e.Voucher, &b)
		c.Must(err == nil && bytes.Equal(b, x.v.Bytes()), "load-content", "the stored voucher differs from the file (%v)", err)
		c.Must(bytes.Equal(e.PrivateKeyX509, x.keyDER), "load-key", "the stored key differs from the file")
		c.Count("vouchers loaded")
	}
	return ok
}

// wrong gives the owner service a key that is not the one the voucher names.
func wrong(c *kit.Check, r *rand.Rand, do, rv, aside string, x *made) {
	b, _, err := readPEM(aside, voucherPEM)
	if err != nil {
		c.Broken("%v", err)
	}
	dir := filepath.Join(do, "wrong")
	os.MkdirAll(dir, 0o755)
	owner, _ := x.v.Validate()
	pub, _ := owner.Parse()
	k := ref.GenKey(ref.SgOfPublic(pub))
	os.WriteFile(filepath.Join(dir, "w.pem"), append(pem.EncodeToMemory(&pem.Block{Type: voucherPEM, Bytes: b}), pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: k.PKCS8()})...), 0o600)
	if _, err := sut.CLI(do, nil, "iop", "do_load_vouchers", dir); err != nil {
		c.Broken("%v", err)
	}
	run, err := sut.CLI(do, nil, "iop", "rv_push_vouchers", rv)
	if err != nil {
		c.Broken("%v", err)
	}
	c.Must(!strings.Contains(run.Text(), "Success TO0 "+uuid(x.cred.Guid)), "claims-success-push-wrong-key", "a registration signed with a wrong owner key is reported as success: %s", run.Tail())
	run, err = sut.CLI(do, nil, "iop", "to1", rv, x.file)
	if refused(c, "to1 of a device whose registration had a wrong key", "Success", run, err) {
		c.Count("device protocols refused")
	}
	dp, err := sut.Serve(do, nil)
	if err != nil {
		c.Violation("serve", "%v", err)
		return
	}
	defer dp.Kill()
	run, err = sut.CLI(filepath.Dir(do), nil, "iop", "to2", dp.URL, x.file)
	if refused(c, "to2 with an owner that has a wrong key", "Success", run, err) {
		c.Count("device protocols refused")
	}
}

// world of independent identities for the commands that need no server.
func party(r *rand.Rand) (*ref.Device, ref.Voucher, ref.Key) {
	sg := []int{ref.SgES256, ref.SgES384, ref.SgRS2048, ref.SgRS3072}[r.IntN(4)]
	d := ref.NewDevice([]int{ref.SgES256, ref.SgES384}[r.IntN(2)])
	keys := []ref.Key{ref.GenKeyCached(sg)}
	n := r.IntN(4)
	if r.IntN(3) == 0 {
		n = 7 + r.IntN(20)
	}
	for i := n; i >= 0; i-- {
		keys = append(keys, ref.GenKeyCached(sg))
	}
	return d, ref.BuildVoucher(d, keys, ref.RandRV()), keys[len(keys)-1]
}

func voucherFile(v []byte, k ref.Key) []byte {
	return append(pem.EncodeToMemory(&pem.Block{Type: voucherPEM, Bytes: v}), pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: k.PKCS8()})...)
}

// brokenVouchers: loading reports exactly what it stored, and decoding names only real vouchers.
func brokenVouchers(c *kit.Check) {
	r := c.Rand("broken vouchers")
	dir := scratch(c, "broken")
	defer os.RemoveAll(dir)
	stored := map[ref.Guid]bool{}
	for i := 0; i < c.N(42, 340); i++ {
		d, v, k := party(r)
		h, _ := v.Hdr()
		raw := v.Bytes()
		text := voucherFile(raw, k)
		what := "honest"
		bad := true
		switch i % 14 {
		case 12:
			what = "entries in another order"
			if len(v.Entries) < 2 {
				continue
			}
			w := v.Clone()
			a := r.IntN(len(w.Entries) - 1)
			w.Entries[a], w.Entries[a+1] = w.Entries[a+1], w.Entries[a]
			text = voucherFile(w.Bytes(), k)
		case 13:
			what = "entry damaged"
			w := v.Clone()
			a := r.IntN(len(w.Entries))
			w.Entries[a] = append(ref.Raw{}, w.Entries[a]...)
			w.Entries[a][len(w.Entries[a])-1-r.IntN(40)] ^= 1 << r.IntN(8)
			text = voucherFile(w.Bytes(), k)
		case 0:
			bad = false
		case 1:
			what, text = "empty file", nil
		case 2:
			what, text = "junk", kit.Bytes(r, 1+r.IntN(400))
		case 3:
			what, text = "without key", pem.EncodeToMemory(&pem.Block{Type: voucherPEM, Bytes: raw})
		case 4:
			what, text = "other block type", bytes.ReplaceAll(text, []byte(voucherPEM), []byte("CERTIFICATE"))
		case 5:
			what, text = "truncated voucher", voucherFile(raw[:r.IntN(len(raw))], k)
		case 6:
			what = "header of another device"
			_, o, _ := party(r)
			w := v.Clone()
			w.Header = o.Header
			text = voucherFile(w.Bytes(), k)
		case 7:
			what = "entries exchanged"
			_, o, _ := party(r)
			w := v.Clone()
			w.Entries = o.Entries
			text = voucherFile(w.Bytes(), k)
		case 8:
			what = "chain of another device"
			_, o, _ := party(r)
			w := v.Clone()
			w.Chain = o.Chain
			text = voucherFile(w.Bytes(), k)
		case 9:
			what, text = "credential instead", sut.CredFile(d, v)
		default:
			what = "one bit flipped"
			b := append([]byte{}, raw...)
			b[r.IntN(len(b))] ^= 1 << r.IntN(8)
			w, err := ref.ParseVoucher(b)
			if err == nil {
				_, err = w.Validate()
			}
			bad = err != nil
			if !bad || bytes.Equal(w.Header, v.Header) && bytes.Equal(ref.Enc(w.Entries), ref.Enc(v.Entries)) && bytes.Equal(ref.Enc(w.Chain), ref.Enc(v.Chain)) {
				continue // the device alone can tell, or leniently encoded
			}
			text = voucherFile(b, k)
		}
		// names a shell, a pattern matcher or a format string would read something into
		f := filepath.Join(dir, fmt.Sprintf(oddFolders[i%len(oddFolders)], i))
		os.MkdirAll(f, 0o755)
		file := filepath.Join(f, oddFiles[i%len(oddFiles)])
		os.WriteFile(file, text, 0o600)
		dec, err := sut.CLI(dir, nil, "decode_voucher", file)
		load, err2 := sut.CLI(dir, nil, "iop", "do_load_vouchers", f)
		if err2 != nil || err != nil {
			c.Broken("%v %v", err, err2)
		}
		if bad {
			if refused(c, "decode_voucher "+what, "GUID: ", dec, nil) && refused(c, "do_load_vouchers "+what, "Saved voucher", load, nil) {
				c.Count("broken vouchers refused")
			}
		} else {
			c.Must(dec.Code == 0 && strings.Contains(dec.Text(), "GUID: "+uuid(h.Guid)), "decode", "decode_voucher of a genuine voucher (%s): exit %d: %s", what, dec.Code, dec.Tail())
			c.Must(load.Code == 0 && strings.Contains(load.Text(), "Saved voucher for "+uuid(h.Guid)), "load", "do_load_vouchers of a genuine voucher (%s): exit %d: %s", what, load.Code, load.Tail())
			stored[h.Guid] = true
		}
		os.RemoveAll(f)
	}
	// several files: the ones reported as saved are saved, and no others
	for i := 0; i < c.N(4, 30); i++ {
		f := filepath.Join(dir, fmt.Sprintf(oddFolders[(i+3)%len(oddFolders)], 1000+i))
		os.MkdirAll(f, 0o755)
		n := 2 + r.IntN(4)
		at := r.IntN(n)
		for k := 0; k < n; k++ {
			_, v, key := party(r)
			b := voucherFile(v.Bytes(), key)
			if k == at {
				b = b[:len(b)/3]
			}
			os.WriteFile(filepath.Join(f, fmt.Sprintf("%02d.pem", k)), b, 0o600)
		}
		run, err := sut.CLI(dir, nil, "iop", "do_load_vouchers", f)
		if err != nil {
			c.Broken("%v", err)
		}
		c.Must(complains(run) && run.Code != 0, "silent-mixed-load", "loading %d files, one broken, reports no error: %s", n, run.Tail())
		for _, m := range regexp.MustCompile(`Saved voucher for ([0-9a-f-]+)`).FindAllStringSubmatch(run.Text(), -1) {
			b, _ := hex.DecodeString(strings.ReplaceAll(m[1], "-", ""))
			stored[ref.Guid(b)] = true
		}
		c.Count("mixed loads")
		os.RemoveAll(f)
	}
	db, err := sut.OpenDir(dir)
	if err != nil {
		c.Violation("database", "%v", err)
		return
	}
	defer db.Close()
	l, err := dodbs.NewVoucherDB(db).List()
	c.Must(err == nil && len(l) == len(stored), "load-count", "%d vouchers stored, %d reported as saved (%v)", len(l), len(stored), err)
	for _, g := range l {
		c.Must(stored[ref.Guid(g)], "load-unreported", "voucher %x is stored, but was not reported as saved", g)
	}
}

var (
	oddFolders = []string{"in%d", "in[%d]", "in put %d", "in*%d?", "%d.pem", "-in%d", "in{a,b}%d", "größe%d", "$HOME%d", "in%d/deep.er/..dir", "in\\%d", ".hidden%d", "100%% %d%%s"}
	oddFiles   = []string{"x.pem", "a[1].pem", "a b.pem", "*.pem", "ü.pem", "x.y.z.pem", "-f.pem", "%s%d.pem"}
)

// conversions keep the content.
func conversions(c *kit.Check) {
	r := c.Rand("conversions")
	dir := scratch(c, "conv")
	defer os.RemoveAll(dir)
	for i := 0; i < c.N(14, 100); i++ {
		_, v, k := party(r)
		h, _ := v.Hdr()
		in := filepath.Join(dir, "in.cbor")
		os.WriteFile(in, v.Bytes(), 0o600)
		run, err := sut.CLI(dir, nil, "from_cbor_to_pem_voucher", in)
		if err != nil {
			c.Broken("%v", err)
		}
		b, rest := pem.Decode([]byte(run.Out))
		if !c.Must(run.Code == 0 && b != nil && b.Type == voucherPEM && bytes.Equal(b.Bytes, v.Bytes()) && strings.TrimSpace(string(rest)) == "", "convert", "from_cbor_to_pem_voucher changes a voucher: exit %d: %s", run.Code, run.Tail()) {
			continue
		}
		c.Count("vouchers converted")
		// with the key it is a voucher file
		file := filepath.Join(dir, "v.pem")
		os.WriteFile(file, append([]byte(run.Out), pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: k.PKCS8()})...), 0o600)
		dec, err := sut.CLI(dir, nil, "decode_voucher", file)
		if err != nil {
			c.Broken("%v", err)
		}
		m := regexp.MustCompile(`GUID: (\S+)`).FindStringSubmatch(dec.Text())
		if c.Must(dec.Code == 0 && m != nil && m[1] == uuid(h.Guid), "decode", "decode_voucher of a voucher of %s: exit %d: %s", uuid(h.Guid), dec.Code, dec.Tail()) {
			c.Count("vouchers decoded")
		}
		c.Eval(fmt.Sprint("convert ", len(v.Entries), len(v.Bytes())%7))
	}
	run, err := sut.CLI(dir, nil, "from_cbor_to_pem_voucher", filepath.Join(dir, "nowhere"))
	refused(c, "convert missing file", "BEGIN", run, err)
	run, err = sut.CLI(dir, nil, "from_cbor_to_pem_voucher", dir)
	refused(c, "convert directory", "BEGIN", run, err)
	run, err = sut.CLI(dir, nil, "decode_voucher", filepath.Join(dir, "nowhere"))
	refused(c, "decode missing file", "GUID", run, err)
	// printed rendezvous information names as many usable addresses as it was made for
	run, err = sut.CLI(dir, nil, "generate_rvinfo")
	if err != nil {
		c.Broken("%v", err)
	}
	for what, n := range map[string]int{"HTTP IP Only": 4, "HTTP + HTTPS IP Only": 8, "HTTP + HTTPS + DNS": 13} {
		m := regexp.MustCompile(regexp.QuoteMeta(what) + ` ([0-9a-f]+)`).FindStringSubmatch(run.Text())
		if !c.Must(m != nil, "rvinfo", "generate_rvinfo prints no %q: %s", what, run.Tail()) {
			continue
		}
		b, _ := hex.DecodeString(m[1])
		var info ref.RVInfo
		err := ref.Dec(b, &info)
		c.Must(err == nil && len(info) == n, "rvinfo", "generate_rvinfo %s: %d directives instead of %d (%v)", what, len(info), n, err)
		for _, dir := range info {
			kinds := map[int]bool{}
			for _, in := range dir {
				kinds[int(in.Key)] = true
			}
			c.Must((kinds[2] || kinds[5]) && kinds[12], "rvinfo", "generate_rvinfo %s: a directive without address or protocol", what)
		}
	}
}

// brokenArguments: commands without what they need.
func brokenArguments(c *kit.Check) {
	dir := scratch(c, "args")
	defer os.RemoveAll(dir)
	empty := filepath.Join(dir, "empty")
	os.MkdirAll(empty, 0o755)
	file := filepath.Join(dir, "file")
	os.WriteFile(file, []byte("x"), 0o600)
	for _, k := range []struct {
		args   []string
		marker string
		env    []string
	}{
		{args: []string{"iop", "to1"}, marker: "Success"},
		{args: []string{"iop", "to1", "http://127.0.0.1:1"}, marker: "Success"},
		{args: []string{"iop", "to2"}, marker: "Success"},
		{args: []string{"iop", "to2", "http://127.0.0.1:1", file, "more"}, marker: "Success"},
		{args: []string{"iop", "do_load_vouchers"}, marker: "Saved"},
		{args: []string{"iop", "do_load_vouchers", filepath.Join(dir, "nowhere")}, marker: "Saved"},
		{args: []string{"iop", "do_load_vouchers", empty}, marker: "Saved"},
		{args: []string{"iop", "do_load_vouchers", file}, marker: "Saved"},
		{args: []string{"iop", "rv_push_vouchers"}, marker: "Success"},
		{args: []string{"decode_voucher"}, marker: "GUID"},
		{args: []string{"from_cbor_to_pem_voucher"}, marker: "BEGIN"},
		{args: []string{"from_cbor_to_pem_voucher", file, file}, marker: "BEGIN"},
		{args: []string{"serve"}, env: []string{"PORT=eighty"}, marker: "Starting server"},
		{args: []string{"serve"}, env: nil, marker: "Starting server"}, // there is no frontend
		{args: []string{"iop", "rv_push_vouchers", "http://127.0.0.1:1"}, env: []string{"PORT=x"}, marker: "Success"},
		{args: []string{"iop", "to2", "http://127.0.0.1:1", file}, env: []string{"INTEROP_DASHBOARD_URL=http://127.0.0.1:1"}, marker: "Success"},
	} {
		if k.args[0] == "serve" {
			seeded(c, dir)
		}
		run, err := sut.CLI(dir, k.env, k.args...)
		if refused(c, strings.Join(append(append([]string{}, k.env...), k.args...), " ")[:min(40, len(strings.Join(append(append([]string{}, k.env...), k.args...), " ")))], k.marker, run, err) {
			c.Count("broken arguments")
		}
	}
}

// pushes: only registrations the rendezvous has accepted are reported.
func pushes(c *kit.Check) {
	r := c.Rand("pushes")
	dir := scratch(c, "push")
	defer os.RemoveAll(dir)
	db, err := sut.OpenDir(dir)
	if err != nil {
		c.Broken("%v", err)
	}
	pre := &sut.SUT{DB: db}
	_, v, k := party(r)
	if err := pre.AddVoucher(v, k); err != nil {
		c.Broken("%v", err)
	}
	db.Close()
	fdoErr := ref.Enc([]any{uint16(100), uint8(22), "no", uint64(1), uint32(7)})
	h21 := ref.Enc([]any{kit.Bytes(r, 16)})
	type answer func(w http.ResponseWriter, msg string)
	send := func(w http.ResponseWriter, code int, typ string, body []byte) {
		w.Header().Set("Content-Type", "application/cbor")
		w.Header().Set("Authorization", "token")
		w.Header().Set("Message-Type", typ)
		w.WriteHeader(code)
		w.Write(body)
	}
	hello := func(rest func(w http.ResponseWriter)) answer {
		return func(w http.ResponseWriter, msg string) {
			if msg == "20" {
				send(w, 200, "21", h21)
				return
			}
			rest(w)
		}
	}
	cases := map[string]answer{
		"error to hello":           func(w http.ResponseWriter, _ string) { send(w, 500, "255", fdoErr) },
		"error with status 200":    func(w http.ResponseWriter, _ string) { send(w, 200, "255", fdoErr) },
		"page instead of answer":   func(w http.ResponseWriter, _ string) { io.WriteString(w, "<html>hello</html>") },
		"empty answer":             func(w http.ResponseWriter, _ string) {},
		"not found":                func(w http.ResponseWriter, _ string) { w.WriteHeader(404) },
		"short nonce":              func(w http.ResponseWriter, _ string) { send(w, 200, "21", ref.Enc([]any{kit.Bytes(r, 15)})) },
		"error to registration":    hello(func(w http.ResponseWriter) { send(w, 500, "255", fdoErr) }),
		"error 200 registration":   hello(func(w http.ResponseWriter) { send(w, 200, "255", fdoErr) }),
		"junk to registration":     hello(func(w http.ResponseWriter) { send(w, 200, "23", []byte{0xff, 1}) }),
		"empty to registration":    hello(func(w http.ResponseWriter) { send(w, 200, "23", nil) }),
		"21 to registration":       hello(func(w http.ResponseWriter) { send(w, 200, "21", h21) }),
		"page to registration":     hello(func(w http.ResponseWriter) { io.WriteString(w, "<html>") }),
		"gone during registration": hello(func(w http.ResponseWriter) { panic(http.ErrAbortHandler) }),
	}
	var names []string
	for n := range cases {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		var mu sync.Mutex
		s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			mu.Lock()
			defer mu.Unlock()
			p := strings.Split(q.URL.Path, "/")
			cases[n](w, p[len(p)-1])
		}))
		run, err := sut.CLI(dir, nil, "iop", "rv_push_vouchers", s.URL)
		s.Close()
		if refused(c, "push with "+n, "Success", run, err) {
			c.Count("pushes refused")
		}
	}
	run, err := sut.CLI(dir, nil, "iop", "rv_push_vouchers", fmt.Sprintf("http://127.0.0.1:%d", sut.FreePort()))
	refused(c, "push with closed port", "Success", run, err)
	run, err = sut.CLI(dir, []string{"FDO_SERVICE_URL=::"}, "iop", "rv_push_vouchers", "http://127.0.0.1:1")
	refused(c, "push with unusable service url", "Success", run, err)
}
