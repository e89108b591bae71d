// P25: rendezvous information maps to exactly the addresses it names.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"net"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to0"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// instruction keys of the specification
const (
	devOnly = iota
	ownerOnly
	ipAddress
	devPort
	ownerPort
	dns
	svCertHash
	clCertHash
	userInput
	wifiSsid
	wifiPw
	medium
	protocol
	delaySec
	bypass
	extRV
)

type instr struct {
	_     struct{} `cbor:",toarray"`
	Key   uint8
	Value []byte // nil: null
}

// want is what a directive means.
type want struct {
	bad               string // why it has to be refused
	dev, own, ui, byp bool
	ips               [][]byte
	dport, oport      *uint16
	dns               *string
	sv, cl            *ref.Hash
	ssid, pw          *string
	med, prot         *uint8
	delay             *uint32
	ext               []any
	unknown           bool // holds an instruction the specification does not know
	note              string
}

func (w *want) refuse(why string) {
	if w.bad == "" {
		w.bad = why
	}
}

func ptr[T any](v T) *T { return &v }

func word(r *rand.Rand) string {
	n := 1 + r.IntN(20)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[r.IntN(36)]
	}
	return string(b)
}

func host(r *rand.Rand) string {
	s := word(r)
	for i := r.IntN(3); i > 0; i-- {
		s += "." + word(r)
	}
	return s + "." + []string{"org", "example", "co.uk", "fdo"}[r.IntN(4)]
}

func ip(r *rand.Rand) []byte {
	switch r.IntN(7) {
	case 5: // addresses with a meaning of their own
		return append([]byte{}, net.ParseIP([]string{"::1", "::", "fe80::1", "ff02::1", "::2", "::1:0", "2001:db8::", "64:ff9b::102:304", "2002:102:304::"}[r.IntN(9)])...)
	case 6:
		return append([]byte{}, net.ParseIP([]string{"127.0.0.1", "0.0.0.0", "255.255.255.255", "224.0.0.1", "10.0.0.1", "0.0.0.1", "1.0.0.0"}[r.IntN(7)]).To4()...)
	case 0:
		b := kit.Bytes(r, 16)
		b[0] |= 0x20
		return b
	case 1:
		b := make([]byte, 16) // long runs of zeros
		b[0], b[1], b[15] = 0xfe, 0x80, byte(1+r.IntN(255))
		return b
	}
	return kit.Bytes(r, 4)
}

func port(r *rand.Rand) uint16 {
	return []uint16{80, 443, 8040, 8041, 1, 65535, 255, 256, 23, 24, uint16(1 + r.IntN(65535)), uint16(1 + r.IntN(65535))}[r.IntN(12)]
}

// ill are values no instruction with the given kind of value has.
func ill(r *rand.Rand, key int) ([]byte, string) {
	type iv struct {
		v any
		n string
	}
	var l []iv
	text, byt, num, arr := iv{word(r), "text"}, iv{kit.Bytes(r, 4+12*r.IntN(2)), "bytes"}, iv{r.IntN(300), "number"}, iv{[]any{1, "x"}, "array"}
	m, neg, null, yes := iv{map[string]int{"a": 1}, "map"}, iv{-1 - r.IntN(300), "negative number"}, iv{nil, "null"}, iv{true, "true"}
	l = []iv{m, null, yes}
	switch key {
	case ipAddress:
		l = append(l, text, num, neg, iv{kit.Bytes(r, []int{0, 1, 3, 5, 8, 15, 17, 32}[r.IntN(8)]), "bytes of another length"})
	case devPort, ownerPort:
		l = append(l, text, byt, neg, iv{65536 + r.IntN(1<<20), "too large"}, arr)
	case delaySec:
		l = append(l, text, byt, neg, iv{uint64(1)<<32 + uint64(r.IntN(1000)), "too large"}, arr)
	case medium, protocol:
		l = append(l, text, byt, neg, iv{256 + r.IntN(1000), "too large"}, arr)
	case dns, wifiSsid, wifiPw:
		l = append(l, byt, num, neg, arr)
	case svCertHash, clCertHash:
		l = append(l, text, byt, num, iv{[]any{1}, "short array"}, iv{[]any{5, "text"}, "array of other types"})
	case extRV:
		l = []iv{m, null, yes, text, num}
	}
	switch r.IntN(12) {
	case 0:
		return []byte{}, "no value"
	case 1:
		return append(ref.Enc(num.v), 0), "value and more"
	case 2:
		return []byte{0x19, 0x01}, "cut short"
	case 3:
		return nil, "null instead of bytes"
	}
	x := l[r.IntN(len(l))]
	return ref.Enc(x.v), x.n
}

func boolean(k int) bool { return k == devOnly || k == ownerOnly || k == userInput || k == bypass }

// good adds a correct instruction.
func good(r *rand.Rand, w *want, k int) instr {
	in := instr{Key: uint8(k)}
	set := func(v any) { in.Value = ref.Enc(v) }
	switch k {
	case devOnly:
		w.dev = true
	case ownerOnly:
		w.own = true
	case userInput:
		w.ui = true
	case bypass:
		w.byp = true
	case ipAddress:
		a := ip(r)
		w.ips = append(w.ips, a)
		set(a)
	case devPort:
		w.dport = ptr(port(r))
		set(*w.dport)
	case ownerPort:
		w.oport = ptr(port(r))
		if r.IntN(12) == 0 {
			w.oport = ptr(uint16(0))
		}
		set(*w.oport)
	case dns:
		w.dns = ptr(host(r))
		set(*w.dns)
	case svCertHash, clCertHash:
		h := ref.Hash{Type: -16, Hash: kit.Bytes(r, 32)}
		if r.IntN(2) == 0 {
			h = ref.Hash{Type: -43, Hash: kit.Bytes(r, 48)}
		}
		if k == svCertHash {
			w.sv = &h
		} else {
			w.cl = &h
		}
		set(h)
	case wifiSsid:
		w.ssid = ptr(word(r))
		set(*w.ssid)
	case wifiPw:
		w.pw = ptr(word(r))
		set(*w.pw)
	case medium:
		w.med = ptr(uint8(r.IntN(22)))
		set(*w.med)
	case protocol:
		w.prot = ptr(uint8(r.IntN(7)))
		if r.IntN(2) == 0 {
			w.prot = ptr(uint8(1 + r.IntN(2)))
		}
		set(*w.prot)
	case delaySec:
		w.delay = ptr(r.Uint32())
		if r.IntN(3) == 0 {
			w.delay = ptr(uint32(r.IntN(100)))
		}
		set(*w.delay)
	case extRV:
		w.ext = []any{word(r), uint64(r.IntN(1000)), word(r)}
		set(w.ext)
	}
	return in
}

func directive(r *rand.Rand, hostile bool) ([]instr, want) {
	var w want
	var l []instr
	keys := []int{}
	if r.IntN(12) != 0 {
		keys = append(keys, []int{dns, ipAddress}[r.IntN(2)])
	}
	for k := devOnly; k <= extRV; k++ {
		p := 5
		if k == devPort || k == ownerPort || k == protocol || boolean(k) {
			p = 3
		}
		if r.IntN(p) == 0 {
			keys = append(keys, k)
		}
	}
	for i := r.IntN(3); i > 0; i-- {
		keys = append(keys, ipAddress)
	}
	dup := map[int]bool{}
	var uniq []int
	for _, k := range keys {
		if k != ipAddress && dup[k] {
			continue
		}
		dup[k] = true
		uniq = append(uniq, k)
	}
	r.Shuffle(len(uniq), func(i, j int) { uniq[i], uniq[j] = uniq[j], uniq[i] })
	for _, k := range uniq {
		l = append(l, good(r, &w, k))
	}
	if r.IntN(6) == 0 {
		// what an unknown instruction carries must not be taken for a known one
		k := uint8(extRV + 1 + r.IntN(255-extRV))
		if r.IntN(2) == 0 {
			k = uint8(r.IntN(extRV+1)) | []uint8{0x10, 0x20, 0x40, 0x80, 0xf0}[r.IntN(5)]
		}
		var spare want
		n := good(r, &spare, int(k&0x0f))
		if n.Key = k; n.Value == nil {
			n.Value = ref.Enc(1)
		}
		j := r.IntN(len(l) + 1)
		l = append(l[:j], append([]instr{n}, l[j:]...)...)
		w.unknown = true
	}
	if w.dev && w.own {
		w.refuse("restricted to both sides")
	}
	if w.dns == nil && len(w.ips) == 0 {
		w.refuse("no address")
	}
	if hostile && len(l) > 0 {
		i := r.IntN(len(l))
		k := int(l[i].Key)
		for k > extRV {
			if i = (i + 1) % len(l); i == 0 && len(l) == 1 {
				return l, w
			}
			k = int(l[i].Key)
		}
		switch r.IntN(3) {
		case 0:
			if k != ipAddress {
				j := r.IntN(len(l) + 1)
				var spare want
				n := good(r, &spare, k)
				if r.IntN(2) == 0 {
					n = l[i]
				}
				l = append(l[:j], append([]instr{n}, l[j:]...)...)
				w.bad = "repeated " + strconv.Itoa(k)
			}
		default:
			if boolean(k) {
				l[i].Value, w.note = ref.Enc([]any{true, 1, "x", []byte{1}}[r.IntN(4)]), "value for a flag"
				if r.IntN(4) == 0 {
					l[i].Value, w.note = []byte{}, "empty value for a flag"
				}
			} else {
				l[i].Value, w.note = ill(r, k)
			}
			w.bad = fmt.Sprintf("ill-typed %d", k)
		}
	}
	return l, w
}

func eq[A, B comparable](a *A, b *B, same func(A, B) bool) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return same(*a, *b)
}

func hashEq(a *fdoshared.HashOrHmac, b *ref.Hash) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return int(a.Type) == b.Type && bytes.Equal(a.Hash, b.Hash)
}

// differs compares a mapped directive with its meaning.
func differs(m fdoshared.MappedRVDirective, w want) string {
	same := func(a, b string) bool { return a == b }
	p16 := func(a, b uint16) bool { return a == b }
	switch {
	case m.RVDevOnly != w.dev:
		return "RVDevOnly"
	case m.RVOwnerOnly != w.own:
		return "RVOwnerOnly"
	case m.RVUserInput != w.ui:
		return "RVUserInput"
	case m.RVBypass != w.byp:
		return "RVBypass"
	case !eq(m.RVDevPort, w.dport, p16):
		return "RVDevPort"
	case !eq(m.RVOwnerPort, w.oport, p16):
		return "RVOwnerPort"
	case !eq(m.RVDns, w.dns, same):
		return "RVDns"
	case !eq(m.RVWifiSsid, w.ssid, same):
		return "RVWifiSsid"
	case !eq(m.RVWifiPw, w.pw, same):
		return "RVWifiPw"
	case !hashEq(m.RVSvCertHash, w.sv):
		return "RVSvCertHash"
	case !hashEq(m.RVClCertHash, w.cl):
		return "RVClCertHash"
	case !eq(m.RVMedium, w.med, func(a fdoshared.RVMediumValue, b uint8) bool { return uint8(a) == b }):
		return "RVMedium"
	case !eq(m.RVProtocol, w.prot, func(a fdoshared.RVProtocolValue, b uint8) bool { return uint8(a) == b }):
		return "RVProtocol"
	case !eq(m.RVDelaysec, w.delay, func(a, b uint32) bool { return a == b }):
		return "RVDelaysec"
	case (m.RVExtRV == nil) != (w.ext == nil) || m.RVExtRV != nil && !reflect.DeepEqual(*m.RVExtRV, w.ext):
		return "RVExtRV"
	case len(m.RVIPAddresses) != len(w.ips):
		return "RVIPAddress"
	}
	for i, a := range w.ips {
		if !bytes.Equal(m.RVIPAddresses[i], a) {
			return "RVIPAddress"
		}
	}
	return ""
}

// ownerAddrs are scheme, host and port an owner has to try, sorted; ok is false for transports that have no URL.
func ownerAddrs(w want) (l []string, ok bool) {
	scheme, p := "https", uint16(443)
	if w.prot != nil {
		switch *w.prot {
		case 0, 2:
		case 1:
			scheme, p = "http", 80
		default:
			return nil, false
		}
	}
	if w.oport != nil {
		p = *w.oport
	}
	if w.dns != nil {
		l = append(l, fmt.Sprintf("%s %s %d", scheme, *w.dns, p))
	}
	for _, a := range w.ips {
		l = append(l, fmt.Sprintf("%s %s %d", scheme, net.IP(a), p))
	}
	sort.Strings(l)
	return l, true
}

func parsed(urls []string) (l []string, err error) {
	for _, s := range urls {
		u, err := url.Parse(s)
		if err != nil {
			return nil, err
		}
		p := u.Port()
		if p == "" {
			p = map[string]string{"http": "80", "https": "443"}[u.Scheme]
		}
		h := u.Hostname()
		if a := net.ParseIP(h); a != nil {
			h = a.String()
		}
		l = append(l, fmt.Sprintf("%s %s %s", u.Scheme, h, p))
	}
	sort.Strings(l)
	return l, nil
}

func instructions(c *kit.Check, r *rand.Rand, hostile bool) {
	n := 1 + r.IntN(5)
	var wire [][]instr
	var ws []want
	bad := -1
	spoil := r.IntN(n)
	for i := 0; i < n; i++ {
		d, w := directive(r, hostile && i == spoil)
		if w.bad != "" && !(hostile && i == spoil) && r.IntN(4) != 0 {
			i-- // keep most lists of acceptable directives only
			continue
		}
		wire, ws = append(wire, d), append(ws, w)
		if w.bad != "" && bad < 0 {
			bad = i
		}
	}
	b := ref.Enc(wire)
	var info fdoshared.RendezvousInfo
	var m fdoshared.MappedRVInfo
	var err error
	if p := kit.Try(func() {
		if err = fdoshared.CborCust.Unmarshal(b, &info); err == nil {
			m, err = fdoshared.GetMappedRVInfo(info)
		}
	}); p != "" {
		c.Violation("panic", "mapping %x panics: %s", b, p)
		return
	}
	if bad >= 0 {
		w := ws[bad]
		why := w.bad
		if w.note != "" {
			why += " " + w.note
		}
		c.Eval("refused/" + why)
		c.Count("refused: " + strings.SplitN(why, " ", 2)[0])
		c.Must(err != nil, "accepted-"+strings.ReplaceAll(w.bad, " ", "-"), "rendezvous information with a directive that is %s is accepted: %x", why, b)
		c.Sample("refused", "%s: %v", why, err)
		return
	}
	flags := ""
	for _, w := range ws {
		flags += fmt.Sprint(w.dev, w.own, w.dns != nil, len(w.ips), w.dport != nil, w.oport != nil, w.prot)
	}
	c.Eval("mapped/" + flags)
	for _, w := range ws {
		if w.unknown {
			c.Count("with unknown instructions")
			if err != nil { // whether they are ignored or refused is not judged
				return
			}
		}
	}
	if !c.Must(err == nil, "genuine-refused", "genuine rendezvous information %x is refused: %v", b, err) {
		return
	}
	if !c.Must(len(m) == n, "directives", "%d directives map to %d: %x", n, len(m), b) {
		return
	}
	c.Count("mapped lists")
	for i, w := range ws {
		d := differs(m[i], w)
		c.Must(d == "", "mapped-"+d, "%s of directive %d is mapped wrongly: %+v from %x", d, i, m[i], b)
		c.Count("mapped directives")
		if l, ok := ownerAddrs(w); ok {
			got, err := parsed(m[i].GetOwnerUrls())
			c.Count("owner addresses compared")
			c.Must(err == nil && fmt.Sprint(got) == fmt.Sprint(l), "owner-urls", "owner addresses of %+v: %v (%v), want %v", m[i], m[i].GetOwnerUrls(), err, l)
		}
	}
	side := func(what string, got fdoshared.MappedRVInfo, keep func(w want) bool) {
		var l []want
		for _, w := range ws {
			if keep(w) {
				l = append(l, w)
			}
		}
		if !c.Must(len(got) == len(l), what+"-count", "%s: %d directives instead of %d from %x", what, len(got), len(l), b) {
			return
		}
		for i := range l {
			d := differs(got[i], l[i])
			c.Must(d == "", what+"-"+d, "%s: directive %d differs in %s, from %x", what, i, d, b)
		}
		c.Count(what)
	}
	side("owner side", m.GetOwnerOnly(), func(w want) bool { return !w.dev })
	side("device side", m.GetDevOnly(), func(w want) bool { return !w.own })
	again, err := fdoshared.CborCust.Marshal(info)
	c.Must(err == nil && bytes.Equal(again, b), "reencoded", "rendezvous information %x is encoded again as %x (%v)", b, again, err)
}

type addr struct {
	scheme, host string
	port         uint16
}

func (a addr) String() string { return fmt.Sprintf("%s %s %d", a.scheme, a.host, a.port) }

// someURL is a usable URL and what it names.
func someURL(r *rand.Rand) (string, addr) {
	a := addr{scheme: []string{"http", "https"}[r.IntN(2)]}
	a.port = map[string]uint16{"http": 80, "https": 443}[a.scheme]
	h := ""
	switch r.IntN(3) {
	case 0:
		h = host(r)
		a.host = h
	default:
		i := net.IP(ip(r))
		a.host, h = i.String(), i.String()
		if i.To4() == nil {
			h = "[" + h + "]"
		}
	}
	s := a.scheme + "://" + h
	if r.IntN(3) != 0 {
		a.port = port(r)
		s += ":" + []string{"", "", "", "0", "00"}[r.IntN(5)] + strconv.Itoa(int(a.port))
	}
	return s + []string{"", "", "/"}[r.IntN(3)], a
}

func badURL(r *rand.Rand) (string, string) {
	h := host(r)
	l := [][2]string{{"", "empty"}, {h, "no scheme"}, {h + ":8040", "no scheme"}, {"//" + h, "no scheme"}, {"ftp://" + h, "scheme"}, {"coap://" + h + ":80", "scheme"}, {"tcp://" + h, "scheme"},
		{"http://", "no host"}, {"https://:8040", "no host"}, {"http:///path", "no host"}, {"http:" + h, "no host"},
		{fmt.Sprintf("http://%s:%d", h, 65536+r.IntN(100000)), "port"}, {fmt.Sprintf("https://%s:-%d", h, 1+r.IntN(100)), "port"}, {"http://" + h + ":http", "port"}, {"http://" + h + ":80:80", "port"},
		{"http://[::1", "bracket"}, {"http://[" + h, "bracket"}, {"http://" + h + "\x00", "control character"}, {"http://" + h + "%zz", "escape"}, {"://" + h, "no scheme"}, {"http://" + h + " x", "space"}}
	x := l[r.IntN(len(l))]
	return x[0], x[1]
}

func entryAddr(ip []byte, dns *string, port uint16, proto int) (a addr, bad string) {
	a.port = port
	switch proto {
	case 3:
		a.scheme = "http"
	case 5:
		a.scheme = "https"
	default:
		return a, fmt.Sprintf("protocol %d", proto)
	}
	switch {
	case dns != nil && ip != nil:
		return a, "address and name"
	case dns != nil:
		a.host = *dns
	case len(ip) == 4 || len(ip) == 16:
		a.host = net.IP(ip).String()
	default:
		return a, "no address"
	}
	return a, ""
}

func urls(c *kit.Check, r *rand.Rand) {
	if r.IntN(3) == 0 {
		s, why := badURL(r)
		c.Eval("bad url/" + why)
		if p := kit.Try(func() {
			e, err := fdoshared.UrlToTOAddrEntry(s)
			c.Must(err != nil, "bad-url-entry", "unusable URL %q (%s) gives the address %+v", s, why, e)
			d, err := fdoshared.UrlToRvDirective(s)
			c.Must(err != nil, "bad-url-directive", "unusable URL %q (%s) gives the directive %+v", s, why, d)
			ok, _ := someURL(r)
			i, err := fdoshared.UrlsToRendezvousInfo([]string{ok, s, ok}[:2+r.IntN(2)])
			c.Must(err != nil, "bad-url-info", "unusable URL %q (%s) gives the rendezvous information %+v", s, why, i)
		}); p != "" {
			c.Violation("panic-url", "%q: %s", s, p)
		}
		c.Count("unusable URLs refused")
		return
	}
	n := 1 + r.IntN(4)
	var in []string
	var as []addr
	for i := 0; i < n; i++ {
		s, a := someURL(r)
		in, as = append(in, s), append(as, a)
	}
	p := kit.Try(func() {
		for i, s := range in {
			c.Eval(fmt.Sprintf("url/%s/%v/%v", as[i].scheme, net.ParseIP(as[i].host) != nil, as[i].port))
			e, err := fdoshared.UrlToTOAddrEntry(s)
			if !c.Must(err == nil, "url-refused", "URL %q is refused: %v", s, err) {
				return
			}
			b, err := fdoshared.CborCust.Marshal(e)
			if !c.Must(err == nil, "url-encode", "address of %q cannot be encoded: %v", s, err) {
				return
			}
			var w ref.RVAddr
			if err := ref.Dec(b, &w); !c.Must(err == nil, "url-encode", "address of %q is encoded as %x: %v", s, b, err) {
				return
			}
			got, bad := entryAddr(w.IP, w.DNS, w.Port, int(w.Proto))
			c.Must(bad == "" && got == as[i], "url-entry", "URL %q gives the address %v (%s), want %v", s, got, bad, as[i])
			c.Count("URLs to addresses")
		}
		info, err := fdoshared.UrlsToRendezvousInfo(in)
		if !c.Must(err == nil, "urls-refused", "URLs %q are refused: %v", in, err) {
			return
		}
		b, err := fdoshared.CborCust.Marshal(info)
		c.Must(err == nil, "urls-encode", "%v", err)
		var wire [][]instr
		if err := ref.Dec(b, &wire); !c.Must(err == nil && len(wire) == n, "urls-encode", "URLs %q become %x: %v", in, b, err) {
			return
		}
		for i, d := range wire {
			var w addr
			var dp, op uint16
			var ips []byte
			var name *string
			prot := 2
			for _, x := range d {
				var err error
				switch int(x.Key) {
				case devPort:
					err = ref.Dec(x.Value, &dp)
				case ownerPort:
					err = ref.Dec(x.Value, &op)
				case dns:
					err = ref.Dec(x.Value, &name)
				case ipAddress:
					err = ref.Dec(x.Value, &ips)
				case protocol:
					err = ref.Dec(x.Value, &prot)
				default:
					err = fmt.Errorf("unexpected instruction %d", x.Key)
				}
				c.Must(err == nil, "urls-instr", "URL %q becomes %x: %v", in[i], b, err)
			}
			w, bad := entryAddr(ips, name, dp, map[int]int{1: 3, 2: 5}[prot])
			c.Must(bad == "" && w == as[i] && op == dp, "url-directive", "URL %q becomes a directive for %v, owner port %d (%s)", in[i], w, op, bad)
		}
		var back fdoshared.RendezvousInfo
		if err := fdoshared.CborCust.Unmarshal(b, &back); !c.Must(err == nil, "urls-decode", "%v", err) {
			return
		}
		m, err := fdoshared.GetMappedRVInfo(back)
		if !c.Must(err == nil && len(m) == n, "urls-mapped", "rendezvous information of %q maps to %v: %v", in, m, err) {
			return
		}
		for i := range m {
			got, err := parsed(m[i].GetOwnerUrls())
			c.Must(err == nil && len(got) == 1 && got[0] == as[i].String(), "url-back", "URL %q comes back as %v (%v)", in[i], m[i].GetOwnerUrls(), err)
			c.Count("URLs there and back")
		}
		c.Sample("urls", "%q -> %x", in, b)
	})
	if p != "" {
		c.Violation("panic-url", "%q: %s", in, p)
	}
}

// service registers with the service address u and looks what a device is sent to.
func service(c *kit.Check, r *rand.Rand, s *sut.SUT) {
	u, a := someURL(r)
	d := ref.NewDevice([]int{ref.SgES256, ref.SgES384}[r.IntN(2)])
	own := ref.GenKeyCached(ref.SgES256)
	v := ref.BuildVoucher(d, []ref.Key{own, own}, ref.RandRV())
	rec, err := sut.Record(v, own)
	if err != nil {
		c.Broken("%v", err)
		return
	}
	p := kit.Try(func() {
		q := to0.NewTo0Requestor(fdoshared.SRVEntry{SrvURL: s.URL}, rec, sut.Context(u, nil))
		ack, _, e := q.Hello20(testcom.NULL_TEST)
		if e == nil {
			_, _, e = q.OwnerSign22(ack.NonceTO0Sign, testcom.NULL_TEST)
		}
		err = e
	})
	if p != "" {
		c.Violation("panic-service", "%q: %s", u, p)
		return
	}
	if !c.Must(err == nil, "service-refused", "registration of %q: %v", u, err) {
		return
	}
	t := &ref.TO1{Conn: ref.Conn{Base: s.URL}, Dev: d}
	if _, err := t.Hello(); !c.Must(err == nil, "service-to1", "%v", err) {
		return
	}
	x := t.Prove()
	sig, err := ref.DecCose(x.Body)
	var blob ref.To1d
	if err == nil {
		err = ref.Dec(sig.Payload, &blob)
	}
	if !c.Must(x.Ok(33) && err == nil && len(blob.Addrs) == 1, "service-blob", "redirect for %q: %s %v", u, x, err) {
		return
	}
	g := blob.Addrs[0]
	got, bad := entryAddr(g.IP, g.DNS, g.Port, int(g.Proto))
	c.Must(bad == "" && got == a, "service-address", "a device is sent to %v (%s) for the service %q", got, bad, u)
	c.Eval(fmt.Sprintf("service/%s/%v", a.scheme, net.ParseIP(a.host) != nil))
	c.Count("redirects compared")
}

func main() {
	kit.Main("P25", func(c *kit.Check) {
		n := c.N(20000, 600000)
		c.Parallel(8, func(k int) {
			r := c.Rand(fmt.Sprint("instructions", k))
			for i := 0; i < n/8; i++ {
				instructions(c, r, r.IntN(2) == 0)
			}
		})
		c.Parallel(8, func(k int) {
			r := c.Rand(fmt.Sprint("urls", k))
			for i := 0; i < n/8; i++ {
				urls(c, r)
			}
		})
		s := sut.New(sut.Opt{})
		defer s.Close()
		c.Parallel(c.N(60, 1500), func(k int) { service(c, c.Rand(fmt.Sprint("service", k)), s) })
		c.Rule = "one evaluation = one list of directives or URLs mapped by the tool and compared with an independent reading of the specification's table, or one real registration whose redirect is compared; distinct = (which instructions, which flags) and (scheme, kind of host, port)"
		c.Assume = []string{"A transport without URL (TCP, TLS, CoAP) is not judged where URLs are asked for.", "No protocol, or REST, means HTTPS, with port 443 unless given.", "A flag carries no value (null).", "An instruction with an unknown key may be refused or ignored; it may not change what the others mean."}
		c.Require("mapped lists", 2000)
		c.Require("owner addresses compared", 2000)
		c.Require("owner side", 1000)
		c.Require("with unknown instructions", 500)
		c.Require("device side", 1000)
		c.Require("refused: ill-typed", 1000)
		c.Require("refused: repeated", 300)
		c.Require("refused: no", 50)
		c.Require("refused: restricted", 50)
		c.Require("URLs there and back", 2000)
		c.Require("unusable URLs refused", 1000)
		c.Require("redirects compared", 30)
	})
}
