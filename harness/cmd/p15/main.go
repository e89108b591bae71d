// P15: every protocol endpoint keeps the FDO HTTP contract.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"strconv"
	"strings"
	"time"

	"verif.local/harness/kit"
	"verif.local/harness/mut"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

type world struct {
	c *kit.Check
	s *sut.SUT
	r *rand.Rand
	p *sut.Party
}

func one(h http.Header, k string) (string, bool) {
	v := h.Values(k)
	if len(v) != 1 {
		return strings.Join(v, "|"), false
	}
	return v[0], true
}

// contract judges the form of an answer to a request for message m with token tok.
// It returns whether the request was accepted.
func (w *world) contract(m int, tok, what string, r ref.Resp, head bool) bool {
	c := w.c
	if r.Err != nil {
		c.Violation("no-answer", "message %d, %s: %v %v", m, what, r.Err, w.s.Panics())
		return false
	}
	mt, okM := one(r.Hdr, "Message-Type")
	ct, okC := one(r.Hdr, "Content-Type")
	c.Must(okM, "message-type-header", "message %d, %s: Message-Type header %q (HTTP %d)", m, what, mt, r.Status)
	c.Must(okC && ct == "application/cbor", "content-type-header", "message %d, %s: Content-Type header %q (HTTP %d)", m, what, ct, r.Status)
	if r.Status == 200 {
		c.Must(mt == strconv.Itoa(m+1), "success-type", "message %d, %s: HTTP 200 with message type %q", m, what, mt)
		var x ref.Raw
		err := ref.Dec(r.Body, &x)
		c.Must(err == nil && len(x) == len(r.Body), "success-body", "message %d, %s: HTTP 200 body is not one CBOR item (%v): %s", m, what, err, kit.Hex(r.Body))
		a, ok := one(r.Hdr, "Authorization")
		c.Must(ok && strings.HasPrefix(a, "Bearer ") && len(a) > len("Bearer "), "success-token", "message %d, %s: Authorization header %q in the answer", m, what, a)
		if !sut.First(m) {
			c.Must(a == tok, "token-kept", "message %d, %s: answer carries token %q, the session's is %q", m, what, a, tok)
		}
		c.Count("success answers judged")
		return true
	}
	c.Must(r.Status >= 400 && r.Status < 600, "error-status", "message %d, %s: answered with HTTP status %d", m, what, r.Status)
	c.Must(mt == "255", "error-type", "message %d, %s: HTTP %d with message type %q", m, what, r.Status, mt)
	c.Count("error answers judged")
	if head {
		return false
	}
	var p []ref.Raw
	err := ref.Dec(r.Body, &p)
	if !c.Must(err == nil, "error-body", "message %d, %s: HTTP %d with a body that cannot be decoded: %v: %s", m, what, r.Status, err, kit.Hex(r.Body)) {
		return false
	}
	if !c.Must(len(p) == 5, "error-body-members", "message %d, %s: error body has %d members: %s", m, what, len(p), kit.Hex(r.Body)) {
		return false
	}
	var code, prev uint16
	var str string
	var cid uint64
	e1, e2, e3, e5 := ref.Dec(p[0], &code), ref.Dec(p[1], &prev), ref.Dec(p[2], &str), ref.Dec(p[4], &cid)
	c.Must(e1 == nil && e2 == nil && e3 == nil && e5 == nil && p[0][0]>>5 == 0 && p[1][0]>>5 == 0 && p[2][0]>>5 == 3, "error-body-types",
		"message %d, %s: error body members: %v %v %v %v: %s", m, what, e1, e2, e3, e5, kit.Hex(r.Body))
	c.Must(int(prev) == m, "error-names", "message %d, %s: the error names message %d (%s)", m, what, prev, str)
	c.Must(code != 0, "error-code", "message %d, %s: error code 0 (%s)", m, what, str)
	return false
}

// variants of one request dimension; ok: 1 allowed, 0 must be refused, -1 not judged.
type variant struct {
	name, val string
	ok        int
}

var methods = []variant{{"POST", "POST", 1}, {"GET", "GET", 0}, {"PUT", "PUT", 0}, {"DELETE", "DELETE", 0}, {"PATCH", "PATCH", 0}, {"OPTIONS", "OPTIONS", 0}, {"HEAD", "HEAD", 0},
	{"TRACE", "TRACE", 0}, {"post", "post", 0}, {"Post", "Post", 0}, {"POSTX", "POSTX", 0}, {"PROPFIND", "PROPFIND", 0}, {"QUERY", "QUERY", 0}, {"SEARCH", "SEARCH", 0}, {"POS", "POS", 0}, {"PUSH", "PUSH", 0}, {"UPDATE", "UPDATE", 0}}

var ctypes = []variant{{"cbor", "application/cbor", 1}, {"none", "-", 0}, {"empty", "", 0}, {"json", "application/json", 0}, {"text", "text/plain", 0}, {"octets", "application/octet-stream", 0},
	{"cbor-seq", "application/cbor-seq", 0}, {"prefix", "application/cbo", 0}, {"longer", "application/cborx", 0}, {"cose", "application/cose", 0}, {"form", "application/x-www-form-urlencoded", 0},
	{"list", "text/plain, application/cbor", 0}, {"embedded", "x-application/cbor", 0}, {"latin1", "application/c\xf6\xff\xfebor", 0}, {"any", "*/*", 0}, {"upper", "APPLICATION/CBOR", -1},
	{"parameter", "application/cbor; charset=utf-8", -1}, {"quote", "\"application/cbor\"", 0}, {"very long", strings.Repeat("a", 9000), 0}}

func auths(tok, foreign string) []variant {
	raw := strings.TrimPrefix(tok, "Bearer ")
	return []variant{{"token", tok, 1}, {"none", "-", 0}, {"empty", "", 0}, {"bearer only", "Bearer", 0}, {"bearer space", "Bearer ", 0}, {"basic", "Basic " + raw, 0}, {"no scheme", raw, 0},
		{"extra word", tok + " x", 0}, {"two words first", "Bearer x " + raw, 0}, {"unknown", "Bearer session-00000000-0000-4000-8000-000000000000", 0}, {"longer", tok + "0", 0}, {"cut", tok[:len(tok)-1], 0},
		{"key of another table", "Bearer voucher-", 0}, {"lower scheme", "bearer " + raw, -1}, {"token as scheme", raw + " Bearer", 0}, {"foreign", foreign, 0}, {"latin1", "Bearer \xff\xfe\xf6", 0},
		{"comma", "Bearer " + raw + ",", 0}, {"digest", "Digest username=\"x\"", 0}}
}

func (w *world) request(m int, method, ct, auth, mt string, body []byte) ref.Resp {
	h := http.Header{}
	if ct != "-" {
		h["Content-Type"] = []string{ct}
	}
	if auth != "-" {
		h["Authorization"] = []string{auth}
	}
	if mt != "-" {
		h["Message-Type"] = []string{mt}
	}
	k := ref.Conn{Base: w.s.URL}
	return k.Do(method, ref.MsgURL(w.s.URL, m), h, body)
}

// cross tries combinations of method, content type, token and declared message type for message m.
func (w *world) cross(m int, all bool) {
	c := w.c
	a, err := w.p.Reach(w.r, m)
	if err != nil {
		c.Violation("honest", "message %d cannot be reached: %v", m, err)
		return
	}
	tok := a.Tok
	if sut.First(m) {
		tok = "Bearer session-11111111-0000-4000-8000-000000000000"
	}
	mts := []string{strconv.Itoa(m), "-", strconv.Itoa(m + 1), "255", "zzz"}
	for mi, me := range methods {
		for ci, ct := range ctypes {
			for ai, au := range auths(tok, "Bearer session-"+strings.Repeat("0", 36)) {
				devs := b2i(mi > 0) + b2i(ci > 0) + b2i(ai > 0)
				if devs > 1 && !all && w.r.IntN(8) != 0 {
					continue
				}
				mt := mts[w.r.IntN(len(mts))]
				if devs == 0 {
					continue
				}
				verdict := 1
				for _, v := range []int{me.ok, ct.ok, au.ok} {
					if v == 0 {
						verdict = 0
					} else if v == -1 && verdict == 1 {
						verdict = -1
					}
				}
				if sut.First(m) && me.ok == 1 && ct.ok == 1 {
					verdict = 1 // no token is needed
				} else if sut.First(m) && (me.ok == 0 || ct.ok == 0) {
					verdict = 0
				}
				what := fmt.Sprintf("method %q content type %s authorization %s declared type %s", me.name, ct.name, au.name, mt)
				r := w.request(m, me.val, ct.val, au.val, mt, a.Body)
				ok := w.contract(m, tok, what, r, me.val == "HEAD")
				c.Eval(fmt.Sprintf("x|%d|%s|%d", m, what, r.Status))
				if ok && verdict == 0 {
					c.Violation(fmt.Sprintf("accepted-%d", m), "message %d, %s: accepted: %s", m, what, r)
				}
				if !ok && verdict == 1 {
					c.Violation(fmt.Sprintf("refused-%d", m), "message %d, %s: refused: %s", m, what, r)
				}
				if ok && !sut.First(m) { // not judged and accepted: the session has moved on
					if a, err = w.p.Reach(w.r, m); err != nil {
						c.Violation("honest", "message %d cannot be reached: %v", m, err)
						return
					}
					tok = a.Tok
				}
				c.Count("header combinations")
			}
		}
	}
	// after all those refusals the session must still be usable by its owner
	auth := a.Tok
	if auth == "" {
		auth = "-"
	}
	r := w.request(m, "POST", "application/cbor", auth, strconv.Itoa(m), a.Body)
	w.contract(m, a.Tok, "honest request", r, false)
	err = a.Accept(r)
	c.Must(err == nil, fmt.Sprintf("honest-after-%d", m), "message %d: honest request refused after requests with bad headers: %v", m, err)
	c.Count("honest after refusals")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// raw sends bytes over a plain connection, half-closes, and reads one response.
func (w *world) raw(method string, data []byte) ref.Resp {
	cn, err := net.Dial("tcp", strings.TrimPrefix(w.s.URL, "http://"))
	if err != nil {
		return ref.Resp{Err: err, Msg: -1}
	}
	defer cn.Close()
	cn.SetDeadline(time.Now().Add(60 * time.Second))
	cn.Write(data)
	cn.(*net.TCPConn).CloseWrite()
	resp, err := http.ReadResponse(bufio.NewReader(cn), &http.Request{Method: method})
	if err != nil {
		return ref.Resp{Err: err, Msg: -1}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	r := ref.Resp{Status: resp.StatusCode, Hdr: resp.Header, Body: b, Err: err, Msg: -1}
	if n, err := strconv.Atoi(resp.Header.Get("Message-Type")); err == nil {
		r.Msg = n
	}
	return r
}

func head(m int, tok string, extra string) string {
	s := fmt.Sprintf("POST /fdo/101/msg/%d HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Type: application/cbor\r\n%s", m, extra)
	if tok != "" {
		s += "Authorization: " + tok + "\r\n"
	}
	return s + "\r\n"
}

// transport tries unusual but legal, and broken, ways to send the honest body.
func (w *world) transport(m int) {
	c := w.c
	for _, k := range []string{"chunked", "one byte chunks", "lower case headers", "HTTP/1.0", "extra headers", "absolute URI", "query"} {
		a, err := w.p.Reach(w.r, m)
		if err != nil {
			c.Violation("honest", "message %d cannot be reached: %v", m, err)
			return
		}
		var b bytes.Buffer
		cl := fmt.Sprintf("Content-Length: %d\r\n", len(a.Body))
		switch k {
		case "chunked":
			fmt.Fprintf(&b, "%s%x\r\n%s\r\n0\r\n\r\n", head(m, a.Tok, "Transfer-Encoding: chunked\r\n"), len(a.Body), a.Body)
		case "one byte chunks":
			b.WriteString(head(m, a.Tok, "Transfer-Encoding: chunked\r\n"))
			for _, x := range a.Body {
				fmt.Fprintf(&b, "1\r\n%c\r\n", 0)
				b.Bytes()[b.Len()-3] = x
			}
			b.WriteString("0\r\n\r\n")
		case "lower case headers":
			h := strings.NewReplacer("Content-Type", "content-type", "Content-Length", "content-length", "Authorization", "authorization").Replace(head(m, a.Tok, cl))
			b.WriteString(h)
			b.Write(a.Body)
		case "HTTP/1.0":
			b.WriteString(strings.Replace(head(m, a.Tok, cl), "HTTP/1.1", "HTTP/1.0", 1))
			b.Write(a.Body)
		case "extra headers":
			b.WriteString(head(m, a.Tok, cl+"Message-Type: "+strconv.Itoa(m)+"\r\nX-Forwarded-For: 1.2.3.4\r\nAccept: */*\r\nCookie: session=zzz\r\nOrigin: http://evil.example\r\n"))
			b.Write(a.Body)
		case "absolute URI":
			b.WriteString(strings.Replace(head(m, a.Tok, cl), " /fdo", " http://x/fdo", 1))
			b.Write(a.Body)
		case "query":
			b.WriteString(strings.Replace(head(m, a.Tok, cl), " HTTP", "?a=b HTTP", 1))
			b.Write(a.Body)
		}
		r := w.raw("POST", b.Bytes())
		w.contract(m, a.Tok, k, r, false)
		err = a.Accept(r)
		c.Must(err == nil, fmt.Sprintf("transport-%s", k), "message %d sent as %q is refused: %v", m, k, err)
		c.Eval(fmt.Sprintf("t|%d|%s|%d", m, k, r.Status))
		c.Count("unusual transports")
	}
	// broken uploads
	for _, k := range []string{"cut body", "cut chunk", "bad chunk", "no body"} {
		a, err := w.p.Reach(w.r, m)
		if err != nil {
			c.Violation("honest", "message %d cannot be reached: %v", m, err)
			return
		}
		var b bytes.Buffer
		n := len(a.Body)
		switch k {
		case "cut body":
			b.WriteString(head(m, a.Tok, fmt.Sprintf("Content-Length: %d\r\n", n+1)))
			b.Write(a.Body) // complete item, but the upload is not
		case "cut chunk":
			fmt.Fprintf(&b, "%s%x\r\n%s", head(m, a.Tok, "Transfer-Encoding: chunked\r\n"), n+5, a.Body)
		case "bad chunk":
			fmt.Fprintf(&b, "%s%x\r\n%s\r\nzz\r\n", head(m, a.Tok, "Transfer-Encoding: chunked\r\n"), n, a.Body)
		case "no body":
			b.WriteString(head(m, a.Tok, "Content-Length: 0\r\n"))
		}
		r := w.raw("POST", b.Bytes())
		if r.Err != nil {
			c.Count("broken upload without answer") // the connection is broken anyway
		} else if w.contract(m, a.Tok, k, r, false) {
			c.Violation(fmt.Sprintf("broken-upload-%d", m), "message %d with %s is accepted: %s", m, k, r)
		}
		c.Eval(fmt.Sprintf("b|%d|%s|%d", m, k, r.Status))
		c.Count("broken uploads")
		r = w.raw("POST", append([]byte(head(m, a.Tok, fmt.Sprintf("Content-Length: %d\r\n", n))), a.Body...))
		if k != "no body" {
			c.Must(a.Accept(r) == nil, "after-broken-upload", "message %d: complete request refused after %s: %s", m, k, r)
		}
	}
}

// paths that are no protocol endpoint must not answer as one.
func (w *world) paths() {
	c := w.c
	a, err := w.p.Reach(w.r, 62)
	if err != nil {
		c.Violation("honest", "62: %v", err)
		return
	}
	hello := ref.Enc([]any{})
	list := []string{"/fdo/101/msg/", "/fdo/101/msg", "/fdo/100/msg/20", "/fdo/101/msg/020", "/fdo/101/msg/20/", "/fdo/101/msg/20/20", "/fdo/101/20", "/fdo/102/msg/20", "/FDO/101/msg/20", "/msg/20", "/20",
		"/fdo/101/msg/-20", "/fdo/101/msg/2%300", "/fdo/101/msg/%32%30", "/fdo/101/msg/20%00", "/fdo//101/msg/20", "/x/../fdo/101/msg/20"}
	for m := 0; m < 300; m++ {
		known := false
		for _, k := range sut.Msgs {
			known = known || k == m
		}
		if !known {
			list = append(list, fmt.Sprintf("/fdo/101/msg/%d", m))
		}
	}
	hc := &http.Client{CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	for _, p := range list {
		for _, b := range [][]byte{hello, a.Body} {
			k := ref.Conn{Base: w.s.URL, HC: hc}
			r := k.Do("POST", w.s.URL+p, http.Header{"Content-Type": {"application/cbor"}, "Authorization": {a.Tok}}, b)
			if r.Err != nil {
				c.Violation("no-answer", "path %s: %v", p, r.Err)
				continue
			}
			decoded := strings.HasSuffix(p, "%300") || strings.HasSuffix(p, "%32%30") // other spelling of the path of message 20
			if r.Status == 200 && !(decoded && r.Msg == 21) {
				c.Violation("path-answers", "path %s answers: %s", p, r)
			}
			c.Eval(fmt.Sprintf("p|%s|%d", p, r.Status))
			c.Count("other paths")
		}
	}
}

// hostile bodies with good headers, and messages at the wrong endpoint.
func (w *world) bodies(n int) {
	c := w.c
	for k := 0; k < n; k++ {
		m := sut.Msgs[w.r.IntN(len(sut.Msgs))]
		a, err := w.p.Reach(w.r, m)
		if err != nil {
			c.Violation("honest", "message %d cannot be reached: %v", m, err)
			return
		}
		for j := 0; j < 6; j++ {
			at, body, what := m, a.Body, "altered body"
			switch w.r.IntN(4) {
			case 0:
				body = mut.Random(w.r, body)
			case 1:
				body = mut.Byte(w.r, body)
			case 2:
				if l := mut.Structural(body); len(l) > 0 {
					x := l[w.r.IntN(len(l))]
					body, what = x.Data, "structural "+x.What
				}
			default:
				for at == m {
					at = sut.Msgs[w.r.IntN(len(sut.Msgs))]
				}
				what = fmt.Sprintf("body of message %d", m)
			}
			tok := a.Tok
			if tok == "" {
				tok = "-"
			}
			r := w.request(at, "POST", "application/cbor", tok, strconv.Itoa(at), body)
			ok := w.contract(at, a.Tok, what, r, false)
			c.Eval(fmt.Sprintf("h|%d|%d|%x", at, r.Status, body))
			c.Count("altered bodies")
			if ok && !sut.First(at) {
				break
			}
		}
	}
}

// parts: each party plays every endpoint.
func run(c *kit.Check, label string, devSg, ownerSg int, api, all bool, n int) {
	w := &world{c: c, r: c.Rand(label), s: sut.New(sut.Opt{API: api})}
	defer w.s.Close()
	var err error
	if w.p, err = w.s.NewParty(devSg, ownerSg, 1+w.r.IntN(3)); err == nil {
		err = w.p.Register()
	}
	if err != nil {
		c.Violation("honest", "%s: %v", label, err)
		return
	}
	for _, m := range sut.Msgs {
		w.cross(m, all)
		w.transport(m)
	}
	w.paths()
	w.bodies(n)
	for _, p := range w.s.Panics() {
		c.Violation("panic-"+p.Path, "handler panic: %s\n%s", p.Value, p.Stack)
	}
	c.Count("configurations")
}

func main() {
	kit.Main("P15", func(c *kit.Check) {
		c.Rule = "POST of application/cbor with the session's bearer token is answered with 200, one Message-Type (request+1), application/cbor, one CBOR item and the session's token; every other request with a status >= 400, message type 255 and a five-member error body naming the request; refusals for headers leave the session usable; other paths never answer."
		c.Assume = append(c.Assume, "Spellings that HTTP itself may treat as equal (content type case and parameters, scheme case) are not judged.",
			"An upload broken off by the client may stay without answer.")
		type cf struct {
			d, o int
			api  bool
		}
		var l []cf
		for i, d := range ref.DeviceSgs {
			for j, o := range ref.OwnerSgs {
				l = append(l, cf{d, o, (i+j)%2 == 0})
			}
		}
		reps := c.N(1, 6)
		c.Parallel(len(l)*reps, func(i int) {
			k := l[i%len(l)]
			run(c, fmt.Sprint("cfg", i), k.d, k.o, k.api, c.Thorough(), c.N(60, 800))
		})
		c.Require("success answers judged", 200)
		c.Require("error answers judged", 3000)
		c.Require("header combinations", 3000)
		c.Require("honest after refusals", 30)
		c.Require("unusual transports", 100)
		c.Require("broken uploads", 60)
		c.Require("other paths", 300)
		c.Require("altered bodies", 200)
	})
}
