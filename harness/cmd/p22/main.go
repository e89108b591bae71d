// P22: management calls need a login and reach only the caller's own tests.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net/http"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/dgraph-io/badger/v4"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

const closed = "http://127.0.0.1:1" // nothing listens here

// account is the model of one user.
type account struct {
	email  string
	live   []*sut.User // sessions that must work
	dead   []string    // cookies that worked once
	name   map[string][]string
	old    map[string][]string // identifiers that were purged
	gone   map[string]bool
	serial int
}

type world struct {
	c   *kit.Check
	r   *rand.Rand
	s   *sut.SUT
	acc []*account
	log []string
}

var kinds = []string{"rvt", "dot", "device"}

// a target names what a management call refers to.
type target struct{ rvt, dot, dev, run, rvtEntry, dotEntry string }

func (t target) ids() []string {
	return []string{t.rvt, t.dot, t.dev}
}

type call struct {
	name, method, path string
	body               []byte
}

func js(v any) []byte { b, _ := json.Marshal(v); return b }

// calls that name a test.
func named(t target) []call {
	return []call{
		{"rvt-execute", "POST", "/api/rvt/execute", js(map[string]string{"id": t.rvt})},
		{"rvt-delete", "DELETE", "/api/rvt/testruns/" + t.rvt + "/" + t.run, nil},
		{"dot-execute", "POST", "/api/dot/execute", js(map[string]string{"id": t.dot})},
		{"dot-delete", "DELETE", "/api/dot/testruns/" + t.dot + "/" + t.run, nil},
		{"dot-vouchers", "GET", "/api/dot/vouchers/" + t.dot, nil},
		{"device-start1", "POST", "/api/device/testruns/1/" + t.dev, nil},
		{"device-start2", "POST", "/api/device/testruns/2/" + t.dev, nil},
		{"device-delete1", "DELETE", "/api/device/testruns/1/" + t.dev + "/" + t.run, nil},
		{"device-delete2", "DELETE", "/api/device/testruns/2/" + t.dev + "/" + t.run, nil},
	}
}

// calls of every kind.
func every(t target, voucher string) []call {
	return append(named(t),
		call{"rvt-create", "POST", "/api/rvt/create", js(map[string]string{"url": closed})},
		call{"rvt-list", "GET", "/api/rvt/testruns", nil},
		call{"dot-create", "POST", "/api/dot/create", js(map[string]string{"url": closed, "priv_key": sut.KeyPEM(ref.GenKeyCached(ref.SgES256))})},
		call{"dot-list", "GET", "/api/dot/testruns", nil},
		call{"device-create", "POST", "/api/device/create", js(map[string]string{"name": "intruder", "voucher": voucher})},
		call{"device-list", "GET", "/api/device/testruns", nil},
		call{"purge", "POST", "/api/user/purgetests", []byte("{}")},
		call{"logout", "POST", "/api/user/logout", []byte("{}")},
		call{"loggedin", "GET", "/api/user/loggedin", nil},
	)
}

func (w *world) note(f string, a ...any) {
	if w.log = append(w.log, fmt.Sprintf(f, a...)); len(w.log) > 25 {
		w.log = w.log[1:]
	}
}

func (w *world) fail(sig, f string, a ...any) {
	w.c.Violation(sig, f+"; last actions %v", append(a, w.log)...)
}

func (w *world) snap() map[string]string { return sut.Snapshot(w.s.DB, "session-") }

// view is everything the user can see, by one of the working sessions.
func (w *world) view(a *account) (v map[string]string, ok bool) {
	v = map[string]string{}
	u := a.live[w.r.IntN(len(a.live))]
	for _, k := range kinds {
		r := u.Do("GET", "/api/"+k+"/testruns", nil)
		if !r.Ok() {
			w.fail("own-list", "%s cannot list the own %s tests: %s", a.email, k, r)
			return nil, false
		}
		v[k] = string(r.Body)
	}
	l, _ := u.List("dot")
	for _, i := range l {
		z, err := u.Vouchers(i.Inst(2).Id)
		if err != nil {
			w.fail("own-vouchers", "%s cannot read the own vouchers: %v", a.email, err)
			return nil, false
		}
		for n, b := range z {
			v["voucher "+i.Id+n] = string(b)
		}
	}
	return v, true
}

// entries returns the three lists.
func (w *world) entries(a *account) map[string][]sut.Item {
	m := map[string][]sut.Item{}
	for _, k := range kinds {
		l, err := a.live[0].List(k)
		if err != nil {
			w.fail("own-list", "%s: %v", a.email, err)
		}
		m[k] = l
	}
	return m
}

// pick chooses identifiers of the account's tests.
func (w *world) pick(a *account) (t target) {
	e := w.entries(a)
	any := func(l []sut.Item) (i sut.Item) {
		if len(l) > 0 {
			i = l[w.r.IntN(len(l))]
		}
		return
	}
	t.run = randomUUID(w.r)
	if i := any(e["rvt"]); i.Id != "" {
		to := 1
		if w.r.IntN(8) == 0 {
			to = 0 // these runs generate RSA keys and take long
		}
		x := i.Inst(to)
		t.rvt, t.rvtEntry = x.Id, i.Id
		if len(x.Runs) > 0 {
			t.run = x.Runs[w.r.IntN(len(x.Runs))].Uuid
		}
	}
	if i := any(e["dot"]); i.Id != "" {
		x := i.Inst(2)
		t.dot, t.dotEntry = x.Id, i.Id
		if len(x.Runs) > 0 && w.r.IntN(2) == 0 {
			t.run = x.Runs[w.r.IntN(len(x.Runs))].Uuid
		}
	}
	if i := any(e["device"]); i.Id != "" {
		t.dev = i.Id
		if x := i.Listener(1 + w.r.IntN(2)); len(x) > 0 && w.r.IntN(2) == 0 {
			t.run = x[w.r.IntN(len(x))].Uuid
		}
	}
	return
}

func randomHex(r *rand.Rand) string { return hex.EncodeToString(kit.Bytes(r, 16)) }
func randomUUID(r *rand.Rand) string {
	h := randomHex(r)
	return h[:8] + "-" + h[8:12] + "-4" + h[13:16] + "-a" + h[17:20] + "-" + h[20:]
}

// fill replaces what the account does not have by identifiers of nothing.
func (w *world) fill(t target) target {
	for _, p := range []*string{&t.rvt, &t.dot, &t.dev, &t.rvtEntry, &t.dotEntry} {
		if *p == "" {
			*p = randomHex(w.r)
		}
	}
	return t
}

// secrets are strings that only the owner of the tests may see.
func (w *world) secrets() (s []string) {
	for _, a := range w.acc {
		for k, l := range w.entries(a) {
			for _, i := range l {
				s = append(s, i.Id, i.Url, i.Guid)
				if k == "rvt" {
					s = append(s, i.Inst(0).Id, i.Inst(1).Id)
				} else if k == "dot" {
					s = append(s, i.Inst(2).Id)
				}
			}
		}
	}
	return slices.DeleteFunc(s, func(x string) bool { return x == "" || x == closed })
}

func (w *world) leaks(r sut.APIResp, secrets []string) string {
	for _, s := range secrets {
		if bytes.Contains(r.Body, []byte(s)) {
			return s
		}
	}
	return ""
}

// a credential is a header that must not open anything.
type credential struct {
	name   string
	set    func(h http.Header)
	query  string
	exempt []string
}

func (w *world) credentials() []credential {
	r := w.r
	cookie := func(name, v string) credential {
		return credential{name: name, set: func(h http.Header) { h.Set("Cookie", "session="+v) }}
	}
	a := w.acc[r.IntN(len(w.acc))]
	good := a.live[r.IntN(len(a.live))].Cookie
	l := []credential{
		{name: "nothing", set: func(h http.Header) {}},
		cookie("empty", ""),
		cookie("unknown session", randomUUID(r)),
		cookie("garbage", randomHex(r)+"%00"),
		cookie("shortened", good[:1+r.IntN(len(good)-1)]),
		cookie("extended", good+string("0123456789abcdef"[r.IntN(16)])),
		cookie("store key", "session-"+good),
		cookie("capitals", strings.ToUpper(good)),
		cookie("email", a.email),
		{name: "other cookie", set: func(h http.Header) {
			h.Set("Cookie", []string{"Session", "sessionid", "token", "Authorization", "session2"}[r.IntN(5)]+"="+good)
		}},
		{name: "authorization", set: func(h http.Header) { h.Set("Authorization", []string{"", "Bearer "}[r.IntN(2)]+good) }},
		{name: "query", set: func(h http.Header) {}, query: "?session=" + good},
		{name: "header", set: func(h http.Header) { h.Set("Session", good); h.Set("X-Session", good) }},
	}
	if strings.ToUpper(good) == good { // a session of digits only
		l = slices.DeleteFunc(l, func(c credential) bool { return c.name == "capitals" })
	}
	for _, x := range w.acc {
		if len(x.dead) > 0 {
			l = append(l, cookie("logged out", x.dead[r.IntN(len(x.dead))]))
		}
	}
	if u, err := w.s.Session(a.email, false); err == nil {
		x := cookie("not logged in", u.Cookie)
		x.exempt = []string{"logout"} // ends that session
		l = append(l, x)
	}
	for _, e := range []string{"nobody@example.org", a.email + "x", a.email[1:], "", "*", strings.Split(a.email, "@")[0]} {
		if w.known(e) {
			continue
		}
		if u, err := w.s.Session(e, true); err == nil {
			x := cookie("account that does not exist", u.Cookie)
			x.exempt = []string{"logout", "loggedin"}
			l = append(l, x)
		}
	}
	// an expired session
	if u, err := w.s.Session(a.email, true); err == nil {
		err = w.s.DB.Update(func(t *badger.Txn) error {
			k := []byte("session-" + u.Cookie)
			i, err := t.Get(k)
			if err != nil {
				return err
			}
			v, err := i.ValueCopy(nil)
			if err != nil {
				return err
			}
			e := badger.NewEntry(k, v)
			e.ExpiresAt = uint64(time.Now().Unix()) - uint64(1+r.IntN(1000))
			return t.SetEntry(e)
		})
		if err == nil {
			l = append(l, cookie("expired", u.Cookie))
		}
	}
	// sessions of the protocols
	t0 := &ref.TO0{Conn: ref.Conn{Base: w.s.URL}}
	if _, err := t0.Hello(); err == nil {
		l = append(l, cookie("protocol session", strings.TrimPrefix(t0.Tok, "Bearer ")))
	}
	if p, err := w.s.NewParty(ref.SgES256, ref.SgES256, 1); err == nil {
		if at, err := p.Reach(r, 62); err == nil {
			l = append(l, cookie("protocol session", strings.TrimPrefix(at.Tok, "Bearer ")))
		}
	}
	return l
}

func (w *world) known(email string) bool {
	for _, a := range w.acc {
		if strings.EqualFold(a.email, email) {
			return true
		}
	}
	return false
}

func (w *world) send(base *sut.User, cl call, set func(http.Header), query string) sut.APIResp {
	h := http.Header{}
	if cl.method == "POST" {
		h.Set("Content-Type", "application/json")
	}
	set(h)
	return base.Raw(cl.method, cl.path+query, h, cl.body)
}

// intrude tries every call with credentials that must not work.
func (w *world) intrude(all bool) {
	v := newVoucher(w.r)
	secrets := w.secrets()
	creds := w.credentials()
	for _, cr := range creds {
		victim := w.acc[w.r.IntN(len(w.acc))]
		calls := every(w.fill(w.pick(victim)), v)
		if !all {
			w.r.Shuffle(len(calls), func(i, j int) { calls[i], calls[j] = calls[j], calls[i] })
			calls = calls[:3]
		}
		before := w.snap()
		for _, cl := range calls {
			if slices.Contains(cr.exempt, cl.name) {
				continue
			}
			r := w.send(victim.live[0], cl, cr.set, cr.query)
			w.c.Eval("intrude/" + cr.name + "/" + cl.name)
			w.c.Count("calls without a valid session")
			if !r.Refused() {
				w.fail("no-session-"+cl.name+"-"+cr.name, "%s with %s is answered: %s", cl.name, cr.name, r)
			}
			if s := w.leaks(r, secrets); s != "" {
				w.fail("no-session-leak-"+cl.name, "%s with %s tells %s: %s", cl.name, cr.name, s, r)
			}
			w.c.Sample("refusal", "%s with %s: %s", cl.name, cr.name, r)
			if d := sut.Changes(before, w.snap()); len(d) > 0 {
				w.fail("no-session-effect-"+cl.name, "%s with %s changes the store: %v", cl.name, cr.name, d)
				before = w.snap()
			}
		}
	}
	// nothing of this ended a session
	for _, a := range w.acc {
		for _, u := range a.live {
			if r := u.Do("GET", "/api/user/loggedin", nil); !r.Ok() {
				w.fail("session-lost", "a session of %s has ended after calls without a valid session: %s", a.email, r)
			}
		}
	}
}

// foreign uses identifiers that are not the caller's.
func (w *world) foreign() {
	a := w.acc[w.r.IntN(len(w.acc))]
	u := a.live[w.r.IntN(len(a.live))]
	none := target{rvt: randomHex(w.r), dot: randomHex(w.r), dev: randomHex(w.r), run: randomUUID(w.r)}
	type try struct {
		what string
		t    target
	}
	var tries []try
	for _, b := range w.acc {
		if b == a {
			continue
		}
		t := w.pick(b)
		tries = append(tries, try{"test of another user", w.fill(t)})
		if t.rvtEntry != "" || t.dotEntry != "" {
			f := w.fill(t)
			f.rvt, f.dot = f.rvtEntry, f.dotEntry
			tries = append(tries, try{"entry of another user", f})
		}
		for _, k := range kinds {
			if l := b.old[k]; len(l) > 0 {
				id := l[w.r.IntN(len(l))]
				tries = append(tries, try{"purged test of another user", target{rvt: id, dot: id, dev: id, run: t.run}})
			}
		}
	}
	for _, k := range kinds {
		if l := a.old[k]; len(l) > 0 {
			id := l[w.r.IntN(len(l))]
			tries = append(tries, try{"purged own test", target{rvt: id, dot: id, dev: id, run: randomUUID(w.r)}})
		}
	}
	own := w.pick(a)
	f := w.fill(own)
	tries = append(tries, try{"own test of another kind", target{rvt: f.dot, dot: f.dev, dev: f.rvt, run: f.run}})
	tries = append(tries, try{"own test of another kind", target{rvt: f.dev, dot: f.rvt, dev: f.dot, run: f.run}})
	if own.rvt != "" && own.dot != "" && own.dev != "" {
		cut := func(s string) string { return s[:2*(1+w.r.IntN(len(s)/2-1))] }
		tries = append(tries, try{"shortened own identifier", target{rvt: cut(f.rvt), dot: cut(f.dot), dev: cut(f.dev), run: f.run}})
		tries = append(tries, try{"extended own identifier", target{rvt: f.rvt + "00", dot: f.dot + f.dot, dev: f.dev + f.rvt, run: f.run}})
		for _, b := range w.acc {
			if t := w.pick(b); b != a && t.rvt != "" && t.dot != "" && t.dev != "" {
				tries = append(tries, try{"own and foreign identifier joined", target{rvt: f.rvt + t.rvt, dot: t.dot + f.dot, dev: f.dev + t.dev, run: t.run}})
			}
		}
	}
	base := map[string]sut.APIResp{}
	before := w.snap()
	for _, cl := range named(none) {
		r := u.Do(cl.method, cl.path, cl.body)
		base[cl.name] = r
		if !r.Refused() {
			w.fail("unknown-"+cl.name, "%s of an unknown test is answered: %s", cl.name, r)
		}
		w.c.Count("calls of unknown tests")
	}
	for _, t := range tries {
		for _, cl := range named(t.t) {
			r := u.Do(cl.method, cl.path, cl.body)
			w.c.Eval("foreign/" + t.what + "/" + cl.name)
			w.c.Count("calls of foreign tests")
			b := base[cl.name]
			if !r.Refused() {
				w.fail("foreign-"+cl.name+"-"+t.what, "%s of a %s is answered: %s", cl.name, t.what, r)
			} else if r.Status != b.Status || !bytes.Equal(r.Body, b.Body) {
				w.fail("foreign-told-"+cl.name, "%s of a %s answers %s, of an unknown test %s", cl.name, t.what, r, b)
			}
			if d := sut.Changes(before, w.snap()); len(d) > 0 {
				w.fail("foreign-effect-"+cl.name, "%s of a %s changes the store: %v", cl.name, t.what, d)
				before = w.snap()
			}
		}
	}
	// identifiers that name nothing
	for _, id := range []string{"", "00", "zz", f.rvt + " ", "%"} {
		for _, k := range []string{"rvt", "dot"} {
			r := u.Execute(k, id)
			if !r.Refused() {
				w.fail("no-id-"+k, "executing the %s test %q is answered: %s", k, id, r)
			}
			w.c.Count("calls of unknown tests")
		}
	}
	if d := sut.Changes(before, w.snap()); len(d) > 0 {
		w.fail("no-id-effect", "executing a test without a usable identifier changes the store: %v", d)
	}
}

func newVoucher(r *rand.Rand) string {
	d := ref.NewDevice([]int{ref.SgES256, ref.SgES384}[r.IntN(2)])
	k := ref.GenKeyCached(d.Key.Sg)
	return sut.VoucherPEM(ref.BuildVoucher(d, []ref.Key{k, k}, ref.RandRV()), k)
}

// runs are the identifiers of all runs of an entry.
func runs(k string, i sut.Item) (ids []string) {
	switch k {
	case "rvt":
		for to := range 2 {
			for _, x := range i.Inst(to).Runs {
				ids = append(ids, fmt.Sprint(to, x.Uuid))
			}
		}
	case "dot":
		for _, x := range i.Inst(2).Runs {
			ids = append(ids, x.Uuid)
		}
	default:
		for to := 1; to < 3; to++ {
			for _, x := range i.Listener(to) {
				ids = append(ids, fmt.Sprint(to, x.Uuid))
			}
		}
	}
	return
}

// own checks one user's lists against the model.
func (w *world) own(a *account, e map[string][]sut.Item, after string) {
	for _, k := range kinds {
		got := []string{}
		for _, i := range e[k] {
			n := i.Url
			if k == "device" {
				n = i.Name
			}
			got = append(got, n)
			if slices.Contains(a.old[k], i.Id) {
				w.fail("purged-listed", "%s lists a purged %s test after %s", a.email, k, after)
			}
		}
		if !slices.Equal(got, a.name[k]) {
			w.fail("own-"+k, "after %s, %s has the %s tests %v, should have %v", after, a.email, k, got, a.name[k])
			a.name[k] = got
		}
	}
	w.c.Count("lists compared with the model")
}

func (w *world) step() {
	r := w.r
	a := w.acc[r.IntN(len(w.acc))]
	u := a.live[r.IntN(len(a.live))]
	views := map[*account]map[string]string{}
	for _, b := range w.acc {
		if b != a {
			v, ok := w.view(b)
			if !ok {
				return
			}
			views[b] = v
		}
	}
	was := w.entries(a)
	a.serial++
	tag := fmt.Sprintf("%s%d", strings.SplitN(a.email, "@", 2)[0], a.serial)
	op := ""
	grow := map[string]int{} // entry -> change of its number of runs
	t := w.pick(a)
	expect := func(r sut.APIResp) bool {
		if !r.Ok() {
			w.fail("own-"+op, "%s of %s is refused: %s", op, a.email, r)
			return false
		}
		return true
	}
	k := r.IntN(40)
	if all := len(was["rvt"]) * len(was["dot"]) * len(was["device"]); all == 0 && k >= 12 && r.IntN(2) == 0 {
		k = r.IntN(12)
	}
	switch {
	case k < 4:
		op = "rvt-create"
		n := closed
		if r.IntN(2) == 0 {
			n = "http://" + tag + ".example.org"
		}
		if len(a.name["rvt"]) < 5 && expect(u.CreateRVT(n)) {
			a.name["rvt"] = append(a.name["rvt"], n)
		}
	case k < 8:
		op = "dot-create"
		n := closed
		if r.IntN(2) == 0 {
			n = "http://" + tag + ".example.org"
		}
		if len(a.name["dot"]) < 5 && expect(u.CreateDOT(n, ref.GenKeyCached([]int{ref.SgES256, ref.SgES384}[r.IntN(2)]))) {
			a.name["dot"] = append(a.name["dot"], n)
		}
	case k < 12:
		op = "device-create"
		if len(a.name["device"]) < 5 && expect(u.JSON("POST", "/api/device/create", map[string]string{"name": tag, "voucher": newVoucher(r)})) {
			a.name["device"] = append(a.name["device"], tag)
		}
	case k < 18:
		op = "execute"
		kind, id := "rvt", t.rvt
		entry := t.rvtEntry
		if r.IntN(2) == 0 {
			kind, id, entry = "dot", t.dot, t.dotEntry
		}
		if id == "" {
			break
		}
		// only tests of addresses where nothing answers at once
		for _, i := range was[kind] {
			if i.Id == entry && i.Url == closed {
				if expect(u.Execute(kind, id)) {
					grow[entry] = 1
				}
			}
		}
	case k < 22:
		op = "device-start"
		if t.dev != "" && expect(u.StartRun(1+r.IntN(2), t.dev)) {
			grow[t.dev] = -99 // a run that is not finished may be replaced
		}
	case k < 29:
		op = "delete"
		kind := kinds[r.IntN(3)]
		if len(was[kind]) == 0 {
			break
		}
		i := was[kind][r.IntN(len(was[kind]))]
		var resp sut.APIResp
		switch kind {
		case "rvt":
			x := i.Inst(r.IntN(2))
			if len(x.Runs) == 0 {
				break
			}
			resp = u.DeleteRun("rvt", x.Id, x.Runs[r.IntN(len(x.Runs))].Uuid)
		case "dot":
			x := i.Inst(2)
			if len(x.Runs) == 0 {
				break
			}
			resp = u.DeleteRun("dot", x.Id, x.Runs[r.IntN(len(x.Runs))].Uuid)
		default:
			to := 1 + r.IntN(2)
			l := i.Listener(to)
			if len(l) == 0 {
				break
			}
			resp = u.DeleteDeviceRun(to, i.Id, l[r.IntN(len(l))].Uuid)
			grow[i.Id] = -99
		}
		if resp.Status == 0 {
			break
		}
		op = "delete-" + kind
		if expect(resp) && grow[i.Id] == 0 {
			grow[i.Id] = -1
		}
	case k < 31:
		op = "purge"
		if r.IntN(2) == 0 {
			break
		}
		if expect(u.Do("POST", "/api/user/purgetests", []byte("{}"))) {
			w.c.Count("purges")
			for kind, l := range was {
				for _, i := range l {
					if kind == "device" {
						a.old[kind] = append(a.old[kind], i.Id)
					} else if kind == "dot" {
						a.old[kind] = append(a.old[kind], i.Inst(2).Id)
					} else {
						a.old[kind] = append(a.old[kind], i.Inst(0).Id, i.Inst(1).Id)
					}
				}
				a.name[kind] = nil
			}
		}
	case k < 33:
		op = "login"
		if len(a.live) > 4 {
			break
		}
		var n *sut.User
		var err error
		if a.email == "tester@fido.local" {
			n, err = w.s.Login()
		} else {
			n, err = w.s.Session(a.email, true)
		}
		if err != nil {
			w.fail("login", "%v", err)
			return
		}
		for _, b := range w.acc {
			for _, l := range b.live {
				if l.Cookie == n.Cookie {
					w.fail("login-shared", "a login of %s gets a session of %s", a.email, b.email)
				}
			}
			if slices.Contains(b.dead, n.Cookie) {
				w.fail("login-reused", "a login gets a session that has ended")
			}
		}
		a.live = append(a.live, n)
		w.c.Count("logins")
	case k < 36:
		op = "logout"
		if len(a.live) < 2 {
			break
		}
		x := r.IntN(len(a.live))
		g := a.live[x]
		if !expect(g.Do("POST", "/api/user/logout", []byte("{}"))) {
			break
		}
		a.live = slices.Delete(a.live, x, x+1)
		a.dead = append(a.dead, g.Cookie)
		w.c.Count("logouts")
		for _, cl := range every(w.fill(t), newVoucher(r)) {
			if resp := g.Do(cl.method, cl.path, cl.body); !resp.Refused() {
				w.fail("logged-out-"+cl.name, "%s is answered after the logout: %s", cl.name, resp)
			}
			w.c.Count("calls without a valid session")
		}
	case k < 38:
		op = "intrude"
		w.intrude(false)
	default:
		op = "foreign"
		w.foreign()
	}
	if op == "" {
		op = "nothing"
	}
	w.note("%s by %s", op, a.email)
	w.c.Eval("step/" + op)
	w.c.Count("actions")
	// the actor's lists follow the model; tests it did not name have the same runs
	is := w.entries(a)
	w.own(a, is, op)
	if op != "purge" {
		for _, kind := range kinds {
			for n, i := range was[kind] {
				if n >= len(is[kind]) {
					break
				}
				j := is[kind][n]
				if i.Id != j.Id {
					w.fail("own-identity-"+kind, "after %s, the %s test %d of %s is %s, was %s", op, kind, n, a.email, j.Id, i.Id)
					continue
				}
				before, now := runs(kind, i), runs(kind, j)
				switch g := grow[i.Id]; {
				case g == 0 && !slices.Equal(before, now):
					w.fail("own-other-runs", "%s by %s changes the runs of a test it does not name: %v, were %v", op, a.email, now, before)
				case g != -99 && len(now) != len(before)+g:
					w.fail("own-runs", "%s by %s: %d runs, were %d", op, a.email, len(now), len(before))
				}
			}
		}
	}
	// the others see what they saw
	for b, v := range views {
		n, ok := w.view(b)
		if !ok {
			return
		}
		if d := sut.Changes(v, n); len(d) > 0 {
			w.fail("interference-"+op, "%s by %s changes what %s sees: %v", op, a.email, b.email, d)
		}
		w.c.Count("views of other users compared")
	}
	for _, b := range w.acc {
		for _, l := range b.live {
			if !l.Do("GET", "/api/user/loggedin", nil).Ok() {
				w.fail("session-lost-"+op, "a session of %s has ended after %s by %s", b.email, op, a.email)
			}
		}
	}
}

// emails that a careless key or comparison takes for each other.
var families = [][]string{
	{"tester@fido.local", "tester@fido.local.org", "a.tester@fido.local"},
	{"tester@fido.local", "tester@fido.loca", "bob@example.org"},
	{"tester@fido.local", "Carol@Example.Org", "carol@example.orgx"},
	{"tester@fido.local", "e-session-tester@fido.local", "e-usere-x@example.org"},
}

func newWorld(c *kit.Check, label string) (*world, error) {
	r := c.Rand(label)
	w := &world{c: c, r: r, s: sut.New(sut.Opt{API: true})}
	if _, err := sut.Seed(w.s.DB, 25); err != nil {
		return nil, err
	}
	for n, e := range families[r.IntN(len(families))] {
		var u *sut.User
		var err error
		if n == 0 {
			u, err = w.s.Login()
		} else {
			u, err = w.s.NewUser(e)
		}
		if err != nil {
			return nil, err
		}
		second, err := w.s.Session(e, true)
		if err != nil {
			return nil, err
		}
		w.acc = append(w.acc, &account{email: e, live: []*sut.User{u, second}, name: map[string][]string{}, old: map[string][]string{}})
	}
	return w, nil
}

func history(c *kit.Check, n int) {
	w, err := newWorld(c, fmt.Sprint("history", n))
	if err != nil {
		c.Broken("setup: %v", err)
		return
	}
	defer w.s.Close()
	for range c.N(60, 400) {
		w.step()
		if c.Violations() > 20 {
			return
		}
	}
	w.foreign()
	w.intrude(true)
	for _, p := range w.s.Panics() {
		w.fail("panic", "a handler panics on %s: %s\n%s", p.Path, p.Value, p.Stack)
	}
}

// together lets all users work at the same time; each must find exactly the own work afterwards.
func together(c *kit.Check, n int) {
	w, err := newWorld(c, fmt.Sprint("together", n))
	if err != nil {
		c.Broken("setup: %v", err)
		return
	}
	defer w.s.Close()
	var wg sync.WaitGroup
	var mu sync.Mutex
	want := make([]map[string][]string, len(w.acc))
	for x, a := range w.acc {
		want[x] = map[string][]string{}
		for y := range 2 { // two sessions of each user
			r := c.Rand(fmt.Sprint("together", n, x, y))
			u := a.live[0]
			if y > 0 {
				if u, err = w.s.Session(a.email, true); err != nil {
					c.Broken("session: %v", err)
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for z := range 6 {
					tag := fmt.Sprintf("u%ds%dn%d", x, y, z)
					kind := kinds[r.IntN(3)]
					var resp sut.APIResp
					name := "http://" + tag + ".example.org"
					switch kind {
					case "rvt":
						resp = u.CreateRVT(name)
					case "dot":
						resp = u.CreateDOT(name, ref.GenKeyCached(ref.SgES256))
					default:
						name = tag
						resp = u.JSON("POST", "/api/device/create", map[string]string{"name": tag, "voucher": newVoucher(r)})
					}
					if !resp.Ok() {
						c.Violation("together-refused", "creating a %s test is refused when other users work: %s", kind, resp)
						continue
					}
					mu.Lock()
					want[x][kind] = append(want[x][kind], name)
					mu.Unlock()
					c.Count("created at the same time")
				}
			}()
		}
	}
	wg.Wait()
	for x, a := range w.acc {
		for kind, l := range w.entries(a) {
			var got []string
			for _, i := range l {
				if kind == "device" {
					got = append(got, i.Name)
				} else {
					got = append(got, i.Url)
				}
			}
			slices.Sort(got)
			slices.Sort(want[x][kind])
			c.Must(slices.Equal(got, want[x][kind]), "together-"+kind, "users working at the same time: %s has the %s tests %v, has created %v", a.email, kind, got, want[x][kind])
			c.Count("lists compared with the model")
		}
	}
}

// many gives one user more tests than the histories do; each stays listed, usable and the user's own.
func many(c *kit.Check, n int) {
	w, err := newWorld(c, fmt.Sprint("many", n))
	if err != nil {
		c.Broken("setup: %v", err)
		return
	}
	defer w.s.Close()
	a, b := w.acc[n%len(w.acc)], w.acc[(n+1)%len(w.acc)]
	u, o := a.live[0], b.live[0]
	size := c.N(26, 70) + w.r.IntN(10)
	for i := range size {
		for _, k := range kinds {
			var r sut.APIResp
			name := fmt.Sprintf("http://%s%d.example.org", k, i)
			switch k {
			case "rvt":
				if i%3 > 0 {
					name = closed
				}
				r = u.CreateRVT(name)
			case "dot":
				if i%3 > 0 {
					name = closed
				}
				r = u.CreateDOT(name, ref.GenKeyCached(ref.SgES256))
			default:
				name = fmt.Sprint("device", i)
				r = u.JSON("POST", "/api/device/create", map[string]string{"name": name, "voucher": newVoucher(w.r)})
			}
			if !r.Ok() {
				w.fail("many-create", "%s test %d is refused: %s", k, i, r)
				return
			}
			a.name[k] = append(a.name[k], name)
		}
	}
	e := w.entries(a)
	w.own(a, e, "many creations")
	zips := func(id string) string {
		z, err := u.Vouchers(id)
		if err != nil || len(z) == 0 {
			w.fail("many-vouchers", "the own vouchers cannot be read: %v", err)
		}
		return string(js(z))
	}
	pick := []int{0, size - 1, size / 2, w.r.IntN(size), w.r.IntN(size)}
	for _, i := range pick {
		if c.Violations() > 0 || i >= len(e["rvt"]) || i >= len(e["dot"]) || i >= len(e["device"]) {
			return
		}
		t := target{rvt: e["rvt"][i].Inst(1).Id, dot: e["dot"][i].Inst(2).Id, dev: e["device"][i].Id, run: randomUUID(w.r)}
		was, _ := w.view(a)
		for _, cl := range named(t) {
			if r := o.Do(cl.method, cl.path, cl.body); !r.Refused() {
				w.fail("many-foreign-"+cl.name, "%s of test %d of another user is answered: %s", cl.name, i, r)
			}
			c.Count("calls of foreign tests")
		}
		if is, _ := w.view(a); len(sut.Changes(was, is)) > 0 {
			w.fail("many-foreign", "calls of another user change tests: %v", sut.Changes(was, is))
		}
		before := zips(t.dot)
		for range 5 {
			for _, k := range []string{"rvt", "dot"} {
				if e[k][i].Url != closed {
					continue
				}
				id := t.rvt
				if k == "dot" {
					id = t.dot
				}
				if r := u.Execute(k, id); !r.Ok() {
					w.fail("many-execute", "%s test %d of %d cannot be executed: %s", k, i, size, r)
				}
			}
			for to := 1; to < 3; to++ {
				if r := u.StartRun(to, t.dev); !r.Ok() {
					w.fail("many-start", "device test %d of %d cannot be started: %s", i, size, r)
				}
			}
		}
		if after := zips(t.dot); after != before {
			w.fail("many-vouchers", "the vouchers of test %d change by executing it", i)
		}
		is := w.entries(a)
		w.own(a, is, "execution of one of many")
		for _, k := range kinds {
			for to := range 3 {
				var r sut.APIResp
				switch {
				case k == "rvt" && to < 2 && len(is[k][i].Inst(to).Runs) > 0:
					r = u.DeleteRun(k, is[k][i].Inst(to).Id, is[k][i].Inst(to).Runs[0].Uuid)
				case k == "dot" && to == 2 && len(is[k][i].Inst(to).Runs) > 0:
					r = u.DeleteRun(k, is[k][i].Inst(to).Id, is[k][i].Inst(to).Runs[0].Uuid)
				case k == "device" && to > 0 && len(is[k][i].Listener(to)) > 0:
					r = u.DeleteDeviceRun(to, is[k][i].Id, is[k][i].Listener(to)[0].Uuid)
				default:
					continue
				}
				if !r.Ok() {
					w.fail("many-delete", "a run of %s test %d of %d cannot be deleted: %s", k, i, size, r)
				}
			}
		}
		c.Eval("many/" + fmt.Sprint(i))
		c.Count("tests used among many")
	}
}

func main() {
	kit.Main("P22", func(c *kit.Check) {
		c.Rule = "nothing is answered or changed without a valid session; a valid session lists exactly the own tests, changes only what it names, and foreign identifiers are refused like unknown ones"
		c.Assume = append(c.Assume, "accounts other than the on-premises one are put into the store directly, as no call creates them")
		h := c.N(20, 200)
		m := c.N(3, 12)
		c.Parallel(m+h+c.N(4, 40), func(i int) {
			if i < m {
				many(c, i)
			} else if i -= m; i < h {
				history(c, i)
			} else {
				together(c, i-h)
			}
		})
		c.Require("calls without a valid session", 1000)
		c.Require("calls of foreign tests", 1000)
		c.Require("views of other users compared", 300)
		c.Require("lists compared with the model", 300)
		c.Require("logouts", 5)
		c.Require("tests used among many", 10)
		c.Require("purges", 5)
		c.Require("created at the same time", 50)
	})
}
