package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/dgraph-io/badger/v4"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// openReadOnly opens a cleanly closed database so that every write is refused by the store itself.
func openReadOnly(dir string) (*badger.DB, error) {
	sut.Settle(dir)
	o := badger.DefaultOptions(filepath.Join(dir, "badger.local.db")).WithReadOnly(true)
	o.Logger = nil
	return badger.Open(o)
}

// refused runs every store on a database that refuses writes, and messages and management calls with single accesses failing:
// nothing may be acknowledged that is not there.
func refused(c *kit.Check) {
	c.Parallel(c.N(2, 10), func(i int) { refusedCalls(c, i) })
	if hook == nil {
		c.Broken("built without the fault hooks")
		return
	}
	hook(func(db *badger.DB, write bool, key []byte) error {
		if f, ok := faults.Load(db); ok {
			return f.(*fault).access(write)
		}
		return nil
	})
	c.Parallel(c.N(8, 80), func(i int) { faulty(c, i) })
	c.Require("refused: store calls", 40)
	c.Require("fault: messages with a failed write", 30)
	c.Require("fault: messages with a failed read", 50)
	c.Require("fault: management calls with a failed write", 30)
	c.Require("fault: management calls with a failed read", 50)
}

func refusedCalls(c *kit.Check, i int) {
	r := c.Rand(fmt.Sprint("refused", i))
	dir := filepath.Join(sut.Scratch(), fmt.Sprint("refused", i))
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	h, err := openHandles(dir)
	if err != nil {
		c.Broken("%v", err)
		return
	}
	f := &filler{r: r, big: 300, unit: i}
	for k := 0; k < 3; k++ {
		f.vouchers = append(f.vouchers, voucherOf(r))
	}
	type kept struct {
		st  *store
		key string
		v   any
	}
	var l []kept
	sts := stores()
	for _, st := range sts {
		for n := 0; n < 3; n++ {
			if st.atMost > 0 && n >= st.atMost {
				continue
			}
			k, v := st.fresh(f)
			id, err := st.save(h, r, k, true, clone(v))
			if err != nil {
				c.Violation("save-"+st.name, "saving fails: %v", err)
				continue
			}
			l = append(l, kept{st, id, v})
		}
	}
	before := raw(h.db)
	h.db.Close()
	db, err := openReadOnly(dir)
	if err != nil {
		c.Broken("read-only: %v", err)
		return
	}
	h = handlesOf(db)
	try := func(st *store, what string, g func() error) {
		var err error
		if p := kit.Try(func() { err = g() }); p != "" {
			c.Violation("refused-panic-"+st.name, "%s of %s panics when the store refuses the write: %s", what, st.name, p)
			return
		}
		c.Eval("refused " + what + " " + st.name)
		c.Count("refused: store calls")
		c.Must(err != nil, "refused-acknowledged-"+st.name, "%s of %s reports success although the store refused the write", what, st.name)
	}
	for _, st := range sts {
		for n := 0; n < 3; n++ {
			k, v := st.fresh(f)
			if st.atMost > 0 {
				continue
			}
			try(st, "saving", func() error { _, err := st.save(h, r, k, true, clone(v)); return err })
		}
	}
	for _, e := range l {
		if e.st.next != nil {
			v := e.st.next(f, e.key, e.v)
			if n, ok := e.st.fresh(f); ok != nil && e.st.name == "user" && n == e.key {
				continue
			}
			try(e.st, "replacing", func() error { _, err := e.st.save(h, r, e.key, false, clone(v)); return err })
		}
		if e.st.del != nil {
			try(e.st, "deleting", func() error { return e.st.del(h, e.key) })
		}
	}
	for _, e := range l {
		g, err := e.st.get(h, e.key)
		c.Must(err == nil && text(g) == text(e.v), "refused-lost-"+e.st.name, "%s %x is read differently after refused writes: %v", e.st.name, e.key, err)
	}
	db.Close()
	if h, err = openHandles(dir); err != nil {
		c.Violation("reopen-fails", "%v", err)
		return
	}
	d := sut.Changes(before, raw(h.db))
	c.Must(len(d) == 0, "refused-changed", "refused writes changed the store: %.400v", d)
	h.db.Close()
}

// onward plays what follows message a.Msg, acknowledged by resp.
func onward(p *sut.Party, a *sut.At, resp ref.Resp) error {
	if err := a.Accept(resp); err != nil {
		return err
	}
	switch a.Msg {
	case 20:
		var x struct {
			_ struct{} `cbor:",toarray"`
			N ref.Nonce
		}
		if err := ref.Dec(resp.Body, &x); err != nil {
			return err
		}
		a.T0.Tok = resp.Auth()
		b, _ := p.OwnerSign(x.N).Build()
		_, err := ref.AcceptedWait(a.T0.Post(22, b))
		return err
	case 22:
		_, err := redirect(p)
		return err
	case 30:
		var x ref.Ack31
		if err := ref.Dec(resp.Body, &x); err != nil {
			return err
		}
		a.T1.Nonce, a.T1.Tok = x.Nonce, resp.Auth()
		if r := a.T1.Prove(); !r.Ok(33) {
			return fmt.Errorf("%s", r)
		}
		return nil
	case 32, 70:
		return nil
	}
	t := a.T2
	switch a.Msg {
	case 60, 62:
		if err := t.GetEntries(); err != nil {
			return err
		}
		if _, err := t.Prove(); err != nil {
			return err
		}
		fallthrough
	case 64:
		if _, err := t.Ready(); err != nil {
			return err
		}
		fallthrough
	case 66:
		if err := t.InfoAll([][]ref.SIM{ref.Mandatory()}); err != nil {
			return err
		}
	case 68:
		var m ref.Msg69
		b, err := t.Unwrap(resp, 69)
		if err == nil {
			err = ref.Dec(b, &m)
		}
		for n := 0; err == nil && !m.Done && n < 300; n++ {
			m, _, err = t.Info(false, nil)
		}
		if err != nil {
			return err
		}
	}
	_, err := t.Done()
	return err
}

func firstErr(l ...error) error {
	for _, e := range l {
		if e != nil {
			return e
		}
	}
	return nil
}

func okay(r sut.APIResp) error {
	if r.Ok() {
		return nil
	}
	return fmt.Errorf("%s", r)
}
