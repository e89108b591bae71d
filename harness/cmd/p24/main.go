// P24: what was acknowledged survives restart and crash.
package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/dgraph-io/badger/v4"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif.local/harness/kit"
	"verif.local/harness/sut"
)

func main() {
	if os.Getenv("VERIF_P24_DIR") != "" {
		writer()
		return
	}
	kit.Main("P24", func(c *kit.Check) {
		c.Rule = "random histories over every store on a real database with reopening, SIGKILLed writers checked against their acknowledgement log, the program killed and restarted, reset commands"
		c.Assume = append(c.Assume, "the process is killed, not the machine: what the kernel was handed is kept")
		n := c.N(16, 160)
		c.Parallel(n, func(i int) { history(c, i) })
		kills(c)
		program(c)
		resets(c)
		afterResets(c)
		torn(c)
		refused(c)
		for _, st := range stores() {
			c.Require("history: "+st.name+" saved", 5)
			if st.next != nil {
				c.Require("history: "+st.name+" replaced", 5)
			}
			c.Require("kill: "+st.name+" acknowledged and read back", 10)
		}
		c.Require("history: reopened", 20)
		c.Require("history: absent keys read", 100)
		c.Require("kill: writers killed", 30)
		c.Require("kill: killed with a write under way", 5)
		c.Require("program: killed and restarted", 3)
		c.Require("program: sessions continued after a restart", 10)
		c.Require("program: redirects after a restart", 5)
		c.Require("reset: entries removed", 20)
		c.Require("reset: lists compared while going on", 12)
		c.Require("torn: entries kept", 60)
	})
}

// raw is the stored content with the time each entry ends.
func raw(db *badger.DB) map[string]string {
	m := map[string]string{}
	err := db.View(func(t *badger.Txn) error {
		it := t.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			v, err := it.Item().ValueCopy(nil)
			if err != nil {
				return err
			}
			m[string(it.Item().KeyCopy(nil))] = fmt.Sprintf("%d ", it.Item().ExpiresAt()) + string(v)
		}
		return nil
	})
	if err != nil {
		panic(err)
	}
	return m
}

func ends(v string) (t int64) { fmt.Sscanf(v, "%d ", &t); return }

type model struct {
	c    *kit.Check
	r    *rand.Rand
	f    *filler
	h    *handles
	dir  string
	sts  []*store
	val  map[*store]map[string]any
	keys map[*store][]string
	own  map[string]string // raw key -> entry it belongs to
	last map[string]string
	log  []string
}

func (m *model) say(f string, a ...any) {
	m.log = append(m.log, fmt.Sprintf(f, a...))
	if len(m.log) > 14 {
		m.log = m.log[1:]
	}
}

func (m *model) bad(sig, f string, a ...any) {
	m.c.Violation(sig, "%s; history: %s", fmt.Sprintf(f, a...), strings.Join(m.log, " | "))
}

// after compares the store with the one before: only entry's own raw keys may differ.
func (m *model) after(st *store, key string, write bool) {
	now := raw(m.h.db)
	id := st.name + "/" + key
	for _, k := range sut.Keys(m.last, now) {
		a, inA := m.last[k]
		b, inB := now[k]
		if inA && inB && a == b {
			continue
		}
		if !write {
			m.bad("read-writes-"+st.name, "a call that only reads changed the raw entry %q", k)
			continue
		}
		if o, ok := m.own[k]; ok && o != id {
			m.bad("foreign-entry-"+st.name, "writing %s %x changed the raw entry %q of %q", st.name, key, k, o)
			continue
		}
		if inB {
			m.own[k] = id
			t := ends(b)
			left := t - time.Now().Unix()
			switch {
			case t == 0:
			case st.perm:
				m.bad("expires-"+st.name, "%s expires in %d s", st.name, left)
			case st.day && left < 86400/2:
				m.bad("expires-"+st.name, "%s expires in %d s", st.name, left)
			case left < 120:
				m.bad("expires-"+st.name, "%s expires in %d s", st.name, left)
			}
		} else {
			delete(m.own, k)
		}
	}
	m.last = now
}

func (m *model) check(st *store, key, when string) {
	want := m.val[st][key]
	g, err := st.get(m.h, key)
	if err != nil {
		m.bad("lost-"+st.name, "%s: %s %x cannot be read: %v", when, st.name, key, err)
		return
	}
	if a, b := text(want), text(g); a != b {
		m.bad("differs-"+st.name, "%s: %s %x is %s", when, st.name, key, diff(a, b))
	}
	m.c.Count("history: values read back")
}

func (m *model) checkAll(when string) {
	for _, st := range m.sts {
		for _, k := range m.keys[st] {
			m.check(st, k, when)
		}
	}
	l, err := m.h.voucher.List()
	if err != nil {
		m.bad("voucher-list", "%s: %v", when, err)
		return
	}
	seen := map[string]bool{}
	for _, g := range l {
		if _, ok := m.val[m.sts[0]][string(g[:])]; !ok || seen[string(g[:])] {
			m.bad("voucher-list", "%s: voucher %x is listed, but not stored or listed before", when, g)
		}
		seen[string(g[:])] = true
	}
	if len(l) != len(m.val[m.sts[0]]) {
		m.bad("voucher-list", "%s: %d vouchers listed, %d stored", when, len(l), len(m.val[m.sts[0]]))
	}
}

func (m *model) pick(st *store) (string, bool) {
	if len(m.keys[st]) == 0 {
		return "", false
	}
	return m.keys[st][m.r.IntN(len(m.keys[st]))], true
}

// absent reads a key that is not there: of another store, removed, cut, extended or random.
func (m *model) absent(st *store) {
	key := string(kit.Bytes(m.r, 16))
	o := m.sts[m.r.IntN(len(m.sts))]
	how := "random"
	if k, ok := m.pick(o); ok && m.r.IntN(4) > 0 {
		how, key = "key of "+o.name, k
		if m.r.IntN(3) == 0 && o.name != "voucher" {
			how, key = "prefix of a key of "+o.name, k[:m.r.IntN(len(k))]
		}
	}
	if k, ok := m.pick(st); ok && len(k) > 0 && m.r.IntN(3) == 0 {
		how, key = "one byte off", near(m.r, k)
	}
	switch st.name {
	case "voucher", "device", "registration":
		if len(key) != 16 {
			key = string(kit.Bytes(m.r, 16))
		}
	case "configuration":
		if len(m.keys[st]) > 0 {
			return
		}
	case "user":
		key = strings.ToLower(key)
	}
	if _, ok := m.val[st][key]; ok {
		return
	}
	m.say("read %s with %s", st.name, how)
	g, err := st.get(m.h, key)
	if err == nil {
		m.bad("phantom-"+st.name, "reading %s %x (%s), which was never stored, gives %.200s", st.name, key, how, text(g))
	}
	if st.many != nil && m.r.IntN(3) == 0 {
		l := []string{key}
		if k, ok := m.pick(st); ok {
			l = []string{k, key}
		}
		if _, err := st.many(m.h, l); err == nil {
			m.bad("phantom-many-"+st.name, "reading several of %s, one never stored, succeeds", st.name)
		}
	}
	m.c.Count("history: absent keys read")
	m.c.Eval("absent " + st.name + " " + how)
	m.after(st, key, false)
}

func history(c *kit.Check, i int) {
	r := c.Rand(fmt.Sprint("history", i))
	dir := filepath.Join(sut.Scratch(), fmt.Sprint("hist", i))
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	m := &model{c: c, r: r, f: &filler{r: r, big: 900, unit: i}, dir: dir, sts: stores(), val: map[*store]map[string]any{}, keys: map[*store][]string{}, own: map[string]string{}}
	for k := 0; k < 6; k++ {
		m.f.vouchers = append(m.f.vouchers, voucherOf(r))
	}
	m.f.vouchers = append(m.f.vouchers, fdoshared.OwnershipVoucher{})
	for _, st := range m.sts {
		m.val[st] = map[string]any{}
	}
	var err error
	if m.h, err = openHandles(dir); err != nil {
		c.Broken("%v", err)
	}
	defer func() { m.h.db.Close() }()
	m.last = raw(m.h.db)
	n := c.N(260, 500)
	for op := 0; op < n; op++ {
		st := m.sts[r.IntN(len(m.sts))]
		key, have := m.pick(st)
		switch x := r.IntN(100); {
		case x < 32 || !have && x < 70:
			k, v := st.fresh(m.f)
			if st.atMost > 0 && len(m.keys[st]) >= st.atMost && k == "" {
				continue
			}
			_, there := m.val[st][k]
			m.say("new %s %x", st.name, k)
			id, err := st.save(m.h, r, k, !there, clone(v))
			if err != nil {
				m.bad("save-"+st.name, "saving a new %s fails: %v", st.name, err)
				continue
			}
			if _, used := m.val[st][id]; used && !there {
				m.bad("key-reused-"+st.name, "a new %s got the key of another", st.name)
			}
			if !there {
				m.keys[st] = append(m.keys[st], id)
			}
			m.val[st][id] = v
			m.after(st, id, true)
			m.check(st, id, "right away")
			c.Count("history: " + st.name + " saved")
			c.Eval("save " + st.name)
		case x < 52:
			if !have || st.next == nil {
				continue
			}
			v := st.next(m.f, key, m.val[st][key])
			m.say("replace %s %x", st.name, key)
			if _, err := st.save(m.h, r, key, false, clone(v)); err != nil {
				m.bad("replace-"+st.name, "replacing a %s fails: %v", st.name, err)
				continue
			}
			m.val[st][key] = v
			m.after(st, key, true)
			m.check(st, key, "right away")
			c.Count("history: " + st.name + " replaced")
			c.Eval("replace " + st.name)
		case x < 60:
			if !have || st.del == nil {
				continue
			}
			m.say("delete %s %x", st.name, key)
			if err := st.del(m.h, key); err != nil {
				m.bad("delete-"+st.name, "deleting a %s fails: %v", st.name, err)
				continue
			}
			delete(m.val[st], key)
			for i, k := range m.keys[st] {
				if k == key {
					m.keys[st] = append(m.keys[st][:i:i], m.keys[st][i+1:]...)
					break
				}
			}
			m.after(st, key, true)
			for k, o := range m.own {
				if o == st.name+"/"+key {
					m.bad("left-"+st.name, "deleting a %s left the raw entry %q", st.name, k)
				}
			}
			if _, err := st.get(m.h, key); err == nil {
				m.bad("undead-"+st.name, "a deleted %s is still read", st.name)
			}
			c.Count("history: deleted")
			c.Eval("delete " + st.name)
		case x < 70:
			if !have || st.change == nil {
				continue
			}
			m.say("change %s %x", st.name, key)
			v, err := st.change(m.h, m.f, key, m.val[st][key])
			if err != nil {
				m.bad("change-"+st.name, "changing a %s fails: %v", st.name, err)
				continue
			}
			m.val[st][key] = v
			m.after(st, key, true)
			m.check(st, key, "after a change")
			c.Count("history: " + st.name + " changed in place")
			c.Eval("change " + st.name)
		case x < 84:
			m.absent(st)
		case x < 90:
			if have {
				m.say("read %s %x", st.name, key)
				m.check(st, key, "later")
				m.after(st, key, false)
			}
		case x < 94:
			if st.many == nil || !have {
				continue
			}
			var l []string
			want := []string{}
			for j := r.IntN(5); j >= 0; j-- {
				k, _ := m.pick(st)
				l = append(l, k)
				want = append(want, text(m.val[st][k])+",")
			}
			g, err := st.many(m.h, l)
			if err != nil {
				m.bad("many-"+st.name, "reading several of %s fails: %v", st.name, err)
				continue
			}
			if a, b := "["+strings.Join(want, "")+"]", text(g); a != b {
				m.bad("many-"+st.name, "several of %s read at once: %s", st.name, diff(a, b))
			}
			c.Count("history: several read at once")
			m.after(st, key, false)
		default:
			if r.IntN(2) == 0 {
				m.checkAll("in between")
				continue
			}
			m.say("reopen")
			if err := m.h.db.Close(); err != nil {
				m.bad("close", "closing: %v", err)
			}
			if m.h, err = openHandles(dir); err != nil {
				c.Broken("reopening: %v", err)
			}
			if d := sut.Changes(m.last, raw(m.h.db)); len(d) > 0 {
				sort.Strings(d)
				m.bad("reopen", "reopening changed %d raw entries: %.300s", len(d), strings.Join(d, ", "))
				m.last = raw(m.h.db)
			}
			m.checkAll("after reopening")
			c.Count("history: reopened")
		}
	}
	m.checkAll("at the end")
}
