package sut

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/dgraph-io/badger/v4"
)

// Snapshot is the store's content except keys with the given prefixes.
func Snapshot(db *badger.DB, except ...string) map[string]string {
	m := map[string]string{}
	err := db.View(func(t *badger.Txn) error {
		it := t.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
	next:
		for it.Rewind(); it.Valid(); it.Next() {
			k := string(it.Item().KeyCopy(nil))
			for _, p := range except {
				if strings.HasPrefix(k, p) {
					continue next
				}
			}
			// protocol sessions, whatever they are called
			if x := it.Item().ExpiresAt(); len(except) > 0 && x > 0 && x < uint64(time.Now().Add(12*time.Minute).Unix()) {
				continue next
			}
			v, err := it.Item().ValueCopy(nil)
			if err != nil {
				return err
			}
			m[k] = string(v)
		}
		return nil
	})
	if err != nil {
		panic(err)
	}
	return m
}

// Changes names the keys in which two snapshots differ.
func Changes(a, b map[string]string) []string {
	var d []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			d = append(d, fmt.Sprintf("removed %q", k))
		} else if w != v {
			d = append(d, fmt.Sprintf("changed %q", k))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, fmt.Sprintf("added %q", k))
		}
	}
	sort.Strings(d)
	return d
}

// Keys are the keys of both snapshots.
func Keys(a, b map[string]string) (l []string) {
	for k := range a {
		l = append(l, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return
}
