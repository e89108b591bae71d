#!/bin/bash
# usage: faultbadger.sh GOMOD : makes a copy of the database library with fault hooks and points the harness's go.mod copy at it
# (the hooks fail commits and reads on demand; nothing else of the library changes)
set -e
ROOT=$(cd "$(dirname "$0")/.." && pwd)
M=github.com/dgraph-io/badger/v4
SRC=$(cd "$ROOT/harness" && go list -modfile="$1" -m -f '{{.Dir}}' $M)
DST=$ROOT/.build/$(basename "$(dirname "$SRC")")-$(basename "$SRC")
if [ ! -f "$DST/verif_ready" ]; then
  mkdir -p "$ROOT/.build"
  T=$(mktemp -d "$ROOT/.build/tmp.XXXXXX")
  cp -r "$SRC" "$T/b"; chmod -R u+w "$T/b"
  python3 - "$T/b/txn.go" <<'P'
import re,sys
p=sys.argv[1]; s=open(p).read()
a='func (txn *Txn) commitPrecheck() error {\n'
b='func (txn *Txn) Get(key []byte) (item *Item, rerr error) {\n'
assert s.count(a)==1 and s.count(b)==1
s=s.replace(a,a+'\tif err := verifHook(txn.db, true, nil); err != nil {\n\t\treturn err\n\t}\n')
s=s.replace(b,b+'\tif err := verifHook(txn.db, false, key); err != nil {\n\t\treturn nil, err\n\t}\n')
open(p,'w').write(s)
P
  cat >"$T/b/verif_hook.go" <<'P'
package badger

import "sync/atomic"

var verifHookFn atomic.Pointer[func(db *DB, write bool, key []byte) error]

// VerifHook is called before each commit of changes and each read; an error it returns is theirs.
func VerifHook(f func(db *DB, write bool, key []byte) error) { verifHookFn.Store(&f) }

func verifHook(db *DB, write bool, key []byte) error {
	if f := verifHookFn.Load(); f != nil {
		return (*f)(db, write, key)
	}
	return nil
}
P
  touch "$T/b/verif_ready"
  mv "$T/b" "$DST" 2>/dev/null || true
  rm -rf "$T"
fi
[ -f "$DST/verif_ready" ]
(cd "$ROOT/harness" && go mod edit -replace "$M=$DST" "$1")
