//go:build verifhook

package main

import "github.com/dgraph-io/badger/v4"

// the database library is compiled with hooks by tools/faultbadger.sh
func init() { hook = badger.VerifHook }
