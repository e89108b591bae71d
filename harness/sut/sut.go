// Package sut runs the real services inside the check's process.
package sut

import (
	"context"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime/debug"
	"sync"

	"github.com/dgraph-io/badger/v4"
	"github.com/fido-alliance/iot-fdo-conformance-tools/api"
	fdodo "github.com/fido-alliance/iot-fdo-conformance-tools/core/do"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	fdorv "github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif.local/harness/ref"
)

func init() {
	log.SetOutput(io.Discard)
	if os.Getenv("VERIF_LOG") != "" {
		log.SetOutput(os.Stderr)
	}
}

type Panic struct {
	Path, Value, Stack string
}

type SUT struct {
	DB  *badger.DB
	Ctx context.Context
	URL string
	Srv *httptest.Server

	mu       sync.Mutex
	panics   []Panic
	requests int
	ownDB    bool
	claimed  map[ref.Guid]bool
	// Wrap, when set before serving, sees every request.
	Tap func(h http.Handler) http.Handler
}

var muxLock sync.Mutex

func MemDB() *badger.DB {
	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil).WithMemTableSize(16 << 20).WithNumGoroutines(2).WithNumCompactors(2))
	if err != nil {
		panic(err)
	}
	return db
}

func DiskDB(dir string) *badger.DB {
	o := badger.DefaultOptions(dir)
	o.Logger = nil
	db, err := badger.Open(o)
	if err != nil {
		panic(err)
	}
	return db
}

// Context as the program builds it; kv overrides.
func Context(serviceURL string, kv map[fdoshared.CONFIG_ENTRY]any) context.Context {
	ctx := context.Background()
	base := map[fdoshared.CONFIG_ENTRY]any{
		fdoshared.CFG_ENV_PORT: 8080, fdoshared.CFG_DEV_ENV: fdoshared.CFG_ENV_PROD, fdoshared.CFG_ENV_INTEROP_DASHBOARD_URL: "",
		fdoshared.CFG_ENV_INTEROP_ENABLED: false, fdoshared.CFG_ENV_FDO_SERVICE_URL: serviceURL, fdoshared.CFG_ENV_INTEROP_DASHBOARD_RV_AUTHZ: "",
		fdoshared.CFG_ENV_INTEROP_DASHBOARD_DO_AUTHZ: "", fdoshared.CFG_ENV_INTEROP_DO_TOKEN_MAPPING: "", fdoshared.CFG_ENV_MODE: fdoshared.CFG_MODE_ONPREM,
	}
	for k, v := range kv {
		base[k] = v
	}
	for k, v := range base {
		ctx = context.WithValue(ctx, k, v)
	}
	return ctx
}

type Opt struct {
	DB  *badger.DB // nil: fresh in-memory store
	KV  map[fdoshared.CONFIG_ENTRY]any
	API bool
	Tap func(h http.Handler) http.Handler
}

// New starts rendezvous, owner service (and management API) on one loopback server.
func New(o Opt) *SUT {
	s := &SUT{DB: o.DB, Tap: o.Tap}
	if s.DB == nil {
		s.DB, s.ownDB = MemDB(), true
	}
	// the listener address is needed for the configuration before the handlers exist
	var h http.Handler
	s.Srv = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { h.ServeHTTP(w, r) }))
	s.Srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	s.URL = "http://" + s.Srv.Listener.Addr().String()
	s.Ctx = Context(s.URL, o.KV)
	m := Mux(func() {
		fdodo.SetupServer(s.DB, s.Ctx)
		fdorv.SetupServer(s.DB, s.Ctx)
		if o.API {
			api.SetupServer(s.DB, s.Ctx)
		}
	})
	h = s.recorder(m)
	if o.Tap != nil {
		h = o.Tap(h)
	}
	s.Srv.Start()
	return s
}

// Mux collects what f registers on the default mux.
func Mux(f func()) *http.ServeMux {
	muxLock.Lock()
	defer muxLock.Unlock()
	m := http.NewServeMux()
	old := http.DefaultServeMux
	http.DefaultServeMux = m
	defer func() { http.DefaultServeMux = old }()
	f()
	return m
}

func (s *SUT) recorder(h http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.mu.Lock()
		s.requests++
		s.mu.Unlock()
		defer func() {
			if p := recover(); p != nil {
				if p == http.ErrAbortHandler {
					panic(p)
				}
				s.mu.Lock()
				s.panics = append(s.panics, Panic{r.URL.Path, fmt.Sprint(p), string(debug.Stack())})
				s.mu.Unlock()
				panic(http.ErrAbortHandler)
			}
		}()
		h.ServeHTTP(w, r)
	})
}

// Panics returns and clears the handler panics seen.
func (s *SUT) Panics() []Panic {
	s.mu.Lock()
	defer s.mu.Unlock()
	p := s.panics
	s.panics = nil
	return p
}
func (s *SUT) Requests() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.requests
}

func (s *SUT) Close() {
	s.Srv.CloseClientConnections()
	s.Srv.Close()
	if s.ownDB {
		s.DB.Close()
	}
}

// AddVoucher stores a reference voucher in the owner service through its own store.
func (s *SUT) AddVoucher(v ref.Voucher, owner ref.Key) error {
	e, err := Record(v, owner)
	if err != nil {
		return err
	}
	return dodbs.NewVoucherDB(s.DB).Save(e)
}

func Record(v ref.Voucher, owner ref.Key) (fdoshared.VoucherDBEntry, error) {
	var e fdoshared.VoucherDBEntry
	b := ref.Enc(ref.VoucherRecord{Voucher: v, Sg: owner.Sg, Priv: owner.PKCS8()})
	err := fdoshared.CborCust.Unmarshal(b, &e)
	return e, err
}

// Voucher converts a reference voucher to the real type.
func Voucher(v ref.Voucher) (o fdoshared.OwnershipVoucher, err error) {
	err = fdoshared.CborCust.Unmarshal(v.Bytes(), &o)
	return
}

// ToRef converts any real value to a reference type by its encoding.
func ToRef(in any, out any) error {
	b, err := fdoshared.CborCust.Marshal(in)
	if err != nil {
		return err
	}
	return ref.Dec(b, out)
}
