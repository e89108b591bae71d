package main

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"

	"github.com/dgraph-io/badger/v4"

	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	tdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	listenertestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"
	reqtestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

// handles are the program's stores over one database, shared by all users of it as in the program.
type handles struct {
	db       *badger.DB
	voucher  *dodbs.VoucherDB
	doSes    *dodbs.SessionDB
	rvSes    rv.SessionDB
	apiSes   *dbs.SessionDB
	sign     rv.OwnerSignDB
	user     *dbs.UserTestDB
	config   *dbs.ConfigDB
	base     *dbs.DeviceBaseDB
	verify   *dbs.VerifyDB
	request  *tdbs.RequestTestDB
	listener *tdbs.ListenerTestDB
}

func openHandles(dir string) (*handles, error) {
	db, err := sut.OpenDir(dir)
	if err != nil {
		return nil, err
	}
	return handlesOf(db), nil
}

func handlesOf(db *badger.DB) *handles {
	return &handles{db: db, voucher: dodbs.NewVoucherDB(db), doSes: dodbs.NewSessionDB(db), rvSes: rv.NewSessionDB(db), apiSes: dbs.NewSessionDB(db),
		sign: rv.NewOwnerSignDB(db), user: dbs.NewUserTestDB(db), config: dbs.NewConfigDB(db), base: dbs.NewDeviceBaseDB(db), verify: dbs.NewVerifyDB(db),
		request: tdbs.NewRequestTestDB(db), listener: tdbs.NewListenerTestDB(db)}
}

func guidOf(key string) (g fdoshared.FdoGuid) { copy(g[:], key); return }

// store is one of the program's stores as the checker uses it.
type store struct {
	name   string
	atMost int // entries in one history, 0 unlimited
	// fresh makes a value and its key; the key is empty if the store chooses it.
	fresh func(f *filler) (string, any)
	// next makes another value for a stored entry; nil if the store has no way to replace one.
	next func(f *filler, key string, old any) any
	// save stores v under key and returns the key.
	save func(h *handles, r *rand.Rand, key string, isNew bool, v any) (string, error)
	get  func(h *handles, key string) (any, error)
	del  func(h *handles, key string) error
	// change is a change made by the store itself: it returns the value expected then.
	change func(h *handles, f *filler, key string, old any) (any, error)
	// many reads several entries at once.
	many func(h *handles, keys []string) (any, error)
	perm bool // never expires
	day  bool // stays for days
}

// any16 is an identity; some differ in one byte from the one before.
func any16(f *filler) string {
	if f.kin != "" && f.r.IntN(3) == 0 {
		f.kin = near(f.r, f.kin)
	} else {
		f.kin = string(kit.Bytes(f.r, 16))
	}
	return f.kin
}

// near changes one byte, often the first or last.
func near(r *rand.Rand, k string) string {
	b := []byte(k)
	b[[]int{0, len(b) - 1, r.IntN(len(b)), r.IntN(len(b))}[r.IntN(4)]] ^= byte(1 + r.IntN(255))
	return string(b)
}

func clone[T any](x T) T {
	b := reflect.New(reflect.TypeOf(x)).Elem()
	b.Set(deep(reflect.ValueOf(x)))
	return b.Interface().(T)
}

// deep copies lists and maps so that a store which keeps a reference cannot hide behind it.
func deep(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deep(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		if v.Type().Elem().Kind() == reflect.Uint8 {
			reflect.Copy(n, v)
			return n
		}
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deep(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for it := v.MapRange(); it.Next(); {
			n.SetMapIndex(it.Key(), deep(it.Value()))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n.Field(i).Set(deep(v.Field(i)))
			}
		}
		return n
	}
	return v
}

func voucherOf(r *rand.Rand) fdoshared.OwnershipVoucher {
	sg := []int{ref.SgES256, ref.SgES384}[r.IntN(2)]
	n := r.IntN(4)
	keys := []ref.Key{}
	for i := 0; i <= n; i++ {
		keys = append(keys, ref.GenKeyCached([]int{ref.SgES256, ref.SgES384}[r.IntN(2)]))
	}
	for i := range keys {
		keys[i] = ref.GenKeyCached(keys[0].Sg)
	}
	v, err := sut.Voucher(ref.BuildVoucher(ref.NewDevice(sg), keys, ref.RandRV()))
	if err != nil {
		panic(err)
	}
	return v
}

func emailOf(f *filler) string {
	const l = "abcXYZ"
	b := []byte{}
	for i := 1 + f.r.IntN(3); i > 0; i-- {
		b = append(b, l[f.r.IntN(len(l))])
	}
	return string(b) + fmt.Sprint(f.unit) + []string{"", "@x.org", "@x.org.example", "@X.Org"}[f.r.IntN(4)]
}

func stores() []*store {
	l := []*store{
		{name: "voucher", perm: true,
			fresh: func(f *filler) (string, any) {
				e := filled[fdoshared.VoucherDBEntry](f)
				if f.r.IntN(3) == 0 { // under the identity the voucher itself names
					e.Voucher = voucherOf(f.r)
					h, err := e.Voucher.GetOVHeader()
					if err != nil {
						panic(err)
					}
					return string(h.OVGuid[:]), e
				}
				return any16(f), e
			},
			next: func(f *filler, key string, old any) any {
				e := filled[fdoshared.VoucherDBEntry](f)
				e.Voucher = clone(old.(fdoshared.VoucherDBEntry).Voucher)
				switch l := e.Voucher.OVEntryArray; f.r.IntN(4) { // resold, or an earlier one put back
				case 0:
					e.Voucher.OVEntryArray = l[:f.r.IntN(len(l)+1)]
				case 1:
					e.Voucher.OVEntryArray = append(l, filled[fdoshared.CoseSignature](f))
				}
				return e
			},
			save: func(h *handles, r *rand.Rand, key string, isNew bool, v any) (string, error) {
				e := v.(fdoshared.VoucherDBEntry)
				if hd, err := e.Voucher.GetOVHeader(); err == nil && string(hd.OVGuid[:]) == key && r.IntN(2) == 0 {
					return key, h.voucher.Save(e)
				}
				return key, h.voucher.SaveByGUID(guidOf(key), e)
			},
			get: func(h *handles, key string) (any, error) { return got(h.voucher.Get(guidOf(key))) },
		},
		{name: "device", perm: true,
			fresh: func(f *filler) (string, any) {
				e := filled[fdoshared.WawDeviceCredential](f)
				e.DCGuid = guidOf(any16(f))
				return string(e.DCGuid[:]), e
			},
			next: func(f *filler, key string, old any) any {
				e := filled[fdoshared.WawDeviceCredential](f)
				e.DCGuid = guidOf(key)
				return e
			},
			save: func(h *handles, r *rand.Rand, key string, isNew bool, v any) (string, error) {
				return key, h.base.Save(v.(fdoshared.WawDeviceCredential))
			},
			get: func(h *handles, key string) (any, error) { return got(h.base.Get(guidOf(key))) },
			many: func(h *handles, keys []string) (any, error) {
				var l []fdoshared.FdoGuid
				for _, k := range keys {
					l = append(l, guidOf(k))
				}
				return got(h.base.GetMany(l))
			},
		},
		{name: "registration",
			fresh: func(f *filler) (string, any) { return any16(f), filled[fdoshared.OwnerSign22](f) },
			next:  func(f *filler, key string, old any) any { return filled[fdoshared.OwnerSign22](f) },
			save: func(h *handles, r *rand.Rand, key string, isNew bool, v any) (string, error) {
				return key, h.sign.Save(guidOf(key), v.(fdoshared.OwnerSign22), 3600+r.Uint32N(1<<22))
			},
			get: func(h *handles, key string) (any, error) { return got(h.sign.Get(guidOf(key))) },
		},
		{name: "rv session",
			fresh: func(f *filler) (string, any) { return "", filled[rv.SessionEntry](f) },
			next:  func(f *filler, key string, old any) any { return filled[rv.SessionEntry](f) },
			save: func(h *handles, r *rand.Rand, key string, isNew bool, v any) (string, error) {
				if isNew {
					id, err := h.rvSes.NewSessionEntry(v.(rv.SessionEntry))
					return string(id), err
				}
				return key, h.rvSes.UpdateSessionEntry([]byte(key), v.(rv.SessionEntry))
			},
			get: func(h *handles, key string) (any, error) { return got(h.rvSes.GetSessionEntry([]byte(key))) },
		},
		{name: "do session",
			fresh: func(f *filler) (string, any) { return "", filled[dodbs.SessionEntry](f) },
			next:  func(f *filler, key string, old any) any { return filled[dodbs.SessionEntry](f) },
			save: func(h *handles, r *rand.Rand, key string, isNew bool, v any) (string, error) {
				if isNew {
					id, err := h.doSes.NewSessionEntry(v.(dodbs.SessionEntry))
					return string(id), err
				}
				return key, h.doSes.UpdateSessionEntry([]byte(key), v.(dodbs.SessionEntry))
			},
			get: func(h *handles, key string) (any, error) { return got(h.doSes.GetSessionEntry([]byte(key))) },
		},
		{name: "api session", day: true,
			fresh: func(f *filler) (string, any) { return "", filled[dbs.SessionEntry](f) },
			next:  func(f *filler, key string, old any) any { return filled[dbs.SessionEntry](f) },
			save: func(h *handles, r *rand.Rand, key string, isNew bool, v any) (string, error) {
				if isNew {
					id, err := h.apiSes.NewSessionEntry(v.(dbs.SessionEntry))
					return string(id), err
				}
				return key, h.apiSes.UpdateSessionEntry([]byte(key), v.(dbs.SessionEntry))
			},
			get: func(h *handles, key string) (any, error) { return got(h.apiSes.GetSessionEntry([]byte(key))) },
			del: func(h *handles, key string) error { return h.apiSes.DeleteSessionEntry([]byte(key)) },
		},
		{name: "verification", day: true,
			fresh: func(f *filler) (string, any) { return "", filled[dbs.VerifyEntry](f) },
			save: func(h *handles, r *rand.Rand, key string, isNew bool, v any) (string, error) {
				id, err := h.verify.SaveEntry(v.(dbs.VerifyEntry))
				return string(id), err
			},
			get: func(h *handles, key string) (any, error) { return got(h.verify.GetEntry([]byte(key))) },
			del: func(h *handles, key string) error { return h.verify.DeleteEntry([]byte(key)) },
		},
		{name: "user", perm: true,
			fresh: func(f *filler) (string, any) {
				e := filled[dbs.UserTestDBEntry](f)
				e.Email = emailOf(f)
				return strings.ToLower(e.Email), e
			},
			next: func(f *filler, key string, old any) any {
				e := filled[dbs.UserTestDBEntry](f)
				e.Email = []string{key, strings.ToUpper(key)}[f.r.IntN(2)]
				return e
			},
			save: func(h *handles, r *rand.Rand, key string, isNew bool, v any) (string, error) {
				e := v.(dbs.UserTestDBEntry)
				switch r.IntN(3) {
				case 0:
					if isNew {
						return key, h.user.SaveNew(e)
					}
					return key, h.user.Update([]string{key, strings.ToUpper(key)}[r.IntN(2)], func(u *dbs.UserTestDBEntry) { *u = e })
				default:
					return key, h.user.Save(e)
				}
			},
			get: func(h *handles, key string) (any, error) { return got(h.user.Get(key)) },
			// what is stored already stays
			change: func(h *handles, f *filler, key string, old any) (any, error) {
				if f.r.IntN(2) == 0 {
					e := filled[dbs.UserTestDBEntry](f)
					e.Email = strings.ToUpper(key)
					return old, h.user.SaveNew(e)
				}
				e := old.(dbs.UserTestDBEntry)
				e.Name = f.text(9)
				e.RVTestInsts = append(append([]dbs.RVTestInst{}, e.RVTestInsts...), filled[dbs.RVTestInst](f))
				last := e.RVTestInsts[len(e.RVTestInsts)-1]
				return e, h.user.Update(key, func(u *dbs.UserTestDBEntry) { u.Name = e.Name; u.RVTestInsts = append(u.RVTestInsts, last) })
			},
		},
		{name: "configuration", perm: true, atMost: 1,
			fresh: func(f *filler) (string, any) { return "main", config(f) },
			next:  func(f *filler, key string, old any) any { return config(f) },
			save: func(h *handles, r *rand.Rand, key string, isNew bool, v any) (string, error) {
				return key, h.config.Save(v.(dbs.MainConfig))
			},
			get: func(h *handles, key string) (any, error) { return got(h.config.Get()) },
		},
		{name: "requestor test", day: true,
			fresh: func(f *filler) (string, any) {
				e := filled[reqtestsdeps.RequestTestInst](f)
				e.Uuid = kit.Bytes(f.r, 16)
				return string(e.Uuid), e
			},
			next: func(f *filler, key string, old any) any {
				e := filled[reqtestsdeps.RequestTestInst](f)
				e.Uuid = []byte(key)
				return e
			},
			save: func(h *handles, r *rand.Rand, key string, isNew bool, v any) (string, error) {
				e := v.(reqtestsdeps.RequestTestInst)
				if !isNew && r.IntN(2) == 0 {
					return key, h.request.Update([]byte(key), e)
				}
				return key, h.request.Save(e)
			},
			get:    func(h *handles, key string) (any, error) { return got(h.request.Get([]byte(key))) },
			change: report,
			many: func(h *handles, keys []string) (any, error) {
				var l [][]byte
				for _, k := range keys {
					l = append(l, []byte(k))
				}
				return got(h.request.GetMany(l))
			},
		},
		{name: "listener test", day: true,
			fresh: func(f *filler) (string, any) {
				e := filled[listenertestsdeps.RequestListenerInst](f)
				e.Uuid, e.Guid = kit.Bytes(f.r, 16), guidOf(any16(f))
				return string(e.Uuid), e
			},
			next: func(f *filler, key string, old any) any {
				e := filled[listenertestsdeps.RequestListenerInst](f)
				e.Uuid, e.Guid = []byte(key), old.(listenertestsdeps.RequestListenerInst).Guid
				return e
			},
			save: func(h *handles, r *rand.Rand, key string, isNew bool, v any) (string, error) {
				e := v.(listenertestsdeps.RequestListenerInst)
				if !isNew && r.IntN(2) == 0 {
					return key, h.listener.Update(&e)
				}
				return key, h.listener.Save(e)
			},
			get: func(h *handles, key string) (any, error) {
				e, err := h.listener.Get([]byte(key))
				if err != nil {
					return nil, err
				}
				o, err := h.listener.GetEntryByFdoGuid(e.Guid)
				if err != nil {
					return nil, fmt.Errorf("by device: %w", err)
				}
				if text(o) != text(e) {
					return nil, fmt.Errorf("read by device it is another entry")
				}
				return *e, nil
			},
			del:    func(h *handles, key string) error { return h.listener.Delete([]byte(key)) },
			change: dropRun,
			many: func(h *handles, keys []string) (any, error) {
				var l [][]byte
				for _, k := range keys {
					l = append(l, []byte(k))
				}
				return got(h.listener.GetMany(l))
			},
		},
	}
	return l
}

func got[T any](p *T, err error) (any, error) {
	if err != nil {
		return nil, err
	}
	if p == nil {
		return nil, fmt.Errorf("neither value nor error")
	}
	return *p, nil
}

func config(f *filler) dbs.MainConfig {
	e := filled[dbs.MainConfig](f)
	if f.r.IntN(4) == 0 { // as large as the program's own
		l := make(fdoshared.FdoGuidList, 4000)
		for i := range l {
			l[i] = guidOf(any16(f))
		}
		e.SeededGuids[fdoshared.StSECP256R1] = l
	}
	return e
}

// report records one verdict in a requestor test.
func report(h *handles, f *filler, key string, old any) (any, error) {
	e := clone(old.(reqtestsdeps.RequestTestInst))
	id := testcom.FDOTestID(f.text(8))
	st := filled[testcom.FDOTestState](f)
	if !e.InProgress {
		h.request.StartNewRun([]byte(key))
		now, err := h.request.Get([]byte(key))
		if err != nil {
			return nil, err
		}
		if !now.InProgress || len(now.CurrentTestRun.Tests) != 0 || text(now.FdoSeedIDs) != text(e.FdoSeedIDs) || text(now.TestVouchers) != text(e.TestVouchers) || now.URL != e.URL {
			return nil, fmt.Errorf("starting a run left %s", text(now.CurrentTestRun))
		}
		e = *now
	}
	h.request.ReportTest([]byte(key), id, st)
	now, err := h.request.Get([]byte(key))
	if err != nil {
		return nil, err
	}
	have, ok := now.CurrentTestRun.Tests[id]
	if !ok || have.Passed != st.Passed {
		return nil, fmt.Errorf("a reported verdict is not stored")
	}
	if e.CurrentTestRun.Tests == nil {
		e.CurrentTestRun.Tests = reqtestsdeps.RequestTestResultMap{}
	}
	e.CurrentTestRun.Tests[id] = have
	e.TestsHistory = now.TestsHistory // the bookkeeping of runs is P19's
	return e, nil
}

// dropRun removes one past run of a listener test.
func dropRun(h *handles, f *filler, key string, old any) (any, error) {
	e := clone(old.(listenertestsdeps.RequestListenerInst))
	to := []fdoshared.FdoToProtocol{fdoshared.To0, fdoshared.To1, fdoshared.To2}[f.r.IntN(3)]
	ru := map[fdoshared.FdoToProtocol]*listenertestsdeps.RequestListenerRunnerInst{fdoshared.To0: &e.To0, fdoshared.To1: &e.To1, fdoshared.To2: &e.To2}[to]
	if len(ru.TestRunHistory) == 0 {
		return old, nil
	}
	id := ru.TestRunHistory[f.r.IntN(len(ru.TestRunHistory))].Uuid
	same := 0
	for _, x := range ru.TestRunHistory {
		if x.Uuid == id {
			same++
		}
	}
	if same != 1 || ru.CurrentTestRun.Uuid == id {
		return old, nil
	}
	for i, x := range ru.TestRunHistory {
		if x.Uuid == id {
			ru.TestRunHistory = append(ru.TestRunHistory[:i:i], ru.TestRunHistory[i+1:]...)
			break
		}
	}
	return e, h.listener.RemoveTestRun(to, []byte(key), id)
}
