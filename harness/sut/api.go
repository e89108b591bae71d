package sut

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"net/http"

	"github.com/dgraph-io/badger/v4"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/common"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"

	"verif.local/harness/ref"
)

// Seed stores n device bases of every device signature type and the configuration naming them.
func Seed(db *badger.DB, n int) (dbs.MainConfig, error) {
	cfg := dbs.MainConfig{SeededGuids: fdoshared.FdoSeedIDs{}}
	base := dbs.NewDeviceBaseDB(db)
	for _, sg := range fdoshared.DeviceSgTypeList {
		for i := 0; i < n; i++ {
			d, err := fdoshared.NewWawDeviceCredential(sg)
			if err != nil {
				return cfg, err
			}
			if err := base.Save(*d); err != nil {
				return cfg, err
			}
			cfg.SeededGuids[sg] = append(cfg.SeededGuids[sg], d.DCGuid)
		}
	}
	return cfg, dbs.NewConfigDB(db).Save(cfg)
}

// User is a client of the management interface.
// Cookies is the header a browser sends: the session's cookie, often beside others of the same host.
func Cookies(session string) string {
	c := "session=" + session
	switch session[len(session)-1] % 4 {
	case 0:
		return "theme=dark; " + c
	case 1:
		return c + "; lang=en; seen=1"
	}
	return c
}

type User struct {
	Base   string
	Cookie string
	Email  string
	HC     *http.Client
}

var apiClient = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 128}}

// Login opens a session as the one on-premises user.
func (s *SUT) Login() (*User, error) {
	u := &User{Base: s.URL, Email: "tester@fido.local"}
	r := u.Do("POST", "/api/user/login/onprem", []byte("{}"))
	if r.Status != 200 || r.Cookie == "" {
		return nil, fmt.Errorf("login: %s", r)
	}
	u.Cookie = r.Cookie
	return u, nil
}

// NewUser stores another account and opens a session for it.
func (s *SUT) NewUser(email string) (*User, error) {
	if err := dbs.NewUserTestDB(s.DB).Save(dbs.UserTestDBEntry{Email: email}); err != nil {
		return nil, err
	}
	return s.Session(email, true)
}

// Session stores a session record for email.
func (s *SUT) Session(email string, in bool) (*User, error) {
	id, err := dbs.NewSessionDB(s.DB).NewSessionEntry(dbs.SessionEntry{Email: email, LoggedIn: in})
	return &User{Base: s.URL, Email: email, Cookie: string(id)}, err
}

type APIResp struct {
	Status int
	Type   string
	Cookie string
	Body   []byte
	Err    error
	Hdr    http.Header
}

func (r APIResp) String() string {
	if r.Err != nil {
		return "transport error: " + r.Err.Error()
	}
	b := r.Body
	if len(b) > 200 {
		b = b[:200]
	}
	return fmt.Sprintf("HTTP %d %s %s", r.Status, r.Type, b)
}

// State is the status member of the JSON answer.
func (r APIResp) State() (status, msg string) {
	var x struct{ Status, ErrorMessage string }
	if json.Unmarshal(r.Body, &x) != nil {
		return "", ""
	}
	return x.Status, x.ErrorMessage
}

func (r APIResp) Ok() bool { s, _ := r.State(); return r.Err == nil && r.Status == 200 && s == "ok" }

func (r APIResp) Refused() bool {
	s, _ := r.State()
	return r.Err == nil && r.Status >= 400 && r.Status < 600 && s == "failed"
}

func (u *User) Do(method, path string, body []byte) APIResp {
	h := http.Header{}
	if method == "POST" {
		h.Set("Content-Type", "application/json")
	}
	if u.Cookie != "" {
		h.Set("Cookie", Cookies(u.Cookie))
	}
	return u.Raw(method, path, h, body)
}

func (u *User) Raw(method, path string, h http.Header, body []byte) APIResp {
	q, err := http.NewRequest(method, u.Base+path, bytes.NewReader(body))
	if err != nil {
		return APIResp{Err: err}
	}
	q.Header = h
	hc := u.HC
	if hc == nil {
		hc = apiClient
	}
	r, err := hc.Do(q)
	if err != nil {
		return APIResp{Err: err}
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	a := APIResp{Status: r.StatusCode, Type: r.Header.Get("Content-Type"), Body: b, Err: err, Hdr: r.Header}
	for _, k := range r.Cookies() {
		if k.Name == "session" {
			a.Cookie = k.Value
		}
	}
	return a
}

func (u *User) JSON(method, path string, v any) APIResp {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return u.Do(method, path, b)
}

type TestState struct {
	Passed bool   `json:"passed"`
	Error  string `json:"error"`
	TestID string `json:"testId"`
}

type ReqRun struct {
	Uuid      string               `json:"uuid"`
	Timestamp int64                `json:"timestamp"`
	Tests     map[string]TestState `json:"tests"`
	Protocol  int                  `json:"protocol"`
}

type ReqInst struct {
	Id         string   `json:"id"`
	Runs       []ReqRun `json:"runs"`
	InProgress bool     `json:"inprogress"`
	Protocol   int      `json:"protocol"`
}

type LstRun struct {
	Uuid      string      `json:"uuid"`
	Timestamp int64       `json:"timestamp"`
	Tests     []TestState `json:"tests"`
	Protocol  int         `json:"protocol"`
	Completed bool        `json:"completed"`
}

type Item struct {
	Id   string          `json:"id"`
	Url  string          `json:"url"`
	Name string          `json:"name"`
	Guid string          `json:"guid"`
	To0  json.RawMessage `json:"to0"`
	To1  json.RawMessage `json:"to1"`
	To2  json.RawMessage `json:"to2"`
}

func (i Item) Inst(to int) (r ReqInst) {
	json.Unmarshal([][]byte{i.To0, i.To1, i.To2}[to], &r)
	return
}

func (i Item) Listener(to int) (r []LstRun) {
	json.Unmarshal([][]byte{i.To0, i.To1, i.To2}[to], &r)
	return
}

// List returns the entries of kind rvt, dot or device.
func (u *User) List(kind string) ([]Item, error) {
	r := u.Do("GET", "/api/"+kind+"/testruns", nil)
	if !r.Ok() {
		return nil, fmt.Errorf("list %s: %s", kind, r)
	}
	var x struct {
		Entries []Item `json:"entries"`
	}
	err := json.Unmarshal(r.Body, &x)
	return x.Entries, err
}

func (u *User) CreateRVT(url string) APIResp {
	return u.JSON("POST", "/api/rvt/create", map[string]string{"url": url})
}

// CreateDOT registers a test of an owner service whose key is k.
func (u *User) CreateDOT(url string, k ref.Key) APIResp {
	return u.JSON("POST", "/api/dot/create", map[string]string{"url": url, "priv_key": KeyPEM(k)})
}

func KeyPEM(k ref.Key) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: k.PKCS8()}))
}

// VoucherPEM is the upload form of a voucher with its owner key.
func VoucherPEM(v ref.Voucher, k ref.Key) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "OWNERSHIP VOUCHER", Bytes: v.Bytes()})) + KeyPEM(k)
}

func (u *User) CreateDevice(name string, v ref.Voucher, k ref.Key) APIResp {
	return u.JSON("POST", "/api/device/create", map[string]string{"name": name, "voucher": VoucherPEM(v, k)})
}

func (u *User) Execute(kind, id string) APIResp {
	return u.JSON("POST", "/api/"+kind+"/execute", map[string]string{"id": id})
}

// StartRun starts a device test run.
func (u *User) StartRun(to int, id string) APIResp {
	return u.Do("POST", fmt.Sprintf("/api/device/testruns/%d/%s", to, id), nil)
}

func (u *User) DeleteRun(kind, id, run string) APIResp {
	return u.Do("DELETE", "/api/"+kind+"/testruns/"+id+"/"+run, nil)
}

func (u *User) DeleteDeviceRun(to int, id, run string) APIResp {
	return u.Do("DELETE", fmt.Sprintf("/api/device/testruns/%d/%s/%s", to, id, run), nil)
}

// Vouchers downloads the archive of a DO test.
func (u *User) Vouchers(id string) (map[string][]byte, error) {
	r := u.Do("GET", "/api/dot/vouchers/"+id, nil)
	if r.Err != nil || r.Status != 200 {
		return nil, fmt.Errorf("vouchers: %s", r)
	}
	z, err := zip.NewReader(bytes.NewReader(r.Body), int64(len(r.Body)))
	if err != nil {
		return nil, err
	}
	m := map[string][]byte{}
	for _, f := range z.File {
		o, err := f.Open()
		if err != nil {
			return nil, err
		}
		b, err := io.ReadAll(o)
		o.Close()
		if err != nil {
			return nil, err
		}
		m[f.Name] = b
	}
	return m, nil
}

// LoadVoucher gives the owner service a voucher and key in PEM form, as its operator would.
func (s *SUT) LoadVoucher(text []byte) error {
	e, err := common.DecodePemVoucherAndKey(string(text))
	if err != nil {
		return err
	}
	return dodbs.NewVoucherDB(s.DB).Save(*e)
}

// Claim reports whether none of the devices of vs is in use at s already, and marks them as in use.
// DO tests draw their device at random from the seeded ones: two tests of one owner service that draw the same device cannot both be onboarded by it.
func (s *SUT) Claim(vs map[string][]byte) bool {
	var gs []ref.Guid
	for _, b := range vs {
		k, _ := pem.Decode(b)
		if k == nil {
			continue
		}
		v, err := ref.ParseVoucher(k.Bytes)
		if err != nil {
			continue
		}
		if h, err := v.Hdr(); err == nil {
			gs = append(gs, h.Guid)
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.claimed == nil {
		s.claimed = map[ref.Guid]bool{}
	}
	for _, g := range gs {
		if s.claimed[g] {
			return false
		}
	}
	for _, g := range gs {
		s.claimed[g] = true
	}
	return true
}
