// P06: generated credentials and vouchers are genuine, negative ones are defective.
package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/common"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

type cred struct {
	_         struct{} `cbor:",toarray"`
	Ver       int
	HashAlg   int
	Secret    []byte
	HmacAlg   int
	Info      string
	Guid      ref.Guid
	PubHash   ref.Hash
	Priv      []byte
	Chain     [][]byte
	ChainHash ref.Hash
	Sig       ref.Raw
}

// registry of everything that must never be shared between two devices.
type registry struct {
	sync.Mutex
	m map[string]string
}

func (g *registry) once(c *kit.Check, what string, v []byte, who string) {
	g.Lock()
	defer g.Unlock()
	k := what + string(v)
	if o, dup := g.m[k]; dup && o != who {
		c.Violation("shared-"+what, "%s and %s share their %s %x", o, who, what, v)
	}
	g.m[k] = who
	c.Count("identity compared")
}

// vary judges that every byte of a random value takes many values over all credentials.
func (g *registry) vary(c *kit.Check, what string, size, from int) {
	g.Lock()
	defer g.Unlock()
	n := 0
	seen := make([][256]bool, size)
	for k := range g.m {
		v, ok := strings.CutPrefix(k, what)
		if !ok || len(v) != size {
			continue
		}
		n++
		for i := range size {
			seen[i][v[i]] = true
		}
	}
	if n < 300 {
		return
	}
	for i := from; i < size; i++ {
		d := 0
		for _, x := range seen[i] {
			if x {
				d++
			}
		}
		want := 100 // some 175 of 256 are expected from 300 random draws
		if what == "guid" && (i == 6 || i == 8) {
			want = 10 // version and variant of a UUID
		}
		c.Must(d >= want, "constant-"+what, "byte %d of the %s takes only %d values in %d credentials", i, what, d, n)
		c.Count("bytes with variety")
	}
}

var reg = registry{m: map[string]string{}}

func rvinfo() fdoshared.RendezvousInfo {
	i, err := fdoshared.UrlsToRendezvousInfo([]string{"http://rv.example.org:8040"})
	if err != nil {
		panic(err)
	}
	return i
}

func pubBytes(priv any) []byte {
	switch k := priv.(type) {
	case *ecdsa.PrivateKey:
		b, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
		return b
	case *rsa.PrivateKey:
		b, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
		return b
	}
	return nil
}

func private(der []byte) any {
	if k, err := x509.ParsePKCS8PrivateKey(der); err == nil {
		return k
	}
	if k, err := x509.ParseECPrivateKey(der); err == nil {
		return k
	}
	return nil
}

// device checks the credential on its own.
func checkCred(c *kit.Check, who string, sg int, d fdoshared.WawDeviceCredential) (x cred, ok bool) {
	if err := sut.ToRef(d, &x); err != nil {
		c.Violation("credential-encoding", "%s: %v", who, err)
		return
	}
	priv := private(x.Priv)
	if !c.Must(priv != nil, "device-key", "%s: private key of the credential does not parse", who) {
		return
	}
	ek, isEC := priv.(*ecdsa.PrivateKey)
	bits := map[int]int{-7: 256, -35: 384}[sg]
	c.Must(isEC && ek.Curve.Params().BitSize == bits, "device-key-type", "%s: device key %T for sg %d", who, priv, sg)
	leaf, err := ref.ValidChain(x.Chain)
	if !c.Must(err == nil, "device-chain", "%s: certificate chain: %v", who, err) {
		return
	}
	lp, _ := x509.MarshalPKIXPublicKey(leaf.PublicKey)
	c.Must(bytes.Equal(lp, pubBytes(priv)), "device-cert-key", "%s: the certificate certifies another key", who)
	c.Must(x.ChainHash.Is(bytes.Join(x.Chain, nil)), "device-chain-hash", "%s: chain hash", who)
	c.Must(x.Ver == 101, "device-version", "%s: version %d", who, x.Ver)
	c.Must(len(x.Secret) == map[int]int{5: 32, 6: 48}[x.HmacAlg], "hmac-secret-size", "%s: secret of %d bytes for HMAC type %d", who, len(x.Secret), x.HmacAlg)
	var si struct {
		_    struct{} `cbor:",toarray"`
		Sg   int
		Info []byte
	}
	err = ref.Dec(x.Sig, &si)
	c.Must(err == nil && si.Sg == sg, "device-siginfo", "%s: siginfo %x", who, []byte(x.Sig))
	reg.once(c, "guid", x.Guid[:], fmt.Sprintf("%x", x.Guid))
	reg.once(c, "device key", x.Priv, fmt.Sprintf("%x", x.Guid))
	reg.once(c, "serial number", leaf.SerialNumber.Bytes(), fmt.Sprintf("%x", x.Guid))
	reg.once(c, "secret", x.Secret, who)
	return x, true
}

// hashFor is the table of the specification.
func hashFor(devSg, ownSg int) (hash, hmac int) {
	if devSg == -35 {
		return ref.SHA384, ref.HMAC384
	}
	if ownSg == -35 {
		return ref.SHA384, ref.HMAC384
	}
	return ref.SHA256, ref.HMAC256
}

// algorithms: every hash of a voucher and its credential has the negotiated algorithm.
func algorithms(c *kit.Check, who string, want int, dv *fdoshared.DeviceCredAndVoucher) {
	var b ref.Raw
	if sut.ToRef(dv.VoucherDBEntry.Voucher, &b) != nil {
		return
	}
	v, err := ref.ParseVoucher(b)
	if err != nil {
		return
	}
	h, err := v.Hdr()
	if err != nil || h.ChainHash == nil {
		return
	}
	c.Must(h.ChainHash.Type == want, "hash-types", "%s: certificate chain hash of type %d, negotiated %d", who, h.ChainHash.Type, want)
	c.Must(int(dv.WawDeviceCredential.DCCertificateChainHash.Type) == want, "hash-types", "%s: certificate chain hash of the credential of type %d, negotiated %d", who, dv.WawDeviceCredential.DCCertificateChainHash.Type, want)
	c.Must(int(dv.WawDeviceCredential.DCPubKeyHash.Type) == want, "hash-types", "%s: key hash of type %d, negotiated %d", who, dv.WawDeviceCredential.DCPubKeyHash.Type, want)
	for i := range v.Entries {
		if _, e, err := v.Entry(i); err == nil {
			c.Must(e.Prev.Type == want && e.HdrInfo.Type == want, "hash-types", "%s: entry %d has hashes of types %d and %d, negotiated %d", who, i, e.Prev.Type, e.HdrInfo.Type, want)
			c.Count("entry hash types")
		}
	}
}

func genuine(c *kit.Check, who string, sg int, dv *fdoshared.DeviceCredAndVoucher, info []byte) {
	x, ok := checkCred(c, who, sg, dv.WawDeviceCredential)
	if !ok {
		return
	}
	var b ref.Raw
	if err := sut.ToRef(dv.VoucherDBEntry.Voucher, &b); err != nil {
		c.Violation("voucher-encoding", "%s: %v", who, err)
		return
	}
	v, err := ref.ParseVoucher(b)
	if !c.Must(err == nil, "voucher-parse", "%s: %v %x", who, err, []byte(b)) {
		return
	}
	owner, err := v.Validate()
	if !c.Must(err == nil, "voucher-invalid", "%s: %v %x", who, err, []byte(b)) {
		return
	}
	h, _ := v.Hdr()
	c.Must(h.Guid == x.Guid, "voucher-guid", "%s: voucher for %x, device %x", who, h.Guid, x.Guid)
	c.Must(h.DevInfo == x.Info, "voucher-devinfo", "%s: %q %q", who, h.DevInfo, x.Info)
	c.Must(bytes.Equal(h.RvInfo, info), "voucher-rvinfo", "%s: %x instead of %x", who, []byte(h.RvInfo), info)
	c.Must(v.Hmac.Type == x.HmacAlg && bytes.Equal(v.Hmac.Hash, ref.MkHmac(x.HmacAlg, x.Secret, v.Header).Hash), "voucher-hmac", "%s: header HMAC is not the device's", who)
	c.Must(v.Chain != nil && bytes.Equal(bytes.Join(*v.Chain, nil), bytes.Join(x.Chain, nil)), "voucher-chain", "%s: voucher chain is not the device's", who)
	c.Must(x.PubHash.Is(ref.Enc(h.Pub)), "pubkey-hash", "%s: the device remembers another manufacturer key", who)
	priv := private(dv.VoucherDBEntry.PrivateKeyX509)
	op, err := owner.Parse()
	c.Must(err == nil, "owner-key", "%s: owner key: %v", who, err)
	if err == nil {
		ob, _ := x509.MarshalPKIXPublicKey(op)
		c.Must(priv != nil && bytes.Equal(ob, pubBytes(priv)), "final-private-key", "%s: the private key is not the final owner's", who)
	}
	c.Must(len(v.Entries) >= 1, "entries", "%s: %d entries", who, len(v.Entries))
	reg.once(c, "manufacturer key", ref.Enc(h.Pub), who)
	// and the tool's own validation agrees
	if err := dv.VoucherDBEntry.Voucher.Validate(); err != nil {
		c.Violation("own-validation", "%s: %v", who, err)
	}
	c.Count("genuine voucher")
}

func main() {
	kit.Main("P06", func(c *kit.Check) {
		c.Rule = "one evaluation = one generated credential, voucher or file examined; distinct = (device type, owner type, test id, generator)"
		c.Assume = []string{"the header HMAC needs the device secret; a negative voucher whose only defect is the HMAC would be seen with the generated credential's secret"}
		rvi := rvinfo()
		var info ref.Raw
		if err := sut.ToRef(rvi, &info); err != nil {
			panic(err)
		}
		devSgs, ownSgs := []int{-7, -35}, []int{-7, -35, -257, -258}
		ids := append([]testcom.FDOTestID{testcom.NULL_TEST}, testcom.FIDO_TEST_LIST_VOUCHER...)
		type job struct {
			dev, own int
			id       testcom.FDOTestID
			keys     bool
			n        int
		}
		var jobs []job
		for _, d := range devSgs {
			for _, o := range ownSgs {
				for _, id := range ids {
					for _, k := range []bool{false, true} {
						n := c.N(8, 120)
						if o < -200 {
							n = c.N(1, 12)
							if o == -258 && !c.Thorough() && d == -35 && id != testcom.NULL_TEST {
								continue
							}
						}
						for i := 0; i < n; i++ {
							jobs = append(jobs, job{d, o, id, k, i})
						}
					}
				}
			}
		}
		// keys for the "with keys" generator
		type kp struct {
			priv any
			pub  *fdoshared.FdoPublicKey
		}
		kps := map[int]kp{}
		for _, o := range ownSgs {
			p, q, err := fdoshared.GenerateVoucherKeypair(fdoshared.SgType(o))
			if err != nil {
				c.Violation("keypair", "%v", err)
				return
			}
			kps[o] = kp{p, q}
		}
		c.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			who := fmt.Sprintf("device %d owner %d test %q keys=%v #%d", j.dev, j.own, j.id, j.keys, j.n)
			base, err := fdoshared.NewWawDeviceCredential(fdoshared.SgType(j.dev))
			if !c.Must(err == nil, "new-credential", "%s: %v", who, err) {
				return
			}
			checkCred(c, who+" base", j.dev, *base)
			before := ref.Enc(mustRaw(base))
			var dv *fdoshared.DeviceCredAndVoucher
			p := kit.Try(func() {
				if j.keys {
					k := kps[j.own]
					dv, err = device.NewVirtualDeviceAndVoucherWithKeys(*base, k.priv, k.pub, fdoshared.SgType(j.own), rvi, j.id)
				} else {
					dv, err = device.NewVirtualDeviceAndVoucher(*base, fdoshared.SgType(j.own), rvi, j.id)
				}
			})
			c.Eval(fmt.Sprintf("%d/%d/%s/%v", j.dev, j.own, j.id, j.keys))
			if !c.Must(p == "" && err == nil && dv != nil, "generate", "%s: err=%v %s", who, err, p) {
				return
			}
			c.Must(bytes.Equal(before, ref.Enc(mustRaw(base))), "source-credential-changed", "%s: generating the voucher changed the credential it was generated from", who)
			hh, hm := hashFor(j.dev, j.own)
			c.Must(int(dv.WawDeviceCredential.DCHashAlg) == hh && int(dv.WawDeviceCredential.DCHmacAlg) == hm, "hash-types", "%s: hash %d hmac %d, specified %d %d", who, dv.WawDeviceCredential.DCHashAlg, dv.WawDeviceCredential.DCHmacAlg, hh, hm)
			if j.id == testcom.NULL_TEST {
				genuine(c, who, j.dev, dv, info)
				algorithms(c, who, hh, dv)
				if j.keys {
					var v ref.Raw
					sut.ToRef(dv.VoucherDBEntry.Voucher, &v)
					x, _ := ref.ParseVoucher(v)
					o, _ := x.Validate()
					var want ref.Raw
					sut.ToRef(kps[j.own].pub, &want)
					c.Must(bytes.Equal(ref.Enc(o), want), "given-owner", "%s: the final owner is not the given key", who)
				}
				if j.n == 0 {
					roundTrip(c, who, dv)
				}
				c.Sample("genuine", "%s entries=%d", who, len(dv.VoucherDBEntry.Voucher.OVEntryArray))
				return
			}
			// negative: the credential stays a usable device, the voucher must not
			checkCred(c, who+" credential", j.dev, dv.WawDeviceCredential)
			why := defect(dv)
			c.Must(why != "", "negative-voucher-genuine-"+string(j.id), "%s: the negative voucher has no defect", who)
			c.Count("negative voucher")
			c.Sample("negative "+string(j.id), "%s", why)
		})
		c.Require("genuine voucher", 20)
		c.Require("negative voucher", 200)
		reg.vary(c, "guid", 16, 4)
		reg.vary(c, "secret", 32, 0)
		reg.vary(c, "secret", 48, 0)
		c.Require("bytes with variety", 12)
		guids(c)
		files(c)
		refuse(c)
		c.Require("round trip", 10)
	})
}

func mustRaw(v any) ref.Raw {
	var b ref.Raw
	if err := sut.ToRef(v, &b); err != nil {
		panic(err)
	}
	return b
}

func defect(dv *fdoshared.DeviceCredAndVoucher) string {
	b, err := fdoshared.CborCust.Marshal(dv.VoucherDBEntry.Voucher)
	if err != nil {
		return "unencodable: " + err.Error()
	}
	v, err := ref.ParseVoucher(b)
	if err != nil {
		return "parse: " + err.Error()
	}
	if _, err := v.Validate(); err != nil {
		return err.Error()
	}
	if _, err := ref.ValidChain(*v.Chain); err != nil {
		return "chain: " + err.Error()
	}
	return ""
}

func same(a, b any) bool { return bytes.Equal(mustRaw(a), mustRaw(b)) }

func roundTrip(c *kit.Check, who string, dv *fdoshared.DeviceCredAndVoucher) {
	var pemb []byte
	var err error
	var e *fdoshared.VoucherDBEntry
	p := kit.Try(func() {
		pemb, err = device.MarshalVoucherAndPrivateKey(dv.VoucherDBEntry)
		if err == nil {
			e, err = common.DecodePemVoucherAndKey(string(pemb))
		}
	})
	if c.Must(p == "" && err == nil && e != nil, "pem-round-trip", "%s: %v %s", who, err, p) {
		c.Must(same(e.Voucher, dv.VoucherDBEntry.Voucher), "pem-voucher", "%s: the voucher read back differs", who)
		c.Must(bytes.Equal(e.PrivateKeyX509, dv.VoucherDBEntry.PrivateKeyX509), "pem-key", "%s: the key read back differs", who)
	}
	// private key codec
	priv := private(dv.VoucherDBEntry.PrivateKeyX509)
	var back any
	p = kit.Try(func() { back, err = fdoshared.ExtractPrivateKey(dv.VoucherDBEntry.PrivateKeyX509) })
	c.Must(p == "" && err == nil && bytes.Equal(pubBytes(back), pubBytes(priv)), "private-key", "%s: ExtractPrivateKey: %v %s", who, err, p)
	// stores
	db := sut.MemDB()
	defer db.Close()
	vdb := dodbs.NewVoucherDB(db)
	err = vdb.Save(dv.VoucherDBEntry)
	got, err2 := vdb.Get(dv.WawDeviceCredential.DCGuid)
	c.Must(err == nil && err2 == nil && got != nil && same(*got, dv.VoucherDBEntry), "voucher-store", "%s: %v %v", who, err, err2)
	ddb := dbs.NewDeviceBaseDB(db)
	err = ddb.Save(dv.WawDeviceCredential)
	d, err2 := ddb.Get(dv.WawDeviceCredential.DCGuid)
	c.Must(err == nil && err2 == nil && d != nil && same(*d, dv.WawDeviceCredential), "credential-store", "%s: %v %v", who, err, err2)
	// from the stored identity: a genuine pair for that very device
	v2, err := ddb.GetVANDV(dv.WawDeviceCredential.DCGuid, testcom.NULL_TEST)
	if c.Must(err == nil && v2 != nil, "vandv", "%s: %v", who, err) {
		c.Must(defect(v2) == "", "vandv-invalid", "%s: %s", who, defect(v2))
		c.Must(v2.WawDeviceCredential.DCGuid == dv.WawDeviceCredential.DCGuid, "vandv-guid", "%s", who)
	}
	n, err := ddb.GetVANDV(dv.WawDeviceCredential.DCGuid, testcom.FIDO_TEST_VOUCHER_ENTRY_BAD_SIGNATURE)
	if c.Must(err == nil && n != nil, "vandv", "%s: %v", who, err) {
		c.Must(defect(n) != "", "vandv-negative", "%s: no defect", who)
	}
	c.Count("round trip")
	c.Eval("roundtrip " + who)
}

func guids(c *kit.Check) {
	seen := map[fdoshared.FdoGuid]bool{}
	for i := 0; i < c.N(20000, 400000); i++ {
		for _, g := range []fdoshared.FdoGuid{fdoshared.NewFdoGuid_FIDO(), fdoshared.NewFdoGuid()} {
			c.Must(!seen[g], "guid-repeats", "GUID %x generated twice", g)
			seen[g] = true
		}
	}
	c.CountN("guid", len(seen))
	c.Eval("guids")
}

// files: the working directory is the check's scratch directory.
func files(c *kit.Check) {
	rvi := rvinfo()
	for i := 0; i < c.N(6, 40); i++ {
		os.RemoveAll("./_dis")
		os.RemoveAll("./_vouchers")
		os.MkdirAll("./_dis", 0o755)
		os.MkdirAll("./_vouchers", 0o755)
		sg := []fdoshared.SgType{-7, -35}[i%2]
		own := []fdoshared.SgType{-7, -35, -257}[i%3]
		d, err := fdoshared.NewWawDeviceCredential(sg)
		if err != nil {
			c.Violation("new-credential", "%v", err)
			return
		}
		err = device.GenerateAndSaveDeviceCredAndVoucher(*d, own, rvi, testcom.NULL_TEST)
		if !c.Must(err == nil, "save-files", "%v", err) {
			return
		}
		vf, _ := filepath.Glob("./_vouchers/*.voucher.pem")
		df, _ := filepath.Glob("./_dis/*.dis.pem")
		if !c.Must(len(vf) == 1 && len(df) == 1, "save-files", "files: %v %v", vf, df) {
			return
		}
		vb, _ := os.ReadFile(vf[0])
		e, err := common.DecodePemVoucherAndKey(string(vb))
		cr, err2 := device.LoadLocalCredentials()
		if !c.Must(err == nil && err2 == nil && e != nil, "load-files", "%v %v", err, err2) {
			return
		}
		c.Must(cr.DCGuid == d.DCGuid, "file-guid", "credential file is for %x", cr.DCGuid)
		genuine(c, fmt.Sprintf("file %d", i), int(sg), &fdoshared.DeviceCredAndVoucher{VoucherDBEntry: *e, WawDeviceCredential: cr}, mustRaw(rvi))
		// the files hold exactly the encoded values
		blk, rest := pem.Decode(vb)
		c.Must(blk != nil && bytes.Equal(blk.Bytes, mustRaw(e.Voucher)), "file-voucher", "voucher in the file differs from the value read")
		kb, _ := pem.Decode(rest)
		c.Must(kb != nil && bytes.Equal(kb.Bytes, e.PrivateKeyX509), "file-key", "key in the file differs")
		db, _ := os.ReadFile(df[0])
		dblk, _ := pem.Decode(db)
		c.Must(dblk != nil && bytes.Equal(dblk.Bytes, mustRaw(cr)), "file-credential", "credential in the file differs")
		c.Count("round trip")
		c.Eval(fmt.Sprintf("files %d %d", sg, own))
		// another device's files never take their place, however alike the GUIDs
		for _, at := range []int{0, 1, 7, 14, 15} {
			n, err := fdoshared.NewWawDeviceCredential(fdoshared.SgType(-7))
			if err != nil {
				c.Violation("new-credential", "%v", err)
				return
			}
			n.DCGuid = d.DCGuid
			n.DCGuid[at] ^= 0x11
			err = device.GenerateAndSaveDeviceCredAndVoucher(*n, -7, rvi, testcom.NULL_TEST)
			c.Must(err == nil, "save-files", "%v", err)
		}
		vf, _ = filepath.Glob("./_vouchers/*.voucher.pem")
		all, _ := filepath.Glob("./_dis/*.dis.pem")
		c.Must(len(vf) == 6 && len(all) == 6, "save-files", "files of six devices: %v %v", vf, all)
		for _, f := range append(vf, all...) {
			if f != df[0] {
				os.Remove(f)
			}
		}
		c.Eval("files of like GUIDs")
		// damaged credential files
		if i == 0 {
			for _, bad := range [][]byte{{}, []byte("no pem"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: dblk.Bytes}), pem.EncodeToMemory(&pem.Block{Type: dblk.Type, Bytes: dblk.Bytes[:len(dblk.Bytes)/2]})} {
				os.WriteFile(df[0], bad, 0o644)
				var err error
				p := kit.Try(func() { _, err = device.LoadLocalCredentials() })
				c.Must(p == "" && err != nil, "damaged-credential-file", "file %q: err=%v %s", kit.Hex(bad), err, p)
				c.Eval("damaged")
			}
		}
	}
	os.RemoveAll("./_dis")
	os.RemoveAll("./_vouchers")
}

func refuse(c *kit.Check) {
	for _, sg := range []fdoshared.SgType{-257, -258, 90, 91, 0, 7, -37} {
		var err error
		p := kit.Try(func() { _, err = fdoshared.NewWawDeviceCredential(sg) })
		c.Must(p == "" && err != nil, "unsupported-device-type", "sg %d: err=%v %s", sg, err, p)
		c.Eval(fmt.Sprint("refuse ", sg))
	}
	for _, sg := range []fdoshared.SgType{90, 91, 0, 7, -37} {
		d, _ := fdoshared.NewWawDeviceCredential(-7)
		var err error
		p := kit.Try(func() { _, err = device.NewVirtualDeviceAndVoucher(*d, sg, rvinfo(), testcom.NULL_TEST) })
		c.Must(err != nil && !strings.Contains(p, "panic"), "unsupported-owner-type", "sg %d: err=%v %s", sg, err, p)
		c.Eval(fmt.Sprint("refuse owner ", sg))
	}
}
