// P26: seeding provides enough distinct device identities for every test batch.
package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/x509"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"os/exec"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dgraph-io/badger/v4"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	tdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"

	"encoding/hex"

	"verif.local/harness/kit"
	"verif.local/harness/ref"
	"verif.local/harness/sut"
)

const full = 10000 // identities of each key type
const batch = 20   // identities a rendezvous test gets of each type

var types = []fdoshared.SgType{fdoshared.StSECP256R1, fdoshared.StSECP384R1}

func list(r *rand.Rand, n int) (l fdoshared.FdoGuidList) {
	for i := 0; i < n; i++ {
		var g fdoshared.FdoGuid
		copy(g[:], kit.Bytes(r, 16))
		l = append(l, g)
	}
	return
}

// chosen judges one selection.
func chosen(c *kit.Check, what string, from, got fdoshared.FdoGuidList, size int) {
	want := max(0, min(size, len(from)))
	c.Must(len(got) == want, what+"-size", "%s of %d out of %d has %d entries", what, size, len(from), len(got))
	in := map[fdoshared.FdoGuid]bool{}
	for _, g := range from {
		in[g] = true
	}
	seen := map[fdoshared.FdoGuid]bool{}
	for _, g := range got {
		c.Must(in[g], what+"-foreign", "%s of %d out of %d has a foreign entry", what, size, len(from))
		c.Must(!seen[g], what+"-repeated", "%s of %d out of %d repeats an entry", what, size, len(from))
		seen[g] = true
	}
	c.Count(what)
}

// selections tries every length and size of a square, and bigger ones.
func selections(c *kit.Check, r *rand.Rand, n, size int) {
	src := list(r, n)
	if n == 0 && r.IntN(2) == 0 {
		src = fdoshared.FdoGuidList{}
	}
	orig := slices.Clone(src)
	if p := kit.Try(func() {
		for _, s := range []struct {
			name string
			f    func(int) fdoshared.FdoGuidList
		}{{"batch", src.GetRandomBatch}, {"selection", src.GetRandomSelection}} {
			g := s.f(size)
			chosen(c, s.name, orig, g, size)
			c.Must(slices.Equal(src, orig), s.name+"-source", "%s of %d out of %d changes the list it selects from", s.name, size, n)
			c.Eval(fmt.Sprintf("%s/%d/%d", s.name, n, size))
			copy(src, orig)
		}
		ids := fdoshared.FdoSeedIDs{types[0]: src, types[1]: list(r, (n*7+size)%31)}
		other := slices.Clone(ids[types[1]])
		b := ids.GetTestBatch(size)
		chosen(c, "test batch", orig, b[types[0]], size)
		chosen(c, "test batch", other, b[types[1]], size)
		c.Must(slices.Equal(ids[types[0]], orig) && slices.Equal(ids[types[1]], other), "test-batch-source", "a test batch of %d out of %d and %d changes the lists", size, n, len(other))
		c.Must(len(b) == 2, "test-batch-types", "a test batch has %d types", len(b))
		g := ids.GetRandomTestGuid()
		if n+len(other) > 0 {
			c.Must(slices.Contains(orig, g) || slices.Contains(other, g), "random-guid-foreign", "a random GUID of lists of %d and %d is foreign", n, len(other))
		}
		if n > 0 {
			c.Must(slices.Contains(orig, ids.GetRandomTestGuidForSgType(types[0])), "random-guid-of-type-foreign", "a random GUID of a list of %d is foreign", n)
		} else {
			ids.GetRandomTestGuidForSgType(types[0]) // any answer, but an answer
		}
	}); p != "" {
		c.Violation("panic-selection", "selecting %d out of %d: %s", size, n, p)
	}
}

// every entry can be chosen.
func reachable(c *kit.Check, r *rand.Rand, n int) {
	src := list(r, n)
	hit := map[string]map[fdoshared.FdoGuid]bool{"batch": {}, "selection": {}, "random guid": {}, "random guid of a type": {}}
	p := kit.Try(func() {
		ids := fdoshared.FdoSeedIDs{types[0]: src}
		for i := 0; i < 60*n; i++ {
			for _, g := range src.GetRandomBatch(1) {
				hit["batch"][g] = true
			}
			for _, g := range src.GetRandomSelection(1) {
				hit["selection"][g] = true
			}
			hit["random guid"][ids.GetRandomTestGuid()] = true
			hit["random guid of a type"][ids.GetRandomTestGuidForSgType(types[0])] = true
		}
	})
	if p != "" {
		c.Violation("panic-selection", "selecting one of %d: %s", n, p)
		return
	}
	for k, m := range hit {
		for i, g := range src {
			c.Must(m[g], "never-chosen-"+k, "entry %d of %d is never chosen by %s in %d draws", i, n, k, 60*n)
		}
	}
	c.Count("reachability")
}

// working checks a stored credential on its own.
func working(c *kit.Check, sg fdoshared.SgType, g fdoshared.FdoGuid, d *fdoshared.WawDeviceCredential) (key, secret []byte, ok bool) {
	var x sut.Cred
	if err := sut.ToRef(d, &x); !c.Must(err == nil, "credential-encoding", "%x: %v", g, err) {
		return
	}
	c.Must(bytes.Equal(x.Guid[:], g[:]), "credential-guid", "%x names %x", g, x.Guid)
	c.Must(x.Sig.Sg == int(sg), "credential-type", "%x of type %d names type %d", g, sg, x.Sig.Sg)
	k, err := x509.ParsePKCS8PrivateKey(x.Priv)
	if err != nil {
		k, err = x509.ParseECPrivateKey(x.Priv)
	}
	ek, isEC := k.(*ecdsa.PrivateKey)
	if !c.Must(err == nil && isEC, "credential-key", "%x: key: %v", g, err) {
		return
	}
	c.Must(ek.Curve.Params().BitSize == map[fdoshared.SgType]int{types[0]: 256, types[1]: 384}[sg], "credential-key-type", "%x of type %d has a key of %d bits", g, sg, ek.Curve.Params().BitSize)
	leaf, err := ref.ValidChain(x.Chain)
	if !c.Must(err == nil, "credential-chain", "%x: %v", g, err) {
		return
	}
	p, _ := leaf.PublicKey.(*ecdsa.PublicKey)
	c.Must(p != nil && p.Equal(&ek.PublicKey), "credential-certificate", "%x: the certificate is for another key", g)
	c.Must(x.ChainHash.Is(bytes.Join(x.Chain, nil)), "credential-chain-hash", "%x: chain hash", g)
	return x.Priv, x.Secret, true
}

// seeded judges a database after seeding; every stride-th credential is examined in depth.
func seeded(c *kit.Check, r *rand.Rand, who string, db *badger.DB, stride int) {
	cfg, err := dbs.NewConfigDB(db).Get()
	if !c.Must(err == nil, "no-config", "%s: no configuration: %v", who, err) {
		return
	}
	base := dbs.NewDeviceBaseDB(db)
	keys, secrets, guids := map[string]bool{}, map[string]bool{}, map[fdoshared.FdoGuid]bool{}
	for _, sg := range types {
		l := cfg.SeededGuids[sg]
		c.Must(len(l) >= full, "too-few", "%s: %d identities of type %d instead of %d", who, len(l), sg, full)
		off := r.IntN(stride)
		for i, g := range l {
			c.Must(!guids[g], "guid-repeated", "%s: identity %x is listed twice", who, g)
			guids[g] = true
			d, err := base.Get(g)
			if !c.Must(err == nil && d.DCGuid == g, "not-stored", "%s: identity %x of type %d cannot be read: %v", who, g, sg, err) {
				continue
			}
			c.Count("identities read")
			c.Must(!keys[string(d.DCPrivateKeyDer)], "key-repeated", "%s: identity %x has the key of another", who, g)
			c.Must(!secrets[string(d.DCHmacSecret)], "secret-repeated", "%s: identity %x has the secret of another", who, g)
			keys[string(d.DCPrivateKeyDer)], secrets[string(d.DCHmacSecret)] = true, true
			if i%stride == off {
				working(c, sg, g, d)
				c.Eval(fmt.Sprintf("%s/%x", who, g))
				c.Count("credentials examined")
			}
		}
		// what the tests make of it
		for i := 0; i < 5 && len(l) > 0; i++ {
			g := l[r.IntN(len(l))]
			dv, err := base.GetVANDV(g, testcom.NULL_TEST)
			if !c.Must(err == nil, "no-voucher", "%s: no voucher for %x: %v", who, g, err) {
				continue
			}
			var v ref.Voucher
			err = sut.ToRef(dv.VoucherDBEntry.Voucher, &v)
			var verdict error
			if err == nil {
				_, verdict = v.Validate()
			}
			h, e := v.Hdr()
			c.Must(err == nil && verdict == nil && e == nil && bytes.Equal(h.Guid[:], g[:]), "voucher", "%s: voucher for %x: %v %v %v", who, g, err, verdict, e)
			c.Count("vouchers made")
		}
	}
	b := cfg.SeededGuids.GetTestBatch(batch)
	for _, sg := range types {
		chosen(c, "seeded batch", cfg.SeededGuids[sg], b[sg], batch)
	}
}

// command seeds with the real program: once, again, and after interruptions.
func command(c *kit.Check, r *rand.Rand, kills, stride int, serve bool) {
	bin, err := sut.BuildCLI()
	if err != nil {
		c.Broken("%v", err)
		return
	}
	dir, err := os.MkdirTemp(sut.Scratch(), "seed")
	if err != nil {
		c.Broken("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	for i := 0; i < kills; i++ {
		sut.Settle(dir)
		cmd := exec.Command(bin, "seed")
		cmd.Dir = dir
		cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir}
		if err := cmd.Start(); err != nil {
			c.Broken("%v", err)
			return
		}
		t := time.AfterFunc(time.Duration(3900+r.IntN(4000))*time.Millisecond, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		if t.Stop(); err != nil {
			c.Count("seeding interrupted")
		}
	}
	who := fmt.Sprintf("seed after %d interruptions", kills)
	look := func(who string) (*dbs.MainConfig, bool) {
		db, err := sut.OpenDir(dir)
		if !c.Must(err == nil, "unusable", "%s: the database cannot be opened: %v", who, err) {
			return nil, false
		}
		defer db.Close()
		seeded(c, r, who, db, stride)
		cfg, err := dbs.NewConfigDB(db).Get()
		return cfg, err == nil
	}
	run := func(who string) bool {
		x, err := sut.CLI(dir, nil, "seed")
		if err != nil {
			c.Broken("%v", err)
			return false
		}
		c.Count("seed commands")
		return c.Must(x.Code == 0 && !x.Crashed(), "seed-fails", "%s: exit %d: %s", who, x.Code, x.Tail())
	}
	if serve {
		p, err := sut.Serve(dir, nil)
		if !c.Must(err == nil, "serve-fails", "the server does not start on a fresh directory: %v", err) {
			return
		}
		p.Kill()
		who = "serve on a fresh directory"
		c.Count("server seeded")
	} else if !run(who) {
		return
	}
	first, ok := look(who)
	if !ok || !run(who+" again") {
		return
	}
	again, ok := look(who + " again")
	if !ok {
		return
	}
	_ = again
	_ = first
	c.Count("seeded again")
}

// stops lets the database stop the seed command, or fail it, at chosen writes; afterwards it must be complete again.
func stops(c *kit.Check, r *rand.Rand, how string, at, stride int) {
	dir, err := os.MkdirTemp(sut.Scratch(), "seed")
	if err != nil {
		c.Broken("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	who := fmt.Sprintf("seed with write %d: %s", at, how)
	x, err := sut.FaultCLI(dir, at, how, "seed")
	if err != nil {
		c.Broken("%v", err)
		return
	}
	complete := func() {
		db, err := sut.OpenDir(dir)
		if !c.Must(err == nil, "unusable", "%s: the database cannot be opened: %v", who, err) {
			return
		}
		defer db.Close()
		seeded(c, r, who, db, stride)
	}
	_, err = os.Stat(filepath.Join(dir, "verif.failed"))
	hit := err == nil || x.Code == -1
	if !hit && x.Code == 0 { // fewer writes than that
		complete()
		c.Count("seed commands with all writes before the fault")
		return
	}
	c.Count("seed commands with a fault: " + how)
	c.Eval(who)
	if how != "kill" {
		c.Must(!x.Crashed(), "seed-crash", "%s: %s", who, x.Tail())
		if x.Code == 0 { // it says that all is well
			complete()
		}
	}
	if x, err = sut.CLI(dir, nil, "seed"); err != nil {
		c.Broken("%v", err)
		return
	}
	if c.Must(x.Code == 0 && !x.Crashed(), "seed-fails", "%s, then again: exit %d: %s", who, x.Code, x.Tail()) {
		who += ", then again"
		complete()
	}
}

// creations makes tests from a configuration with n identities of each type.
func creations(c *kit.Check, r *rand.Rand, n [2]int, missing bool) {
	s := sut.New(sut.Opt{API: true})
	defer s.Close()
	cfg := dbs.MainConfig{SeededGuids: fdoshared.FdoSeedIDs{}}
	base := dbs.NewDeviceBaseDB(s.DB)
	for i, sg := range types {
		if n[i] == 0 && r.IntN(2) == 0 {
			continue // no list at all
		}
		cfg.SeededGuids[sg] = fdoshared.FdoGuidList{}
		for j := 0; j < n[i]; j++ {
			d := cred(sg)
			cfg.SeededGuids[sg] = append(cfg.SeededGuids[sg], d.DCGuid)
			if err := base.Save(d); err != nil {
				c.Broken("%v", err)
				return
			}
		}
	}
	cs := dbs.NewConfigDB(s.DB)
	if !missing {
		if err := cs.Save(cfg); err != nil {
			c.Broken("%v", err)
			return
		}
	}
	who := fmt.Sprintf("configuration of %d and %d identities (missing %v)", n[0], n[1], missing)
	u, err := s.Login()
	if !c.Must(err == nil, "login", "%v", err) {
		return
	}
	reqs := tdbs.NewRequestTestDB(s.DB)
	rounds := 3
	for k := 0; k < rounds; k++ {
		x := u.CreateRVT(fmt.Sprintf("http://rv%d.example.org", k))
		if missing {
			c.Must(x.Refused(), "created-unseeded", "%s: %s", who, x)
			continue
		}
		if n[0]+n[1] == 0 {
			c.Must(x.Err == nil, "create-rvt", "%s: %s", who, x)
			continue
		}
		c.Must(x.Ok(), "create-rvt", "%s: %s", who, x)
	}
	l, err := u.List("rvt")
	c.Must(err == nil, "list", "%v", err)
	for _, it := range l {
		for to := 0; to < 2; to++ {
			id, _ := hex.DecodeString(it.Inst(to).Id)
			inst, err := reqs.Get(id)
			if !c.Must(err == nil, "instance", "%s: %v", who, err) {
				continue
			}
			for i, sg := range types {
				chosen(c, "test identities", cfg.SeededGuids[sg], inst.FdoSeedIDs[sg], batch)
				c.Eval(fmt.Sprintf("create/%d/%d", to, n[i]))
			}
		}
	}
	for i, own := range []int{ref.SgES256, ref.SgES384, ref.SgRS2048, ref.SgRS3072} {
		x := u.CreateDOT(fmt.Sprintf("http://do%d.example.org", i), ref.GenKeyCached(own))
		switch {
		case missing || n[0]+n[1] == 0:
			c.Must(x.Refused(), "created-unseeded", "%s: dot/create: %s", who, x)
		case n[0] > 0 && n[1] > 0:
			c.Must(x.Ok(), "create-dot", "%s: dot/create with owner type %d: %s", who, own, x)
		default:
			// a type is missing: either answer, but an answer
			c.Must(x.Ok() || x.Refused(), "create-dot", "%s: dot/create with owner type %d: %s", who, own, x)
		}
		c.Count("owner test creations")
	}
	if !missing {
		after, err := cs.Get()
		c.Must(err == nil, "config-gone", "%s: %v", who, err)
		for _, sg := range types {
			c.Must(err == nil && slices.Equal(after.SeededGuids[sg], cfg.SeededGuids[sg]), "config-changed", "%s: the configuration has changed", who)
		}
	}
	for _, p := range s.Panics() {
		c.Violation("panic-create", "%s: %s: %s\n%s", who, p.Path, p.Value, p.Stack)
	}
	c.Count("configurations")
}

// cred is one of a pool of device credentials under an identity of its own.
var pool sync.Map
var poolN atomic.Int64

func cred(sg fdoshared.SgType) fdoshared.WawDeviceCredential {
	v, ok := pool.Load(sg)
	if !ok {
		d, err := fdoshared.NewWawDeviceCredential(sg)
		if err != nil {
			panic(err)
		}
		v, _ = pool.LoadOrStore(sg, *d)
	}
	d := v.(fdoshared.WawDeviceCredential)
	poolN.Add(1)
	d.DCGuid = fdoshared.NewFdoGuid_FIDO()
	return d
}

func main() {
	kit.Main("P26", func(c *kit.Check) {
		var works []func()
		for i := 0; i < c.N(2, 10); i++ {
			works = append(works, func() { command(c, c.Rand(fmt.Sprint("seed", i)), i%4, c.N(40, 5), false) })
		}
		for i := 0; i < c.N(6, 60); i++ {
			works = append(works, func() {
				r := c.Rand(fmt.Sprint("stop", i))
				at := 1 + r.IntN(2*full)
				switch r.IntN(4) {
				case 0:
					at = 1 + r.IntN(3)
				case 1:
					at = 2*full + 1 - r.IntN(3)
				}
				stops(c, r, []string{"kill", "fail", "fail on"}[i%3], at, c.N(200, 50))
			})
		}
		works = append(works, func() { command(c, c.Rand("serve"), 0, c.N(100, 20), true) })
		side := c.N(45, 90)
		for n := 0; n <= side; n++ {
			works = append(works, func() {
				r := c.Rand(fmt.Sprint("list", n))
				for size := -2; size <= side+5; size++ {
					for k := 0; k < c.N(1, 10); k++ {
						selections(c, r, n, size)
					}
				}
				if n > 0 && n < 20 {
					reachable(c, r, n)
				}
			})
		}
		for k := 0; k < c.N(40, 400); k++ {
			works = append(works, func() {
				r := c.Rand(fmt.Sprint("big", k))
				n := r.IntN(3000)
				selections(c, r, n, r.IntN(n+n/4+2))
			})
		}
		for n := 0; n <= c.N(23, 60); n++ {
			works = append(works, func() {
				r := c.Rand(fmt.Sprint("create", n))
				m := n
				if r.IntN(3) == 0 {
					m = r.IntN(45)
				}
				creations(c, r, [2]int{n, m}, false)
			})
		}
		works = append(works, func() { creations(c, c.Rand("missing"), [2]int{}, true) })
		c.Parallel(len(works), func(n int) { works[n]() })
		c.Rule = "one evaluation = one selection judged as a set, one creation judged by its stored identities, or one stored credential examined; distinct = (kind, list length, size) and (identity)"
		c.Assume = []string{"10000 identities per key type are a full set, as the program documents in its constants.", "The interruption of the seed command is by the clock, its verdict by the database alone."}
		c.Require("batch", 2000)
		c.Require("selection", 2000)
		c.Require("test batch", 4000)
		c.Require("reachability", 10)
		c.Require("identities read", 40000)
		c.Require("credentials examined", 500)
		c.Require("vouchers made", 20)
		c.Require("seeded again", 2)
		c.Require("seeding interrupted", 1)
		c.Require("server seeded", 1)
		c.Require("seed commands with a fault: kill", 1)
		c.Require("seed commands with a fault: fail", 1)
		c.Require("seed commands with a fault: fail on", 1)
		c.Require("configurations", 20)
		c.Require("owner test creations", 80)
	})
}
