package sut

import (
	"bytes"
	"context"
	"encoding/pem"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif.local/harness/ref"
)

// Cred mirrors the device credential file.
type Cred struct {
	_         struct{} `cbor:",toarray"`
	Ver       int
	HashAlg   int
	Secret    []byte
	HmacAlg   int
	Info      string
	Guid      ref.Guid
	PubHash   ref.Hash
	Priv      []byte
	Chain     [][]byte
	ChainHash ref.Hash
	Sig       ref.SigInfo
}

// CredOf encodes the credential a device got when v was made for it.
func CredOf(d *ref.Device, v ref.Voucher) []byte {
	h, err := v.Hdr()
	if err != nil {
		panic(err)
	}
	return ref.Enc(Cred{Ver: 101, HashAlg: d.HashTyp, Secret: d.HmacKey, HmacAlg: d.HmacTyp, Info: d.Info, Guid: d.Guid, PubHash: ref.MkHash(d.HashTyp, ref.Enc(h.Pub)),
		Priv: d.Key.PKCS8(), Chain: d.Chain, ChainHash: ref.ChainHash(d.HashTyp, d.Chain), Sig: ref.SigInfo{Sg: d.Key.Sg, Info: []byte{}}})
}

func Credential(d *ref.Device, v ref.Voucher) (w fdoshared.WawDeviceCredential, err error) {
	err = fdoshared.CborCust.Unmarshal(CredOf(d, v), &w)
	return
}

// CredFile is the credential as the command line tool reads it.
func CredFile(d *ref.Device, v ref.Voucher) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "WAW FDO DEVICE CREDENTIAL", Bytes: CredOf(d, v)})
}

// Scratch is the directory of this run; the check script removes it.
func Scratch() string {
	if s := os.Getenv("VERIF_SCRATCH"); s != "" {
		return s
	}
	d, err := os.MkdirTemp("", "verif-scratch")
	if err != nil {
		panic(err)
	}
	os.Setenv("VERIF_SCRATCH", d)
	return d
}

var cliOnce sync.Once
var cliBin string
var cliErr error

// RaceCLI builds the program with the race detector.
var RaceCLI bool

// BuildCLI builds the program from /repo's working tree.
func BuildCLI() (string, error) {
	cliOnce.Do(func() {
		bin := filepath.Join(Scratch(), "fdo-cli")
		args, cgo := []string{"build", "-buildvcs=false", "-o", bin}, "CGO_ENABLED=0"
		if RaceCLI {
			args, cgo = append(args, "-race"), "CGO_ENABLED=1"
		}
		cmd := exec.Command("go", append(args, ".")...)
		cmd.Dir = "/repo"
		cmd.Env = append(os.Environ(), cgo)
		if out, err := cmd.CombinedOutput(); err != nil {
			cliErr = fmt.Errorf("building the program: %v\n%s", err, out)
			return
		}
		cliBin = bin
	})
	return cliBin, cliErr
}

// Run is one finished execution of the program.
type Run struct {
	Out, Err string
	Code     int
	TimedOut bool
}

func (r Run) Text() string { return r.Out + r.Err }

// Crashed tells whether the program died of a Go panic or fatal error.
func (r Run) Crashed() bool {
	return strings.Contains(r.Err, "panic: ") || strings.Contains(r.Err, "fatal error: ") || r.Code == 2 && strings.Contains(r.Err, "goroutine ")
}

func (r Run) Tail() string {
	t := r.Text()
	if i := strings.Index(t, "panic: "); i >= 0 && len(t)-i > 700 {
		return t[i : i+700]
	}
	if len(t) > 700 {
		t = t[len(t)-700:]
	}
	return t
}

// CLI runs the program in dir, which becomes its database and output directory.
func CLI(dir string, env []string, args ...string) (Run, error) {
	bin, err := BuildCLI()
	if err != nil {
		return Run{}, err
	}
	return run(bin, dir, env, args...)
}

func run(bin, dir string, env []string, args ...string) (Run, error) {
	Settle(dir)
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir}, env...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := Run{Out: o.String(), Err: e.String(), TimedOut: ctx.Err() != nil}
	if cmd.ProcessState != nil {
		r.Code = cmd.ProcessState.ExitCode()
	} else if err != nil {
		return r, err
	}
	return r, nil
}

var (
	faultOnce sync.Once
	faultBin  string
	faultErr  error
)

const faultMain = `package main

import (
	"errors"
	"os"
	"strconv"
	"sync/atomic"
	"syscall"

	"github.com/dgraph-io/badger/v4"
)

func init() {
	at, _ := strconv.ParseInt(os.Getenv("VERIF_WRITE"), 10, 64)
	if at == 0 {
		return
	}
	how := os.Getenv("VERIF_HOW")
	var n atomic.Int64
	badger.VerifHook(func(db *badger.DB, write bool, key []byte) error {
		if !write {
			return nil
		}
		k := n.Add(1)
		if k < at || k > at && how != "fail on" {
			return nil
		}
		if how == "kill" {
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
			select {}
		}
		os.WriteFile("verif.failed", nil, 0o600)
		return errors.New("input/output error")
	})
}
`

// BuildFaultCLI builds the program on top of a database whose writes fail, or end the process, on demand
// (environment VERIF_WRITE: which, VERIF_HOW: "kill", "fail" or "fail on").
func BuildFaultCLI() (string, error) {
	faultOnce.Do(func() {
		dir := filepath.Join(Scratch(), "fault-cli")
		faultErr = func() error {
			if err := os.MkdirAll(dir, 0o700); err != nil {
				return err
			}
			for _, f := range []string{"go.mod", "go.sum"} {
				b, err := os.ReadFile("/repo/" + f)
				if err == nil {
					err = os.WriteFile(filepath.Join(dir, f), b, 0o600)
				}
				if err != nil {
					return err
				}
			}
			mod := filepath.Join(dir, "go.mod")
			if out, err := exec.Command(filepath.Join(os.Getenv("VERIF_ROOT"), "tools/faultbadger.sh"), mod).CombinedOutput(); err != nil {
				return fmt.Errorf("fault hooks: %v\n%s", err, out)
			}
			if err := os.WriteFile(filepath.Join(dir, "main.go"), []byte(faultMain), 0o600); err != nil {
				return err
			}
			over := fmt.Sprintf(`{"Replace": {"/repo/verif_fault_main.go": %q}}`, filepath.Join(dir, "main.go"))
			if err := os.WriteFile(filepath.Join(dir, "overlay.json"), []byte(over), 0o600); err != nil {
				return err
			}
			bin := filepath.Join(dir, "fdo-cli")
			cmd := exec.Command("go", "build", "-buildvcs=false", "-modfile", mod, "-overlay", filepath.Join(dir, "overlay.json"), "-o", bin, ".")
			cmd.Dir = "/repo"
			cmd.Env = append(os.Environ(), "CGO_ENABLED=0")
			if out, err := cmd.CombinedOutput(); err != nil {
				return fmt.Errorf("building the program with fault hooks: %v\n%s", err, out)
			}
			faultBin = bin
			return nil
		}()
	})
	return faultBin, faultErr
}

// FaultCLI is CLI with a fault at the at-th write.
func FaultCLI(dir string, at int, how string, args ...string) (Run, error) {
	bin, err := BuildFaultCLI()
	if err != nil {
		return Run{}, err
	}
	return run(bin, dir, []string{fmt.Sprint("VERIF_WRITE=", at), "VERIF_HOW=" + how}, args...)
}
