package sut

import (
	"bytes"
	"fmt"
	mrand "math/rand/v2"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/dgraph-io/badger/v4"
)

// Proc is a running instance of the program.
type Proc struct {
	URL, Dir string
	cmd      *exec.Cmd
	mu       sync.Mutex
	out      bytes.Buffer
	done     chan struct{}
}

func (p *Proc) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.out.Len() < 1<<22 {
		p.out.Write(b)
	}
	return len(b), nil
}

func (p *Proc) Output() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

var serving sync.Map // directories with a running server

// Settle waits until nobody holds the lock of the database in dir: a process that another goroutine is just starting keeps,
// between fork and exec, what was open here.
func Settle(dir string) {
	if _, ok := serving.Load(dir); ok {
		return
	}
	f, err := os.Open(filepath.Join(dir, "badger.local.db"))
	if err != nil {
		return
	}
	defer f.Close()
	for i := 0; i < 400; i++ {
		if syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) == nil {
			syscall.Flock(int(f.Fd()), syscall.LOCK_UN)
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// OpenDir opens the program's database in its working directory (only while it is not running).
func OpenDir(dir string) (*badger.DB, error) {
	Settle(dir)
	o := badger.DefaultOptions(filepath.Join(dir, "badger.local.db"))
	o.Logger = nil
	db, err := badger.Open(o)
	if err != nil { // as the program does: a memtable file left empty by a kill is repaired by the opening that fails
		db, err = badger.Open(o)
	}
	return db, err
}

// FreePort finds a loopback port.
func FreePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		// below the range clients and httptest draw from, and never twice: pooled connections to a former server
		// on the port would fail
		n := 10000 + mrand.IntN(22000)
		if portUsed[n] {
			continue
		}
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", n))
		if err != nil {
			continue
		}
		l.Close()
		portUsed[n] = true
		return n
	}
}

var (
	portMu   sync.Mutex
	portUsed = map[int]bool{}
)

// Serve starts the program's server in dir and waits until it answers.
func Serve(dir string, env []string) (p *Proc, err error) {
	for i := 0; i < 5; i++ {
		p, err = serve(dir, env)
		if err == nil || !strings.Contains(err.Error(), "address already in use") {
			break
		}
	}
	return
}

func serve(dir string, env []string) (*Proc, error) {
	bin, err := BuildCLI()
	if err != nil {
		return nil, err
	}
	Settle(dir)
	port := FreePort()
	p := &Proc{URL: fmt.Sprintf("http://127.0.0.1:%d", port), Dir: dir, done: make(chan struct{})}
	p.cmd = exec.Command(bin, "serve", "--force")
	p.cmd.Dir = dir
	p.cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, fmt.Sprintf("PORT=%d", port), "GORACE=" + os.Getenv("GORACE")}, env...)
	p.cmd.Stdout, p.cmd.Stderr = p, p
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	serving.Store(dir, true)
	go func() { p.cmd.Wait(); serving.Delete(dir); close(p.done) }()
	for i := 0; i < 1200; i++ {
		select {
		case <-p.done:
			return nil, fmt.Errorf("the server has ended: %s", tail(p.Output()))
		default:
		}
		r, err := http.Get(p.URL + "/fdo/101/msg/20")
		if err == nil {
			r.Body.Close()
			return p, nil
		}
		time.Sleep(50 * time.Millisecond)
	}
	p.Kill()
	return nil, fmt.Errorf("the server does not answer: %s", tail(p.Output()))
}

func tail(s string) string {
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

// Kill ends the server at once, like a crash.
func (p *Proc) Kill() {
	p.cmd.Process.Kill()
	<-p.done
}

// Alive tells whether the process still runs.
func (p *Proc) Alive() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}
