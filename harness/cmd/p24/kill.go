package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif.local/harness/kit"
	"verif.local/harness/sut"
)

const writers = 5 // goroutines of the writer process, each with entries of its own

const gone = "DEL"

// plan is what the writer process is told.
type plan struct {
	Seed   uint64
	Ops    int // operations after which the process kills itself; 0: the parent does
	Delay  int // microseconds between that operation's begin and the kill
	Close  bool
	Opened int // microseconds after which the process dies when opening; 0 never
	Keys   [writers]map[string][]string
}

func die() {
	syscall.Kill(os.Getpid(), syscall.SIGKILL)
	select {}
}

// writer is the process that is killed: it writes and logs what it begins and what was acknowledged.
func writer() {
	dir := os.Getenv("VERIF_P24_DIR")
	var p plan
	b, err := os.ReadFile(filepath.Join(dir, "plan.json"))
	if err == nil {
		err = json.Unmarshal(b, &p)
	}
	if err != nil {
		panic(err)
	}
	lf, err := os.OpenFile(filepath.Join(dir, "log"), os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0o600)
	if err != nil {
		panic(err)
	}
	say := func(f string, a ...any) {
		if _, err := lf.WriteString(fmt.Sprintf(f, a...) + "\n"); err != nil {
			panic(err)
		}
	}
	if p.Opened > 0 {
		go func() { time.Sleep(time.Duration(p.Opened) * time.Microsecond); die() }()
	}
	h, err := openHandles(dir)
	if err != nil {
		say("E opening: %v", err)
		os.Exit(3)
	}
	say("O")
	var ops atomic.Int64
	var seq atomic.Int64
	var wg sync.WaitGroup
	var stop atomic.Bool
	for w := 0; w < writers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(p.Seed, uint64(w)))
			f := &filler{r: r, big: 400, unit: w*1000 + r.IntN(1000)}
			for k := 0; k < 3; k++ {
				f.vouchers = append(f.vouchers, voucherOf(r))
			}
			sts := stores()
			keys := map[*store][]string{}
			for _, st := range sts {
				for _, k := range p.Keys[w][st.name] {
					b, _ := hex.DecodeString(k)
					keys[st] = append(keys[st], string(b))
				}
			}
			for !stop.Load() {
				st := sts[r.IntN(len(sts))]
				if st.atMost > 0 && w != 0 {
					continue
				}
				var key string
				have := len(keys[st]) > 0
				if have {
					key = keys[st][r.IntN(len(keys[st]))]
				}
				n := seq.Add(1)
				begin := func(key, dig string) {
					say("B %d %d %s %s %s", n, w, strings.ReplaceAll(st.name, " ", "_"), name(key), dig)
					if o := ops.Add(1); p.Ops > 0 && int(o) == p.Ops {
						if p.Close {
							stop.Store(true)
							return
						}
						go func() { time.Sleep(time.Duration(p.Delay) * time.Microsecond); die() }()
					}
				}
				fail := func(what string, err error) { say("E %s of %s: %v", what, st.name, err); os.Exit(3) }
				switch x := r.IntN(10); {
				case have && x < 1 && st.del != nil:
					begin(key, gone)
					if err := st.del(h, key); err != nil {
						fail("deletion", err)
					}
					say("A %d %s %s", n, name(key), gone)
					for i := range keys[st] {
						if keys[st][i] == key {
							keys[st] = append(keys[st][:i:i], keys[st][i+1:]...)
							break
						}
					}
				case have && x < 3 && st.change != nil:
					old, err := st.get(h, key)
					if err != nil {
						fail("reading", err)
					}
					begin(key, "?")
					v, err := st.change(h, f, key, old)
					if err != nil {
						fail("change", err)
					}
					say("A %d %s %s", n, name(key), digest(v))
				case have && x < 6 && st.next != nil:
					old, err := st.get(h, key)
					if err != nil {
						fail("reading", err)
					}
					v := st.next(f, key, old)
					begin(key, digest(v))
					if _, err := st.save(h, r, key, false, v); err != nil {
						fail("replacement", err)
					}
					say("A %d %s %s", n, name(key), digest(v))
				default:
					if st.atMost > 0 && have {
						continue
					}
					k, v := st.fresh(f)
					isNew := true
					for _, o := range keys[st] {
						isNew = isNew && (o != k || k == "")
					}
					begin(k, digest(v))
					id, err := st.save(h, r, k, isNew, v)
					if err != nil {
						fail("saving", err)
					}
					say("A %d %s %s", n, name(id), digest(v))
					if isNew {
						keys[st] = append(keys[st], id)
					}
				}
			}
		}()
	}
	wg.Wait()
	// only a clean end comes here: close, killed on the way
	if p.Delay > 0 {
		go func() { time.Sleep(time.Duration(p.Delay) * time.Microsecond); die() }()
	}
	h.db.Close()
	say("C")
	die()
}

func name(key string) string {
	if key == "" {
		return "-"
	}
	return hex.EncodeToString([]byte(key))
}

// kills runs writers over several generations of one database each.
func kills(c *kit.Check) {
	exe, err := os.Executable()
	if err != nil {
		c.Broken("%v", err)
	}
	c.Parallel(c.N(8, 32), func(i int) {
		r := c.Rand(fmt.Sprint("kill", i))
		dir := filepath.Join(sut.Scratch(), fmt.Sprint("kill", i))
		os.MkdirAll(dir, 0o755)
		defer os.RemoveAll(dir)
		state := map[string]map[string]string{} // store -> key -> digest
		who := map[string]int{}
		for _, st := range stores() {
			state[st.name] = map[string]string{}
		}
		for round := 0; round < c.N(8, 24); round++ {
			if !generation(c, r, exe, dir, state, who, round) {
				return
			}
		}
	})
}

type pending struct{ store, key, dig string }

func generation(c *kit.Check, r *rand.Rand, exe, dir string, state map[string]map[string]string, who map[string]int, round int) bool {
	p := plan{Seed: r.Uint64()}
	for w := range p.Keys {
		p.Keys[w] = map[string][]string{}
	}
	for st, m := range state {
		for k, d := range m {
			if d != gone {
				w := who[st+"/"+k]
				p.Keys[w][st] = append(p.Keys[w][st], hex.EncodeToString([]byte(k)))
			}
		}
	}
	acks := 0
	how := ""
	switch x := r.IntN(10); {
	case x < 5:
		how, p.Ops, p.Delay = "in an operation", 1+r.IntN(400), r.IntN([]int{1, 60, 400, 3000}[r.IntN(4)])
	case x < 7:
		how, acks = "from outside", 1+r.IntN(300)
	case x < 9:
		how, p.Ops, p.Delay, p.Close = "while closing", 1+r.IntN(250), 1+r.IntN(60000), true
	default:
		how, p.Opened = "while opening", 1+r.IntN(40000)
	}
	b, _ := json.Marshal(p)
	logName := filepath.Join(dir, "log")
	os.Remove(logName)
	if err := os.WriteFile(filepath.Join(dir, "plan.json"), b, 0o600); err != nil {
		c.Broken("%v", err)
	}
	sut.Settle(dir)
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "VERIF_P24_DIR="+dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out strings.Builder
	cmd.Stderr = &out
	if err := cmd.Start(); err != nil {
		c.Broken("%v", err)
	}
	ended := make(chan struct{})
	go func() { cmd.Wait(); close(ended) }()
	t := time.NewTimer(5 * time.Minute)
	defer t.Stop()
wait:
	for {
		select {
		case <-ended:
			break wait
		case <-t.C:
			cmd.Process.Kill()
			<-ended
			c.Broken("a writer does not end (%s)", how)
		case <-time.After(time.Millisecond):
			if acks > 0 {
				if b, err := os.ReadFile(logName); err == nil && strings.Count(string(b), "\nA ") >= acks {
					cmd.Process.Kill()
					<-ended
					break wait
				}
			}
		}
	}
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); !ok || !ws.Signaled() || ws.Signal() != syscall.SIGKILL {
		lg, _ := os.ReadFile(logName)
		l := strings.Split(strings.TrimSpace(string(lg)), "\n")
		e := l[len(l)-1]
		for _, x := range l {
			if strings.HasPrefix(x, "E ") {
				e = x
			}
		}
		if strings.HasPrefix(e, "E ") {
			c.Violation("writer-fails", "generation %d: %s", round, e)
		} else {
			c.Violation("writer-crash", "generation %d: the writer ends with %s: %.600s", round, cmd.ProcessState, out.String())
		}
		return false
	}
	c.Count("kill: writers killed")
	c.Count("kill: killed " + how)
	// the offline part: what must be there
	lg, _ := os.ReadFile(logName)
	open := map[string]pending{}
	acked := map[string]bool{}
	for _, line := range strings.Split(string(lg), "\n") {
		f := strings.Fields(line)
		switch {
		case len(f) == 6 && f[0] == "B":
			k := f[4]
			if k == "-" {
				k = ""
			}
			kb, _ := hex.DecodeString(k)
			st := strings.ReplaceAll(f[3], "_", " ")
			open[f[1]] = pending{st, string(kb), f[5]}
			if k != "" {
				w, _ := strconv.Atoi(f[2])
				who[st+"/"+string(kb)] = w
			}
			who["#"+f[1]], _ = strconv.Atoi(f[2])
		case len(f) == 4 && f[0] == "A":
			o, ok := open[f[1]]
			if !ok {
				c.Broken("acknowledgement without begin")
			}
			kb, _ := hex.DecodeString(f[2])
			state[o.store][string(kb)] = f[3]
			acked[o.store+"/"+string(kb)] = true
			who[o.store+"/"+string(kb)] = who["#"+f[1]]
			delete(open, f[1])
			c.Count("kill: writes acknowledged")
		}
	}
	alt := map[string]string{}
	for _, o := range open {
		if o.key != "" {
			alt[o.store+"/"+o.key] = o.dig
		}
	}
	if len(open) > 0 {
		c.Count("kill: killed with a write under way")
	}
	c.Eval(fmt.Sprintf("kill %s %d pending %d acked", how, len(open), len(acked)/20))
	h, err := openHandles(dir)
	if err != nil {
		c.Violation("reopen-fails", "after a kill %s the database cannot be opened: %v", how, err)
		return false
	}
	defer h.db.Close()
	for _, st := range stores() {
		m := state[st.name]
		for id := range alt {
			if n, k, _ := strings.Cut(id, "/"); n == st.name {
				if _, ok := m[k]; !ok {
					m[k] = gone
				}
			}
		}
		for k, want := range m {
			g, err := st.get(h, k)
			have := gone
			if err == nil {
				have = digest(g)
			}
			a, inFlight := alt[st.name+"/"+k]
			if have != want && (!inFlight || a != have && (a != "?" || err != nil)) {
				c.Violation("crash-"+st.name, "generation %d, killed %s: %s %x acknowledged as %s is %s (%v), under way: %s; log: %s", round, how, st.name, k, want, have, err, a, related(string(lg), hex.EncodeToString([]byte(k))))
				continue
			}
			m[k] = have
			if acked[st.name+"/"+k] {
				c.Count("kill: " + st.name + " acknowledged and read back")
			} else {
				c.Count("kill: entries of earlier generations read back")
			}
		}
	}
	l, err := h.voucher.List()
	in := map[fdoshared.FdoGuid]bool{}
	for _, g := range l {
		in[g] = true
		if d, ok := state["voucher"][string(g[:])]; !ok || d == gone {
			c.Violation("crash-voucher-list", "killed %s: voucher %x is listed, but was never stored", how, g)
		}
	}
	for k, d := range state["voucher"] {
		c.Must(d == gone || in[guidOf(k)], "crash-voucher-list", "killed %s: voucher %x is not listed (%v)", how, k, err)
	}
	return true
}

func related(lg, key string) string {
	var l []string
	for _, x := range strings.Split(lg, "\n") {
		if strings.Contains(x, key) {
			l = append(l, x)
		}
	}
	if len(l) > 4 {
		l = l[len(l)-4:]
	}
	return strings.Join(l, " | ")
}
