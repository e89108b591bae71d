package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"

	"verif.local/harness/kit"
	"verif.local/harness/sut"
)

// torn leaves databases as a process leaves them that is killed while it makes or removes a memtable file: the file is there and empty.
// The real program must open them at its first start, with every entry.
func torn(c *kit.Check) {
	c.Parallel(c.N(6, 36), func(i int) {
		r := c.Rand(fmt.Sprint("torn", i))
		base := filepath.Join(sut.Scratch(), fmt.Sprint("torn", i))
		live, dir := filepath.Join(base, "live"), filepath.Join(base, "image")
		for _, d := range []string{live, dir, filepath.Join(dir, "none")} {
			if err := os.MkdirAll(d, 0o755); err != nil {
				c.Broken("%v", err)
			}
		}
		defer os.RemoveAll(base)
		os.WriteFile(filepath.Join(dir, "none", "notes.txt"), []byte("no voucher"), 0o644)
		h, err := openHandles(live)
		if err != nil {
			c.Broken("%v", err)
		}
		f := &filler{r: r, unit: 1000 + i}
		f.vouchers = append(f.vouchers, voucherOf(r))
		sts := stores()
		keys := map[*store]map[string]string{}
		for _, st := range sts {
			keys[st] = map[string]string{}
			for j := 0; j < 3; j++ {
				key, v := st.fresh(f)
				if id, err := st.save(h, r, key, true, v); err != nil {
					c.Violation("save-"+st.name, "%v", err)
					return
				} else {
					keys[st][id] = text(v)
				}
				if st.atMost > 0 {
					break
				}
			}
		}
		// the image a kill leaves: all that was handed to the kernel
		clean := i%3 == 0
		if clean {
			h.db.Close()
		}
		if out, err := exec.Command("cp", "-a", "--sparse=always", filepath.Join(live, "badger.local.db"), dir).CombinedOutput(); err != nil {
			c.Broken("%v %s", err, out)
		}
		if !clean {
			h.db.Close()
		}
		os.RemoveAll(live)
		os.Remove(filepath.Join(dir, "badger.local.db", "LOCK"))
		have, _ := filepath.Glob(filepath.Join(dir, "badger.local.db", "*.mem"))
		last := 0
		for _, m := range have {
			fmt.Sscanf(filepath.Base(m), "%d", &last)
		}
		empty := filepath.Join(dir, "badger.local.db", fmt.Sprintf("%05d.mem", last+1))
		if err := os.WriteFile(empty, nil, 0o666); err != nil {
			c.Broken("%v", err)
		}
		how := fmt.Sprintf("%d memtables, one empty", len(have)+1)
		run, err := sut.CLI(dir, nil, "iop", "do_load_vouchers", "./none")
		if err != nil {
			c.Broken("%v", err)
		}
		if !c.Must(run.Code == 0 && !run.Crashed(), "torn-refused", "%s: the program does not open the database: exit %d: %s", how, run.Code, run.Tail()) {
			return
		}
		if h, err = openHandles(dir); err != nil {
			c.Violation("reopen-fails", "%s: after the program opened it, the database cannot be opened: %v", how, err)
			return
		}
		defer h.db.Close()
		for _, st := range sts {
			for key, want := range keys[st] {
				g, err := st.get(h, key)
				c.Must(err == nil && text(g) == want, "torn-lost", "%s: %s %x: %v", how, st.name, key, err)
				c.Count("torn: entries kept")
			}
		}
		c.Eval("torn " + how)
	})
}
