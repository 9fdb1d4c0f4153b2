package vis

import (
	"encoding/gob"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
)

// A child process starts the case over and computes the result of g, before
// anything else has happened.
func init() {
	zzvNativeFresh = func(g func() zzvRes) (r zzvRes) {
		if p := os.Getenv("ZZV_FRESH"); p != "" {
			r = g()
			f, err := os.Create(p)
			if err == nil && gob.NewEncoder(f).Encode(r) == nil {
				f.Close()
				os.Exit(0)
			}
			os.Exit(1)
		}
		base := os.Getenv("ZZV_DIR")
		if base == "" {
			panic(zzvSkip{"no scratch directory"})
		}
		d, err := os.MkdirTemp(base, "fresh-")
		if err != nil {
			panic(zzvSkip{err.Error()})
		}
		defer os.RemoveAll(d)
		js, _ := json.Marshal([]zzvCase{zzvCur})
		cf, out := filepath.Join(d, "case"), filepath.Join(d, "out")
		os.WriteFile(cf, js, 0o644)
		cmd := exec.Command(os.Args[0], "-test.run=^TestZZV$", "-test.count=1")
		cmd.Dir = d
		cmd.Env = append(os.Environ(), "ZZV_CASES="+cf, "ZZV_OUT="+filepath.Join(d, "log"), "ZZV_START=0", "ZZV_FRESH="+out)
		cmd.Run()
		f, err := os.Open(out)
		if err != nil {
			panic(zzvSkip{"no result of a fresh process"})
		}
		defer f.Close()
		if err := gob.NewDecoder(f).Decode(&r); err != nil {
			panic(zzvSkip{err.Error()})
		}
		return r
	}
}
