package main

import (
	"bytes"
	"image/png"
	"os"
	"os/exec"
	"path/filepath"
	"time"
)

// In a child process, the compiled program runs instead of the tests.
func init() {
	if os.Getenv("ZZV_MAIN") != "" {
		os.Args = append([]string{"radolan2png"}, os.Args[1:]...)
		main()
		os.Exit(0)
	}
	zzvNative = func(r zzvCall) (res zzvResult) {
		base := os.Getenv("ZZV_DIR")
		if base == "" {
			panic(zzvSkip{"no scratch directory"})
		}
		d, err := os.MkdirTemp(base, "run-")
		if err != nil {
			panic(zzvSkip{err.Error()})
		}
		defer os.RemoveAll(d)
		in, out := filepath.Join(d, zzvInName), filepath.Join(d, zzvOutName)
		switch r.fault {
		case zzvNoInput:
		case zzvUnreadable:
			os.Mkdir(in, 0o755)
		default:
			os.WriteFile(in, r.input, 0o644)
		}
		old := bytes.Repeat([]byte(zzvOld), 1<<19) // larger than any image
		if r.old {
			os.WriteFile(out, old, 0o644)
			t := time.Unix(1000000000, 0)
			os.Chtimes(out, t, t)
		}
		switch r.fault {
		case zzvNoOutput:
			os.Mkdir(out, 0o755)
		case zzvFull:
			// a link of our own, in case the program removes it
			if os.Symlink("/dev/full", out) != nil {
				panic(zzvSkip{"no full device"})
			}
		}
		cmd := exec.Command(os.Args[0], r.args...)
		cmd.Dir = d
		cmd.Env = append(os.Environ(), "ZZV_MAIN=1")
		err = cmd.Run()
		if ee, ok := err.(*exec.ExitError); ok {
			res.code = ee.ExitCode()
		} else if err != nil {
			panic(zzvSkip{err.Error()})
		}
		if r.fault == zzvNoOutput || r.fault == zzvFull {
			return
		}
		b, err := os.ReadFile(out)
		if r.old {
			fi, e := os.Stat(out)
			res.touched = e != nil || !bytes.Equal(b, old) || fi.ModTime().Unix() != 1000000000
		} else {
			res.touched = err == nil
		}
		if err == nil {
			rd := bytes.NewReader(b)
			if img, err := png.Decode(rd); err == nil && rd.Len() == 0 {
				res.img = img
			}
		}
		return
	}
}
