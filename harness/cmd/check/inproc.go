package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verifharness/report"
)

// inproc runs one of the binaries that import the tree's packages and turns what it reports into this check's
// counters and violations. One that crashes, races or never ends violates the property: it only does what users of
// those packages may do.
func (x *Ctx) inproc(bin string, limit time.Duration, args ...string) {
	if _, err := os.Stat(filepath.Join(x.Bins, bin)); err != nil {
		x.Inconclusive("%s was not built", bin)
		return
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(infra{err})
	}
	cmd := exec.Command(filepath.Join(x.Bins, bin), args...)
	cmd.ExtraFiles = []*os.File{w}
	var errOut tailBuf
	cmd.Stdout, cmd.Stderr = &errOut, &errOut
	dir := filepath.Join(x.Work, "in-"+bin)
	os.MkdirAll(dir, 0o755)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"))
	if err := cmd.Start(); err != nil {
		panic(infra{err})
	}
	w.Close()
	t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	done, at := false, ""
	rd := bufio.NewReaderSize(r, 1<<20)
	for {
		b, err := rd.ReadBytes('\n')
		var l report.Line
		if len(b) > 0 && json.Unmarshal(b, &l) == nil {
			if l.Case != "" {
				x.Case(l.Case)
			}
			for i := 0; i < l.Cases; i++ {
				x.Case("")
			}
			for k, n := range l.Event {
				x.Event(k, n)
			}
			if l.Key != "" {
				x.Violate(l.Key, "%s", l.Text)
			}
			if l.At != "" {
				at = l.At
			}
			done = done || l.Done
		}
		if err != nil {
			break
		}
	}
	r.Close()
	err = cmd.Wait()
	inTime := t.Stop()
	if !done {
		if !inTime {
			x.Violate(bin+":never-ends", "%s did not end within %v, last at: %s\n%s", bin, limit, at, errOut.String())
		} else {
			x.Violate(bin+":crash", "%s crashed (%v), last at: %s\n%s", bin, err, at, errOut.String())
		}
	}
	fs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, f := range fs {
		if b, _ := os.ReadFile(f); bytes.Contains(b, []byte("DATA RACE")) {
			n := bytes.Count(b, []byte("WARNING: DATA RACE"))
			x.Event("race reports", int64(n))
			if len(b) > 6000 {
				b = b[:6000]
			}
			x.Violate(bin+":race", "%d data races in %s:\n%s", n, bin, b)
		}
	}
}

// tailBuf keeps the last part of what is written to it.
type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 64<<10 {
		t.b = append([]byte(nil), t.b[len(t.b)-32<<10:]...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	s := string(t.b)
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

var _ io.Writer = (*tailBuf)(nil)

func init() {
	props["C21"] = func(x *Ctx) {
		x.Rule("tasks are counted by the harness; a group's answers are compared with what its tasks did, under the race detector")
		x.inproc("c21", 12*time.Minute)
	}
}

func init() {
	props["C22"] = func(x *Ctx) {
		x.Rule("each function's answers are compared with its definition, computed independently; encodings are decoded again, cut and damaged")
		x.inproc("c22", 12*time.Minute)
		x.inproc("c22m", 5*time.Minute)
		x.inproc("c22a", 5*time.Minute)
	}
}

func init() {
	props["C23"] = func(x *Ctx) {
		x.Rule("stores and collector against a list of the records given to them: histories, reopened files, concurrent writers (under the race detector), failing stores, a full store")
		x.inproc("c23", 12*time.Minute)
	}
}
