package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Native is the harness package compiled with the real code, for replaying counterexamples and validating paths.
type Native struct {
	dir  string
	bin  string
	err  error
	race bool
	rdy  chan struct{}

	mu  sync.Mutex
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type Outcome struct {
	Harness string   `json:"harness"`
	Fail    string   `json:"fail"`
	Panic   string   `json:"panic"`
	Known   string   `json:"known"`
	Skipped bool     `json:"skipped"`
	Obs     []string `json:"obs"`
	Stack   string   `json:"stack"`
}

const replayMain = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

%s	"github.com/iotaledger/trie.go/verifh/sym"
)

var reg = map[string]func(){
%s}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	res := os.NewFile(3, "results")
	for sc.Scan() {
		var v sym.Vals
		if err := json.Unmarshal(sc.Bytes(), &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		f := reg[v.Harness]
		if f == nil {
			fmt.Fprintln(os.Stderr, "unknown harness", v.Harness)
			os.Exit(3)
		}
		o := sym.Run(v, f)
		b, _ := json.Marshal(o)
		res.Write(append(b, '\n'))
	}
}
`

// harnessIn reports whether package p of the harnesses defines the harness.
func harnessIn(p, name string) bool {
	fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", p, "*.go"))
	for _, f := range fs {
		if b, err := os.ReadFile(f); err == nil && strings.Contains(string(b), "func "+name+"()") {
			return true
		}
	}
	return false
}

// buildNative compiles the replay program in the background.
func buildNative(hpkg string, names []string, race bool) *Native {
	n := &Native{rdy: make(chan struct{}), race: race}
	go func() {
		defer close(n.rdy)
		n.dir, n.err = os.MkdirTemp("", "vreplay")
		if n.err != nil {
			return
		}
		_, rep, err := collectOverlay(overlayDirs(hpkg)...)
		if err != nil {
			n.err = err
			return
		}
		var sb strings.Builder
		imp := ""
		for _, p := range hpkgs(hpkg) {
			used := false
			for _, x := range names {
				if harnessIn(p, x) {
					fmt.Fprintf(&sb, "\t%q: %s.%s,\n", x, p, x)
					used = true
				}
			}
			if used {
				imp += fmt.Sprintf("\t%q\n", modPath+"/verifh/"+p)
			}
		}
		mainFile := filepath.Join(n.dir, "main.go")
		if n.err = os.WriteFile(mainFile, []byte(fmt.Sprintf(replayMain, imp, sb.String())), 0o644); n.err != nil {
			return
		}
		rep[filepath.Join(repoDir, "verifh", "replay", "main.go")] = mainFile
		ovf := filepath.Join(n.dir, "overlay.json")
		if n.err = writeJSON(ovf, map[string]interface{}{"Replace": rep}); n.err != nil {
			return
		}
		n.bin = filepath.Join(n.dir, "replay")
		args := []string{"build", "-mod=readonly", "-overlay", ovf, "-o", n.bin}
		if race {
			args = append(args, "-race")
		}
		args = append(args, modPath+"/verifh/replay")
		cmd := exec.Command("go", args...)
		cmd.Dir = repoDir
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("building the replay program: %v: %s", err, out)
		}
	}()
	return n
}

func (n *Native) close() {
	<-n.rdy
	n.mu.Lock()
	n.stop()
	n.mu.Unlock()
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

func (n *Native) stop() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

// run executes one job natively, several times if it does not fail at first (map iteration order).
func (n *Native) run(j nativeJob, times int) (Outcome, error) {
	<-n.rdy
	if n.err != nil {
		return Outcome{}, n.err
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	var o Outcome
	for i := 0; i < times; i++ {
		var err error
		o, err = n.once(j)
		if err != nil {
			return o, err
		}
		if o.Fail != "" || o.Panic != "" || o.Known != "" {
			return o, nil
		}
	}
	return o, nil
}

func (n *Native) once(j nativeJob) (Outcome, error) {
	if n.cmd == nil {
		pr, pw, err := os.Pipe()
		if err != nil {
			return Outcome{}, err
		}
		scratch := filepath.Join(n.dir, "scratch")
		os.MkdirAll(scratch, 0o755)
		cmd := exec.Command(n.bin)
		cmd.Dir = scratch
		cmd.ExtraFiles = []*os.File{pw}
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=4GiB", "TMPDIR="+scratch)
		var e strings.Builder
		cmd.Stderr = &limitWriter{w: &e, n: 1 << 16}
		in, err := cmd.StdinPipe()
		if err != nil {
			return Outcome{}, err
		}
		if err := cmd.Start(); err != nil {
			return Outcome{}, err
		}
		pw.Close()
		n.cmd, n.in, n.out = cmd, in, bufio.NewReaderSize(pr, 1<<20)
	}
	b, _ := json.Marshal(j)
	if _, err := n.in.Write(append(b, '\n')); err != nil {
		n.stop()
		return Outcome{}, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	type res struct {
		l   []byte
		err error
	}
	ch := make(chan res, 1)
	go func(r *bufio.Reader) {
		l, err := r.ReadBytes('\n')
		ch <- res{l, err}
	}(n.out)
	select {
	case r := <-ch:
		if r.err != nil {
			// the process died: a crash that cannot be recovered (race report, stack overflow, out of memory)
			err := n.cmd.Wait()
			es := ""
			if lw, ok := n.cmd.Stderr.(*limitWriter); ok {
				es = lw.w.String()
			}
			n.cmd = nil
			if strings.Contains(es, "DATA RACE") {
				return Outcome{Harness: j.Harness, Fail: "data race", Stack: es}, nil
			}
			return Outcome{Harness: j.Harness, Panic: fmt.Sprintf("process ended: %v %.300s", err, es)}, nil
		}
		var o Outcome
		if err := json.Unmarshal(r.l, &o); err != nil {
			return o, err
		}
		return o, nil
	case <-ctx.Done():
		n.stop()
		return Outcome{Harness: j.Harness, Fail: "does not terminate within 30 s"}, nil
	}
}

type limitWriter struct {
	w *strings.Builder
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}
