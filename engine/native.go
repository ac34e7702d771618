package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// Native is the harness package compiled against the real code.
type Native struct {
	bin  string
	dir  string
	err  error
	done chan struct{}
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOSUMDB=off", "CGO_ENABLED=0")
}

// buildNative compiles the harnesses natively in the background.
func buildNative(hp *HarnessPkg, ov map[string]string, names []string, dir string) *Native {
	n := &Native{dir: dir, bin: filepath.Join(dir, "native.test"), done: make(chan struct{})}
	go func() {
		defer close(n.done)
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\n\t\"%s\"\n)\n\nfunc TestZZReplay(t *testing.T) {\n\tzzvf.RunJobs(map[string]func(){\n", hp.PkgName, zzPath)
		for _, s := range names {
			fmt.Fprintf(&b, "\t\t%q: %s,\n", s, s)
		}
		b.WriteString("\t})\n}\n")
		tf := filepath.Join(dir, "replay_test.go.txt")
		if n.err = os.WriteFile(tf, []byte(b.String()), 0o644); n.err != nil {
			return
		}
		o2 := map[string]string{}
		for k, v := range ov {
			o2[k] = v
		}
		// the package's own tests play no part
		es, _ := os.ReadDir(filepath.Join(repoDir, hp.Target))
		for _, e := range es {
			if strings.HasSuffix(e.Name(), "_test.go") {
				o2[filepath.Join(repoDir, hp.Target, e.Name())] = ""
			}
		}
		o2[filepath.Join(repoDir, hp.Target, "zz_replay_test.go")] = tf
		of := filepath.Join(dir, "overlay.json")
		if n.err = writeOverlayFile(o2, of); n.err != nil {
			return
		}
		cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", of, "-o", n.bin, hp.Import)
		cmd.Dir = repoDir
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build: %v: %s", err, out)
		}
	}()
	return n
}

type natRes struct {
	ID     string `json:"id"`
	Status string `json:"status"`
	Msg    string `json:"msg"`
	Stack  string `json:"stack"`
}

type natJob struct {
	ID      string              `json:"id"`
	Harness string              `json:"harness"`
	Vec     []any               `json:"vec"`
	Obs     []map[string]string `json:"obs"`
	Params  map[string]int      `json:"params"`
	Repeat  int                 `json:"repeat"`
	Fill    bool                `json:"fill"`
}

// Run executes the jobs; a job that hangs or kills the process gets status hang or crash.
func (n *Native) Run(cs []*candidate, params map[string]int, hang time.Duration, total time.Duration) (map[int]natRes, error) {
	<-n.done
	if n.err != nil {
		return nil, n.err
	}
	res := map[int]natRes{}
	end := time.Now().Add(total)
	todo := make([]int, len(cs))
	for i := range cs {
		todo[i] = i
	}
	for len(todo) > 0 && time.Now().Before(end) {
		var jobs []natJob
		for _, i := range todo {
			c := cs[i]
			jobs = append(jobs, natJob{ID: fmt.Sprint(i), Harness: c.Harness, Vec: c.Vec, Obs: c.Obs, Params: params, Repeat: c.Repeat, Fill: c.Fill})
		}
		jb, _ := json.Marshal(jobs)
		jf := filepath.Join(n.dir, "jobs.json")
		of := filepath.Join(n.dir, "out.jsonl")
		os.Remove(of)
		if err := os.WriteFile(jf, jb, 0o644); err != nil {
			return res, err
		}
		work := filepath.Join(n.dir, "cwd")
		os.MkdirAll(work, 0o755)
		cmd := exec.Command("sh", "-c", "ulimit -v 16000000; exec \"$0\" \"$@\"", n.bin, "-test.run", "^TestZZReplay$", "-test.timeout", "0")
		cmd.Dir = work
		cmd.Env = append(os.Environ(), "ZZ_JOBS="+jf, "ZZ_OUT="+of, "TMPDIR="+work, "GOMEMLIMIT=6GiB")
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		var ob bytes.Buffer
		cmd.Stdout, cmd.Stderr = &limited{b: &ob}, &limited{b: &ob}
		if err := cmd.Start(); err != nil {
			return res, err
		}
		fin := make(chan error, 1)
		go func() { fin <- cmd.Wait() }()
		last := int64(-1)
		lastT := time.Now()
		killed := false
		var werr error
	loop:
		for {
			select {
			case werr = <-fin:
				break loop
			case <-time.After(100 * time.Millisecond):
				if st, err := os.Stat(of); err == nil && st.Size() != last {
					last, lastT = st.Size(), time.Now()
				}
				if time.Since(lastT) > hang || time.Now().After(end) {
					killed = true
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					werr = <-fin
					break loop
				}
			}
		}
		started := ""
		got := map[string]bool{}
		if f, err := os.Open(of); err == nil {
			sc := bufio.NewScanner(f)
			sc.Buffer(make([]byte, 1<<20), 1<<26)
			for sc.Scan() {
				var r natRes
				if json.Unmarshal(sc.Bytes(), &r) != nil {
					continue
				}
				if r.Status == "start" {
					started = r.ID
					continue
				}
				got[r.ID] = true
				started = ""
				var i int
				fmt.Sscan(r.ID, &i)
				res[i] = r
			}
			f.Close()
		}
		if started != "" {
			var i int
			fmt.Sscan(started, &i)
			got[started] = true
			if killed {
				if time.Now().Before(end) {
					res[i] = natRes{Status: "hang", Msg: fmt.Sprintf("no answer within %v", hang)}
				} else {
					res[i] = natRes{Status: "skip", Msg: "out of time"}
				}
			} else {
				t := ob.String()
				if k := strings.Index(t, "fatal error"); k >= 0 {
					t = t[k:]
				} else if k := strings.Index(t, "panic:"); k >= 0 {
					t = t[k:]
				}
				if len(t) > 300 {
					t = t[:300]
				}
				res[i] = natRes{Status: "crash", Msg: fmt.Sprintf("%v %s", werr, t)}
			}
		} else if len(got) == 0 {
			return res, fmt.Errorf("native run made no progress: %v %s", werr, ob.String())
		}
		var rest []int
		for _, i := range todo {
			if !got[fmt.Sprint(i)] {
				rest = append(rest, i)
			}
		}
		if len(rest) == len(todo) {
			break
		}
		todo = rest
	}
	return res, nil
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}
