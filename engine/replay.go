package main

// Native replay: the real code compiled from the working tree, with package
// sync and the clock replaced so that a recorded schedule can be followed.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type NResult struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

type NativeBuild struct {
	scratch string
	modDir  string
	modPath string
	verif   string
	hdir    string
	env     []string
	modfile string
	names   []string
	hangs   int
	bins    map[bool]string
	err     error
	done    chan struct{}
}

// rewriteSource redirects sync, sync/atomic, the clock functions and go
// statements.
func rewriteSource(name string, src []byte, mod string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type edit struct {
		from, to int
		s        string
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	timeName := ""
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		nm := ""
		if im.Name != nil {
			nm = im.Name.Name
		}
		switch p {
		case "sync", "sync/atomic":
			to := "zzvsync"
			def := "sync"
			if p == "sync/atomic" {
				to, def = "zzvatomic", "atomic"
			}
			if nm == "" {
				edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), def + ` "` + mod + "/" + to + `"`})
			} else {
				edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), `"` + mod + "/" + to + `"`})
			}
		case "time":
			timeName = "time"
			if nm != "" {
				timeName = nm
			}
		}
	}
	used, clock := false, false
	ast.Inspect(f, func(n ast.Node) bool {
		// the goroutines of the code are scheduled too
		if g, ok := n.(*ast.GoStmt); ok && !g.Call.Ellipsis.IsValid() {
			edits = append(edits, edit{off(g.Pos()), off(g.Call.Fun.Pos()), "zzvrtX.GoCall("}, edit{off(g.Call.Lparen), off(g.Call.Lparen) + 1, ","})
			used = true
		}
		return true
	})
	if timeName != "" && timeName != "_" && timeName != "." {
		ast.Inspect(f, func(n ast.Node) bool {
			s, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := s.X.(*ast.Ident)
			if !ok || id.Name != timeName || id.Obj != nil {
				return true
			}
			switch s.Sel.Name {
			case "Now", "Since", "Until", "Sleep":
				edits = append(edits, edit{off(s.Pos()), off(s.End()), "zzvrtX.X" + s.Sel.Name})
				used, clock = true, true
			}
			return true
		})
	}
	if used {
		e := off(f.Name.End())
		edits = append(edits, edit{e, e, `; import zzvrtX "` + mod + `/zzvrt"`})
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
	out := append([]byte{}, src...)
	for _, e := range edits {
		out = append(out[:e.from:e.from], append([]byte(e.s), out[e.to:]...)...)
	}
	if clock {
		out = append(out, []byte("\nvar _ "+timeName+".Duration\n")...)
	}
	return out, nil
}

func (nb *NativeBuild) build(race bool) (string, error) {
	if b, ok := nb.bins[race]; ok {
		return b, nil
	}
	dir := filepath.Join(nb.scratch, "src")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return "", err
	}
	repl := map[string]string{}
	put := func(dst string, b []byte) error {
		f := filepath.Join(dir, fmt.Sprintf("f%d.go", len(repl)))
		repl[dst] = f
		return os.WriteFile(f, b, 0644)
	}
	// runtime packages
	for _, p := range []string{"zzvrt", "zzvsync", "zzvatomic", "zzvmain"} {
		ents, err := os.ReadDir(filepath.Join(nb.verif, "rt", p))
		if err != nil {
			return "", err
		}
		for _, e := range ents {
			b, err := os.ReadFile(filepath.Join(nb.verif, "rt", p, e.Name()))
			if err != nil {
				return "", err
			}
			b = bytes.ReplaceAll(b, []byte("MODPATH"), []byte(nb.modPath))
			if err := put(filepath.Join(nb.modDir, p, e.Name()), b); err != nil {
				return "", err
			}
		}
	}
	ents, err := os.ReadDir(nb.hdir)
	if err != nil {
		return "", err
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(nb.hdir, e.Name()))
		if err != nil {
			return "", err
		}
		if err := put(filepath.Join(nb.modDir, "zzvh", e.Name()), b); err != nil {
			return "", err
		}
	}
	var tb strings.Builder
	fmt.Fprintf(&tb, "package main\n\nimport h %q\n\nvar table = map[string]func(){\n", nb.modPath+"/zzvh")
	for _, n := range nb.names {
		fmt.Fprintf(&tb, "\t%q: h.%s,\n", n, n)
	}
	tb.WriteString("}\n")
	if err := put(filepath.Join(nb.modDir, "zzvmain", "table.go"), []byte(tb.String())); err != nil {
		return "", err
	}
	// code under test
	ents, err = os.ReadDir(nb.modDir)
	if err != nil {
		return "", err
	}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		p := filepath.Join(nb.modDir, n)
		b, err := os.ReadFile(p)
		if err != nil {
			return "", err
		}
		out, err := rewriteSource(n, b, nb.modPath)
		if err != nil {
			return "", err
		}
		if !bytes.Equal(out, b) {
			if err := put(p, out); err != nil {
				return "", err
			}
		}
	}
	ovf := filepath.Join(nb.scratch, "overlay.json")
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	if err := os.WriteFile(ovf, j, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(nb.scratch, "replay")
	args := []string{"build", "-overlay", ovf, "-modfile=" + nb.modfile, "-mod=mod"}
	if race {
		args = append(args, "-race")
		bin += "-race"
	}
	args = append(args, "-o", bin, nb.modPath+"/zzvmain")
	cmd := exec.Command("go", args...)
	cmd.Dir = nb.modDir
	cmd.Env = nb.env
	o, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go build: %v\n%s", err, o)
	}
	nb.bins[race] = bin
	return bin, nil
}

// run replays the traces in order; a crash of the process is the result of the
// trace it was executing.
func (nb *NativeBuild) run(traces []*Trace, race bool, per time.Duration) ([]NResult, error) {
	bin, err := nb.build(race)
	if err != nil {
		return nil, err
	}
	var out []NResult
	for len(out) < len(traces) {
		rest := traces[len(out):]
		if race {
			rest = rest[:1]
		}
		f := filepath.Join(nb.scratch, "traces.json")
		j, err := json.Marshal(rest)
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(f, j, 0644); err != nil {
			return nil, err
		}
		rs, se, status, err := nb.process(bin, f, per*time.Duration(1+len(rest)/20))
		if err != nil && rs == nil && status == "error" {
			return nil, err
		}
		out = append(out, rs...)
		n := len(rs)
		if n < len(rest) {
			r := NResult{Status: "crash"}
			s := se
			switch {
			case status == "hang":
				nb.hangs++
				r.Status = "hang"
				r.Msg = "does not terminate"
			case status == "timeout":
				r.Status = "timeout"
			case strings.Contains(s, "WARNING: DATA RACE"):
				r.Status = "race"
				r.Msg = s
			default:
				if len(s) > 1500 {
					s = s[:1500]
				}
				r.Msg = strings.TrimSpace(s)
				if r.Msg == "" && err != nil {
					r.Msg = err.Error()
				}
			}
			out = append(out, r)
			if nb.hangs > 2 && status == "hang" {
				for len(out) < len(traces) {
					out = append(out, NResult{Status: "skipped"})
				}
			}
		}
	}
	return out, nil
}

// A replay takes milliseconds; one that uses as much as this does not end.
const (
	hangCPU = 12 * time.Second
	hangRSS = 6 << 30
)

// process runs the replay binary and watches it: a trace that consumes
// processor time or memory without end is a hang.
func (nb *NativeBuild) process(bin, f string, limit time.Duration) (rs []NResult, stderr, status string, err error) {
	cmd := exec.Command(bin, f)
	cmd.Env = append(append([]string{}, nb.env...), "VRT_DIR="+nb.scratch, "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=4GiB")
	var se bytes.Buffer
	cmd.Stderr = &se
	so, err := cmd.StdoutPipe()
	if err != nil {
		return nil, "", "error", err
	}
	if err := cmd.Start(); err != nil {
		return nil, "", "error", err
	}
	lines := make(chan string, 64)
	go func() {
		sc := bufio.NewScanner(so)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			lines <- sc.Text()
		}
		io.Copy(io.Discard, so)
		close(lines)
	}()
	tick := time.NewTicker(50 * time.Millisecond)
	defer tick.Stop()
	t0 := time.Now()
	var base time.Duration
	for open := true; open; {
		select {
		case l, ok := <-lines:
			if !ok {
				open = false
				break
			}
			if !strings.HasPrefix(l, "VRT ") {
				break
			}
			var r NResult
			if e := json.Unmarshal([]byte(l[4:]), &r); e != nil {
				cmd.Process.Kill()
				cmd.Wait()
				return nil, "", "error", e
			}
			rs = append(rs, r)
			base, _ = usage(cmd.Process.Pid)
		case <-tick.C:
			cpu, rss := usage(cmd.Process.Pid)
			switch {
			case status != "":
			case cpu-base > hangCPU || rss > hangRSS:
				status = "hang"
				cmd.Process.Kill()
			case time.Since(t0) > limit:
				status = "timeout"
				cmd.Process.Kill()
			}
		}
	}
	err = cmd.Wait()
	return rs, se.String(), status, err
}

// usage: processor time and resident memory of the process.
func usage(pid int) (time.Duration, int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	fs := strings.Fields(s[strings.LastIndex(s, ")")+1:])
	if len(fs) < 22 {
		return 0, 0
	}
	u, _ := strconv.ParseInt(fs[11], 10, 64)
	k, _ := strconv.ParseInt(fs[12], 10, 64)
	pages, _ := strconv.ParseInt(fs[21], 10, 64)
	return time.Duration(u+k) * 10 * time.Millisecond, pages * int64(os.Getpagesize())
}
