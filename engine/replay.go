package main

// Replay of solver assignments against the really compiled code.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type replayReq struct {
	Property string           `json:"property"`
	Pkg      string           `json:"pkg"`
	Fn       string           `json:"fn"`
	Setup    string           `json:"setup,omitempty"`
	Params   map[string]int64 `json:"params,omitempty"`
	Values   map[string]int64 `json:"values"`
	Kind     string           `json:"kind"`
	Msg      string           `json:"msg"`
	Race     bool             `json:"race,omitempty"`
	Repeat   int              `json:"repeat,omitempty"`
	Try      int              `json:"try,omitempty"`
}

type replayRes struct {
	Status  string  `json:"status"`
	Msg     string  `json:"msg"`
	Obs     []int64 `json:"obs"`
	Missing int     `json:"missing"`
	Pkg     string  `json:"pkg"`
	Name    string  `json:"name"`
	Content string  `json:"content"`
}

type valReq struct {
	j *job
	s sample
}

type valRes struct {
	req      valReq
	ok       bool
	violated bool
	detail   string
}

type confirmRes struct {
	ok     bool
	detail string
}

type replayer struct {
	repo, verif string
	names       []string
	dir         string
	bin         string
	berr        error
	wg          sync.WaitGroup
	queue       []valReq
	raceBin     string
	nfile       int
}

func newReplayer(repo, verif string, names []string) *replayer {
	return &replayer{repo: repo, verif: verif, names: names}
}

func (r *replayer) start() {
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		r.dir, r.berr = os.MkdirTemp("", "gosym-")
		if r.berr != nil {
			return
		}
		r.bin, r.berr = r.build("replay", nil, false)
	}()
}

func (r *replayer) close() {
	r.wg.Wait()
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

// build compiles the harnesses with the native verifsym and a generated main.
func (r *replayer) build(name string, files map[string]string, race bool) (string, error) {
	ov, dirs, err := buildOverlay(r.repo, r.verif, r.names)
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	b.WriteString("package main\n\nimport (\n\tverifsym \"" + symPath + "\"\n")
	var reg bytes.Buffer
	for i, n := range r.names {
		fmt.Fprintf(&b, "\th%d %q\n", i, repoMod+"/"+filepath.ToSlash(dirs[n]))
		fs, _ := filepath.Glob(filepath.Join(r.verif, "harness", n, "*.go"))
		for _, f := range fs {
			for _, fn := range exportedFuncs(f) {
				fmt.Fprintf(&reg, "\t%q: h%d.%s,\n", n+"."+fn, i, fn)
			}
		}
	}
	b.WriteString(")\n\nvar registry = map[string]func(){\n" + reg.String() + "}\n\nfunc init() {\n")
	repl := map[string]string{}
	k := 0
	for _, key := range sortedKeys(files) {
		fmt.Fprintf(&b, "\tverifsym.Files[%q] = %q\n", key, files[key])
		p := filepath.Join(r.dir, fmt.Sprintf("%s-file%d", name, k))
		k++
		if err := os.WriteFile(p, []byte(files[key]), 0o644); err != nil {
			return "", err
		}
		repl[filepath.Join(r.repo, key)] = p
	}
	fmt.Fprintf(&b, "\tverifsym.Repo = %q\n", r.repo)
	b.WriteString("\tverifsym.Reset(nil, nil)\n}\n")
	mainGen := filepath.Join(r.dir, name+"-registry.go")
	if err := os.WriteFile(mainGen, b.Bytes(), 0o644); err != nil {
		return "", err
	}
	mainSrc := filepath.Join(r.dir, name+"-main.go")
	if err := os.WriteFile(mainSrc, []byte(nativeMain), 0o644); err != nil {
		return "", err
	}
	for v, real := range ov {
		repl[v] = real
	}
	place := "zzverif" // the program must be where it can import the internal packages
	for _, d := range dirs {
		if strings.Contains(d, "internal") {
			place = d
		}
	}
	repl[filepath.Join(r.repo, place, "zzmain", "registry.go")] = mainGen
	repl[filepath.Join(r.repo, place, "zzmain", "main.go")] = mainSrc
	oj, _ := json.Marshal(map[string]any{"Replace": repl})
	of := filepath.Join(r.dir, name+"-overlay.json")
	if err := os.WriteFile(of, oj, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(r.dir, name)
	args := []string{"build", "-overlay", of, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, repoMod+"/"+filepath.ToSlash(place)+"/zzmain")
	cmd := exec.Command("go", args...)
	cmd.Dir = r.repo
	cgo := "CGO_ENABLED=0"
	if race {
		cgo = "CGO_ENABLED=1"
	}
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", cgo)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, out)
	}
	return bin, nil
}

func exportedFuncs(file string) []string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, 0)
	if err != nil {
		return nil
	}
	var out []string
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || !fd.Name.IsExported() || fd.Type.Params.NumFields() != 0 || fd.Type.Results.NumFields() != 0 {
			continue
		}
		if strings.HasPrefix(fd.Name.Name, "Check") || strings.HasPrefix(fd.Name.Name, "Setup") {
			out = append(out, fd.Name.Name)
		}
	}
	sort.Strings(out)
	return out
}

// exec runs requests in one process; fewer results than requests means it died.
func (r *replayer) exec(bin string, reqs []replayReq, timeout time.Duration) ([]replayRes, string, bool) {
	var in bytes.Buffer
	for i := range reqs {
		b, _ := json.Marshal(&reqs[i])
		in.Write(b)
		in.WriteByte('\n')
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Stdin = &in
	cmd.Dir = r.dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0", "GOTRACEBACK=single")
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	cmd.Run()
	timedOut := ctx.Err() != nil
	var res []replayRes
	sc := bufio.NewScanner(&out)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "@@") {
			continue
		}
		var x replayRes
		if json.Unmarshal([]byte(l[2:]), &x) == nil {
			res = append(res, x)
		}
	}
	e := errb.String()
	if len(e) > 6000 {
		e = e[:6000]
	}
	return res, e, timedOut
}

func (r *replayer) req(j *job, values map[string]int64) replayReq {
	q := replayReq{Pkg: j.pkg, Fn: j.name, Params: j.params64(), Values: values, Repeat: j.spec.Repeat, Race: j.spec.Race}
	if j.setup != nil {
		q.Setup = j.setup.Name()
	}
	return q
}

func (r *replayer) confirm(v *violation) confirmRes {
	q := r.req(v.job, v.values)
	q.Kind = v.kind
	if v.kind == "race" {
		q.Race = true
	}
	return r.tries(q)
}

func (r *replayer) tries(q replayReq) confirmRes {
	if !q.Race {
		return r.confirmReq(q)
	}
	// callers meet by chance: several processes, which start the callers in different orders
	var c confirmRes
	for q.Try = 0; q.Try < 12 && !c.ok; q.Try++ {
		c = r.confirmReq(q)
	}
	return c
}

func (r *replayer) confirmReq(q replayReq) confirmRes {
	r.wg.Wait()
	if r.berr != nil {
		return confirmRes{false, r.berr.Error()}
	}
	bin := r.bin
	if q.Race {
		if r.raceBin == "" {
			b, err := r.build("replayrace", nil, true)
			if err != nil {
				return confirmRes{false, err.Error()}
			}
			r.raceBin = b
		}
		bin = r.raceBin
	}
	files := map[string]string{}
	for try := 0; try < 12; try++ {
		res, errout, to := r.exec(bin, []replayReq{q}, 25*time.Second)
		if len(res) == 0 {
			switch {
			case to:
				return confirmRes{q.Kind == "steps", "does not terminate within 25 s"}
			case strings.Contains(errout, "DATA RACE"):
				return confirmRes{true, "data race: " + raceSummary(errout)}
			}
			return confirmRes{true, "the process died: " + firstLine(errout)}
		}
		x := res[0]
		if q.Race && strings.Contains(errout, "DATA RACE") {
			return confirmRes{true, "data race: " + raceSummary(errout)}
		}
		switch x.Status {
		case "violated":
			return confirmRes{true, x.Msg}
		case "panic":
			return confirmRes{true, "panic: " + x.Msg}
		case "memory":
			return confirmRes{q.Kind == "steps", "uses more than 3 GB"}
		case "needfile":
			r.nfile++
			files[x.Pkg+"/"+x.Name] = x.Content
			b, err := r.build(fmt.Sprintf("replayfile%d", r.nfile), files, q.Race)
			if err != nil {
				return confirmRes{false, err.Error()}
			}
			if bin != r.bin && bin != r.raceBin {
				os.Remove(bin)
			}
			bin = b
			continue
		}
		return confirmRes{false, x.Status + " " + x.Msg}
	}
	return confirmRes{false, "keeps asking for files"}
}

func raceSummary(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/") || strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous") {
			out = append(out, l)
		}
		if len(out) > 6 {
			break
		}
	}
	return strings.Join(out, "; ")
}

// runBatch validates the queued samples.
func (r *replayer) runBatch() []valRes {
	r.wg.Wait()
	var out []valRes
	if r.berr != nil {
		return out
	}
	var plain []valReq
	plain = r.queue
	files := 0
	for len(plain) > 0 {
		var reqs []replayReq
		for _, p := range plain {
			reqs = append(reqs, r.req(p.j, p.s.values))
		}
		res, errout, to := r.exec(r.bin, reqs, 60*time.Second)
		for i, x := range res {
			p := plain[i]
			if x.Status == "needfile" {
				files++
				if files > 4 {
					continue
				}
				fs := map[string]string{}
				failed := ""
				for try := 0; try < 12 && x.Status == "needfile" && failed == ""; try++ {
					fs[x.Pkg+"/"+x.Name] = x.Content
					b, err := r.build(fmt.Sprintf("val%d_%d", files, try), fs, false)
					if err != nil {
						failed = err.Error()
						break
					}
					rs, eo, _ := r.exec(b, []replayReq{reqs[i]}, 30*time.Second)
					os.Remove(b)
					if len(rs) == 0 {
						failed = "died: " + firstLine(eo)
						break
					}
					x = rs[0]
				}
				if failed != "" {
					out = append(out, valRes{req: p, detail: failed})
					continue
				}
			}
			out = append(out, judge(p, x))
		}
		if len(res) >= len(plain) {
			break
		}
		why := "died: " + firstLine(errout)
		if to {
			why = "timeout"
		}
		out = append(out, valRes{req: plain[len(res)], detail: why, violated: true})
		plain = plain[len(res)+1:]
		if to {
			break
		}
	}
	return out
}

func judge(p valReq, x replayRes) valRes {
	v := valRes{req: p}
	switch x.Status {
	case "ok":
		v.ok = true
		if p.s.full {
			if fmt.Sprint(x.Obs) != fmt.Sprint(p.s.obs) && !(len(x.Obs) == 0 && len(p.s.obs) == 0) {
				v.ok = false
				v.detail = fmt.Sprintf("observations differ: model %v, real %v", p.s.obs, x.Obs)
			}
		}
	case "violated", "panic":
		v.violated = true
		v.detail = x.Msg
	default:
		v.detail = x.Status + " " + x.Msg
	}
	return v
}

func cmdReplay(args []string) int {
	fl := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fl.String("repo", "/repo", "repository")
	verif := fl.String("verif", "/verif", "framework directory")
	fl.Parse(args)
	for _, f := range fl.Args() {
		b, err := os.ReadFile(f)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		var q replayReq
		if err := json.Unmarshal(b, &q); err != nil {
			fmt.Println(err)
			return 2
		}
		r := newReplayer(*repo, *verif, []string{q.Pkg})
		r.start()
		c := r.tries(q)
		r.close()
		fmt.Printf("%s: reproduced=%v %s\n", f, c.ok, c.detail)
		if c.ok {
			return 1
		}
	}
	return 0
}

const nativeMain = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"time"

	verifsym "github.com/fredbi/go-typeset/verifsym"
)

type req struct {
	Pkg, Fn, Setup string
	Params, Values map[string]int64
	Repeat, Try int
}

type res struct {
	Status  string  ` + "`json:\"status\"`" + `
	Msg     string  ` + "`json:\"msg\"`" + `
	Obs     []int64 ` + "`json:\"obs\"`" + `
	Missing int     ` + "`json:\"missing\"`" + `
	Pkg     string  ` + "`json:\"pkg\"`" + `
	Name    string  ` + "`json:\"name\"`" + `
	Content string  ` + "`json:\"content\"`" + `
}

func emit(r res) {
	b, _ := json.Marshal(r)
	fmt.Fprintf(os.Stdout, "\n@@%s\n", b)
}

func run(q req) (r res) {
	defer func() {
		r.Obs = verifsym.Observed
		r.Missing = len(verifsym.Missing)
		switch x := recover().(type) {
		case nil:
		case verifsym.Violated:
			r.Status, r.Msg = "violated", x.Msg
		case verifsym.Assumed:
			r.Status = "assumed"
		case verifsym.NeedFile:
			r.Status, r.Pkg, r.Name, r.Content = "needfile", x.Pkg, x.Name, x.Content
		default:
			r.Status, r.Msg = "panic", fmt.Sprint(x)
		}
	}()
	if q.Setup != "" {
		verifsym.Reset(nil, q.Params)
		registry[q.Pkg+"."+q.Setup]()
	}
	verifsym.Try = q.Try
	n := q.Repeat
	if n < 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		verifsym.Reset(q.Values, q.Params)
		registry[q.Pkg+"."+q.Fn]()
	}
	r.Status = "ok"
	return r
}

func main() {
	go func() {
		var m runtime.MemStats
		for {
			time.Sleep(100 * time.Millisecond)
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 3<<30 {
				emit(res{Status: "memory"})
				os.Exit(0)
			}
		}
	}()
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var q req
		if err := json.Unmarshal(sc.Bytes(), &q); err != nil {
			emit(res{Status: "bad", Msg: err.Error()})
			continue
		}
		if registry[q.Pkg+"."+q.Fn] == nil {
			emit(res{Status: "bad", Msg: "no such function"})
			continue
		}
		emit(run(q))
	}
}
`
