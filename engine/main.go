package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/gagliardetto/binary"

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "symgo:", err)
		os.Exit(2)
	}
}

func main() {
	debug.SetMaxStack(12 << 30) // the interpreter recurses with the program
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository under test")
	hdir := flag.String("harness", "/verif/harness", "harness sources")
	evDir := flag.String("evidence", "/verif/evidence", "evidence directory")
	replayDir := flag.String("replays", "/verif/replays", "where counterexamples are saved")
	known := flag.String("known", "/verif/known-findings.json", "known findings")
	budget := flag.Duration("budget", 0, "exploration time budget")
	only := flag.String("only", "", "run only harnesses whose name contains this")
	workers := flag.Int("workers", 0, "parallel workers")
	replay := flag.String("replay", "", "replay a saved counterexample")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()

	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "symgo")
	must(err)
	code := 2
	func() {
		defer os.RemoveAll(tmp)
		code = realMain(*prop, *tier, *repo, *hdir, *evDir, *replayDir, *known, *only, *replay, *budget, *workers, *verbose, tmp, t0)
	}()
	os.Exit(code)
}

func harnessFiles(hdir, repo string, parsed map[string]bool) (map[string][]byte, []string, error) {
	files := map[string][]byte{}
	var names []string
	for _, sub := range []string{"sym", "h", "cmd"} {
		ents, err := os.ReadDir(filepath.Join(hdir, sub))
		if err != nil {
			return nil, nil, err
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			c, err := os.ReadFile(filepath.Join(hdir, sub, e.Name()))
			if err != nil {
				return nil, nil, err
			}
			files[filepath.Join(repo, "zz_verif", sub, e.Name())] = c
			if sub == "h" {
				f, err := parser.ParseFile(token.NewFileSet(), e.Name(), c, 0)
				if err != nil {
					return nil, nil, err
				}
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && isHarnessName(fd.Name.Name) {
						names = append(names, fd.Name.Name)
					}
				}
			}
		}
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("package h\n\n// Registry of harness entry points (generated).\nvar Registry = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: %s,\n", n, n)
	}
	sb.WriteString("}\n")
	files[filepath.Join(repo, "zz_verif", "h", "zz_registry.go")] = []byte(sb.String())
	return files, names, nil
}

func isHarnessName(n string) bool {
	return len(n) > 4 && n[0] == 'C' && n[3] == '_' && n[1] >= '0' && n[1] <= '9' && n[2] >= '0' && n[2] <= '9'
}

// repoHasTraceVar looks for a package-level bool variable traceEnabled.
func repoHasTraceVar(repo string) bool {
	ents, _ := os.ReadDir(repo)
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(repo, e.Name()), nil, 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name == "traceEnabled" {
						return true
					}
				}
			}
		}
	}
	return false
}

func realMain(prop, tier, repo, hdir, evDir, replayDir, knownFile, only, replayFile string, budget time.Duration, workers int, verbose bool, tmp string, t0 time.Time) int {
	files, names, err := harnessFiles(hdir, repo, nil)
	must(err)
	hook := repoHasTraceVar(repo)
	hookSrc := "package main\n\nfunc installHooks() {}\n"
	if hook {
		hookSrc = "package main\n\nimport (\n\tbin \"" + modPath + "\"\n\t\"" + modPath + "/zz_verif/sym\"\n)\n\nfunc installHooks() { sym.OnTrace(bin.ZZVerifSetTrace) }\n"
		files[filepath.Join(repo, "zz_verif_trace_hook.go")] = []byte("package bin\n\n// ZZVerifSetTrace switches tracing for the verification replays.\nfunc ZZVerifSetTrace(on bool) { traceEnabled = on }\n")
	}
	files[filepath.Join(repo, "zz_verif", "cmd", "zz_hooks.go")] = []byte(hookSrc)
	ovFile, err := writeOverlay(tmp, files)
	must(err)

	natCh := make(chan *Native, 1)
	go func() { natCh <- buildNative(repo, ovFile, filepath.Join(tmp, "native")) }()

	tierN := 0
	if tier == "thorough" {
		tierN = 1
	}
	if replayFile != "" {
		return doReplay(replayFile, natCh)
	}

	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: files, BuildFlags: []string{"-tags=math_big_pure_go,purego"}}
	pkgs, err := packages.Load(cfg, modPath+"/zz_verif/h", "unicode/utf8", "errors", "fmt", "reflect", "runtime", "sync")
	must(err)
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			bad = true
			fmt.Fprintln(os.Stderr, "symgo: load:", e)
		}
	})
	if bad {
		return 2
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	byPath := map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		byPath[p.Pkg.Path()] = p
	}
	hp := byPath[modPath+"/zz_verif/h"]
	byPath[modPath].Build()
	hp.Build()
	loadT := time.Since(t0)

	var hs []*ssa.Function
	for _, n := range names {
		if strings.HasPrefix(n, prop+"_") && strings.Contains(n, only) {
			hs = append(hs, hp.Func(n))
		}
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "symgo: no harness for", prop)
		return 2
	}
	if workers == 0 {
		workers = runtime.NumCPU()
		if workers > 8 {
			workers = 8
		}
	}
	if budget == 0 {
		budget = 240 * time.Second
		if tier == "thorough" {
			budget = 700 * time.Second
		}
	}
	ec := &Config{QueryTimeout: 10 * time.Second, Deadline: time.Now().Add(budget), Tier: tier, Workers: workers}
	if tier == "thorough" {
		ec.CrossEvery = 20
		ec.QueryTimeout = 30 * time.Second
	} else {
		ec.CrossEvery = 400
	}
	ex := NewExplorer(prog, byPath, modPath, ec)
	te := time.Now()
	ex.Run(hs)
	exploreT := time.Since(te)

	nat := <-natCh
	if nat.err != nil {
		fmt.Fprintln(os.Stderr, "symgo: native build failed:", nat.out)
		return 2
	}

	// confirm candidates on the real code
	type violation struct {
		c    *Candidate
		desc string
		res  nativeResult
	}
	var viols []violation
	unconfirmed := []string{}
	tried := map[string]int{}
	for _, c := range ex.cands {
		k := c.Harness + "|" + c.Kind + "|" + c.Msg
		if tried[k] >= 100 {
			continue
		}
		desc, r, ok := nat.confirm(c, tierN)
		if ok {
			tried[k] = 100
			viols = append(viols, violation{c, desc, r})
		} else {
			tried[k]++
			if c.Kind != "hang" || verbose {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s: %s %v", c.Harness, c.Kind, c.Msg, c.Choices))
				if verbose {
					j, _ := json.Marshal(c)
					fmt.Fprintf(os.Stderr, "UNCONFIRMED %s native=%+v\n", j, r)
				}
			}
		}
	}

	// validate completed paths natively
	validated, mismatched := 0, []string{}
	var batch []nativeRun
	for _, d := range ex.dones {
		if os.Getenv("SYMGO_NOSAMPLE") != "" {
			break
		}
		batch = append(batch, nativeRun{Harness: d.Harness, Model: d.Model, Choices: d.Choices, Tier: tierN, Repeat: 1})
	}
	start := 0
	for start < len(batch) {
		rs, err := nat.run(batch[start:], 120*time.Second)
		if err != nil || len(rs) == 0 {
			break
		}
		for i, r := range rs {
			d := ex.dones[start+i]
			if len(r.Failed) > 0 || r.Panic != "" || r.Hang || strings.HasPrefix(r.Crash, "process died") {
				c := &Candidate{Harness: d.Harness, Kind: "native", Msg: "native replay of a completed path fails", Model: d.Model, Choices: d.Choices}
				if desc, r2, ok := nat.confirm(c, tierN); ok {
					if tried[c.Harness+"|native"] == 0 {
						viols = append(viols, violation{c, desc, r2})
					}
					tried[c.Harness+"|native"]++
				}
				continue
			}
			if d.mapOrd {
				validated++
				continue
			}
			if r.Assumed || strings.Join(r.Obs, "\n") != strings.Join(d.Obs, "\n") || strings.Join(r.Reach, "\n") != strings.Join(d.Reach, "\n") {
				mismatched = append(mismatched, d.Harness)
				if verbose && len(mismatched) < 10 {
					j, _ := json.Marshal(d)
					fmt.Fprintf(os.Stderr, "MISMATCH %s\n native %+v\n", j, r)
				}
			} else {
				validated++
			}
		}
		start += len(rs)
		if len(rs) == 0 {
			break
		}
	}

	// known findings
	var kf struct {
		Findings []map[string]interface{} `json:"findings"`
	}
	if b, err := os.ReadFile(knownFile); err == nil {
		json.Unmarshal(b, &kf)
	}
	matchKnown := func(v violation) string {
		for _, f := range kf.Findings {
			if f["property"] != prop || f["harness"] != v.c.Harness {
				continue
			}
			if m, ok := f["message"].(string); !ok || !strings.Contains(v.desc, m) {
				continue
			}
			okc := true
			if ch, ok := f["choices"].(map[string]interface{}); ok {
				for k, x := range ch {
					if n, ok := x.(float64); !ok || v.c.Choices[k] != int(n) {
						okc = false
					}
				}
			}
			if okc {
				s, _ := f["what"].(string)
				return s
			}
		}
		return ""
	}
	exit := 0
	knownSeen := map[string]bool{}
	var violOut []map[string]interface{}
	for i, v := range viols {
		if w := matchKnown(v); w != "" {
			if !knownSeen[w] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, w)
			}
			knownSeen[w] = true
			continue
		}
		os.MkdirAll(replayDir, 0o755)
		rp := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", prop, i))
		j, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "candidate": v.c, "observed": v.desc, "native": v.res, "tier": tierN,
			"how": "bash /verif/check.sh --replay " + rp}, "", " ")
		os.WriteFile(rp, j, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		fmt.Printf("  harness %s: %s (solver: %s %s; choices %v)\n", v.c.Harness, v.desc, v.c.Kind, v.c.Msg, v.c.Choices)
		violOut = append(violOut, map[string]interface{}{"harness": v.c.Harness, "observed": v.desc, "replay": rp})
		exit = 1
	}

	// evidence
	var fns []string
	blocks, covered := 0, 0
	for n, c := range ex.fnCov {
		k := 0
		for _, x := range c.cov {
			if x {
				k++
			}
		}
		blocks += c.blocks
		covered += k
		fns = append(fns, fmt.Sprintf("%s (%d/%d blocks)", strings.ReplaceAll(n, modPath, "bin"), k, c.blocks))
	}
	sort.Strings(fns)
	var hstats []map[string]interface{}
	for _, h := range hs {
		s := ex.hs[h.Name()]
		hstats = append(hstats, map[string]interface{}{"harness": h.Name(), "paths": s.paths, "completed": ex.doneN[h.Name()], "doc": docOf(hp, h.Name())})
	}
	writeEvidence(evDir, prop, tier, ex, evInfo{
		loadT: loadT, exploreT: exploreT, total: time.Since(t0), fns: fns, blocks: blocks, covered: covered, hstats: hstats,
		validated: validated, mismatched: len(mismatched), unconfirmed: unconfirmed, viols: violOut, srcHash: hashRepo(repo), hdir: hdir, exit: exit, known: len(knownSeen)})
	inc := ex.incompleteList()
	fmt.Printf("%s %s: %d paths (%d completed, %d cut by assumptions), %d decisions, %d assertions (%d by solver, %d by simplification), %d queries (%d sat %d unsat %d unknown) %.1fs solver, load %.1fs explore %.1fs total %.1fs; %d/%d replays agree; functions %d blocks %d/%d\n",
		prop, tier, ex.paths, ex.completed, ex.assumeEnds, ex.decisions, ex.asserts, ex.assertSolver, ex.assertConst, ex.st.Queries, ex.st.SatN, ex.st.UnsatN, ex.st.UnknownN, float64(ex.st.Nanos)/1e9, loadT.Seconds(), exploreT.Seconds(), time.Since(t0).Seconds(), validated, len(ex.dones), len(fns), covered, blocks)
	for _, s := range inc {
		fmt.Println("  bound/incomplete:", s)
	}
	for _, s := range unconfirmed {
		fmt.Println("  unconfirmed counterexample (not reported):", s)
	}
	if len(mismatched) > 0 {
		fmt.Println("  replay mismatches:", len(mismatched))
	}
	if verbose {
		for w, n := range warnings {
			fmt.Println("  warning:", w, n)
		}
		for _, h := range hstats {
			fmt.Println("  ", h["harness"], h["paths"], h["completed"])
		}
		for _, f := range fns {
			fmt.Println("   fn", f)
		}
	}
	return exit
}

func docOf(hp *ssa.Package, name string) string {
	f := hp.Func(name)
	if f == nil {
		return ""
	}
	if fd, ok := f.Syntax().(*ast.FuncDecl); ok && fd.Doc != nil {
		return strings.TrimSpace(fd.Doc.Text())
	}
	return ""
}

func hashRepo(repo string) string {
	h := sha256.New()
	ents, _ := os.ReadDir(repo)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			b, _ := os.ReadFile(filepath.Join(repo, e.Name()))
			fmt.Fprintf(h, "%s %d\n", e.Name(), len(b))
			h.Write(b)
		}
	}
	return hex.EncodeToString(h.Sum(nil))[:16]
}

func doReplay(file string, natCh chan *Native) int {
	b, err := os.ReadFile(file)
	must(err)
	var d struct {
		Candidate Candidate `json:"candidate"`
		Tier      int       `json:"tier"`
	}
	must(json.Unmarshal(b, &d))
	nat := <-natCh
	if nat.err != nil {
		fmt.Fprintln(os.Stderr, nat.out)
		return 2
	}
	desc, r, ok := nat.confirm(&d.Candidate, d.Tier)
	j, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(string(j))
	if ok {
		fmt.Println("REPRODUCED:", desc)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

var _ = types.Identical
