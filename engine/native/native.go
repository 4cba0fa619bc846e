// Package native builds the harnesses with the real compiler and runs them on tapes, to confirm counterexamples
// and to compare symbolic with native executions.
package native

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/engine/interp"
)

// Builder makes native binaries, once per variant.
type Builder struct {
	Repo, Dir string
	Tags      string
	mu        sync.Mutex
	bins      map[string]*built
}

type built struct {
	once sync.Once
	path string
	err  error
}

func NewBuilder(repo, dir string) *Builder {
	return &Builder{Repo: repo, Dir: dir, bins: map[string]*built{}}
}

func goOut(dir string, args ...string) (string, error) {
	c := exec.Command("go", args...)
	c.Dir = dir
	var e bytes.Buffer
	c.Stderr = &e
	b, err := c.Output()
	if err != nil {
		return "", fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, e.String())
	}
	return strings.TrimSpace(string(b)), nil
}

func sub(s *string, from, to string) error {
	if !strings.Contains(*s, from) {
		return fmt.Errorf("not found: %q", from)
	}
	*s = strings.Replace(*s, from, to, 1)
	return nil
}

// patches are the library files that get hooks: random draws and the block cipher follow the tape.
func patches(repo string) (map[string]string, error) {
	r := map[string]string{}
	root, err := goOut(repo, "env", "GOROOT")
	if err != nil {
		return nil, err
	}
	read := func(p string) (string, error) {
		b, err := os.ReadFile(p)
		return string(b), err
	}
	// math/rand
	p := filepath.Join(root, "src/math/rand/rand.go")
	s, err := read(p)
	if err != nil {
		return nil, err
	}
	for _, x := range []struct{ re, body string }{
		{`func Int63\(\) int64 \{`, "if VerifUint != nil { return int64(VerifUint(1 << 63)) }"},
		{`func Uint32\(\) uint32 \{`, "if VerifUint != nil { return uint32(VerifUint(1 << 32)) }"},
		{`func Uint64\(\) uint64 \{`, "if VerifUint != nil { return VerifUint(0) }"},
		{`func Int31\(\) int32 \{`, "if VerifUint != nil { return int32(VerifUint(1 << 31)) }"},
		{`func Int\(\) int \{`, "if VerifUint != nil { return int(VerifUint(1 << 63)) }"},
		{`func Int63n\(n int64\) int64 \{`, "if VerifUint != nil && n > 0 { return int64(VerifUint(uint64(n))) }"},
		{`func Int31n\(n int32\) int32 \{`, "if VerifUint != nil && n > 0 { return int32(VerifUint(uint64(n))) }"},
		{`func Intn\(n int\) int \{`, "if VerifUint != nil && n > 0 { return int(VerifUint(uint64(n))) }"},
		{`func Perm\(n int\) \[\]int \{`, "if VerifPerm != nil && n >= 0 { return VerifPerm(n) }"},
		{`func Shuffle\(n int, swap func\(i, j int\)\) \{`, "if VerifUint != nil && n >= 0 { for i := n - 1; i > 0; i-- { swap(i, int(VerifUint(uint64(i+1)))) }; return }"},
		{`func Read\(p \[\]byte\) \(n int, err error\) \{`, "if VerifRead != nil { VerifRead(p); return len(p), nil }"},
	} {
		re := regexp.MustCompile(`(?m)^` + x.re)
		if !re.MatchString(s) {
			return nil, fmt.Errorf("math/rand: %s not found", x.re)
		}
		loc := re.FindStringIndex(s)
		s = s[:loc[1]] + " " + x.body + "\n" + s[loc[1]:]
	}
	s += "\nvar (\n\tVerifRead func([]byte)\n\tVerifPerm func(int) []int\n\tVerifUint func(uint64) uint64\n)\n"
	r[p] = s
	// crypto/aes
	p = filepath.Join(root, "src/crypto/aes/aes.go")
	if s, err = read(p); err != nil {
		return nil, err
	}
	if err := sub(&s, "\tif boring.Enabled {", "\tif VerifNewCipher != nil {\n\t\treturn VerifNewCipher(key), nil\n\t}\n\tif boring.Enabled {"); err != nil {
		return nil, err
	}
	s += "\nvar VerifNewCipher func([]byte) cipher.Block\n\nfunc VerifReal(key []byte) (cipher.Block, error) { return aes.New(key) }\n"
	r[p] = s
	// crypto/rand
	p = filepath.Join(root, "src/crypto/rand/rand.go")
	if s, err = read(p); err != nil {
		return nil, err
	}
	if err := sub(&s, "func Read(b []byte) (n int, err error) {", "func Read(b []byte) (n int, err error) {\n\tif VerifRead != nil {\n\t\tVerifRead(b)\n\t\treturn len(b), nil\n\t}\n"); err != nil {
		return nil, err
	}
	s += "\nvar VerifRead func([]byte)\n"
	r[p] = s
	// aesctrat
	d, err := goOut(repo, "list", "-m", "-f", "{{.Dir}}", "github.com/starius/aesctrat")
	if err != nil {
		return nil, err
	}
	p = filepath.Join(d, "ctr_fast.go")
	if s, err = read(p); err != nil {
		return nil, err
	}
	for _, x := range [][2]string{
		{"\trounds         int\n}", "\trounds         int\n\tverifKey       []byte\n}\n\nvar VerifXOR func(key, dst, src, iv []byte, offset uint64)\n\nvar VerifNew func(key []byte)\n\nfunc verifNote(key []byte) []byte {\n\tif VerifNew != nil {\n\t\tVerifNew(key)\n\t}\n\treturn append([]byte(nil), key...)\n}\n"},
		{"\t\trounds:         rounds,\n", "\t\trounds:         rounds,\n\t\tverifKey:       verifNote(key),\n"},
		{"\t// Reverse IV once", "\tif VerifXOR != nil {\n\t\tVerifXOR(c.verifKey, dst, src, iv, offset)\n\t\treturn\n\t}\n\t// Reverse IV once"},
	} {
		if err := sub(&s, x[0], x[1]); err != nil {
			return nil, fmt.Errorf("aesctrat: %v", err)
		}
	}
	r[p] = s
	// cpuid
	if d, err = goOut(repo, "list", "-m", "-f", "{{.Dir}}", "github.com/klauspost/cpuid/v2"); err != nil {
		return nil, err
	}
	p = filepath.Join(d, "cpuid.go")
	if s, err = read(p); err != nil {
		return nil, err
	}
	if err := sub(&s, "func (c CPUInfo) Supports(ids ...FeatureID) bool {\n\tfor _, id := range ids {\n", "func (c CPUInfo) Supports(ids ...FeatureID) bool {\n\tfor _, id := range ids {\n\t\tif !verifAllowed(id) {\n\t\t\treturn false\n\t\t}\n"); err != nil {
		return nil, err
	}
	s += `
func verifAllowed(id FeatureID) bool {
	have := map[string]int{"none": 0, "sse2": 1, "ssse3": 2, "avx2": 3, "avx512": 4, "": 9, "avx2only": 9}[os.Getenv("VERIF_CPU")]
	if os.Getenv("VERIF_CPU") == "avx2only" {
		return id == AVX2
	}
	switch id {
	case SSE2, SSE:
		return have >= 1
	case SSE3, SSSE3:
		return have >= 2
	case SSE4, SSE42, AVX, AVX2, BMI1, BMI2:
		return have >= 3
	}
	return have >= 4
}
`
	if !regexp.MustCompile(`(?m)^\s*"os"$`).MatchString(s) {
		if err := sub(&s, "import (", "import (\n\t\"os\""); err != nil {
			return nil, err
		}
	}
	r[p] = s
	return r, nil
}

// Binary builds a variant: "" or "race".
func (b *Builder) Binary(variant string) (string, error) {
	b.mu.Lock()
	x := b.bins[variant]
	if x == nil {
		x = &built{}
		b.bins[variant] = x
	}
	b.mu.Unlock()
	x.once.Do(func() { x.path, x.err = b.build(variant) })
	return x.path, x.err
}

func (b *Builder) build(variant string) (string, error) {
	dir := filepath.Join(b.Dir, "v"+variant)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	ov, err := interp.OverlayFiles(b.Repo)
	if err != nil {
		return "", err
	}
	rep := map[string]string{}
	n := 0
	add := func(p string, c []byte) error {
		f := filepath.Join(dir, fmt.Sprintf("f%d_%s", n, filepath.Base(p)))
		n++
		rep[p] = f
		return os.WriteFile(f, c, 0o644)
	}
	for p, c := range ov {
		if err := add(p, c); err != nil {
			return "", err
		}
	}
	ps, err := patches(b.Repo)
	if err != nil {
		return "", err
	}
	root, err := goOut(b.Repo, "env", "GOROOT")
	if err != nil {
		return "", err
	}
	// library modules cannot be overlaid: patched copies replace them
	mod, err := os.ReadFile(filepath.Join(b.Repo, "go.mod"))
	if err != nil {
		return "", err
	}
	sum, _ := os.ReadFile(filepath.Join(b.Repo, "go.sum"))
	for p, c := range ps {
		if strings.HasPrefix(p, root) {
			if err := add(p, []byte(c)); err != nil {
				return "", err
			}
			continue
		}
		src := filepath.Dir(p)
		dst := filepath.Join(dir, "mod_"+regexp.MustCompile(`[^a-z]`).ReplaceAllString(src[strings.Index(src, "/mod/")+5:], ""))
		if err := copyDir(src, dst); err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(dst, filepath.Base(p)), []byte(c), 0o644); err != nil {
			return "", err
		}
		name := src[strings.Index(src, "/mod/")+5 : strings.LastIndex(src, "@")]
		mod = append(mod, []byte(fmt.Sprintf("\nreplace %s => %s\n", name, dst))...)
	}
	mf := filepath.Join(dir, "go.mod")
	if err := os.WriteFile(mf, mod, 0o644); err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644); err != nil {
		return "", err
	}
	if variant == "race" || variant == "racenoasm" || variant == "stress" {
		err := filepath.WalkDir(b.Repo, func(p string, d os.DirEntry, err error) error {
			if err != nil {
				return err
			}
			if d.IsDir() {
				if n := d.Name(); p != b.Repo && (strings.HasPrefix(n, ".") || n == "galois" || n == "cli" || n == "data" || n == "build") {
					return filepath.SkipDir
				}
				return nil
			}
			if filepath.Dir(p) == b.Repo || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			if out := instrument(src); out != nil {
				return add(p, out)
			}
			return nil
		})
		if err != nil {
			return "", err
		}
	}
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(of, j, 0o644); err != nil {
		return "", err
	}
	out := filepath.Join(dir, "replay")
	args := []string{"build", "-modfile", mf, "-overlay", of, "-o", out}
	tags := b.Tags
	if variant == "race" {
		args = append(args, "-race")
	} else if variant == "racenoasm" {
		args = append(args, "-race")
		tags = "noasm"
	} else if strings.HasPrefix(variant, "tags=") {
		tags = variant[5:]
	}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	args = append(args, "./zzverif/replay")
	if _, err := goOut(b.Repo, args...); err != nil {
		return "", err
	}
	return out, nil
}

func copyDir(src, dst string) error {
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	es, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	for _, e := range es {
		s, d := filepath.Join(src, e.Name()), filepath.Join(dst, e.Name())
		if e.IsDir() {
			continue
		}
		if !(strings.HasSuffix(s, ".go") && !strings.HasSuffix(s, "_test.go") || strings.HasSuffix(s, ".s") || e.Name() == "go.mod" || e.Name() == "go.sum") {
			continue
		}
		b, err := os.ReadFile(s)
		if err != nil {
			return err
		}
		if err := os.WriteFile(d, b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

// instrument puts a scheduling point before every statement.
func instrument(src []byte) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil || bytes.Contains(src, []byte("//go:noescape")) {
		return nil
	}
	at := map[int]bool{}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			at[fs.Position(s.Pos()).Offset] = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			for _, c := range n.Body.List {
				list(c.(*ast.CaseClause).Body)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range n.Body.List {
				list(c.(*ast.CaseClause).Body)
			}
		case *ast.SelectStmt:
			for _, c := range n.Body.List {
				list(c.(*ast.CommClause).Body)
			}
		case *ast.BlockStmt:
			for _, s := range n.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
				default:
					at[fs.Position(s.Pos()).Offset] = true
				}
			}
		}
		return true
	})
	if len(at) == 0 {
		return nil
	}
	var out []byte
	imp := fs.Position(f.Name.End()).Offset
	for i, c := range src {
		if i == imp {
			out = append(out, []byte("; import verifvt \"github.com/fadhilkurnia/shamir/zzverif/vt\"")...)
		}
		if at[i] {
			out = append(out, []byte("verifvt.Point(); ")...)
		}
		out = append(out, c)
	}
	return out
}

// Result of a native execution; see package vt.
type Result struct {
	Violation string
	Out       map[string]string
	Order     []string
	Assumed   bool
	Done      bool
	Mismatch  int
	View      string
	Cover     []string
	Crash     string // the process ended
	Hang      bool
}

// Runner keeps a process that executes tapes.
type Runner struct {
	bin, cpu string
	cmd      *exec.Cmd
	in       *json.Encoder
	out      *bufio.Reader
	errb     *bytes.Buffer
	Env      []string
	Timeout  time.Duration
}

func NewRunner(bin, cpu string) *Runner {
	return &Runner{bin: bin, cpu: cpu, Timeout: 20 * time.Second}
}

// cpuList has n of the processors this process may use, if there are more.
func cpuList(n string) string {
	want, _ := strconv.Atoi(n)
	if want <= 0 {
		return ""
	}
	if _, err := exec.LookPath("taskset"); err != nil {
		return ""
	}
	b, err := os.ReadFile("/proc/self/status")
	if err != nil {
		return ""
	}
	for _, line := range strings.Split(string(b), "\n") {
		v, ok := strings.CutPrefix(line, "Cpus_allowed_list:")
		if !ok {
			continue
		}
		var l []string
		for _, p := range strings.Split(strings.TrimSpace(v), ",") {
			lo, hi, isRange := strings.Cut(p, "-")
			if !isRange {
				hi = lo
			}
			a, e1 := strconv.Atoi(lo)
			z, e2 := strconv.Atoi(hi)
			if e1 != nil || e2 != nil {
				return ""
			}
			for ; a <= z && len(l) < want; a++ {
				l = append(l, strconv.Itoa(a))
			}
		}
		return strings.Join(l, ",")
	}
	return ""
}

func (r *Runner) start() error {
	cpu, n, ok := strings.Cut(r.cpu, ":")
	c := exec.Command(r.bin)
	if l := cpuList(n); ok && l != "" {
		c = exec.Command("taskset", "-c", l, r.bin)
	}
	c.Env = append(os.Environ(), "VERIF_CPU="+cpu, "GOTRACEBACK=single")
	c.Env = append(c.Env, r.Env...)
	r.errb = &bytes.Buffer{}
	c.Stderr = r.errb
	w, err := c.StdinPipe()
	if err != nil {
		return err
	}
	o, err := c.StdoutPipe()
	if err != nil {
		return err
	}
	if err := c.Start(); err != nil {
		return err
	}
	r.cmd = c
	r.in = json.NewEncoder(w)
	r.out = bufio.NewReaderSize(o, 1<<20)
	return nil
}

func (r *Runner) Close() {
	if r.cmd != nil {
		r.cmd.Process.Kill()
		r.cmd.Wait()
		r.cmd = nil
	}
}

// Run executes one tape.
func (r *Runner) Run(t *interp.Tape) (*Result, error) {
	if r.cmd == nil {
		if err := r.start(); err != nil {
			return nil, err
		}
	}
	type ans struct {
		res *Result
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		if err := r.in.Encode(t); err != nil {
			ch <- ans{nil, err}
			return
		}
		for {
			line, err := r.out.ReadBytes('\n')
			if err != nil {
				ch <- ans{nil, err}
				return
			}
			if !bytes.HasPrefix(line, []byte(`{"Violation"`)) {
				continue // the code under test prints
			}
			res := &Result{}
			if err := json.Unmarshal(line, res); err != nil {
				continue
			}
			ch <- ans{res, nil}
			return
		}
	}()
	select {
	case a := <-ch:
		if a.err == nil {
			return a.res, nil
		}
		r.cmd.Wait()
		r.cmd = nil
		msg := r.errb.String()
		if len(msg) > 4000 {
			msg = msg[:4000]
		}
		return &Result{Crash: "the process ended: " + msg}, nil
	case <-time.After(r.Timeout):
		r.Close()
		return &Result{Hang: true}, nil
	}
}
