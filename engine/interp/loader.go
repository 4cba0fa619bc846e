package interp

import (
	"embed"
	"fmt"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

//go:embed all:overlay
var overlayFS embed.FS

// Loaded is the code under test with the harnesses, in SSA form.
type Loaded struct {
	Repo   string
	Mod    string // module path
	Prog   *ssa.Program
	Fset   *token.FileSet
	GOARCH string
	Tags   string

	mu       sync.Mutex
	pkgs     map[string]*ssa.Package
	built    map[*ssa.Package]bool
	skipInit map[string]bool
	rtErr    types.Type
	asms     map[string]map[string]*AsmFunc
	cpuid    map[uint64]string
	Overlay  map[string][]byte
	harness  *ssa.Package
}

const base = "github.com/fadhilkurnia/shamir"

var vtPath = base + "/zzverif/vt"
var modelPath = base + "/zzverif/model"
var hPath = base + "/zzverif/h"

// OverlayFiles are the virtual files added to the repository.
func OverlayFiles(repo string) (map[string][]byte, error) {
	r := map[string][]byte{}
	err := fs.WalkDir(overlayFS, "overlay", func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		b, err := overlayFS.ReadFile(p)
		if err != nil {
			return err
		}
		rel := strings.TrimSuffix(strings.TrimPrefix(p, "overlay/"), ".txt")
		r[filepath.Join(repo, "zzverif", rel)] = b
		return nil
	})
	return r, err
}

func Load(repo, goarch, tags string) (*Loaded, error) {
	ov, err := OverlayFiles(repo)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "GOARCH="+goarch, "CGO_ENABLED=0"),
	}
	// the library in Go, not in assembly
	all := "purego,math_big_pure_go"
	if tags != "" {
		all += "," + tags
	}
	cfg.BuildFlags = []string{"-tags=" + all}
	ps, err := packages.Load(cfg, hPath, modelPath, vtPath)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, p.PkgPath+": "+e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	l := &Loaded{Repo: repo, Mod: base, GOARCH: goarch, Tags: tags, pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, skipInit: map[string]bool{},
		asms: map[string]map[string]*AsmFunc{}, Overlay: ov}
	l.Fset = ps[0].Fset
	l.Prog = ssa.NewProgram(l.Fset, ssa.InstantiateGenerics)
	packages.Visit(ps, nil, func(p *packages.Package) {
		if p.Types == nil {
			return
		}
		sp := l.Prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		l.pkgs[p.PkgPath] = sp
		if l.repo(p.PkgPath) {
			var ss []string
			for _, f := range p.OtherFiles {
				if strings.HasSuffix(f, ".s") {
					ss = append(ss, f)
				}
			}
			if len(ss) > 0 {
				fm := map[string]*AsmFunc{}
				for _, f := range ss {
					if err := parseAsm(f, goarch, fm); err != nil {
						errs = append(errs, err.Error())
					}
				}
				l.asms[p.PkgPath] = fm
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("assembly: %s", strings.Join(errs, "\n"))
	}
	l.harness = l.pkgs[hPath]
	// runtime errors are represented by a model type implementing error
	l.rtErr = types.NewPointer(l.pkgs[modelPath].Type("RuntimeError").Type())
	l.rtErr = l.pkgs[modelPath].Type("RuntimeError").Type()
	l.cpuid = map[uint64]string{}
	if p := l.pkgs["github.com/klauspost/cpuid/v2"]; p != nil {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			if c, ok := sc.Lookup(n).(*types.Const); ok && strings.HasSuffix(c.Type().String(), ".FeatureID") {
				if v, ok := constUint(c); ok {
					l.cpuid[v] = n
				}
			}
		}
	}
	return l, nil
}

func constUint(c *types.Const) (uint64, bool) {
	var v uint64
	_, err := fmt.Sscan(c.Val().ExactString(), &v)
	return v, err == nil
}

func (l *Loaded) cpuidName(v uint64) string { return l.cpuid[v] }

// repo says whether a package belongs to the code under test.
func (l *Loaded) repo(p string) bool {
	return (p == base || strings.HasPrefix(p, base+"/")) && !strings.HasPrefix(p, base+"/zzverif")
}

func (l *Loaded) asm(pkg, name string) *AsmFunc { return l.asms[pkg][name] }

func (l *Loaded) build(fn *ssa.Function) {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		return
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if !l.built[p] {
		l.built[p] = true
		p.Build()
	}
}

func (l *Loaded) Model(name string) *ssa.Function {
	return l.pkgs[modelPath].Func(name)
}

func (l *Loaded) Harness(name string) *ssa.Function {
	return l.harness.Func(name)
}

var initStd = map[string]bool{"errors": false, "io": true, "bytes": true, "strings": true, "strconv": true, "unicode/utf8": true,
	"encoding/binary": true, "sort": true, "math": true, "math/bits": true, "slices": true, "maps": true, "cmp": true,
	"container/list": true, "container/heap": true, "container/ring": true, "hash/crc32": true, "hash/crc64": true, "hash/fnv": true, "hash/adler32": true, "hash/maphash": false, "math/big": true, "crypto": true, "crypto/sha256": true, "crypto/sha1": true, "crypto/sha512": true, "crypto/md5": true, "crypto/hmac": true, "crypto/internal/fips140/sha256": true, "crypto/internal/fips140/sha512": true, "crypto/internal/fips140/hmac": true, "unicode": true, "math/rand": true, "crypto/cipher": true,
	"encoding/hex": true, "encoding/base64": true, "bufio": true, "context": true}

// initPkg says whether a package's initialisation is executed.
func (l *Loaded) initPkg(p string) bool {
	if l.repo(p) || strings.HasPrefix(p, base+"/zzverif") {
		return true
	}
	l.mu.Lock()
	skip := l.skipInit[p]
	l.mu.Unlock()
	if skip {
		return false
	}
	if strings.HasPrefix(p, "github.com/klauspost/reedsolomon") {
		return true
	}
	return initStd[p]
}

func (l *Loaded) poolType() types.Type {
	return l.pkgs["sync"].Type("Pool").Type()
}

func (l *Loaded) atomicType(n string) types.Type {
	p := l.pkgs["sync/atomic"]
	if p == nil {
		return nil
	}
	t := p.Type(n)
	if t == nil {
		return nil
	}
	if _, ok := t.Type().Underlying().(*types.Struct); !ok {
		return nil
	}
	if nt, ok := t.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
		return nil
	}
	return t.Type()
}
