package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	typFloat64 = types.Typ[types.Float64]
	typFloat32 = types.Typ[types.Float32]
	typUint8   = types.Typ[types.Uint8]
	typInt     = types.Typ[types.Int]
	typString  = types.Typ[types.String]
	typBool    = types.Typ[types.Bool]
)

const repoPath = "github.com/go-restruct/restruct"
const hPath = "verif/harness/h"

type Program struct {
	prog  *ssa.Program
	h     *ssa.Package
	inits []*ssa.Function
}

// Load type-checks and translates the harness module, and with it the current source of the
// repository, to SSA.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./h")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	U.prog = prog
	return &Program{prog: prog, h: sp[0]}, nil
}

// Packages whose initialisers run; all others keep zero-valued variables.
var initAllow = map[string]bool{
	"io": true, "unicode/utf8": true, "bytes": true, "strings": true, "strconv": true, "encoding/binary": true,
	"math": true, "math/bits": true, "sort": true, "slices": true, "go/ast": true, "go/token": true, "go/scanner": true,
	"go/parser": true, "go/build/constraint": true, "hash/crc32": false, "github.com/pkg/errors": true, "fmt": true,
	"internal/errors": true, "internal/strconv": true, "hash": true, "path": true,
}

func runsInit(path string) bool {
	return initAllow[path] || strings.HasPrefix(path, repoPath) || strings.HasPrefix(path, "verif/harness")
}

// initAll runs package initialisation on a fresh machine.
func (m *M) initAll(p *Program) error {
	m.inInit = true
	m.model = Model{}
	err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case *pathAbort:
					err = fmt.Errorf("init: %s\n%s", x.msg, m.stack())
				case *goPanic:
					err = fmt.Errorf("init: panic %s\n%s", m.panicText(x.v), m.stack())
				default:
					fmt.Fprintf(os.Stderr, "engine error in init:\n%s\n", m.stack())
					panic(r)
				}
			}
		}()
		m.callFn(nil, FnOf(p.h.Func("init")), nil, nil)
		return nil
	}()
	m.inInit = false
	m.trail = m.trail[:0]
	m.mapTrail = m.mapTrail[:0]
	m.resetPath()
	return err
}
