package main

import (
	"debug/dwarf"
	"debug/elf"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif.local/sim/instr"
)

const (
	libPath  = "github.com/mindstand/go-bolt"
	poolPath = "github.com/jolestar/go-commons-pool"
)

// Build is an instrumented build of the tree under test.
type Build struct {
	Race     bool
	RaceCtx  int // offset of the race context in the runtime's g
	Dir      string
	Worker   string
	Sites    []string
	Notes    []string
	LibPkgs  []string
	DepPkgs  []string
	Files    int
	RaceSkip []string
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		switch strings.SplitN(e, "=", 2)[0] {
		case "GOFLAGS", "GOPROXY", "GOSUMDB", "GOTOOLCHAIN", "GOWORK", "GO111MODULE", "GONOSUMDB", "GONOSUMCHECK":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on")
}

func run(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env
	b, err := c.CombinedOutput()
	if err != nil {
		return string(b), fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, b)
	}
	return string(b), nil
}

// build instruments repo (through an overlay) and its pool dependency (through
// a copy) and compiles the worker in dir. Nothing under repo is written.
func build(sim, repo, dir string, race bool) (*Build, error) {
	b := &Build{Dir: dir, Race: race}
	if err := os.RemoveAll(dir); err != nil {
		return nil, err
	}
	for _, d := range []string{"lib", "pool"} {
		if err := os.MkdirAll(filepath.Join(dir, d), 0o755); err != nil {
			return nil, err
		}
	}
	env := goEnv()
	// the versions the tree itself asks for
	poolVer := "v2.0.0+incompatible"
	usesPool := false
	if s, err := run(repo, env, "go", "list", "-m", "-f", "{{.Path}} {{.Version}} {{.Dir}}", "all"); err == nil {
		for _, l := range strings.Split(s, "\n") {
			f := strings.Fields(l)
			if len(f) == 3 && f[0] == poolPath {
				poolVer = f[1]
				usesPool = true
				if err := copyTree(f[2], filepath.Join(dir, "pool")); err != nil {
					return nil, err
				}
			}
		}
	} else {
		return nil, err
	}
	base, err := os.ReadFile(filepath.Join(sim, "go.mod"))
	if err != nil {
		return nil, err
	}
	mod := string(base) + fmt.Sprintf("\nrequire %s v0.0.0\n\nreplace %s => %s\n", libPath, libPath, repo)
	if usesPool {
		mod += fmt.Sprintf("\nrequire %s %s\n\nreplace %s => %s\n", poolPath, poolVer, poolPath, filepath.Join(dir, "pool"))
		if _, err := os.Stat(filepath.Join(dir, "pool", "go.mod")); err != nil {
			if err := os.WriteFile(filepath.Join(dir, "pool", "go.mod"), []byte("module "+poolPath+"\n\ngo 1.14\n"), 0o644); err != nil {
				return nil, err
			}
		}
	}
	modfile := filepath.Join(dir, "gen.mod")
	if err := os.WriteFile(modfile, []byte(mod), 0o644); err != nil {
		return nil, err
	}
	if s, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(dir, "gen.sum"), s, 0o644)
	}
	ps, err := instr.List(sim, env, "-modfile="+modfile, libPath)
	if err != nil {
		return nil, err
	}
	more, err := instr.List(sim, env, "-modfile="+modfile, libPath+"/...")
	if err == nil {
		ps = more
	}
	ctx := &instr.Ctx{Exports: map[string]string{}}
	for _, p := range ps {
		ctx.Exports[p.ImportPath] = p.Export
	}
	overlay := map[string]string{}
	for _, p := range ps {
		isLib := p.ImportPath == libPath || strings.HasPrefix(p.ImportPath, libPath+"/")
		isDep := p.ImportPath == poolPath || strings.HasPrefix(p.ImportPath, poolPath+"/")
		if !isLib && !isDep || len(p.GoFiles) == 0 {
			continue
		}
		out, err := ctx.Package(p)
		if err != nil {
			return nil, fmt.Errorf("instrument %s: %v", p.ImportPath, err)
		}
		if isLib {
			b.LibPkgs = append(b.LibPkgs, p.ImportPath)
		} else {
			b.DepPkgs = append(b.DepPkgs, p.ImportPath)
		}
		for path, src := range out {
			b.Files++
			if isDep {
				if err := os.WriteFile(path, src, 0o644); err != nil {
					return nil, err
				}
				continue
			}
			rel, err := filepath.Rel(repo, path)
			if err != nil {
				return nil, err
			}
			dst := filepath.Join(dir, "lib", rel)
			os.MkdirAll(filepath.Dir(dst), 0o755)
			if err := os.WriteFile(dst, src, 0o644); err != nil {
				return nil, err
			}
			overlay[path] = dst
		}
	}
	b.Sites, b.Notes = ctx.Sites, ctx.Notes
	ob, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), ob, 0o644); err != nil {
		return nil, err
	}
	sb, _ := json.Marshal(b.Sites)
	os.WriteFile(filepath.Join(dir, "sites.json"), sb, 0o644)
	b.Worker = filepath.Join(dir, "worker.test")
	args := []string{"test", "-c", "-vet=off", "-modfile=" + modfile, "-overlay=" + filepath.Join(dir, "overlay.json"), "-o", b.Worker}
	if race {
		args = append(args, "-race")
		for _, p := range []string{"simrt", "world", "runner", "gen", "worker"} {
			args = append(args, "-gcflags=verif.local/sim/"+p+"=-race=false")
			b.RaceSkip = append(b.RaceSkip, "verif.local/sim/"+p)
		}
	}
	args = append(args, "./worker")
	if _, err := run(sim, env, "go", args...); err != nil {
		return nil, err
	}
	if race {
		if b.RaceCtx, err = raceCtxOffset(b.Worker); err != nil {
			return nil, err
		}
	}
	return b, nil
}

// raceCtxOffset finds the offset of runtime.g.racectx from the debug information.
func raceCtxOffset(bin string) (int, error) {
	f, err := elf.Open(bin)
	if err != nil {
		return 0, err
	}
	defer f.Close()
	d, err := f.DWARF()
	if err != nil {
		return 0, err
	}
	r := d.Reader()
	for {
		e, err := r.Next()
		if err != nil {
			return 0, err
		}
		if e == nil {
			return 0, fmt.Errorf("no debug information for runtime.g")
		}
		if e.Tag == dwarf.TagStructType && e.Val(dwarf.AttrName) == "runtime.g" {
			t, err := d.Type(e.Offset)
			if err != nil {
				return 0, err
			}
			for _, m := range t.(*dwarf.StructType).Field {
				if m.Name == "racectx" {
					return int(m.ByteOffset), nil
				}
			}
			return 0, fmt.Errorf("runtime.g has no racectx")
		}
		if e.Tag != dwarf.TagCompileUnit {
			r.SkipChildren()
		}
	}
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		to := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(to, 0o755)
		}
		if strings.HasSuffix(p, "_test.go") || !strings.HasSuffix(p, ".go") && filepath.Base(p) != "go.mod" {
			return nil
		}
		in, err := os.Open(p)
		if err != nil {
			return err
		}
		defer in.Close()
		out, err := os.OpenFile(to, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
		if err != nil {
			return err
		}
		if _, err := io.Copy(out, in); err != nil {
			out.Close()
			return err
		}
		return out.Close()
	})
}
