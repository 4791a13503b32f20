package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Ctx is what a rule set works on.
type Ctx struct {
	*World // the main Go module
	Repo   string
	Verif  string
	Tier   string
	Scr    string
	mbt    *World
	mbtErr error
	mbtTry bool
}

type ruleSet struct {
	id   string
	run  func(*Ctx, *Rep)
	nogo bool // needs no Go program
}

var registry = map[string]ruleSet{}

func register(id string, f func(*Ctx, *Rep))   { registry[id] = ruleSet{id, f, false} }
func registerPy(id string, f func(*Ctx, *Rep)) { registry[id] = ruleSet{id, f, true} }

func goEnv() []string {
	e := os.Environ()
	var out []string
	for _, x := range e {
		if strings.HasPrefix(x, "GOFLAGS=") || strings.HasPrefix(x, "PATH=") || strings.HasPrefix(x, "GOROOT=") {
			continue
		}
		out = append(out, x)
	}
	path := os.Getenv("PATH")
	if exists("/opt/veriftools/go1.23.12/bin/go") {
		path = "/opt/veriftools/go1.23.12/bin:" + path
	}
	return append(out, "PATH="+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off")
}

// prepare regenerates the fizz/proto package from the current .proto files and writes a module file for it.
func prepare(repo, scr string) (string, error) {
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	gs, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return "", err
	}
	fz := filepath.Join(scr, "fizz")
	if err := os.MkdirAll(filepath.Join(fz, "proto"), 0o755); err != nil {
		return "", err
	}
	mod := filepath.Join(scr, "fizzbee.mod")
	os.WriteFile(mod, []byte(string(gm)+"\nrequire fizz v0.0.0\nreplace fizz => "+fz+"\n"), 0o644)
	os.WriteFile(filepath.Join(scr, "fizzbee.sum"), gs, 0o644)
	req := regexp.MustCompile(`google.golang.org/protobuf v\S+`).FindString(string(gm))
	os.WriteFile(filepath.Join(fz, "go.mod"), []byte("module fizz\n\ngo 1.22.4\n\nrequire "+req+"\n"), 0o644)
	env := goEnv()
	gen := filepath.Join(scr, "protoc-gen-go")
	protos, _ := filepath.Glob(filepath.Join(repo, "proto", "*.proto"))
	var e1 error
	if err := run(repo, env, "go", "build", "-modfile="+mod, "-o", gen, "google.golang.org/protobuf/cmd/protoc-gen-go"); err != nil {
		e1 = err
		gen = "/opt/vp/go/bin/protoc-gen-go"
	}
	out := filepath.Join(scr, "pbout")
	os.MkdirAll(out, 0o755)
	args := append([]string{"-I", filepath.Join(repo, "proto"), "--plugin=" + gen, "--go_out=" + out}, protos...)
	if err := run(repo, env, "protoc", args...); err != nil {
		return "", fmt.Errorf("generating the proto package: %v %v", err, e1)
	}
	fs, _ := filepath.Glob(filepath.Join(out, "fizz", "proto", "*.go"))
	if len(fs) == 0 {
		return "", fmt.Errorf("protoc generated nothing")
	}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(fz, "proto", filepath.Base(f)), b, 0o644); err != nil {
			return "", err
		}
	}
	return mod, nil
}

// Mbt loads the second Go module (the model-based-testing client library).
func (c *Ctx) Mbt() (*World, error) {
	if !c.mbtTry {
		c.mbtTry = true
		c.mbt, c.mbtErr = loadWorld(loadOpt{dir: filepath.Join(c.Repo, "mbt/lib/go"), env: goEnv()})
	}
	return c.mbt, c.mbtErr
}

// the build configurations a thorough run adds to the host's (the module also targets these systems).
var otherTargets = []string{"darwin/arm64", "windows/amd64"}

// otherTarget applies the rules to the program as built for another system and adds the obligations to the report.
func (c *Ctx) otherTarget(target, id string, rule func(*Ctx, *Rep), r *Rep) {
	goos, arch, _ := strings.Cut(target, "/")
	env := append(goEnv(), "GOOS="+goos, "GOARCH="+arch, "CGO_ENABLED=0")
	w, err := loadWorld(loadOpt{dir: c.Repo, modfile: filepath.Join(c.Scr, "fizzbee.mod"), env: env})
	if err != nil {
		r.Undecided(target+": load", "-", err.Error())
		return
	}
	sub := newRep(id)
	func() {
		defer func() {
			if p := recover(); p != nil {
				sub.Undecided("analysis-panic", "-", fmt.Sprintf("%v\n%s", p, debug.Stack()))
			}
		}()
		rule(&Ctx{Repo: c.Repo, Verif: c.Verif, Tier: c.Tier, Scr: c.Scr, World: w}, sub)
	}()
	for _, o := range sub.Obls {
		o.Key = goos + ": " + o.Key
		r.Obls = append(r.Obls, o)
	}
}

func main() {
	prop := flag.String("prop", "", "property id (comma list or 'all' allowed for development)")
	tier := flag.String("tier", "quick", "quick|thorough")
	verif := flag.String("verif", "/verif", "")
	repo := flag.String("repo", "/repo", "")
	scr := flag.String("scratch", "", "")
	seed := flag.Int("seed", 1, "")
	list := flag.Bool("list", false, "print every obligation")
	dump := flag.String("dump", "", "development: print the branch conditions and calls of a function")
	summary := flag.Bool("summary", false, "only final lines")
	flag.Parse()
	_ = summary
	start := time.Now()
	if *scr == "" {
		d, err := os.MkdirTemp("", "fizzlint")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		defer os.RemoveAll(d)
		*scr = d
	}
	var ids []string
	if *prop == "all" {
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	c := &Ctx{Repo: *repo, Verif: *verif, Tier: *tier, Scr: *scr}
	loaded := false
	var loadErr error
	rc := 0
	for _, id := range ids {
		rs, ok := registry[id]
		if !ok {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		if !rs.nogo && !loaded {
			loaded = true
			mod, err := prepare(*repo, *scr)
			if err == nil {
				c.World, err = loadWorld(loadOpt{dir: *repo, modfile: mod, env: goEnv()})
			}
			loadErr = err
		}
		if *dump != "" {
			if loadErr != nil {
				fmt.Println(loadErr)
			}
			c.World.dump(*dump)
			return
		}
		r := newRep(id)
		t0 := start
		if len(ids) > 1 {
			t0 = time.Now()
		}
		if !rs.nogo && loadErr != nil {
			r.Undecided("load", "-", loadErr.Error())
		} else {
			func() {
				defer func() {
					if p := recover(); p != nil {
						r.Undecided("analysis-panic", "-", fmt.Sprintf("%v\n%s", p, debug.Stack()))
					}
				}()
				rs.run(c, r)
			}()
		}
		if *tier == "thorough" && !rs.nogo && loadErr == nil {
			for _, target := range otherTargets {
				c.otherTarget(target, id, rs.run, r)
			}
		}
		if *list {
			for _, o := range r.Obls {
				fmt.Printf("  %-5v %s @ %s %s\n", o.OK, o.Key, o.Pos, o.Note)
			}
		}
		if x := r.finish(*verif, *tier, *seed, t0); x > rc {
			rc = x
		}
	}
	if len(ids) > 1 {
		os.RemoveAll(*scr)
	}
	os.Exit(rc)
}
