package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/wdamron/amt"
const harnPath = "amtverif"

// goflags: SYMGO_MODFILE names a go.mod with another replacement for the code under test
// (for development; the registered checks use the harness's own, which is /repo).
var goflags = func() string {
	if m := os.Getenv("SYMGO_MODFILE"); m != "" {
		return "-mod=mod -modfile=" + m
	}
	return "-mod=mod"
}()

func loadProgram(dir string) (*Program, error) {
	p, err := loadTags(dir)
	if err != nil && harnessTags == "" {
		harnessTags = "noint"
		if q, err2 := loadTags(dir); err2 == nil {
			return q, nil
		}
		harnessTags = ""
	}
	return p, err
}

// harnessTags are extra build tags for the harness: "noint" if amt.Int is no generic key.
var harnessTags string

func loadTags(dir string) (*Program, error) {
	cfg := &packages.Config{BuildFlags: []string{"-tags=" + harnessTags}, Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS="+goflags, "GOWORK=off")}
	pk, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, ps := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, harness: ps[0], infos: map[*ssa.Function]*fnInfo{}, repoPath: repoPath, harnPath: harnPath}
	p.initPkgs = map[*typesPackage]bool{}
	for _, sp := range prog.AllPackages() {
		pp := sp.Pkg.Path()
		if pp == repoPath || strings.HasPrefix(pp, repoPath+"/") || pp == harnPath || strings.HasPrefix(pp, harnPath+"/") {
			p.initPkgs[sp.Pkg] = true
		}
	}
	p.redirect = map[*ssa.Function]*ssa.Function{}
	if sync, v := prog.ImportedPackage("sync"), prog.ImportedPackage(harnPath+"/v"); sync != nil && v != nil {
		pool := types.NewPointer(sync.Type("Pool").Type())
		p.redirect[prog.LookupMethod(pool, sync.Pkg, "Get")] = v.Func("PoolGet")
		p.redirect[prog.LookupMethod(pool, sync.Pkg, "Put")] = v.Func("PoolPut")
	}
	return p, nil
}

func main() {
	prop := flag.String("prop", "", "property to check")
	tier := flag.String("tier", "", "quick or thorough (default: VERIF_TIER)")
	verif := flag.String("verif", "/verif", "the /verif directory")
	only := flag.String("job", "", "run only jobs whose name contains this")
	entry := flag.String("entry", "", "run one entry with -params")
	params := flag.String("params", "", "name=value,...")
	verbose := flag.Bool("v", false, "verbose")
	nw := flag.Int("j", 8, "workers")
	list := flag.Bool("list", false, "list the jobs")
	noNative := flag.Bool("nonative", false, "do not run anything natively")
	budget := flag.Int("budget", 0, "seconds for the whole check (default: by tier)")
	flag.DurationVar(&grace, "grace", grace, "how long to go on after the first confirmed violation")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	d := &Driver{verif: *verif, prop: *prop, tier: *tier, workers: *nw, verbose: *verbose, noNative: *noNative, start: time.Now(), budget: *budget}
	if *entry != "" {
		j := Job{Entry: *entry, Params: map[string]int64{}}
		for _, kv := range strings.Split(*params, ",") {
			if i := strings.IndexByte(kv, '='); i > 0 {
				var n int64
				fmt.Sscan(kv[i+1:], &n)
				j.Params[kv[:i]] = n
			}
		}
		j.name()
		d.jobs = []Job{j}
	} else {
		js := jobsFor(*prop, *tier)
		if len(js) == 0 {
			fmt.Fprintln(os.Stderr, "no jobs for property", *prop)
			os.Exit(2)
		}
		for _, j := range js {
			j.name()
			if *only == "" || strings.Contains(j.Name, *only) {
				d.jobs = append(d.jobs, j)
			}
		}
	}
	if *list {
		for _, j := range d.jobs {
			fmt.Println(j.Name)
		}
		return
	}
	os.Exit(d.run())
}

// Job is one symbolic execution: an entry function with concrete parameters.
type Job struct {
	Entry  string
	Params map[string]int64
	Name   string
	Weight int // larger runs earlier
}

func (j *Job) name() {
	if j.Name != "" {
		return
	}
	var ks []string
	for k := range j.Params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := j.Entry
	for _, k := range ks {
		s += fmt.Sprintf(",%s=%d", k, j.Params[k])
	}
	j.Name = s
}

func jsonOut(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
