// Command mutecheck decides the properties of /verif/properties.jsonl by
// static analysis of the type-checked SSA form of mutecomm/mute.
package main

import (
	_ "embed"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

//go:embed exported.txt
var exportedTxt string

// Property is one registered rule set.
type Property struct {
	ID          string
	Run         func(*Ctx)
	Min         int // least number of obligations confirmed by hand
	Explanation string
	Assumptions []string
}

var registry = map[string]*Property{}

func register(p *Property) { registry[p.ID] = p }

type finding struct{ prop, key, what string }

func loadFindings(path string) ([]finding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < 0 || j < i {
			return nil, fmt.Errorf("malformed known finding: %s", l)
		}
		out = append(out, finding{l[:i], strings.TrimSpace(l[i+5 : j]), l[j+4:]})
	}
	return out, nil
}

var (
	flagProp    = flag.String("property", "", "property id")
	flagTier    = flag.String("tier", "quick", "quick or thorough")
	flagRepo    = flag.String("repo", "/repo", "tree to analyse")
	flagVerif   = flag.String("verif", "/verif", "framework directory")
	flagDump    = flag.String("dump", "", "dump facts of functions (comma separated, * suffix allowed)")
	flagOccs    = flag.String("occs", "", "dump sites matching a fact pattern")
	flagScope   = flag.String("scope", "", "scope for -occs")
	flagPre     = flag.Bool("pre", false, "with -occs: print the facts before each site")
	flagDecls   = flag.Bool("decls", false, "print the unexported declarations of the tree")
	flagLost    = flag.Bool("lost", false, "list the errors the tree loses")
	flagExp     = flag.Bool("exported", false, "print the exported functions of the tree")
	flagAll     = flag.Bool("all", false, "run all properties, print violations (development)")
	flagGen     = flag.String("gen", "", "mine contracts of the functions matching the globs (comma separated)")
	flagCon     = flag.String("contracts", "", "decide all contracts matching the globs (development)")
	flagFnDecls = flag.Bool("fndecls", false, "print the declared functions of the tree")
	flagSecrets = flag.Bool("secrets", false, "print the secret-looking declarations of the tree")
	flagTaint   = flag.Bool("taint", false, "run the secret flow (development)")
	flagFns     = flag.Bool("fns", false, "print all functions of the tree")
	flagMut     = flag.String("mutate", "", "mutate the packages matching the glob (development)")
	flagMutFn   = flag.String("mutfn", "", "only mutate functions matching the glob")
	flagShard   = flag.String("shard", "0/1", "shard of the mutants")
	flagObls    = flag.Bool("obls", false, "print all obligations")
)

func main() {
	flag.Parse()
	if f := os.Getenv("MC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		time.AfterFunc(60*time.Second, func() { pprof.StopCPUProfile(); os.Exit(3) })
	}
	start := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *flagProp != "" && !*flagAll {
		defer func() {
			if r := recover(); r != nil {
				// undecided counts as violated
				fail(*flagProp, *flagTier, seed, start, fmt.Sprintf("analysis failed: %v", r))
			}
		}()
	}
	P, err := Load(*flagRepo, nil)
	if err != nil {
		if *flagProp != "" {
			fail(*flagProp, *flagTier, seed, start, "the tree could not be loaded: "+err.Error())
		}
		fmt.Println(err)
		os.Exit(1)
	}
	P.BaseExp = map[string]bool{}
	for _, l := range strings.Split(exportedTxt, "\n") {
		if l != "" {
			P.BaseExp[l] = true
		}
	}
	if *flagDecls {
		for _, d := range listDecls(P, "TFV") {
			fmt.Println(d)
		}
		return
	}
	if *flagExp {
		for _, f := range P.Fns {
			if isExportedFn(f) {
				fmt.Println(fnName(f))
			}
		}
		return
	}
	A := NewAnalysis(P)
	if *flagLost {
		listLost(P)
		return
	}
	switch {
	case *flagMut != "":
		var sh, shs int
		fmt.Sscanf(*flagShard, "%d/%d", &sh, &shs)
		mutateMain(P, *flagMut, *flagMutFn, sh, shs, true)
		return
	case *flagFnDecls:
		for _, d := range listFnDecls(P.Pkgs) {
			fmt.Println(d)
		}
	case *flagSecrets:
		genSecrets(P)
		return
	case *flagTaint:
		c := &Ctx{P: P}
		c.SecretFlow("secret flow")
		for _, o := range c.Obls {
			if !o.OK {
				fmt.Println(o.Where, o.Detail)
			}
		}
		fmt.Println(len(c.Obls), c.Notes)
		return
	case *flagFns:
		for _, f := range P.Fns {
			if f.Parent() == nil && f.Synthetic == "" {
				fmt.Println(fnName(f))
			}
		}
		return
	case *flagCon != "":
		c := &Ctx{P: P, A: A, ID: "all"}
		loadContracts()
		for _, g := range strings.Split(*flagCon, ",") {
			c.Contracts("contract", "", g)
		}
		if *flagCon == "*" {
			for _, x := range specials {
				x(c)
			}
		}
		bad := 0
		for _, o := range c.Obls {
			if !o.OK {
				bad++
				fmt.Printf("%s\n    @%s %s\n", o.Key(), o.Where, trunc(o.Detail, 400))
			}
		}
		fmt.Printf("%d obligations, %d violated, %.1fs\n", len(c.Obls), bad, time.Since(start).Seconds())
		return
	case *flagGen != "":
		genAll(A, P, strings.Split(*flagGen, ","))
		return
	case *flagDump != "":
		for _, n := range strings.Split(*flagDump, ",") {
			for _, f := range P.Fns {
				if globMatch(n, fnName(f)) {
					if a := A.fn(f); a != nil {
						dump(A, a)
					}
				}
			}
		}
		return
	case *flagOccs != "":
		c := &Ctx{P: P, A: A}
		var sc []string
		if *flagScope != "" {
			sc = strings.Split(*flagScope, ",")
		}
		for _, s := range c.Sites(*flagOccs, sc...) {
			fmt.Printf("%s @%s%s: %s %s", fnName(s.Root.f), s.where(P), chain(s.O), s.O.Kind, s.O.T)
			if s.O.U != nil {
				fmt.Printf(" := %s", s.O.U)
			}
			fmt.Println()
			if *flagPre {
				printFS(s.O.Pre)
			}
		}
		return
	case *flagAll:
		fnds, err := loadFindings(filepath.Join(*flagVerif, "known_findings.txt"))
		if err != nil {
			fmt.Println(err)
		}
		var ids []string
		for id := range registry {
			if *flagProp == "" || *flagProp == id {
				ids = append(ids, id)
			}
		}
		sort.Strings(ids)
		rc := 0
		for _, id := range ids {
			t := time.Now()
			func() {
				defer func() {
					if r := recover(); r != nil {
						fmt.Printf("%s PANIC %v\n", id, r)
						if os.Getenv("TRACE") != "" {
							panic(r)
						}
						rc = 1
					}
				}()
				c := &Ctx{P: P, A: A, ID: id, Tier: *flagTier}
				registry[id].Run(c)
				bad := 0
				for _, o := range c.Obls {
					if *flagObls {
						fmt.Printf("   %v %s  @%s %s\n", o.OK, o.Key(), o.Where, o.Detail)
					}
					if !o.OK {
						known := ""
						for _, f := range fnds {
							if f.prop == id && f.key == o.Key() {
								known = "KNOWN "
							}
						}
						if known == "" {
							bad++
							rc = 1
						}
						fmt.Printf("  %s%s: %s\n      @%s %s\n", known, id, o.Key(), o.Where, o.Detail)
					}
				}
				if len(c.Obls) < registry[id].Min {
					fmt.Printf("  %s: only %d obligations (min %d)\n", id, len(c.Obls), registry[id].Min)
				}
				fmt.Printf("%s: %d obligations, %d violated, %.2fs\n", id, len(c.Obls), bad, time.Since(t).Seconds())
			}()
		}
		os.Exit(rc)
	}
	run(P, A, *flagProp, *flagTier, seed, start)
}

func run(P *Program, A *Analysis, id, tier string, seed int, start time.Time) {
	p := registry[id]
	if p == nil {
		fail(id, tier, seed, start, "no rules registered for this property")
	}
	fnds, err := loadFindings(filepath.Join(*flagVerif, "known_findings.txt"))
	if err != nil {
		fail(id, tier, seed, start, err.Error())
	}
	c := &Ctx{P: P, A: A, ID: id, Tier: tier}
	p.Run(c)
	if len(c.Obls) < p.Min {
		c.add("coverage", "obligation count", "", false, fmt.Sprintf("only %d obligations were generated, %d were confirmed on the reference tree", len(c.Obls), p.Min))
	}
	known := map[string]string{}
	for _, f := range fnds {
		if f.prop == id {
			known[f.key] = f.what
		}
	}
	var bad []*Obl
	nKnown := 0
	seen := map[string]bool{}
	for _, o := range c.Obls {
		if o.OK {
			continue
		}
		if w, ok := known[o.Key()]; ok {
			nKnown++
			if !seen[o.Key()] {
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", id, w, o.Key())
				seen[o.Key()] = true
			}
			continue
		}
		bad = append(bad, o)
	}
	writeEvidence(P, p, c, tier, seed, start, len(bad), nKnown)
	if len(bad) == 0 {
		fmt.Printf("property=%s held: %d obligations, %d packages, %d functions, %d known findings\n", id, len(c.Obls), len(P.Pkgs), len(P.Fns), nKnown)
		os.Exit(0)
	}
	rp := writeReplay(id, bad)
	for _, o := range bad {
		fmt.Printf("%s: %s\n  rule: %s\n  construct: %s\n  %s\n", id, o.Where, o.Rule, o.Construct, o.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	os.Exit(1)
}

func writeReplay(id string, bad []*Obl) string {
	dir := filepath.Join(*flagVerif, "evidence")
	os.MkdirAll(dir, 0755)
	rp := filepath.Join(dir, id+".replay.txt")
	var b strings.Builder
	fmt.Fprintf(&b, "Reproduce: cd %s && ./check.sh %s quick\n\n", *flagVerif, id)
	for _, o := range bad {
		fmt.Fprintf(&b, "at %s\n  rule: %s\n  construct: %s\n  %s\n\n", o.Where, o.Rule, o.Construct, o.Detail)
	}
	os.WriteFile(rp, []byte(b.String()), 0644)
	return rp
}

func fail(id, tier string, seed int, start time.Time, msg string) {
	rp := writeReplay(id, []*Obl{{Rule: "analysis", Construct: "whole program", Detail: msg}})
	writeJSON(filepath.Join(*flagVerif, "evidence", id+".json"), map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage":   map[string]interface{}{"explanation": "no verdict: " + msg},
		"wall_s":     time.Since(start).Seconds(),
		"violations": 1,
	})
	fmt.Println(msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	os.Exit(1)
}

func writeJSON(path string, v interface{}) {
	os.MkdirAll(filepath.Dir(path), 0755)
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
}

func writeEvidence(P *Program, p *Property, c *Ctx, tier string, seed int, start time.Time, bad, known int) {
	rules := map[string]int{}
	fns := map[string]bool{}
	var samples []string
	for _, o := range c.Obls {
		rules[o.Rule]++
		if len(samples) < 12 && rules[o.Rule] <= 2 {
			samples = append(samples, fmt.Sprintf("%s | %s @%s: ok=%v %s", o.Rule, o.Construct, o.Where, o.OK, o.Detail))
		}
		fns[o.Construct] = true
	}
	discharged := 0
	for _, o := range c.Obls {
		if o.OK {
			discharged++
		}
	}
	writeJSON(filepath.Join(*flagVerif, "evidence", p.ID+".json"), map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":          p.Explanation,
			"obligations":          len(c.Obls),
			"discharged":           discharged,
			"known_findings":       known,
			"distinct_constructs":  len(fns),
			"obligations_per_rule": rules,
			"packages_loaded":      len(P.Pkgs),
			"source_files":         P.Files,
			"functions_in_module":  len(P.Fns),
			"functions_analysed":   len(c.A.fns),
			"samples":              samples,
			"notes":                c.Notes,
		},
		"assumptions": append([]string{
			"go/types and go/ssa represent the program faithfully; reflection, unsafe and assembly are not modelled",
			"a local address that is passed to an opaque callee keeps the same symbolic name although its content changes",
		}, p.Assumptions...),
		"wall_s":     time.Since(start).Seconds(),
		"violations": bad,
	})
}

func printFS(s FS) {
	var ls []string
	for _, id := range s {
		if factList[id].V == nil && !strings.Contains(factList[id].String(), "any(") {
			ls = append(ls, factList[id].String())
		}
	}
	sort.Strings(ls)
	for _, l := range ls {
		if strings.Contains(l, "log.Debug") || strings.Contains(l, "log.Info") {
			continue
		}
		fmt.Println("       ", trunc(l, 400))
	}
}

func dump(A *Analysis, a *FnA) {
	fmt.Println("==", fnName(a.f), "rets", len(a.rets))
	rs := a.f.Signature.Results()
	if ei := errIndex(a.f); ei >= 0 {
		for _, r := range a.rets {
			if _, ok := a.retFacts(r, sumKey{ei, oNil}); ok {
				var v []string
				for _, x := range r.Results {
					v = append(v, trunc(a.term(x).String(), 80))
				}
				fmt.Println("  may succeed at", A.P.Pos(r.Pos()), v)
			}
		}
	}
	show := func(l string, s *fset) {
		if s == nil {
			fmt.Println(" ", l, ": infeasible")
			return
		}
		fmt.Println(" ", l)
		printFS(s.s)
	}
	shown := false
	for i := 0; i < rs.Len(); i++ {
		if isErrorType(rs.At(i).Type()) {
			show(fmt.Sprintf("res%d nil", i), a.summary(sumKey{i, oNil}))
			shown = true
		} else if isBool(rs.At(i).Type()) {
			show(fmt.Sprintf("res%d true", i), a.summary(sumKey{i, oTrue}))
			shown = true
		} else {
			fmt.Println("  value", i, a.retTerm(i))
		}
	}
	if !shown {
		show("any", a.summary(sumKey{-1, 0}))
	}
}
