package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check is one property's decision procedure.
type Check struct {
	ID        string
	Technique string
	Note      string
	Run       func(c *Ctx)
}

var registry = map[string]*Check{}

func reg(id, technique, note string, run func(c *Ctx)) {
	registry[id] = &Check{id, technique, note, run}
}

func verifDir() string {
	if d := os.Getenv("OCV_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

type known struct{ prop, key, what string }

func loadKnown() []known {
	var out []known
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " | ", 3)
		if len(f) == 3 {
			out = append(out, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return out
}

func (v Violation) key() string { return v.Rule + "/" + v.Key }

func runCheck(w *World, id string, loadErr error) int {
	t0 := time.Now()
	ck := registry[id]
	c := &Ctx{ID: id, Rules: map[string]int{}, Funcs: map[string]bool{}, runs: map[string]*Run{}}
	if loadErr != nil {
		c.Violations = append(c.Violations, Violation{"load", "repository", "-", "the repository does not load: " + loadErr.Error()})
	} else {
		c = newCtx(w, id)
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Violations = append(c.Violations, Violation{"internal", "analysis", "-", fmt.Sprintf("the analysis failed (undecided): %v", r)})
					if os.Getenv("OCV_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "%v\n%s", r, debug.Stack())
					}
				}
			}()
			ck.Run(c)
			for _, r := range c.runs {
				for _, t := range r.Truncated {
					c.bad("complete", t, "-", "analysis incomplete: %s", t)
				}
			}
		}()
	}
	kn := loadKnown()
	var real []Violation
	var knownHit []string
	for _, v := range c.Violations {
		hit := false
		for _, k := range kn {
			if k.prop == id && k.key == v.key() {
				hit = true
				knownHit = append(knownHit, k.what)
			}
		}
		if !hit {
			real = append(real, v)
		}
	}
	sort.Strings(knownHit)
	last := ""
	for _, k := range knownHit {
		if k != last {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		}
		last = k
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	var fs []string
	for f := range c.Funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	nterms, natoms := 0, 0
	if c.E != nil {
		nterms, natoms = len(c.E.byID), len(c.E.atoms)
	}
	samples := make([]any, 0)
	for _, s := range c.Samples {
		samples = append(samples, s)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":         ck.Technique + ". " + ck.Note,
			"obligations":         c.Oblig,
			"discharged":          c.Done,
			"obligations_by_rule": c.Rules,
			"functions_analysed":  len(fs),
			"functions":           fs,
			"value_terms":         nterms,
			"branch_predicates":   natoms,
			"samples":             samples,
			"notes":               c.Notes,
		},
		"assumptions": append([]string{"go/types and go/ssa represent the source faithfully; the Go memory model and the documented behaviour of the standard library and third-party packages hold"}, c.Assume...),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(real),
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), b, 0o644)
	rp := filepath.Join(dir, id+".violations.txt")
	os.Remove(rp)
	if len(real) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d wall=%.1fs\n", id, c.Oblig, len(fs), time.Since(t0).Seconds())
		return 0
	}
	var sb strings.Builder
	for _, v := range real {
		fmt.Fprintf(&sb, "%s: [%s] %s\n    %s\n    key=%s\n", v.Pos, v.Rule, v.Key, v.Msg, v.key())
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func dump(e *Eng, r *Run, full bool) {
	for _, ef := range r.Effects {
		if !full && (ef.Kind == "index" || ef.Kind == "slice" || ef.Kind == "append" || ef.Kind == "store" && ef.Addr.Op == "alloc") {
			continue
		}
		fmt.Println(e.effStr(ef))
	}
	for i, x := range r.Rets {
		fmt.Printf("RET %d: %s\n", i, short(e.S(x), 1500))
	}
	if r.Final != nil {
		fmt.Println("FINAL PC:", short(e.P(r.Final.pc), 500))
		var ks []*Term
		for k := range r.Final.mem {
			if !isFresh(rootOf(k)) || full {
				ks = append(ks, k)
			}
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
		for _, k := range ks {
			fmt.Println("  MEM", short(e.S(k), 200), "=", short(e.S(r.Final.mem[k]), 500))
		}
	}
	for _, t := range r.Truncated {
		fmt.Println("TRUNC", t)
	}
}

func (e *Eng) effStr(ef *Effect) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%3d %-9s %s", ef.Seq, ef.Kind, ef.Name)
	if ef.Addr != nil {
		sb.WriteString(" @" + short(e.S(ef.Addr), 160))
	}
	if ef.Key != nil {
		sb.WriteString(" key=" + short(e.S(ef.Key), 100))
	}
	if ef.Val != nil {
		sb.WriteString(" val=" + short(e.S(ef.Val), 160))
	}
	if len(ef.Args) > 0 {
		sb.WriteString(" args=")
		for _, a := range ef.Args {
			sb.WriteString(short(e.S(a), 160) + "; ")
		}
	}
	for k, m := range ef.Locks {
		fmt.Fprintf(&sb, " {%s:%d}", short(e.S(k), 80), m)
	}
	for _, l := range ef.Loops {
		fmt.Fprintf(&sb, " loop(%s %s full=%v)", l.Kind, short(e.S(l.Coll), 80), l.Full)
	}
	if len(ef.Once) > 0 {
		sb.WriteString(" ONCE")
	}
	if ef.Deferred {
		sb.WriteString(" DEFERRED")
	}
	if ef.PC != True {
		sb.WriteString("\n        IF " + short(e.P(ef.PC), 260))
	}
	return sb.String()
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: ocv check ID... | dump PKG FUNC | list")
		os.Exit(1)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			b, _ := json.Marshal(map[string]string{"id": id, "technique": registry[id].Technique, "note": registry[id].Note})
			fmt.Println(string(b))
		}
		return
	case "check":
		w, err := load("")
		ids := os.Args[2:]
		if len(ids) == 1 && ids[0] == "all" {
			ids = nil
			for id := range registry {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		rc := 0
		for _, id := range ids {
			if registry[id] == nil {
				fmt.Println("unknown check", id)
				os.Exit(1)
			}
			if runCheck(w, id, err) != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	case "anchors":
		w, err := load("")
		if err == nil {
			err = writeAnchors(w, os.Args[2])
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	case "dump":
		w, err := load("")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		e := newEng(w)
		f := w.fn(os.Args[2], os.Args[3])
		if f == nil {
			for _, g := range w.Funcs {
				if fnName(g) == os.Args[3] {
					f = g
				}
			}
		}
		if f == nil {
			fmt.Println("no such function")
			return
		}
		o := Opts{Resolve: defaultResolve(w)}
		full := false
		for _, a := range os.Args[4:] {
			switch a {
			case "loads":
				o.Loads = true
			case "full":
				full = true
			case "ovf":
				o.Overflow = true
			}
		}
		dump(e, e.Analyse(f, o), full)
	}
}
