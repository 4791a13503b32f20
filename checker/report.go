package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Obligation struct {
	Key  string `json:"key"`
	Pos  string `json:"pos"`
	OK   bool   `json:"ok"`
	Note string `json:"note,omitempty"`
}

// Rep collects the obligations of one property.
type Rep struct {
	Prop   string
	Rules  []string
	Obls   []Obligation
	Counts map[string]int
	seen   map[string]int
	Assume []string
}

func newRep(p string) *Rep { return &Rep{Prop: p, Counts: map[string]int{}, seen: map[string]int{}} }

// Rule documents a rule that was applied.
func (r *Rep) Rule(s string) { r.Rules = append(r.Rules, s) }

// Check records one obligation; keys name a construct, never a line.
func (r *Rep) Check(key, pos string, ok bool, note string) bool {
	r.seen[key]++
	if n := r.seen[key]; n > 1 {
		key = fmt.Sprintf("%s#%d", key, n)
	}
	if ok {
		note = strings.TrimSpace(note)
	}
	r.Obls = append(r.Obls, Obligation{key, pos, ok, note})
	return ok
}

// Undecided records an obligation that the analysis could not decide: it counts as a violation.
func (r *Rep) Undecided(key, pos, why string) {
	r.Check(key, pos, false, "undecided: "+why)
}

// Floor demands that at least min instances of a construct were analysed.
func (r *Rep) Floor(what string, got, min int) {
	r.Counts[what] = got
	r.Check("floor/"+what, "-", got >= min, fmt.Sprintf("analysed %d instances of %s, expected at least %d (an anchor of the analysis no longer resolves)", got, what, min))
}

type known struct{ prop, key, what string }

func loadKnown(path string) ([]known, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		head, what, ok := strings.Cut(l, " :: ")
		if !ok {
			return nil, fmt.Errorf("bad known-findings line %q", l)
		}
		p, k, ok := strings.Cut(head, " key=")
		if !ok || !strings.HasPrefix(p, "property=") {
			return nil, fmt.Errorf("bad known-findings line %q", l)
		}
		out = append(out, known{strings.TrimPrefix(p, "property="), k, what})
	}
	return out, nil
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	WallS       float64                `json:"wall_s"`
	Assumptions []string               `json:"assumptions,omitempty"`
	Violations  int                    `json:"violations"`
}

// finish prints findings, writes evidence and returns the exit status.
func (r *Rep) finish(verif, tier string, seed int, start time.Time) int {
	kn, err := loadKnown(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		r.Undecided("known-findings-file", "-", err.Error())
	}
	isKnown := func(k string) *known {
		for _, t := range otherTargets {
			goos, _, _ := strings.Cut(t, "/")
			k = strings.TrimPrefix(k, goos+": ")
		}
		for i := range kn {
			if kn[i].prop == r.Prop && kn[i].key == k {
				return &kn[i]
			}
		}
		return nil
	}
	var bad []Obligation
	var knownHit []Obligation
	for _, o := range r.Obls {
		if o.OK {
			continue
		}
		if k := isKnown(o.Key); k != nil {
			knownHit = append(knownHit, o)
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s] (%s)\n", r.Prop, k.what, o.Key, o.Pos)
			continue
		}
		bad = append(bad, o)
	}
	if len(r.Obls) == 0 {
		bad = append(bad, Obligation{Key: "no-obligations", Pos: "-", Note: "the analysis produced no obligation at all"})
	}
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(filepath.Join(ev, "replay"), 0o755)
	replay := filepath.Join(ev, "replay", r.Prop+".txt")
	os.Remove(replay)
	var vs []string
	if len(bad) > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %d violated obligation(s) in the current source of the repository\n", r.Prop, len(bad))
		for _, o := range bad {
			fmt.Fprintf(&sb, "\n[%s]\n  at   %s\n  why  %s\n", o.Key, o.Pos, strings.ReplaceAll(o.Note, "\n", "\n       "))
			vs = append(vs, o.Key+" at "+o.Pos+": "+o.Note)
		}
		fmt.Fprintf(&sb, "\nre-run: bash /verif/run.sh %s %s\n", r.Prop, tier)
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
	}
	keys := map[string]int{}
	for _, o := range r.Obls {
		k := o.Key
		if i := strings.IndexAny(k, "/"); i > 0 {
			k = k[:i]
		}
		keys[k]++
	}
	var fam []string
	for k, n := range keys {
		fam = append(fam, fmt.Sprintf("%s: %d", k, n))
	}
	sort.Strings(fam)
	samples := []string{}
	step := len(r.Obls)/40 + 1
	for i := 0; i < len(r.Obls); i += step {
		o := r.Obls[i]
		samples = append(samples, fmt.Sprintf("%s @ %s%s", o.Key, o.Pos, map[bool]string{true: "", false: " [FAILED]"}[o.OK]))
	}
	cov := map[string]interface{}{
		"explanation":         "Obligations derived from the current source by static analysis (type-checked AST and SSA of the Go code, Python ast for the Python code); each names a construct. Rules: " + strings.Join(r.Rules, " | "),
		"obligations":         len(r.Obls),
		"obligation_families": fam,
		"instances":           r.Counts,
		"samples":             samples,
		"known_findings_hit":  len(knownHit),
		"violations":          vs,
	}
	e := evidence{Property: r.Prop, Tier: tier, Seed: seed, Level: "other", Coverage: cov, WallS: time.Since(start).Seconds(), Assumptions: r.Assume, Violations: len(vs)}
	b, _ := json.MarshalIndent(e, "", "  ")
	if err := os.WriteFile(filepath.Join(ev, r.Prop+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d known=%d\n", r.Prop, len(r.Obls), len(knownHit))
	return 0
}
