package main

import (
	"context"
	_ "embed"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

//go:embed meta/RelyGuarantee.lean
var metaProof string

var axiomLine = regexp.MustCompile(`'([\w.]+)' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])`)

// runMeta has Lean check the induction behind the rely/guarantee rule. Without a working Lean there is no result, and the
// induction stays an assumption.
func runMeta() (out []LemmaRes) {
	bin, err := exec.LookPath("lean")
	if err != nil {
		return nil
	}
	d, err := os.MkdirTemp("", "skv-meta-")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(d)
	f := filepath.Join(d, "RelyGuarantee.lean")
	if os.WriteFile(f, []byte(metaProof), 0o644) != nil {
		return nil
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, f)
	cmd.Dir = d
	cmd.WaitDelay = 5 * time.Second
	b, err := cmd.CombinedOutput()
	txt := string(b)
	bad := strings.Contains(txt, ": error") || strings.Contains(txt, "sorry")
	if err != nil && !bad {
		return nil
	}
	for _, m := range axiomLine.FindAllStringSubmatch(txt, -1) {
		ok := !bad
		for _, a := range strings.Split(m[3], ",") {
			switch strings.TrimSpace(a) {
			case "", "propext", "Classical.choice", "Quot.sound":
			default:
				ok = false
			}
		}
		out = append(out, LemmaRes{Name: "lemma:induction:" + m[1], OK: ok, Out: txt, By: "lean"})
	}
	if bad && len(out) == 0 {
		out = append(out, LemmaRes{Name: "lemma:induction", Out: txt, By: "lean"})
	}
	return out
}
