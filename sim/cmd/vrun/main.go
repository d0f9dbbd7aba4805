// vrun builds the simulator around the library as it is in /repo and decides
// properties with it: see ../../../DESIGN.md.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif.local/sim/world"
)

var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

func main() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "check":
		if len(os.Args) < 3 {
			usage()
		}
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(check(os.Args[2], tier))
	case "replay":
		if len(os.Args) < 3 {
			usage()
		}
		os.Exit(replay(os.Args[2]))
	case "run":
		if len(os.Args) < 4 {
			usage()
		}
		i, err := strconv.Atoi(os.Args[3])
		if err != nil {
			usage()
		}
		os.Exit(runOne(os.Args[2], i))
	case "build":
		b, err := build(filepath.Join(verifDir, "sim"), repoDir, os.Args[2], len(os.Args) > 3 && os.Args[3] == "race")
		if err != nil {
			fatal("%v", err)
		}
		fmt.Println(b.Worker, b.Files, "files", len(b.Sites), "sites", b.Notes)
	case "warm":
		for _, race := range []bool{false, true} {
			d := filepath.Join(verifDir, "build", fmt.Sprintf("warm-%v", race))
			_, err := build(filepath.Join(verifDir, "sim"), repoDir, d, race)
			os.RemoveAll(d)
			if err != nil {
				fatal("%v", err)
			}
		}
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: vrun check PROPERTY [quick|thorough] | replay FILE | run PROPERTY INDEX | build DIR [race] | warm")
	os.Exit(2)
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vrun: "+f+"\n", a...)
	os.Exit(2)
}

func verifSeed() uint64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	if n, err := strconv.ParseUint(s, 0, 64); err == nil {
		return n
	}
	var h uint64 = 14695981039346656037
	for _, c := range []byte(s) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// classes are the violation classes that break each property. A panic, a
// crash and a call that never returns break every promise there is.
var classes = map[string][]string{
	"C01": {"wrong-result", "counter", "not-exactly-once", "atomicity"},
	"C02": {"request-corrupt", "params-changed", "uint-wraps", "chunk", "unencodable-executed", "not-exactly-once", "proto", "spurious", "wrong-result", "unusable", "failstop"},
	"C03": {"wrong-result", "not-exactly-once", "spurious", "timeout", "unusable", "failstop", "capacity", "request-corrupt", "atomicity", "proto", "failure-not-reported", "unclean", "cleartext"},
	"C04": {"atomicity", "not-exactly-once", "ended-tx", "failure-not-reported", "unclean"},
	"C05": {"ended-tx", "atomicity", "unclean", "proto"},
	"C06": {"failure-not-reported", "unusable", "wrong-result", "spurious", "failstop", "proto", "not-exactly-once", "atomicity", "closed-use"},
	"C07": {"failstop", "unclean", "wrong-result", "not-exactly-once", "closed-use"},
	"C08": {"timeout"},
	"C09": {"leak", "pool-leak"},
	"C10": {"double-holder", "over-cap"},
	"C11": {"unclean", "atomicity", "failstop", "wrong-result", "double-holder", "spurious", "ended-tx", "chunk", "timeout"},
	"C12": {"capacity", "routed-open", "spurious"},
	"C13": {"close-not-final", "pool-leak", "leak", "capacity", "spurious"},
	"C14": {"routing-wrong", "routed-open"},
	"C15": {"routed-open", "capacity", "spurious", "routing-wrong"},
	"C16": {"race"},
	"C17": {"memory", "counter", "wrong-result"},
	"C18": {"cleartext", "creds", "creds-leak", "tls-verify", "spurious"},
	"C19": {"proto", "spurious"},
	"C20": {"db", "spurious"},
	"C22": {"config", "creds", "creds-leak", "cleartext", "tls-verify", "chunk", "timeout", "spurious", "over-cap", "proto"},
	"C21": {"wrong-result", "request-corrupt", "spurious", "not-exactly-once", "unencodable-executed"},
}

func init() {
	var all []string
	for c := range classes {
		all = append(all, classes[c]...)
	}
	classes["ALL"] = all
}

func ownClasses(prop string) []string {
	return append(append([]string(nil), classes[prop]...), "panic", "hang", "crash")
}

func own(prop string, vs []world.Violation) *world.Violation {
	for i := range vs {
		for _, c := range ownClasses(prop) {
			if vs[i].Class == c {
				return &vs[i]
			}
		}
	}
	return nil
}

func hasClass(vs []world.Violation, c string) *world.Violation {
	for i := range vs {
		if vs[i].Class == c {
			return &vs[i]
		}
	}
	return nil
}

// Known is an entry of the known-findings file that suppresses something.
type Known struct {
	Prop, Class, Match, Text string
}

// knownFindings reads the "known:" entries: known: property=ID class=CLASS match="substring" text
func knownFindings() []Known {
	b, err := os.ReadFile(filepath.Join(verifDir, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var ks []Known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		var k Known
		rest := strings.TrimSpace(l[len("known:"):])
		for {
			i := strings.IndexByte(rest, '=')
			if i < 0 || strings.ContainsAny(rest[:i], " \t") {
				break
			}
			key := rest[:i]
			rest = rest[i+1:]
			var val string
			if strings.HasPrefix(rest, "\"") {
				q, err := strconv.QuotedPrefix(rest)
				if err != nil {
					break
				}
				val, _ = strconv.Unquote(q)
				rest = strings.TrimSpace(rest[len(q):])
			} else {
				f := strings.SplitN(rest, " ", 2)
				val = f[0]
				rest = ""
				if len(f) > 1 {
					rest = strings.TrimSpace(f[1])
				}
			}
			switch key {
			case "property":
				k.Prop = val
			case "class":
				k.Class = val
			case "match":
				k.Match = val
			}
		}
		k.Text = rest
		if k.Prop != "" && k.Match != "" {
			ks = append(ks, k)
		}
	}
	return ks
}

func knownFor(ks []Known, prop string) (own []Known) {
	for _, k := range ks {
		if k.Prop == prop {
			own = append(own, k)
		}
	}
	return own
}

func isKnown(ks []Known, prop string, v *world.Violation) bool {
	for _, k := range ks {
		if k.Prop == prop && (k.Class == "" || k.Class == v.Class) && strings.Contains(v.Msg, k.Match) {
			return true
		}
	}
	return false
}

func buildFor(prop, what string) (*Build, time.Duration, error) {
	t0 := time.Now()
	race := prop == "C16"
	b, err := build(filepath.Join(verifDir, "sim"), repoDir, filepath.Join(verifDir, "build", what), race)
	return b, time.Since(t0), err
}

// ReplayFile is what a violation is reported as.
type ReplayFile struct {
	Property  string          `json:"property"`
	Class     string          `json:"class"`
	Message   string          `json:"message"`
	Seed      uint64          `json:"verif_seed"`
	Index     int             `json:"index"`
	RunSeed   uint64          `json:"run_seed"`
	Digest    uint64          `json:"digest"`
	Race      bool            `json:"race_build,omitempty"`
	Minimised string          `json:"minimised"`
	Scenario  *world.Scenario `json:"scenario"`
	Original  *world.Scenario `json:"original,omitempty"`
	Trace     []string        `json:"trace,omitempty"`
	Report    string          `json:"report,omitempty"`
	HowTo     string          `json:"how_to_replay"`
}

func replay(path string) int {
	rb, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var rf ReplayFile
	dec := json.NewDecoder(bytes.NewReader(rb))
	if err := dec.Decode(&rf); err != nil {
		fatal("%s: %v", path, err)
	}
	b, _, err := buildFor(rf.Property, "replay-"+rf.Property)
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(b.Dir)
	e := &evaluator{b: b, scratch: mkScratch(b.Dir), hang: hangAfter, keep: true}
	v := e.eval([]*world.Scenario{rf.Scenario})[0]
	if v.line != nil {
		for _, l := range v.line.Log {
			fmt.Println(l)
		}
	}
	got := hasClass(v.vs, rf.Class)
	if got == nil {
		fmt.Printf("replay: no violation of class %s; got %v\n", rf.Class, v.vs)
		return 0
	}
	fmt.Printf("%s: %s\n", got.Class, got.Msg)
	if v.line != nil {
		if v.line.Digest == rf.Digest {
			fmt.Printf("the execution is the recorded one (digest %016x)\n", rf.Digest)
		} else {
			fmt.Printf("the execution differs from the recorded one (digest %016x, recorded %016x)\n", v.line.Digest, rf.Digest)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

func runOne(prop string, i int) int {
	b, _, err := buildFor(prop, "run-"+prop)
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(b.Dir)
	p := b.start(mkScratch(b.Dir), &Job{Prop: prop, Seed: verifSeed(), Only: []int{i}, KeepLog: true}, hangAfter, nil)
	fmt.Println(p.how, p.stderr)
	for _, l := range p.lines {
		for _, x := range l.Log {
			fmt.Println(x)
		}
		l.Log = nil
		jb, _ := json.MarshalIndent(l, "", " ")
		fmt.Println(string(jb))
	}
	return 0
}

func mkScratch(dir string) string {
	d := filepath.Join(dir, "scratch")
	os.MkdirAll(d, 0o700)
	return d
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
