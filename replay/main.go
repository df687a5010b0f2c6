package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"
)

// Result of a search.
type Result struct {
	Property   string
	Violation  *Violation `json:",omitempty"`
	Cases      int
	Distinct   int
	Exhaustive []string `json:",omitempty"`
	Samples    []string `json:",omitempty"`
	Seconds    float64
}

type cfg struct{ wild, focus string }

var cfgs = map[string]cfg{
	"C01": {"|text|", "|text|elem|"},
	"C02": {"|attr|uri|", "|attr|elem|dtdattr|attlist|"},
	"C03": {"|name|", ""},
	"C05": {"|comment|cdata|pi|", "|comment|cdata|pi|commentcontent|cdatacontent|"},
	"C06": {"|sys|pub|ent|dtd|", "|dtd|entity|notation|"},
	"C07": {"", "|comment|cdata|attr|dtd|attlist|dtdelem|entity|dtdattr|notation|pi|text|doc|elem|commentcontent|cdatacontent|"},
	"C08": {"", "|end|elem|comment|cdata|dtd|attlist|doc|"},
	"C09": {"|content|", "|elem|attr|text|end|"},
	"C10": {"|ns|uri|", "|elem|attr|"},
	"C11": {"|doc|", "|doc|"},
	"C13": {"|indent|text|", ""},
	"C14": {"|dtd|attr|", "|dtd|attlist|dtdattr|dtdelem|entity|notation|"},
	"C18": {"|name|ns|content|dtd|doc|", "|end|"},
	"C19": {"|raw|", "|raw|elem|"},
	"C20": {"|text|attr|comment|cdata|pi|uri|ns|doc|dtd|", ""},
}

// search looks for an input on which the real code breaks the property.
func search(prop string, seed int64, budget time.Duration, hints []string) *Result {
	t0 := time.Now()
	res := &Result{Property: prop}
	var mu sync.Mutex
	stop := false
	found := func(v *Violation) {
		mu.Lock()
		if res.Violation == nil {
			res.Violation = v
		}
		stop = true
		mu.Unlock()
	}
	if f := special[prop]; f != nil {
		v, n, ex := f(seed, budget, hints)
		res.Cases += n
		res.Distinct += n
		res.Exhaustive = ex
		if v != nil {
			res.Violation = v
			res.Seconds = time.Since(t0).Seconds()
			return res
		}
	}
	c, ok := cfgs[prop]
	if !ok {
		res.Seconds = time.Since(t0).Seconds()
		return res
	}
	const workers = 8
	var wg sync.WaitGroup
	seen := make([]map[string]bool, workers)
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			seen[k] = map[string]bool{}
			g := &gen{r: rand.New(rand.NewSource(seed*1000 + int64(k))), hints: hints, wild: c.wild, focus: c.focus}
			n := 0
			for time.Since(t0) < budget {
				mu.Lock()
				st := stop
				mu.Unlock()
				if st {
					break
				}
				for i := 0; i < 100; i++ {
					s := g.script()
					n++
					if len(seen[k]) < 50000 {
						seen[k][fmt.Sprint(s.Ops)] = true
					}
					if v := judge(s, prop); v != nil {
						found(shrink(v))
						break
					}
					if k == 0 && n <= 3 {
						mu.Lock()
						res.Samples = append(res.Samples, fmt.Sprint(s.Ops))
						mu.Unlock()
					}
				}
			}
			mu.Lock()
			res.Cases += n
			mu.Unlock()
		}(k)
	}
	wg.Wait()
	all := map[string]bool{}
	for _, m := range seen {
		for s := range m {
			all[s] = true
		}
	}
	res.Distinct += len(all)
	res.Seconds = time.Since(t0).Seconds()
	return res
}

// shrink drops calls and node parts while the violation stays.
func shrink(v *Violation) *Violation {
	if v.Script == nil {
		return v
	}
	try := func(s *Script) bool {
		if w := judge(s, v.Property); w != nil {
			v = w
			return true
		}
		return false
	}
	for again, rounds := true, 0; again && rounds < 20; rounds++ {
		again = false
		for i := len(v.Script.Ops) - 1; i >= 0; i-- {
			if i >= len(v.Script.Ops) {
				continue
			}
			s := *v.Script
			s.Ops = append(append([]Op{}, v.Script.Ops[:i]...), v.Script.Ops[i+1:]...)
			if try(&s) {
				again = true
			}
		}
		for i := range v.Script.Ops {
			for j := range v.Script.Ops[i].Nodes {
				for _, n := range simpler(v.Script.Ops[i].Nodes[j]) {
					s := *v.Script
					s.Ops = append([]Op{}, v.Script.Ops...)
					ns := append([]N{}, s.Ops[i].Nodes...)
					ns[j] = n
					s.Ops[i].Nodes = ns
					if try(&s) {
						again = true
						break
					}
				}
			}
		}
	}
	return v
}

func simpler(n N) []N {
	var out []N
	for i := range n.Sub {
		m := n
		m.Sub = append(append([]N{}, n.Sub[:i]...), n.Sub[i+1:]...)
		out = append(out, m)
	}
	for i := range n.Attr {
		m := n
		m.Attr = append(append([]N{}, n.Attr[:i]...), n.Attr[i+1:]...)
		out = append(out, m)
	}
	for i, s := range n.S {
		if len(s) > 40 {
			for _, h := range []Q{s[:len(s)/2], s[len(s)/2:]} {
				m := n
				m.S = append([]Q{}, n.S...)
				m.S[i] = h
				out = append(out, m)
			}
		}
	}
	return out
}

func main() {
	prop := flag.String("prop", "", "property to search")
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Duration("budget", 10*time.Second, "time to search")
	hintf := flag.String("hints", "", "file with a JSON list of strings to try")
	out := flag.String("out", "", "write the result here")
	rerun := flag.String("run", "", "replay a violation file")
	src := flag.String("src", "/repo", "source to mine for literals")
	known := flag.String("known", "", "does this known finding still show?")
	flag.Parse()
	if *known != "" {
		if knownFinding(*known) {
			os.Exit(1)
		}
		return
	}
	if *rerun != "" {
		b, err := os.ReadFile(*rerun)
		var v struct{ Violation *Violation }
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil || v.Violation == nil {
			fmt.Println("replay: no violation in the file", err)
			os.Exit(2)
		}
		if v.Violation.Script == nil {
			fmt.Printf("%s: %s\n expected %s\n observed %s\n", v.Violation.Property, v.Violation.What, v.Violation.Expected, v.Violation.Observed)
			return
		}
		var w *Violation
		if v.Violation.Property == "C12" || v.Violation.Property == "C17" {
			w = judgeSpecial(v.Violation.Script, v.Violation.Property)
		} else {
			w = judge(v.Violation.Script, v.Violation.Property)
		}
		if w == nil {
			fmt.Println("replay: the property holds on this input")
			return
		}
		fmt.Printf("%s: %s\n expected %s\n observed %s\n", w.Property, w.What, w.Expected, w.Observed)
		os.Exit(1)
	}
	mine(*src)
	var hints []string
	if *hintf != "" {
		if b, err := os.ReadFile(*hintf); err == nil {
			var qs []Q
			if json.Unmarshal(b, &qs) == nil {
				for _, q := range qs {
					hints = append(hints, string(q))
				}
			}
		}
	}
	res := search(*prop, *seed, *budget, hints)
	b, _ := json.MarshalIndent(res, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0o644)
	}
	fmt.Printf("%s: %d cases (%d distinct) in %.1f s\n", *prop, res.Cases, res.Distinct, res.Seconds)
	if v := res.Violation; v != nil {
		fmt.Printf("%s: %s\n expected %s\n observed %s\n", v.Property, v.What, v.Expected, v.Observed)
		if v.Script != nil {
			for _, o := range v.Script.Ops {
				fmt.Println("   ", o)
			}
		}
		os.Exit(1)
	}
}
