package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

type check struct {
	run      func(c *Ctx)
	level    string
	thorough float64 // factor on case counts in the thorough tier
}

var checks = map[string]check{}

func register(id string, thorough float64, run func(c *Ctx)) {
	checks[id] = check{run, "exploration", thorough}
}
func registerFault(id string, thorough float64, run func(c *Ctx)) {
	checks[id] = check{run, "fault_enumeration", thorough}
}

func readKnown(path, prop string) map[string]string {
	res := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=ID key=KEY text
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
			res[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
	return res
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	out := flag.String("out", "", "evidence file")
	known := flag.String("known", "", "known findings file")
	replayDir := flag.String("replaydir", "/tmp", "where to write replay files")
	replay := flag.String("replay", "", "replay file")
	scale := flag.Float64("scale", 0, "override case count factor")
	group := flag.String("group", "", "only this group")
	idx := flag.Int("case", -1, "only this case")
	flag.Parse()
	start := time.Now()
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		*prop, *tier, *seed, *group, *idx = rf.Property, rf.Tier, rf.Seed, rf.Group, rf.Index
	}
	ck, ok := checks[*prop]
	if !ok {
		fmt.Println("no such check", *prop)
		os.Exit(3)
	}
	c := &Ctx{prop: *prop, tier: *tier, seed: *seed, scale: 1, onlyGroup: *group, onlyIndex: *idx,
		known: readKnown(*known, *prop), classes: map[string]int64{}, distinct: map[uint64]struct{}{},
		sampled: map[string]int{}, knownHit: map[string]violation{}, level: ck.level, extra: map[string]interface{}{}}
	switch {
	case *tier == "thorough":
		c.scale = ck.thorough
	case *prop != "M01" && *prop != "M04": // affordable on every change
		c.scale = 2
	}
	if *scale > 0 {
		c.scale = *scale
	}
	go func() { // watchdog: a case that runs for minutes instead of milliseconds hangs
		for {
			time.Sleep(5 * time.Second)
			runningCases.Range(func(k, v interface{}) bool {
				r := v.(*running)
				if time.Since(r.start) > hangLimit {
					path := *replayDir + "/" + *prop + "-hang.json"
					_ = os.MkdirAll(*replayDir, 0o755)
					_ = writeJSON(path, replayFile{Property: *prop, Seed: *seed, Tier: *tier, Key: "hang", Message: r.desc + " does not terminate"})
					fmt.Printf("VIOLATION property=%s replay=%s\n  %s does not terminate (%s)\n", *prop, path, r.desc, hangLimit)
					os.Exit(1)
				}
				return true
			})
		}
	}()
	before := c.globals()
	ck.run(c)
	c.sameGlobals(before)
	os.Exit(c.finish(*out, *replayDir, start))
}

// The exported constants of the library are variables. Whatever the workload
// did, at its end they have the values they had at its start.
var globalSnapshots []func(add func(name, value string))

func (c *Ctx) globals() map[string]string {
	m := map[string]string{}
	for _, f := range globalSnapshots {
		f(func(name, value string) { m[name] = value })
	}
	return m
}

func (c *Ctx) sameGlobals(before map[string]string) {
	if c.onlyGroup != "" {
		return
	}
	after := c.globals()
	for name, v := range before {
		c.classes["constants/unchanged"]++
		if after[name] != v {
			c.addViolation(violation{Key: "constant:" + name, Group: "constants",
				Msg: fmt.Sprintf("the exported constant %s was modified by the workload: before %s, after %s", name, v, after[name])})
		}
	}
}
