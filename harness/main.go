package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"time"
)

var comps = map[string]func() Comp{
	"vec":     func() Comp { return &vecAny{} },
	"deque":   func() Comp { return &dequeAny{} },
	"omap":    func() Comp { return &omapAny{} },
	"int":     func() Comp { return &intComp{} },
	"dur":     func() Comp { return &durComp{} },
	"float":   func() Comp { return &floatComp{} },
	"order":   func() Comp { return &ordGen{} },
	"inttext": func() Comp { return &intTextComp{} },
	"cplx":    func() Comp { return &cplxComp{} },
	"ftext":   func() Comp { return &floatTextComp{} },
	"str":     func() Comp { return &strComp{} },
	"fmt":     func() Comp { return &fmtComp{} },
	"if":      func() Comp { return &ifAny{} },
	"assert":  func() Comp { return &assertComp{} },
	"fs":      func() Comp { return &fsComp{} },
	"mutex":   func() Comp { return &mutexAny{} },
	"future":  func() Comp { return &futAny{} },
	"thread":  func() Comp { return &threadComp{} },
	"stdin":   func() Comp { return &stdinComp{} },
	"trans":   func() Comp { return &transComp{} },
	"opt":     func() Comp { return &optAny{} },
	"res":     func() Comp { return &resAny{} },
	"clone":   func() Comp { return &cloneComp{} },
	"iter":    func() Comp { return &iterComp{} },
	"heap":    func() Comp { return &heapAny{} },
	"hmap":    func() Comp { return &hmapAny{} },
	"sets":    func() Comp { return &setsComp{} },
	"sort":    func() Comp { return &sortAny{} },
	"list":    func() Comp { return &listAny{} },
	"traits":  func() Comp { return &traitsComp{} },
}

var (
	flagTier string
	flagDir  string
	// flagVariant selects which calls a component's random histories draw.
	flagVariant string
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-stdinchild" {
		stdinChild()
	}
	var (
		comp     = flag.String("comp", "", "component")
		script   = flag.String("script", "", "file with one JSON array of calls per line")
		seed     = flag.Int64("seed", 1, "seed of the random histories")
		episodes = flag.Int("episodes", 0, "number of random histories")
		length   = flag.Int("len", 40, "calls per random history")
		out      = flag.String("out", "", "trace file")
		syncm    = flag.Bool("sync", false, "flush after every call")
		hang     = flag.Int("hang", 20, "seconds after which a call counts as not returning")
		quiet    = flag.Bool("q", false, "")
	)
	flag.StringVar(&flagTier, "tier", "quick", "")
	flag.StringVar(&flagVariant, "variant", "", "variant of the random histories")
	flag.StringVar(&flagDir, "dir", "", "scratch directory")
	flag.StringVar(&flagScratch, "scratch", "", "directory for the files of the file system component")
	flag.Parse()
	f, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
		os.Exit(2)
	}
	t := &tracer{w: bufio.NewWriterSize(f, 1<<20), f: f, sync: *syncm, limitMB: 3000}
	mk := comps[*comp]
	if mk == nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR: no component", *comp)
		os.Exit(2)
	}
	if *syncm {
		os.WriteFile(*out+".inflight", nil, 0o666)
		os.Chmod(*out+".inflight", 0o666)
	}
	var scripted *os.File
	if *script != "" {
		if scripted, err = os.Open(*script); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
			os.Exit(2)
		}
	}
	if flagScratch != "" {
		dropPrivileges()
	}
	go t.watchdog(time.Duration(*hang) * time.Second)

	nEp, nOps := 0, 0
	run := func(next func(c Comp, i int) (Op, bool)) {
		if gaveUp.Load() {
			return
		}
		c := mk()
		nEp++
		for i := 0; ; i++ {
			op, ok := next(c, i)
			if !ok {
				break
			}
			if op.A == nil {
				op.A = []int{}
			}
			nOps++
			if t.call(c, op) || gaveUp.Load() {
				break
			}
		}
		if fin, ok := c.(Finisher); ok {
			fin.Finish()
		}
	}
	if *script != "" {
		sc := bufio.NewScanner(scripted)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			if len(sc.Bytes()) == 0 {
				continue
			}
			var ops []Op
			if err := json.Unmarshal(sc.Bytes(), &ops); err != nil {
				fmt.Fprintln(os.Stderr, "HARNESS-ERROR: script:", err)
				os.Exit(2)
			}
			run(func(c Comp, i int) (Op, bool) {
				if i >= len(ops) {
					return Op{}, false
				}
				return ops[i], true
			})
		}
		if err := sc.Err(); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS-ERROR: script:", err)
			os.Exit(2)
		}
	}
	for e := 0; e < *episodes; e++ {
		r := rand.New(rand.NewSource(*seed*1000003 + int64(e)))
		run(func(c Comp, i int) (Op, bool) {
			if i >= *length {
				return Op{}, false
			}
			return c.Gen(r, i, *length), true
		})
	}
	t.mu.Lock()
	t.w.Flush()
	t.mu.Unlock()
	f.Close()
	if !*quiet {
		fmt.Printf("DRIVER-OK episodes=%d calls=%d\n", nEp, nOps)
	}
}
