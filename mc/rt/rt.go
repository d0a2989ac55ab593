// Package rt executes the spaces of one property in one build configuration.
package rt

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"slices"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verif/mc/eng"
	"verif/mc/ref"
)

type spaceRep struct {
	Space string  `json:"space"`
	Bound string  `json:"bound"`
	Size  uint64  `json:"size"`
	Done  uint64  `json:"done"`
	Mine  uint64  `json:"mine"`
	Secs  float64 `json:"secs"`
}
type violation struct {
	Space string `json:"space"`
	Index uint64 `json:"index"`
	Err   string `json:"err"`
	Key   string `json:"key,omitempty"`
}
type report struct {
	Prop        string      `json:"prop"`
	Config      string      `json:"config"`
	Shard       int         `json:"shard"`
	Spaces      []spaceRep  `json:"spaces"`
	Transitions uint64      `json:"transitions"`
	States      int         `json:"states"`
	Capped      bool        `json:"states_capped"`
	Samples     []string    `json:"samples"`
	Violations  []violation `json:"violations"`
	Findings    []violation `json:"findings"`
	TimedOut    bool        `json:"timed_out"`
	Text        string      `json:"text,omitempty"`
}

// Main is the entry point of every runner.
func Main() {
	if f := strings.Fields(os.Getenv("VERIF_CHILD")); len(f) > 0 {
		eng.Child[f[0]](f[1:])
		return
	}
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	config := flag.String("config", "default", "build configuration (label)")
	shard := flag.Int("shard", 0, "")
	of := flag.Int("of", 1, "")
	deadline := flag.Int64("deadline", 0, "unix seconds")
	out := flag.String("out", "", "report file")
	digestOut := flag.String("digests", "", "file prefix for the outcome digests of compared spaces")
	statesOut := flag.String("states", "", "state hash file")
	cur := flag.String("cur", "", "current case file (mmap)")
	space := flag.String("space", "", "only this space")
	index := flag.Int64("index", -1, "only this index (replay)")
	upto := flag.Int64("upto", -1, "stop after this index of -space (prefix replay)")
	stuck := flag.Int64("stuck", 150, "seconds after which one case counts as non-terminating")
	list := flag.Bool("list", false, "list the spaces and their sizes")
	namesOnly := flag.Bool("names", false, "list the names of the spaces")
	merge := flag.Bool("merge", false, "count distinct state hashes in the given files")
	flag.Parse()
	if *merge {
		m := map[uint64]struct{}{}
		for _, f := range flag.Args() {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			for ; len(b) >= 8; b = b[8:] {
				m[binary.LittleEndian.Uint64(b)] = struct{}{}
			}
		}
		fmt.Println(len(m))
		return
	}
	eng.Config = *config
	eng.Tier = *tier
	if *namesOnly {
		for _, s := range eng.Spaces(*prop, *config) {
			fmt.Println(s.Name)
		}
		return
	}
	if *list {
		for _, p := range eng.Props() {
			if *prop != "" && p != *prop {
				continue
			}
			for _, s := range eng.Spaces(p, *config) {
				t0 := time.Now()
				n, _ := s.Make(*tier)
				fmt.Printf("%s %-28s %12d  (make %.2fs) %s\n", p, s.Name, n, time.Since(t0).Seconds(), s.Bound)
			}
		}
		return
	}
	if err := ref.SelfTest(); err != nil {
		fmt.Fprintln(os.Stderr, "reference model self-test failed:", err)
		os.Exit(4)
	}
	var curMem []byte
	if *cur != "" {
		f, err := os.OpenFile(*cur, os.O_RDWR|os.O_CREATE, 0o644)
		if err == nil {
			f.Truncate(16)
			curMem, _ = syscall.Mmap(int(f.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			f.Close()
		}
	}
	rep := report{Prop: *prop, Config: *config, Shard: *shard}
	write := func() {
		rep.Transitions = eng.Transitions
		rep.Capped = eng.StatesCapped
		b, _ := json.Marshal(rep)
		if *out == "" {
			fmt.Println(string(b))
		} else {
			os.WriteFile(*out, b, 0o644)
		}
	}
	var progress, started atomic.Int64
	var curSpace atomic.Value
	var curIdx atomic.Uint64
	curSpace.Store("")
	go func() {
		last, lastT := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			if p := progress.Load(); p != last || started.Load() == 0 {
				last, lastT = p, time.Now()
			}
			if time.Since(lastT) > time.Duration(*stuck)*time.Second {
				v := violation{Space: curSpace.Load().(string), Index: curIdx.Load(), Err: fmt.Sprintf("case did not terminate within %d s", *stuck)}
				b, _ := json.Marshal(report{Prop: *prop, Config: *config, Shard: *shard, Violations: []violation{v}})
				if *out == "" {
					fmt.Println(string(b))
				} else {
					os.WriteFile(*out, b, 0o644)
				}
				os.Exit(1)
			}
		}
	}()
	findingKeys := map[string]int{}
	code := 0
outer:
	for si, s := range eng.Spaces(*prop, *config) {
		if *space != "" && s.Name != *space && *upto < 0 {
			continue
		}
		if *space == "" && slices.Contains(s.OnDemand, *config) {
			continue
		}
		var n uint64
		var run func(uint64) error
		curSpace.Store(s.Name)
		curIdx.Store(0)
		if curMem != nil {
			binary.LittleEndian.PutUint64(curMem, uint64(si))
			binary.LittleEndian.PutUint64(curMem[8:], 1<<63)
		}
		started.Store(1)
		progress.Add(1)
		if err := eng.Guard(func() error { n, run = s.Make(*tier); return nil }); err != nil {
			rep.Violations = append(rep.Violations, violation{Space: s.Name, Err: "building the space: " + err.Error()})
			code = 1
			break
		}
		eng.Digests = nil
		eng.KeepText = *index >= 0
		t0 := time.Now()
		sr := spaceRep{Space: s.Name, Bound: s.Bound, Size: n}
		step := func(i uint64) bool {
			if curMem != nil {
				binary.LittleEndian.PutUint64(curMem[8:], i)
			}
			curIdx.Store(i)
			progress.Add(1)
			sr.Done++
			if err := eng.Guard(func() error { return run(i) }); err != nil {
				var f *eng.Finding
				if errors.As(err, &f) {
					if findingKeys[f.Key]++; findingKeys[f.Key] <= 3 {
						rep.Findings = append(rep.Findings, violation{s.Name, i, err.Error(), f.Key})
					}
					return true
				}
				rep.Violations = append(rep.Violations, violation{Space: s.Name, Index: i, Err: err.Error()})
				return false
			}
			return true
		}
		if *index >= 0 {
			if !step(uint64(*index)) {
				code = 1
			}
			rep.Spaces = append(rep.Spaces, sr)
			rep.Text = eng.LastText
			break
		}
		k := 0
		for i := uint64(*shard); i < n; i += uint64(*of) {
			sr.Mine++
			if rep.TimedOut {
				continue
			}
			if k&15 == 0 && *deadline > 0 && time.Now().Unix() >= *deadline {
				rep.TimedOut = true
				continue
			}
			k++
			if !step(i) {
				code = 1
				rep.Spaces = append(rep.Spaces, sr)
				break outer
			}
			if *upto >= 0 && s.Name == *space && i >= uint64(*upto) {
				rep.Spaces = append(rep.Spaces, sr)
				break outer
			}
		}
		sr.Secs = time.Since(t0).Seconds()
		rep.Spaces = append(rep.Spaces, sr)
		if *digestOut != "" && len(eng.Digests) > 0 {
			b := make([]byte, 0, 8*len(eng.Digests))
			for _, d := range eng.Digests {
				b = binary.LittleEndian.AppendUint64(b, d)
			}
			os.WriteFile(*digestOut+"."+s.Name, b, 0o644)
		}
	}
	rep.Samples = eng.Samples
	if *statesOut != "" {
		b := eng.StateBytes()
		rep.States = len(b) / 8
		os.WriteFile(*statesOut, b, 0o644)
	}
	write()
	os.Exit(code)
}
