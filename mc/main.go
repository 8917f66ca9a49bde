package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/matehaxor03/holistic_common/common"
)

const (
	exitHang   = 33
	exitMemory = 34
	exitFound  = 35
	exitRace   = 66
)

func exitProcess(code int) { syscall.Exit(code) }

type childResult struct {
	Found   *jsonFound     `json:"found"`
	Stats   []harnessStats `json:"stats"`
	Samples []interface{}  `json:"samples"`
	Error   string         `json:"error"`
}

type jsonFound struct {
	Harness int      `json:"harness"`
	Choices []int    `json:"choices"`
	Msg     string   `json:"msg"`
	Kind    string   `json:"kind"`
	Log     []string `json:"log"`
}

type replayFile struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Tier     string   `json:"tier"`
	Kind     string   `json:"kind"`
	Message  string   `json:"message"`
	Choices  []int    `json:"choices"`
	Trace    []string `json:"trace"`
	How      string   `json:"how_to_replay"`
}

var (
	flagProp   = flag.String("prop", "", "property id")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagChild  = flag.String("child", "", "internal: slot file")
	flagOne    = flag.String("one", "", "internal: replay file run alone")
	flagReplay = flag.String("replay", "", "replay a recorded violation")
	flagVerif  = flag.String("verif", "/verif", "verification directory")
	flagOnly   = flag.String("only", "", "run only the harness with this name")
	flagList   = flag.Bool("list", false, "list harnesses")
	flagLimit  = flag.Int("limit", 0, "time limit in seconds")
	flagShard  = flag.Int("shard", 0, "internal: this process's share")
	flagShards = flag.Int("shards", 1, "internal: number of shares")
	flagSolo   = flag.String("solo", "", "internal: print what this program returns in a fresh process")
	flagRace   = flag.String("race-bin", "", "the same program built with the race detector")
)

func harnessesFor(prop string, thorough bool) []Harness {
	var out []Harness
	for _, h := range registry[prop] {
		if h.Thorough && !thorough {
			continue
		}
		if *flagOnly != "" && h.Name != *flagOnly {
			continue
		}
		out = append(out, h)
	}
	return out
}

func openSlots(path string) []*slot {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		panic(err)
	}
	if err := f.Truncate(slotSize * maxSlots); err != nil {
		panic(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, slotSize*maxSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	f.Close()
	var out []*slot
	for i := 0; i < maxSlots; i++ {
		out = append(out, &slot{b[i*slotSize : (i+1)*slotSize]})
	}
	return out
}

func timeLimit(thorough bool) time.Duration {
	if *flagLimit > 0 {
		return time.Duration(*flagLimit) * time.Second
	}
	if thorough {
		return 780 * time.Second
	}
	return 300 * time.Second
}

func child(prop string, thorough bool, slotPath string) {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	slots := openSlots(slotPath)
	go watchdog(slots, 40*time.Second, 12<<30)
	res := childResult{}
	hs := harnessesFor(prop, thorough)
	e := &explorer{harnesses: hs, thorough: thorough, deadline: time.Now().Add(timeLimit(thorough)), workers: 8, slots: slots}
	if *flagShards > 1 {
		runtime.GOMAXPROCS(1)
		e.shard, e.shards, e.workers = *flagShard, *flagShards, 1
	}
	if *flagShards > 1 || raceBuild {
		f, err := os.Create(slotPath + ".states")
		if err != nil {
			panic(err)
		}
		defer f.Close()
		e.dump = func(h int, states map[uint64]struct{}) {
			b := make([]byte, 0, 12*len(states))
			for k := range states {
				b = binary.LittleEndian.AppendUint32(b, uint32(h))
				b = binary.LittleEndian.AppendUint64(b, k)
			}
			f.Write(b)
		}
	}
	for i := range hs {
		if hs[i].Race != raceBuild {
			continue
		}
		st := e.runHarness(i)
		res.Stats = append(res.Stats, st)
		if e.hit != nil {
			break
		}
		c, _ := replayOne(&hs[i], i, nil, thorough, slots[0])
		if len(c.log) > 12 {
			c.log = append(c.log[:12], "...")
		}
		if len(res.Samples) < 8 {
			res.Samples = append(res.Samples, map[string]interface{}{"harness": hs[i].Name, "choices": c.trace, "trace": c.log})
		}
	}
	code := 0
	if e.hit != nil {
		// replay before trusting it
		c, f := replayOne(&hs[e.hit.harness], e.hit.harness, e.hit.choices, thorough, slots[0])
		jf := &jsonFound{e.hit.harness, e.hit.choices, e.hit.msg, e.hit.kind, c.log}
		if f == nil {
			jf.Msg += " (did not fail again when replayed: the outcome depends on what ran before or beside it)"
		} else {
			jf.Msg = f.msg
		}
		res.Found = jf
		code = exitFound
	}
	b, _ := json.Marshal(res)
	os.WriteFile(slotPath+".json", b, 0o600)
	os.Exit(code)
}

// one runs a single recorded execution alone in this process.
func one(path string) {
	debug.SetMaxStack(256 << 20)
	var r replayFile
	b, err := os.ReadFile(path)
	if err != nil || json.Unmarshal(b, &r) != nil {
		fmt.Println("cannot read", path)
		os.Exit(2)
	}
	thorough := r.Tier == "thorough"
	for _, h := range registry[r.Property] {
		if h.Name == r.Harness {
			h := h
			if h.Race && !raceBuild {
				env := append(os.Environ(), "GORACE=halt_on_error=1 exitcode="+strconv.Itoa(exitRace))
				err := syscall.Exec(*flagRace, []string{*flagRace, "-one", path}, env)
				fmt.Println("cannot run the race build:", err)
				os.Exit(2)
			}
			s := &slot{make([]byte, slotSize)}
			go watchdog([]*slot{s}, 60*time.Second, 12<<30)
			c, f := replayOne(&h, 0, r.Choices, thorough, s)
			for _, l := range c.log {
				fmt.Println("  ", l)
			}
			if f != nil {
				fmt.Println(f.kind+":", f.msg)
				os.Exit(exitFound)
			}
			fmt.Println("the recorded execution satisfies the property")
			os.Exit(0)
		}
	}
	fmt.Println("no harness", r.Harness)
	os.Exit(2)
}

// guardedSelfCheck survives a package so broken that the corpus cannot be built; the harnesses report that.
func guardedSelfCheck() string {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- ""
			}
		}()
		done <- selfCheck()
	}()
	select {
	case m := <-done:
		return m
	case <-time.After(10 * time.Second):
		return ""
	}
}

func main() {
	flag.Parse()
	if msg := guardedSelfCheck(); msg != "" {
		common.Slow = true // the original is always right, only slower
		if *flagChild == "" {
			fmt.Println("using the original IsNil:", msg)
		}
	}
	if *flagSolo != "" {
		solo(*flagSolo)
	}
	if *flagList {
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, h := range registry[id] {
				fmt.Printf("%s %-28s thorough=%v %s\n", id, h.Name, h.Thorough, h.Bound)
			}
		}
		return
	}
	if *flagOne != "" {
		one(*flagOne)
	}
	if *flagReplay != "" {
		os.Exit(runReplay(*flagReplay))
	}
	thorough := *flagTier == "thorough"
	if len(registry[*flagProp]) == 0 {
		fmt.Println("unknown property", *flagProp)
		os.Exit(2)
	}
	if *flagChild != "" {
		child(*flagProp, thorough, *flagChild)
	}
	os.Exit(supervise(*flagProp, thorough))
}

func runReplay(path string) int {
	cmd := exec.Command(os.Args[0], "-one", path, "-race-bin", *flagRace)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	err := cmd.Run()
	if err == nil {
		return 0
	}
	var r replayFile
	if b, e := os.ReadFile(path); e == nil {
		json.Unmarshal(b, &r)
	}
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 2 && !strings.Contains(r.Kind, "crash") {
		return 2
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	return 1
}

// stillFailing survives whatever the package does.
func stillFailing(k finding) (fails bool) {
	defer func() {
		if recover() != nil {
			fails = true
		}
	}()
	return k.Fails()
}

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

// childRun is one process exploring a property, or one share of it.
type childRun struct {
	cmd      *exec.Cmd
	errbuf   bytes.Buffer
	slotPath string
	res      childResult
	code     int
}

func (w *childRun) start(bin string, args ...string) error {
	w.cmd = exec.Command(bin, append([]string{"-child", w.slotPath}, args...)...)
	w.cmd.Stdout = os.Stdout
	w.cmd.Stderr = &limitedWriter{&w.errbuf, 200000}
	w.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode="+strconv.Itoa(exitRace))
	return w.cmd.Start()
}

func (w *childRun) wait() error {
	runErr := w.cmd.Wait()
	if b, e := os.ReadFile(w.slotPath + ".json"); e == nil {
		json.Unmarshal(b, &w.res)
	}
	if runErr != nil {
		x, ok := runErr.(*exec.ExitError)
		if !ok {
			return runErr
		}
		w.code = x.ExitCode()
	}
	return nil
}

// runChildren runs the exploration in child processes: one, or several shares and the race build.
// It returns the one that failed, or one with everything merged.
func runChildren(prop, tier, tmp string, hs []Harness) *childRun {
	args := []string{"-prop", prop, "-tier", tier, "-only", *flagOnly, "-limit", strconv.Itoa(*flagLimit), "-verif", *flagVerif}
	shares, race := 1, false
	for _, h := range hs {
		if h.Serial {
			shares = 8
		}
		race = race || h.Race
	}
	var runs []*childRun
	var failed *childRun
	done := make(chan *childRun, 16)
	begin := func(bin string, extra ...string) bool {
		w := &childRun{slotPath: filepath.Join(tmp, "slots"+strconv.Itoa(len(runs)))}
		if err := w.start(bin, append(append([]string{}, args...), extra...)...); err != nil {
			fmt.Println("cannot run:", err)
			return false
		}
		runs = append(runs, w)
		go func() {
			if err := w.wait(); err != nil {
				fmt.Println("cannot run:", err)
				w.code = 2
			}
			done <- w
		}()
		return true
	}
	collect := func(n int) {
		for i := 0; i < n; i++ {
			w := <-done
			if (w.code != 0 || w.res.Found != nil) && failed == nil {
				failed = w
				for _, o := range runs {
					if o != w {
						o.cmd.Process.Kill()
					}
				}
			}
		}
	}
	for k := 0; k < shares; k++ {
		if !begin(os.Args[0], "-shard", strconv.Itoa(k), "-shards", strconv.Itoa(shares)) {
			return nil
		}
	}
	collect(shares)
	if failed == nil && race {
		if !begin(*flagRace) {
			return nil
		}
		collect(1)
	}
	if failed != nil {
		return failed
	}
	if len(runs) == 1 {
		return runs[0]
	}
	m := &childRun{slotPath: runs[0].slotPath}
	at := map[string]int{}
	for _, w := range runs {
		if len(m.res.Samples) == 0 || w == runs[len(runs)-1] && race {
			m.res.Samples = append(m.res.Samples, w.res.Samples...)
		}
		for _, st := range w.res.Stats {
			i, ok := at[st.Name]
			if !ok {
				at[st.Name] = len(m.res.Stats)
				m.res.Stats = append(m.res.Stats, st)
				continue
			}
			t := &m.res.Stats[i]
			t.Executions += st.Executions
			t.Operations += st.Operations
			t.Choices += st.Choices
			t.Complete = t.Complete && st.Complete
			if st.Seconds > t.Seconds {
				t.Seconds = st.Seconds
			}
		}
	}
	// states reached by several shares count once
	sets := map[string]map[uint64]struct{}{}
	for _, w := range runs {
		b, err := os.ReadFile(w.slotPath + ".states")
		if err != nil {
			continue
		}
		for ; len(b) >= 12; b = b[12:] {
			h := int(binary.LittleEndian.Uint32(b))
			if h >= len(hs) {
				continue
			}
			if sets[hs[h].Name] == nil {
				sets[hs[h].Name] = map[uint64]struct{}{}
			}
			sets[hs[h].Name][binary.LittleEndian.Uint64(b[4:])] = struct{}{}
		}
	}
	for i := range m.res.Stats {
		m.res.Stats[i].States = len(sets[m.res.Stats[i].Name])
	}
	return m
}

func supervise(prop string, thorough bool) int {
	start := time.Now()
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	tmp, err := os.MkdirTemp("", "mc-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	for _, k := range knownFindings(prop) {
		if stillFailing(k) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	hs := harnessesFor(prop, thorough)
	w := runChildren(prop, tier, tmp, hs)
	if w == nil {
		return 2
	}
	res := w.res
	code := w.code
	var r *replayFile
	switch {
	case code == 0 && res.Found == nil && len(res.Stats) > 0:
	case res.Found != nil:
		f := res.Found
		r = &replayFile{prop, hs[f.Harness].Name, tier, f.Kind, f.Msg, f.Choices, f.Log, ""}
	default:
		// the process died: find out which execution did it, one at a time
		es := w.errbuf.String()
		if strings.Contains(es, "main.divergence") {
			fmt.Println(tail(es, 3000))
			return 2
		}
		kind := "crash"
		switch code {
		case exitHang:
			kind = "hang"
		case exitMemory:
			kind = "memory"
		case exitRace:
			kind = "race"
			if !strings.Contains(es, "holistic_json") {
				fmt.Println("race outside the package:", head(es, 5000))
				return 2
			}
		}
		var first *replayFile
		for _, s := range openSlots(w.slotPath) {
			if !s.busy() || s.harness() >= len(hs) {
				continue
			}
			cand := &replayFile{prop, hs[s.harness()].Name, tier, kind, "", s.choices(), nil, ""}
			if first == nil {
				first = cand
			}
			p := filepath.Join(tmp, "cand.json")
			b, _ := json.Marshal(cand)
			os.WriteFile(p, b, 0o600)
			var out bytes.Buffer
			c2 := exec.Command(os.Args[0], "-one", p, "-race-bin", *flagRace)
			c2.Stdout, c2.Stderr = &out, &limitedWriter{&out, 100000}
			e2 := c2.Run()
			if x, ok := e2.(*exec.ExitError); ok {
				switch x.ExitCode() {
				case exitHang:
					cand.Kind, cand.Message = "hang", "execution did not finish within 60 s when run alone"
				case exitMemory:
					cand.Kind, cand.Message = "memory", "execution allocated more than 12 GB when run alone"
				default:
					cand.Message = head(out.String(), 3000)
				}
				r = cand
				break
			}
		}
		if r == nil && kind == "race" && first != nil {
			first.Message = head(es, 4000)
			r = first
		}
		if r == nil {
			fmt.Printf("child ended with %d and no single execution reproduces it\n%s\n", code, tail(es, 3000))
			return 2
		}
	}

	cov := map[string]interface{}{}
	var execs, ops, choices int64
	states := 0
	exhaustive := r == nil
	for _, s := range res.Stats {
		execs += s.Executions
		ops += s.Operations
		choices += s.Choices
		states += s.States
		exhaustive = exhaustive && s.Complete
	}
	if len(res.Samples) == 0 {
		res.Samples = []interface{}{"no sample: the run ended before its first harness completed"}
	}
	cov["states"] = states
	cov["transitions"] = ops
	cov["traces_validated_against_impl"] = execs
	cov["choice_points_resolved"] = choices
	cov["exhaustive"] = exhaustive
	cov["harnesses"] = res.Stats
	cov["samples"] = res.Samples
	cov["rule"] = "every choice sequence of every harness inside its bound is executed on the real package; states = distinct canonical inputs and observed documents; transitions = calls made on the package; traces validated = complete executions whose every step agreed with the reference model"
	viol := 0
	if r != nil {
		viol = 1
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed(), "level": "model_checking",
		"coverage": cov, "violations": viol, "wall_s": time.Since(start).Seconds(),
		"assumptions": []string{
			"values outside the enumerated alphabets and sizes beyond the stated bounds are not covered",
			"holistic_common.IsNil is replaced by an equivalent fast version; the equivalence is checked against the original on a corpus at the start of every run",
			"the Go standard library (encoding/json, strconv, math/big) is trusted as oracle",
		},
	}
	evdir := filepath.Join(*flagVerif, "evidence")
	os.MkdirAll(evdir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, prop+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s %s: %d executions, %d operations, %d states, exhaustive=%v, %.1f s\n", prop, tier, execs, ops, states, exhaustive, time.Since(start).Seconds())
	for _, s := range res.Stats {
		fmt.Printf("   %-30s execs=%d states=%d complete=%v %.1fs\n", s.Name, s.Executions, s.States, s.Complete, s.Seconds)
	}
	if r != nil {
		p := filepath.Join(evdir, fmt.Sprintf("replay-%s-%s.json", prop, r.Harness))
		r.How = "bash /verif/run.sh replay " + p
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("%s: %s\n", r.Kind, head(r.Message, 2000))
		for _, l := range r.Trace {
			fmt.Println("   ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		return 1
	}
	return 0
}

type limitedWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
