package main

import (
	"context"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/lint"
)

type callEvent struct {
	E string `json:"e"`
}

// parseVia calls the parser in one of the ways to do so
func parseVia(p *schemalex.Parser, via, text, file string) parseRes {
	switch via {
	case "string":
		return projParse(p.ParseString(text))
	case "file":
		return projParse(p.ParseFile(file))
	default:
		return projParse(p.Parse([]byte(text)))
	}
}

// calls that went wrong: enough is enough
var wrong int

func digest(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return fmt.Sprintf("%x", sha1.Sum(b))[:16]
}

func init() {
	// one parse after the other: whether each returns, and whether it leaves
	// goroutines. Needs to be alone in the process.
	handlers["calls"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Texts []string
			Via   string
			Reps  int
			Procs int
			Limit int // ms
		}
		must(raw, &j)
		if j.Procs > 0 {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(j.Procs))
		}
		p := schemalex.New()
		out := [][]callEvent{}
		for _, t := range j.Texts {
			if wrong >= 3 {
				out = append(out, []callEvent{})
				continue
			}
			text := dec(t)
			var file string
			if j.Via == "file" {
				file = tempFile([]byte(text))
			}
			var ev []callEvent
			for k := 0; k < j.Reps; k++ {
				before := runtime.NumGoroutine()
				ev = []callEvent{{"begin"}}
				done := make(chan string, 1)
				go func() {
					what := "panic"
					defer func() {
						if e := recover(); e != nil {
							what = fmt.Sprintf("panic: %v", e)
						}
						done <- what
					}()
					switch j.Via {
					case "string":
						p.ParseString(text)
					case "file":
						p.ParseFile(file)
					default:
						p.Parse([]byte(text))
					}
					what = "return"
				}()
				select {
				case w := <-done:
					ev = append(ev, callEvent{w})
				case <-time.After(time.Duration(j.Limit) * time.Millisecond):
					ev = append(ev, callEvent{"hang"})
				}
				gone := false
				for n := 0; n < 600; n++ {
					if runtime.NumGoroutine() <= before {
						gone = true
						break
					}
					if n < 100 {
						runtime.Gosched()
					} else {
						time.Sleep(time.Duration(n) * 10 * time.Microsecond)
					}
				}
				if gone {
					ev = append(ev, callEvent{"gone"})
				} else {
					ev = append(ev, callEvent{"stays"})
				}
				if ev[1].E != "return" || !gone {
					wrong++
					break
				}
			}
			if file != "" {
				os.Remove(file)
			}
			out = append(out, ev)
		}
		return out
	}

	// one parser in many goroutines
	handlers["reentrant"] = func(raw json.RawMessage) interface{} {
		var j struct {
			Texts  []string
			N      int // goroutines
			Rounds int
			Others bool // diffs and lints at the same time
			Cold   bool // nothing has been parsed before
		}
		must(raw, &j)
		var r struct {
			Alone []string   `json:"alone"`
			Seen  [][]string `json:"seen"`
		}
		n := len(j.Texts)
		vias := []string{"bytes", "string", "file"}
		texts := make([]string, n)
		files := make([]string, n)
		for i, t := range j.Texts {
			texts[i] = dec(t)
			files[i] = tempFile([]byte(texts[i]))
			defer os.Remove(files[i])
		}
		alone := func() {
			for i := range texts {
				for _, via := range vias {
					r.Alone = append(r.Alone, digest(parseVia(schemalex.New(), via, texts[i], files[i])))
				}
			}
		}
		if !j.Cold {
			alone()
		}
		seen := make([]map[string]bool, n*len(vias))
		for i := range seen {
			seen[i] = map[string]bool{}
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		p := schemalex.New()
		start := make(chan struct{})
		for g := 0; g < j.N; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for k := 0; k < j.Rounds; k++ {
					for x := range texts {
						i := (x*(1+g%3) + g*7 + k) % n
						v := (g + k + x) % 3
						if j.Others && (g+x)%5 == 0 {
							a, b := texts[i], texts[(i+1)%n]
							diff.Strings(ioutil.Discard, a, b, diff.WithParser(p))
							lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(a)), ioutil.Discard)
						}
						d := digest(parseVia(p, vias[v], texts[i], files[i]))
						mu.Lock()
						seen[i*3+v][d] = true
						mu.Unlock()
					}
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for _, s := range seen {
			l := []string{}
			for d := range s {
				l = append(l, d)
			}
			r.Seen = append(r.Seen, l)
		}
		if j.Cold {
			alone()
		}
		return r
	}
}
