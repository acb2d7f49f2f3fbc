// Command vh runs jobs against schemalex's public interface. It reads one job
// per line (JSON) from the file given, and writes one result per line.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
)

type job struct {
	I  int    `json:"i"`
	Op string `json:"op"`
	// the rest depends on op
	raw json.RawMessage
}

type result struct {
	I     int         `json:"i"`
	Panic string      `json:"panic"`
	Hang  bool        `json:"hang"`
	R     interface{} `json:"r"`
}

type handler func(raw json.RawMessage) interface{}

var handlers = map[string]handler{}

func run(j job, timeout time.Duration) result {
	done := make(chan result, 1)
	go func() {
		res := result{I: j.I}
		defer func() {
			if e := recover(); e != nil {
				res.Panic = fmt.Sprintf("%v", e)
				if os.Getenv("VH_STACK") != "" {
					res.Panic += "\n" + string(debug.Stack())
				}
				res.R = nil
			}
			done <- res
		}()
		h, ok := handlers[j.Op]
		if !ok {
			fmt.Fprintf(os.Stderr, "unknown op %q\n", j.Op)
			os.Exit(3)
		}
		res.R = h(j.raw)
	}()
	select {
	case r := <-done:
		return r
	case <-time.After(timeout):
		return result{I: j.I, Hang: true}
	}
}

func main() {
	in := flag.String("in", "", "jobs")
	out := flag.String("out", "", "results")
	workers := flag.Int("w", runtime.NumCPU(), "workers")
	timeout := flag.Duration("timeout", 20*time.Second, "time limit of a job")
	flag.Parse()

	go func() {
		var m runtime.MemStats
		for {
			time.Sleep(200 * time.Millisecond)
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 6<<30 {
				fmt.Fprintln(os.Stderr, "out of memory")
				os.Exit(77)
			}
		}
	}()

	serveMySQL()

	f, err := os.Open(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	o, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}

	jobs := make(chan job)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for n := 0; n < *workers; n++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				r := run(j, *timeout)
				b, err := json.Marshal(r)
				if err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(3)
				}
				mu.Lock()
				o.Write(append(b, '\n'))
				mu.Unlock()
			}
		}()
	}
	rd := bufio.NewReaderSize(f, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var j job
			if e := json.Unmarshal(line, &j); e != nil {
				fmt.Fprintln(os.Stderr, e)
				os.Exit(3)
			}
			j.raw = line
			jobs <- j
		}
		if err != nil {
			break
		}
	}
	close(jobs)
	wg.Wait()
	o.Close()
}
