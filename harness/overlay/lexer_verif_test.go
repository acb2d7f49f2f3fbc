package schemalex

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"testing"
	"time"
)

// Put next to the lexer with go test -overlay, because it is not exported.
// Reads jobs from VH_JOBS, and writes results to VH_OUT.

type vhToken struct {
	K    string `json:"k"`
	V    string `json:"v"`
	Pos  int    `json:"pos"`
	Line int    `json:"line"`
	EOF  bool   `json:"eof"`
}

type vhResult struct {
	I     int       `json:"i"`
	Toks  []vhToken `json:"toks"`
	Panic string    `json:"panic"`
	Hang  bool      `json:"hang"`
	Left  bool      `json:"left"` // the scanner is still there after it has been cancelled
}

func vhEnc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 0x20 && c < 0x7f || c == '\n' || c == '\t' || c == '\r' {
			b.WriteByte(c)
		} else {
			b.WriteRune(0xE000 + rune(c))
		}
	}
	return b.String()
}

func TestVerifLexer(t *testing.T) {
	in, err := os.Open(os.Getenv("VH_JOBS"))
	if err != nil {
		t.Fatal(err)
	}
	out, err := os.Create(os.Getenv("VH_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	left := 0
	rd := bufio.NewReaderSize(in, 1<<20)
	for {
		line, rerr := rd.ReadBytes('\n')
		if len(line) > 1 {
			var j struct {
				I    int
				Text []byte
				// read this many tokens and cancel; all of them if it is negative
				Read int
				Wait int // this long before it is cancelled (µs)
			}
			if err := json.Unmarshal(line, &j); err != nil {
				t.Fatal(err)
			}
			r := vhResult{I: j.I, Toks: []vhToken{}}
			before := runtime.NumGoroutine()
			ctx, cancel := context.WithCancel(context.Background())
			ch := lex(ctx, j.Text)
			limit := time.After(5 * time.Second)
			n := 0
		READ:
			for j.Read < 0 || n < j.Read {
				select {
				case tok, ok := <-ch:
					if !ok {
						break READ
					}
					n++
					if n <= 2*len(j.Text)+10 {
						r.Toks = append(r.Toks, vhToken{K: tok.Type.String(), V: vhEnc(tok.Value), Pos: tok.Pos, Line: tok.Line, EOF: tok.EOF})
					} else {
						r.Hang = true
						break READ
					}
				case <-limit:
					r.Hang = true
					break READ
				}
			}
			if j.Wait > 0 {
				time.Sleep(time.Duration(j.Wait) * time.Microsecond)
			}
			cancel()
			if j.Read >= 0 {
				// nobody reads any more
				r.Left = left < 5
				for k := 0; k < 400 && left < 5; k++ {
					if runtime.NumGoroutine() <= before {
						r.Left = false
						break
					}
					if k < 50 {
						runtime.Gosched()
					} else {
						time.Sleep(5 * time.Millisecond)
					}
				}
			}
			if r.Left {
				left++
			}
			b, err := json.Marshal(r)
			if err != nil {
				t.Fatal(err)
			}
			out.Write(append(b, '\n'))
		}
		if rerr != nil {
			break
		}
	}
	fmt.Fprintln(out, `{"i": -1}`)
}
