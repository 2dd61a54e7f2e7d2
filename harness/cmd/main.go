// Command cmd replays solver models natively: one JSON run per input line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"time"

	"github.com/gagliardetto/binary/zz_verif/h"
	"github.com/gagliardetto/binary/zz_verif/sym"
)

type in struct {
	sym.Run
	Repeat int `json:"repeat"`
}

func main() {
	installHooks()
	sym.Race = os.Getenv("VERIF_RACE") != ""
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var r in
			if e := json.Unmarshal(line, &r); e != nil {
				fmt.Fprintln(os.Stderr, "bad input:", e)
				os.Exit(2)
			}
			f := h.Registry[r.Harness]
			if f == nil {
				fmt.Fprintln(os.Stderr, "no harness", r.Harness)
				os.Exit(2)
			}
			if r.Repeat < 1 {
				r.Repeat = 1
			}
			var res *sym.Result
			done := make(chan bool)
			go func() {
				for i := 0; i < r.Repeat; i++ {
					res = sym.Exec(r.Run, f)
					if res.Panic != "" || len(res.Failed) > 0 {
						break
					}
				}
				done <- true
			}()
			select {
			case <-done:
			case <-time.After(15 * time.Second):
				fmt.Fprintln(w, `{"hang":true}`)
				w.Flush()
				os.Exit(3)
			}
			out, _ := json.Marshal(res)
			w.Write(out)
			w.WriteByte('\n')
			w.Flush()
		}
		if err != nil {
			return
		}
	}
}
