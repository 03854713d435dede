// Command zzmain replays recorded cases against the compiled code: one JSON
// case per line on standard input, one JSON result per line on descriptor 3.
package main

import (
	"bufio"
	"encoding/json"
	"io/ioutil"
	"os"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/zzh"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/zzsym"
)

type tcase struct {
	Job    string        `json:"job"`
	Inputs []zzsym.InVal `json:"inputs"`
	Tier   int           `json:"tier"`
}

func main() {
	out := os.NewFile(3, "results")
	w := bufio.NewWriter(out)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	// what the code prints goes to a scratch file
	f, err := ioutil.TempFile("", "zzout")
	if err == nil {
		os.Remove(f.Name())
		os.Stdout = f
	}
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var c tcase
		r := zzsym.Result{Status: "inputs", Msg: "bad case"}
		if json.Unmarshal(line, &c) == nil {
			if h := zzh.Harnesses[c.Job]; h != nil {
				if f != nil {
					f.Truncate(0)
					f.Seek(0, 0)
				}
				r = zzsym.Run(h, c.Inputs, c.Tier)
			} else {
				r.Msg = "no harness " + c.Job
			}
		}
		b, _ := json.Marshal(r)
		w.Write(append(b, '\n'))
		w.Flush()
	}
}
