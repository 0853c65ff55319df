package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
)

func main() {
	log.SetOutput(io.Discard)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vdrv work|run|gen ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "work":
		work()
	case "run":
		fs := flag.NewFlagSet("run", flag.ExitOnError)
		in := fs.String("in", "", "cases")
		out := fs.String("out", "", "records")
		jobs := fs.Int("j", 8, "workers")
		tmo := fs.Float64("timeout", 10, "seconds per case")
		fs.Parse(os.Args[2:])
		os.Exit(supervise(*in, *out, *jobs, *tmo))
	case "gen":
		genMain(os.Args[2:])
	case "raw":
		rawMain(os.Args[2:])
	case "words":
		wordsMain(os.Args[2], readLexicon(os.Args[3]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

// work answers every case on a line of the input with a record on a line of
// the output.
func work() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 0 {
			var c Case
			if e := json.Unmarshal(line, &c); e != nil {
				fmt.Fprintln(os.Stderr, e)
				os.Exit(2)
			}
			b, e := json.Marshal(execCase(&c))
			if e != nil {
				fmt.Fprintln(os.Stderr, e)
				os.Exit(2)
			}
			out.Write(b)
			out.WriteByte('\n')
			out.Flush()
		}
		if err != nil {
			return
		}
	}
}
