package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sync"
	"syscall"
	"time"
)

// A worker is a process of its own, so that a case that never ends, or that
// ends its process, is an observation and not the end of the run.
type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startWorker() (*worker, error) {
	cmd := exec.Command("/bin/sh", "-c", "ulimit -v 12000000; exec \"$0\" work", os.Args[0])
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &worker{cmd, in, bufio.NewReaderSize(out, 1<<20)}, nil
}

func (w *worker) kill() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

func supervise(inPath, outPath string, jobs int, tmo float64) int {
	f, err := os.Open(inPath)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer f.Close()
	var lines [][]byte
	rd := bufio.NewReaderSize(f, 1<<20)
	for {
		l, err := rd.ReadBytes('\n')
		if len(l) > 1 {
			lines = append(lines, l)
		}
		if err != nil {
			break
		}
	}
	results := make([][]byte, len(lines))
	next := make(chan int)
	go func() {
		for i := range lines {
			next <- i
		}
		close(next)
	}()
	var mu sync.Mutex
	lost := 0
	var wg sync.WaitGroup
	fail := false
	for j := 0; j < jobs; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.kill()
				}
			}()
			for i := range next {
				mu.Lock()
				skip := lost >= 12
				mu.Unlock()
				if skip {
					continue
				}
				fresh := bytes.Contains(lines[i], []byte(`"fresh":`))
				if fresh && w != nil {
					w.kill()
					w = nil
				}
				if w == nil {
					var err error
					if w, err = startWorker(); err != nil {
						fmt.Fprintln(os.Stderr, err)
						mu.Lock()
						fail = true
						mu.Unlock()
						continue
					}
				}
				type ans struct {
					b   []byte
					err error
				}
				ch := make(chan ans, 1)
				ww := w
				go func() {
					if _, err := ww.in.Write(lines[i]); err != nil {
						ch <- ans{nil, err}
						return
					}
					b, err := ww.out.ReadBytes('\n')
					ch <- ans{b, err}
				}()
				lose := func(how string) {
					w.kill()
					w = nil
					var c Case
					json.Unmarshal(lines[i], &c)
					r := &Rec{ID: c.ID, Op: c.Op, S: c.S, Cp: codepoints(c.S), P: c.P, B: c.B, Ep: noPos, T: newNode("none"), Out: how}
					results[i], _ = json.Marshal(r)
					results[i] = append(results[i], '\n')
					mu.Lock()
					lost++
					mu.Unlock()
				}
				timer := time.NewTimer(time.Duration(tmo * float64(time.Second)))
				select {
				case a := <-ch:
					if a.err != nil {
						lose("crash")
					} else {
						results[i] = a.b
					}
				case <-timer.C:
					lose("hang")
				}
				timer.Stop()
				if fresh && w != nil {
					w.kill()
					w = nil
				}
			}
		}()
	}
	wg.Wait()
	if fail {
		return 2
	}
	o, err := os.Create(outPath)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bw := bufio.NewWriterSize(o, 1<<20)
	n := 0
	for _, r := range results {
		if r != nil {
			bw.Write(r)
			n++
		}
	}
	if err := bw.Flush(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o.Close()
	fmt.Printf("{\"cases\":%d,\"records\":%d,\"lost\":%d}\n", len(lines), n, lost)
	return 0
}
