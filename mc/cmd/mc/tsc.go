package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
)

// nodePool are node processes that answer one JSON line with one JSON line.
type nodePool struct {
	free chan *nodeProc
	all  []*nodeProc
}

type nodeProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func newNodePool(e *Env, script string, n int) *nodePool {
	p := &nodePool{free: make(chan *nodeProc, n)}
	for i := 0; i < n; i++ {
		cmd := exec.Command("node", filepath.Join(verif, "harness/ts", script))
		cmd.Stderr = os.Stderr
		in, err := cmd.StdinPipe()
		must(err)
		out, err := cmd.StdoutPipe()
		must(err)
		must(cmd.Start())
		np := &nodeProc{cmd, in, bufio.NewReaderSize(out, 1<<20)}
		p.all = append(p.all, np)
		p.free <- np
	}
	return p
}

func (p *nodePool) close() {
	for _, n := range p.all {
		_ = n.in.Close()
		_ = n.cmd.Wait()
	}
}

func (p *nodePool) ask(req, resp any) {
	n := <-p.free
	defer func() { p.free <- n }()
	b, err := json.Marshal(req)
	must(err)
	_, err = n.in.Write(append(b, '\n'))
	must(err)
	line, err := n.out.ReadBytes('\n')
	must(err)
	var bad struct{ Error string }
	if json.Unmarshal(line, &bad) == nil && bad.Error != "" {
		panic("node: " + bad.Error)
	}
	must(json.Unmarshal(line, resp))
}

type tsDiag struct {
	File, Text string
	Line, Code int
}

func (d tsDiag) String() string { return fmt.Sprintf("%s:%d: TS%d %s", d.File, d.Line, d.Code, d.Text) }

type tsAnswer struct {
	Diags []tsDiag
	JS    map[string]string
}

// tsCheck type-checks the TypeScript files of a tree.
func (p *nodePool) tsCheck(tree map[string]string, js bool) tsAnswer {
	files := map[string]string{}
	for f, c := range tree {
		if filepath.Ext(f) == ".ts" {
			files[f] = c
		}
	}
	var a tsAnswer
	p.ask(map[string]any{"files": files, "js": js}, &a)
	return a
}
