package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// server.go: pools of long-running z3 processes; every query starts from (reset).

type smtServer struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	uses int
}

type serverPool struct {
	mu   sync.Mutex
	idle []*smtServer
	name string
}

var pools = map[string]*serverPool{"z3": {name: "z3"}, "z3-new": {name: "z3-new"}}

func (p *serverPool) get() (*smtServer, error) {
	p.mu.Lock()
	if n := len(p.idle); n > 0 {
		s := p.idle[n-1]
		p.idle = p.idle[:n-1]
		p.mu.Unlock()
		return s, nil
	}
	p.mu.Unlock()
	s := &smtServer{cmd: exec.Command(p.name, "-in", "-memory:3000")}
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	return s, nil
}

func (p *serverPool) put(s *smtServer) {
	if s.uses++; s.uses > 300 {
		s.kill()
		return
	}
	p.mu.Lock()
	p.idle = append(p.idle, s)
	p.mu.Unlock()
}

func (s *smtServer) kill() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

const endMark = "gvc-end-of-answer"

func (s *smtServer) query(ctx context.Context, text string, seconds float64) (string, bool) {
	type ans struct {
		s  string
		ok bool
	}
	ch := make(chan ans, 1)
	go func() {
		q := fmt.Sprintf("(reset)\n(set-option :timeout %d)\n%s\n(echo \"%s\")\n", int(seconds*1000), text, endMark)
		go io.WriteString(s.in, q)
		var sb strings.Builder
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				ch <- ans{sb.String(), false}
				return
			}
			if strings.Contains(l, endMark) {
				ch <- ans{sb.String(), true}
				return
			}
			sb.WriteString(l)
		}
	}()
	tm := time.NewTimer(time.Duration((seconds + 2) * float64(time.Second)))
	defer tm.Stop()
	select {
	case a := <-ch:
		return a.s, a.ok
	case <-ctx.Done():
	case <-tm.C:
	}
	return "", false
}

func killServers() {
	for _, p := range pools {
		p.mu.Lock()
		for _, s := range p.idle {
			s.kill()
		}
		p.idle = nil
		p.mu.Unlock()
	}
}
