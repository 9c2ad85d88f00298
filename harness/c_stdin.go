package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"

	"github.com/myyrakle/gost"
)

const stdinCallers = 4

// ---- the child: its standard input is the stream, its commands come in
// through descriptor 3 and its answers go out through descriptor 4.

type readerState struct {
	Reading bool
	Done    int // completed reads
	Intact  bool
	Got     []byte
}

func stdinChild() {
	in, out := bufio.NewReader(os.NewFile(3, "commands")), os.NewFile(4, "answers")
	var handles [3]gost.Stdin
	var mu sync.Mutex
	var st [stdinCallers + 1]readerState
	var buf [stdinCallers + 1]gost.String
	for i := range buf {
		st[i].Intact = true
		buf[i] = []gost.String{"", "was da war\n", "\x00\xff", "x", "世"}[i%5]
	}
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			os.Exit(0)
		}
		var op string
		var c, h int
		fmt.Sscan(line, &op, &c, &h)
		switch op {
		case "R":
			mu.Lock()
			st[c].Reading = true
			mu.Unlock()
			go func() {
				before := buf[c]
				handles[h].ReadLine(&buf[c])
				mu.Lock()
				defer mu.Unlock()
				st[c].Reading = false
				st[c].Done++
				st[c].Intact = strings.HasPrefix(string(buf[c]), string(before))
				st[c].Got = []byte(strings.TrimPrefix(string(buf[c]), string(before)))
			}()
		case "H":
			handles[c].Lock().Lock()
		case "D":
			handles[c].Lock().Unlock()
		}
		mu.Lock()
		j, _ := json.Marshal(st)
		mu.Unlock()
		out.Write(append(j, '\n'))
	}
}

// ---- the driver's side

type stdinComp struct {
	cmd   *exec.Cmd
	feeds chan []byte
	say   *os.File
	hear  *bufio.Reader
	st    [stdinCallers + 1]readerState
	wait  [stdinCallers + 1]int
	held  [3]bool
	lines int // whole lines fed
	part  bool
	ended bool
	reads int
	ok    bool
	last  int
}

func (x *stdinComp) ask(format string, a ...any) {
	fmt.Fprintf(x.say, format+"\n", a...)
	line, err := x.hear.ReadBytes('\n')
	if err != nil {
		x.ok = false
		return
	}
	x.st = [stdinCallers + 1]readerState{}
	if err := json.Unmarshal(line, &x.st); err != nil {
		bad("%v", err)
	}
}

func (x *stdinComp) State() [][]int {
	out := [][]int{}
	for c := 1; c <= stdinCallers; c++ {
		s := x.st[c]
		out = append(out, append(append(b2i(s.Reading), b2i(s.Intact)...), tokens(s.Got)...))
	}
	return out
}

// tokens: long runs of 'x' are one number
func tokens(b []byte) []int {
	out := []int{}
	for i := 0; i < len(b); {
		n := 0
		for i+n < len(b) && b[i+n] == 'x' {
			n++
		}
		if n >= 1000 {
			out = append(out, n)
			i += n
			continue
		}
		out = append(out, int(b[i]))
		i++
	}
	return out
}

func untokens(a []int) []byte {
	out := []byte{}
	for _, t := range a {
		if t >= 1000 {
			out = append(out, bytes.Repeat([]byte{'x'}, t)...)
		} else {
			out = append(out, byte(t))
		}
	}
	return out
}

func (x *stdinComp) Finish() {
	if x.cmd != nil {
		x.cmd.Process.Kill()
		x.cmd.Wait()
		close(x.feeds)
		x.say.Close()
		x.cmd = nil
	}
}

func (x *stdinComp) start() {
	self, err := os.Executable()
	if err != nil {
		bad("%v", err)
	}
	pipe := func() (*os.File, *os.File) {
		r, w, err := os.Pipe()
		if err != nil {
			bad("%v", err)
		}
		return r, w
	}
	inR, inW := pipe()
	cmdR, cmdW := pipe()
	ansR, ansW := pipe()
	x.cmd = exec.Command(self, "-stdinchild")
	x.cmd.Stdin = inR
	x.cmd.ExtraFiles = []*os.File{cmdR, ansW}
	var stderr bytes.Buffer
	x.cmd.Stderr = &stderr
	if err := x.cmd.Start(); err != nil {
		bad("%v", err)
	}
	inR.Close()
	cmdR.Close()
	ansW.Close()
	x.say, x.hear = cmdW, bufio.NewReader(ansR)
	x.feeds = make(chan []byte, 10000)
	go func() {
		for b := range x.feeds {
			if b == nil {
				break
			}
			inW.Write(b)
		}
		inW.Close()
	}()
	x.ok = true
}

// expected: how many reads have to be complete by now
func (x *stdinComp) expected() (n int, free bool) {
	blocked := 0
	for c := 1; c <= stdinCallers; c++ {
		if x.wait[c] != 0 && x.held[x.wait[c]] {
			blocked++
		}
	}
	avail := x.reads - blocked
	if !x.ended {
		avail = min(avail, max(x.lines, x.done()))
	}
	return avail, blocked == 0
}

func (x *stdinComp) done() (n int) {
	for c := 1; c <= stdinCallers; c++ {
		n += x.st[c].Done
	}
	return
}

func (x *stdinComp) Exec(op string, a []int) (string, []int) {
	switch op {
	case "new":
		x.start()
		x.ask("S")
	case "feed":
		b := untokens(a)
		x.lines += bytes.Count(b, []byte{'\n'})
		x.last = a[len(a)-1]
		x.feeds <- b
	case "eof":
		x.ended = true
		x.feeds <- nil
	case "read":
		for c := 1; c <= stdinCallers; c++ {
			if x.wait[c] != 0 && (c == a[0] || x.wait[c] != a[1]) {
				return "skip", nil
			}
		}
		x.reads++
		x.wait[a[0]] = a[1]
		x.ask("R %d %d", a[0], a[1])
	case "hold":
		for c := 1; c <= stdinCallers; c++ {
			if x.wait[c] == a[0] {
				return "skip", nil
			}
		}
		x.held[a[0]] = true
		x.ask("H %d", a[0])
	case "drop":
		if !x.held[a[0]] {
			return "skip", nil
		}
		x.held[a[0]] = false
		x.ask("D %d", a[0])
	default:
		bad("stdin op %s", op)
	}
	look := func() bool {
		x.ask("S")
		n, _ := x.expected()
		return !x.ok || x.done() >= n
	}
	must(look)
	reading := false
	for c := 1; c <= stdinCallers; c++ {
		reading = reading || x.st[c].Reading
	}
	if reading {
		mustNot(1)
		x.ask("S")
	}
	for c := 1; c <= stdinCallers; c++ {
		if !x.st[c].Reading {
			x.wait[c] = 0
		}
	}
	if !x.ok {
		gaveUp.Store(true)
		return "died", nil
	}
	return "unit", nil
}

func (x *stdinComp) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		return Op{"new", []int{0}}
	}
	handle, reading := 0, 0
	for c := 1; c <= stdinCallers; c++ {
		if x.wait[c] != 0 {
			handle = x.wait[c]
			reading++
		}
	}
	for {
		switch k := r.Intn(12); {
		case k < 5 && !x.ended:
			return Op{"feed", x.randTokens(r)}
		case k == 5 && !x.ended && r.Intn(6) == 0:
			return Op{"eof", []int{0}}
		case k == 6 && r.Intn(4) == 0:
			h := 1 + r.Intn(2)
			if x.held[h] {
				return Op{"drop", []int{h}}
			}
			if handle != h {
				return Op{"hold", []int{h}}
			}
		case k > 6 && reading < stdinCallers:
			h := handle
			if h == 0 {
				h = 1 + r.Intn(2)
			}
			c := 1 + r.Intn(stdinCallers)
			for x.wait[c] != 0 {
				c = 1 + r.Intn(stdinCallers)
			}
			return Op{"read", []int{c, h}}
		}
	}
}

func (x *stdinComp) randTokens(r *rand.Rand) []int {
	out := []int{}
	prev := x.last
	for i := 1 + r.Intn(12); i > 0; i-- {
		t := 0
		if r.Intn(8) == 0 {
			run := [][]int{{'\r', '\n'}, {'\r', '\r', '\n'}, {'\r', '\r', '\r', '\n'}, {'\n', '\r', '\n'}, {0xef, 0xbb, 0xbf}, {' ', '\n'}, {'\t', ' ', '\r', '\n'},
				{0, '\n'}, {'\\', '\n'}, {0x1a, '\n'}, {0xe2, 0x80, 0xa8}, {0xc2, 0x85}, {'\n', '\n', '\n'}, {'#', ' ', '\n'}, {'"', '\n', '"'}}[r.Intn(15)]
			out = append(out, run...)
			prev = run[len(run)-1]
			continue
		}
		switch r.Intn(8) {
		case 0, 1:
			t = '\n'
		case 2:
			t = []int{' ', '\t', '\r', 0, 255, 0xc3, 0x85, '\v'}[r.Intn(8)]
		case 3:
			if r.Intn(12) == 0 {
				t = []int{1000, 4095, 4096, 4097, 65535, 65536, 70000, 140000}[r.Intn(8)]
			} else {
				t = '0' + r.Intn(10)
			}
		default:
			t = r.Intn(256)
		}
		if t == 'x' || t >= 1000 && prev >= 1000 {
			t = 'y'
		}
		out = append(out, t)
		prev = t
	}
	return out
}
