package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"
)

// fsComp calls the file operations, directly or through their asynchronous
// counterparts, on a tree inside a scratch directory of an unprivileged user.
type fsComp struct {
	pool  []int // the names random calls use
	root  string
	nodes map[string]fsNode // as of the last look
	async bool
	big   bool
}

type fsNode struct {
	kind, mode int
	c          []int
}

var flagScratch string
var fsEpisode int

var fsNames = []string{"", "a", "b.txt", "d", "link", "ein Verzeichnis é", "世界", ".x", "y", "gone", "..b", "-r *", "b.txt ", "D", "zwei\nZeilen\\", strings.Repeat("n", 255), "%s{}"}

func dropPrivileges() {
	syscall.Umask(0o022)
	if os.Geteuid() != 0 {
		return
	}
	if err := os.Chown(flagScratch, 65534, 65534); err != nil {
		return
	}
	syscall.Setgroups([]int{})
	syscall.Setgid(65534)
	syscall.Setuid(65534)
}

func (c *fsComp) path(p []int) string {
	out := c.root
	for _, x := range p {
		out += "/" + fsNames[x]
	}
	return out
}

// runs of bytes that count up
func unruns(a []int) []byte {
	out := []byte{}
	for i := 0; i+1 < len(a); i += 2 {
		for j := 0; j < a[i+1]; j++ {
			out = append(out, byte(a[i]+j))
		}
	}
	return out
}

func runs(b []byte) []int {
	out := []int{}
	for i, x := range b {
		if i > 0 && x == b[i-1]+1 {
			out[len(out)-1]++
		} else {
			out = append(out, int(x), 1)
		}
	}
	return out
}

func (c *fsComp) look(dir []int, out *[][]int, seen map[string]fsNode) {
	name := c.path(dir)
	st, err := os.Lstat(name)
	if err != nil {
		bad("look %s: %v", name, err)
	}
	n := fsNode{mode: int(st.Mode().Perm())}
	switch {
	case st.IsDir():
		if n.mode&0o500 != 0o500 { // look into it all the same
			os.Chmod(name, 0o700)
			defer os.Chmod(name, st.Mode().Perm())
		}
	case st.Mode().IsRegular():
		n.kind = 1
		if n.mode&0o400 == 0 {
			os.Chmod(name, 0o600)
			defer os.Chmod(name, st.Mode().Perm())
		}
		b, err := os.ReadFile(name)
		if err != nil {
			bad("look %s: %v", name, err)
		}
		n.c = runs(b)
	case st.Mode()&os.ModeSymlink != 0:
		n.kind = 2
		to, _ := os.Readlink(name)
		for _, part := range strings.Split(to, "/") {
			n.c = append(n.c, nameIndex(part))
		}
	default:
		n.kind = 9
	}
	line := append([]int{len(dir)}, dir...)
	line = append(line, n.kind)
	if n.kind != 2 {
		line = append(line, n.mode)
	}
	*out = append(*out, append(line, n.c...))
	seen[fmt.Sprint(dir)] = n
	if n.kind != 0 {
		return
	}
	entries, err := os.ReadDir(name)
	if err != nil {
		bad("look %s: %v", name, err)
	}
	for _, e := range entries {
		i := nameIndex(e.Name())
		sub := append(append([]int{}, dir...), i)
		if i == 999 {
			*out = append(*out, append(append([]int{len(sub)}, sub...), 9, 0))
			continue
		}
		c.look(sub, out, seen)
	}
}

func nameIndex(s string) int {
	for i, n := range fsNames {
		if n == s && i > 0 {
			return i
		}
	}
	return 999
}

func (c *fsComp) State() [][]int {
	out := [][]int{}
	c.nodes = map[string]fsNode{}
	c.look(nil, &out, c.nodes)
	return out
}

func (c *fsComp) Finish() {
	if c.root == "" {
		return
	}
	filepath.Walk(c.root, func(p string, st os.FileInfo, err error) error {
		if st != nil && st.IsDir() {
			os.Chmod(p, 0o700)
		}
		return nil
	})
	os.RemoveAll(c.root)
	c.root = ""
}

func done[T any](r gost.Result[T], f func(T) []int) (string, []int) {
	if r.IsErr() {
		return "err", nil
	}
	if f == nil {
		return "ok", nil
	}
	return "ok", f(r.Unwrap())
}

// either runs the direct call or awaits its asynchronous counterpart, twice.
func either[T any](c *fsComp, direct func() gost.Result[T], async func() gost.Future[gost.Result[T]], f func(T) []int) (string, []int) {
	if !c.async {
		return done(direct(), f)
	}
	future := async()
	k, v := done(future.Await(), f)
	k2, v2 := done(future.Await(), f)
	if k != k2 || fmt.Sprint(v) != fmt.Sprint(v2) {
		return "differ", v2
	}
	return k, v
}

func (c *fsComp) Exec(op string, a []int) (string, []int) {
	if op == "new" {
		c.Finish()
		fsEpisode++
		c.async = a[0] == 1
		c.root = filepath.Join(flagScratch, fmt.Sprintf("t%d", fsEpisode))
		if err := os.Mkdir(c.root, 0o755); err != nil {
			bad("%v", err)
		}
		return "unit", b2i(os.Geteuid() == 0)
	}
	if op == "readkernel" {
		name := gost.String("/proc/sys/kernel/ostype")
		return either(c, func() gost.Result[[]gost.Byte] { return gost.Read(name) }, func() gost.Future[gost.Result[[]gost.Byte]] { return gokio.Read(name) }, gotBytes)
	}
	rest := a[1+a[0]:]
	ps := c.path(a[1 : 1+a[0]])
	p := gost.String(ps)
	switch op {
	case "chmod":
		if err := os.Chmod(ps, os.FileMode(rest[0])); err != nil {
			bad("%v", err)
		}
		return "unit", nil
	case "symlink":
		parts := []string{}
		for _, x := range rest {
			parts = append(parts, fsNames[x])
		}
		if err := os.Symlink(strings.Join(parts, "/"), ps); err != nil {
			bad("%v", err)
		}
		return "unit", nil
	case "createdir":
		return either(c, func() gost.Result[any] { return gost.CreateDir(p) }, func() gost.Future[gost.Result[any]] { return gokio.CreateDir(p) }, nil)
	case "removedir":
		return either(c, func() gost.Result[any] { return gost.RemoveDir(p) }, func() gost.Future[gost.Result[any]] { return gokio.RemoveDir(p) }, nil)
	case "removefile":
		return either(c, func() gost.Result[any] { return gost.RemoveFile(p) }, func() gost.Future[gost.Result[any]] { return gokio.RemoveFile(p) }, nil)
	case "write":
		data := []gost.Byte{}
		for _, b := range unruns(rest) {
			data = append(data, gost.Byte(b))
		}
		return either(c, func() gost.Result[any] { return gost.Write(p, data) }, func() gost.Future[gost.Result[any]] { return gokio.Write(p, data) }, nil)
	case "fire":
		want := unruns(rest)
		data := []gost.Byte{}
		for _, b := range want {
			data = append(data, gost.Byte(b))
		}
		gokio.Write(p, data)
		if !must(func() bool { b, err := os.ReadFile(ps); return err == nil && string(b) == string(want) }) {
			return "nothing", nil
		}
		return "ok", nil
	case "firedir":
		gokio.CreateDir(p)
		if !must(func() bool { st, err := os.Stat(ps); return err == nil && st.IsDir() }) {
			return "nothing", nil
		}
		return "ok", nil
	case "read":
		return either(c, func() gost.Result[[]gost.Byte] { return gost.Read(p) }, func() gost.Future[gost.Result[[]gost.Byte]] { return gokio.Read(p) }, gotBytes)
	case "readtostring":
		return either(c, func() gost.Result[gost.String] { return gost.ReadToString(p) }, func() gost.Future[gost.Result[gost.String]] { return gokio.ReadToString(p) },
			func(s gost.String) []int { return runs([]byte(s)) })
	case "readdir":
		return either(c, func() gost.Result[gost.Vec[gost.DirEntry]] { return gost.ReadDir(p) }, func() gost.Future[gost.Result[gost.Vec[gost.DirEntry]]] { return gokio.ReadDir(p) },
			func(v gost.Vec[gost.DirEntry]) []int {
				// entries may not be reachable from here: open the way for a look
				st, _ := os.Stat(ps)
				os.Chmod(ps, 0o700)
				defer os.Chmod(ps, st.Mode().Perm())
				out := []int{}
				for i := gost.USize(0); i < v.Len(); i++ {
					e := v.GetUnchecked(i)
					kind, kinds := 9, 0
					for k, is := range []bool{bool(e.FileType.IsDir()), bool(e.FileType.IsFile()), bool(e.FileType.IsSymlink())} {
						if is {
							kind = k
							kinds++
						}
					}
					if kinds != 1 {
						kind = 9
					}
					x, err1 := os.Lstat(ps + "/" + string(e.FileName))
					y, err2 := os.Lstat(string(e.Path))
					same := 0
					if err1 == nil && err2 == nil && os.SameFile(x, y) {
						same = 1
					}
					out = append(out, nameIndex(string(e.FileName)), kind, same)
				}
				return out
			})
	case "copy":
		q := gost.String(c.path(rest))
		return either(c, func() gost.Result[any] { return gost.Copy(p, q) }, func() gost.Future[gost.Result[any]] { return gokio.Copy(p, q) }, nil)
	case "rename":
		q := gost.String(c.path(rest))
		return either(c, func() gost.Result[any] { return gost.Rename(p, q) }, func() gost.Future[gost.Result[any]] { return gokio.Rename(p, q) }, nil)
	}
	bad("fs op %s", op)
	return "", nil
}

func gotBytes(data []gost.Byte) []int {
	b := make([]byte, len(data))
	for i, x := range data {
		b[i] = byte(x)
	}
	return runs(b)
}

func (c *fsComp) somePath(r *rand.Rand) []int {
	// mostly a place of the tree, or a place beside or below one
	paths := [][]int{}
	var walk func(p []int)
	walk = func(p []int) {
		if len(p) > 0 {
			paths = append(paths, p)
		}
		for _, i := range c.pool {
			q := append(append([]int{}, p...), i)
			if _, ok := c.nodes[fmt.Sprint(q)]; ok {
				walk(q)
			}
		}
	}
	walk(nil)
	p := []int{}
	if len(paths) > 0 && r.Intn(8) != 0 {
		p = append(p, paths[r.Intn(len(paths))]...)
	} else {
		return []int{c.pool[r.Intn(6)]}
	}
	switch r.Intn(6) {
	case 0, 1:
		if len(p) < 4 {
			p = append(p, c.pool[r.Intn(6)])
		}
	case 2:
		p[len(p)-1] = c.pool[r.Intn(6)]
	case 3:
		if len(p) > 1 {
			p = p[:len(p)-1]
		}
	}
	return p
}

func randRuns(r *rand.Rand) []int {
	b := []byte{}
	nasty := []byte{0, 0, '\n', '\r', 0x1a, 0xff, 0xfe, 0xef, 0xbb, 0xbf, 0x80, 'a', ' '}
	switch r.Intn(8) {
	case 0:
	case 1: // any of them next to any other
		for i := r.Intn(30); i > 0; i-- {
			b = append(b, nasty[r.Intn(len(nasty))])
		}
	case 3:
		b = append([]byte{[]byte{0, '\n', 0xff, ' '}[r.Intn(4)]}, b...)
		for i := r.Intn(6); i > 0; i-- {
			b = append(b, b[0])
		}
	case 4:
		for i := r.Intn(300); i > 0; i-- {
			b = append(b, byte(r.Intn(256)))
		}
	case 5:
		n := []int{511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 1<<20 + 1}[r.Intn(14)]
		parts := 1 + r.Intn(4) // counting up from somewhere in each
		for i := 0; i < n; i++ {
			if i%(n/parts+1) == 0 {
				b = append(b, byte(r.Intn(256)))
				continue
			}
			b = append(b, b[i-1]+1)
		}
	case 2:
		b = []byte("zeile\nzeile\r\n\x00\xff\xfe世")
	default:
		for i := r.Intn(12); i > 0; i-- {
			b = append(b, byte(r.Intn(256)))
		}
	}
	// what some readers take for a mark and leave out
	marks := []string{"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "#!", "\x1f\x8b", "\r\n", "\x00", "\x1a"}
	if r.Intn(8) == 0 {
		b = append([]byte(marks[r.Intn(len(marks))]), b...)
	}
	if r.Intn(8) == 0 {
		b = append(b, marks[r.Intn(len(marks))]...)
	}
	return runs(b)
}

func (c *fsComp) Gen(r *rand.Rand, step, length int) Op {
	if step == 0 {
		c.pool = []int{1, 2, 3, 4, 5, 6}
		if r.Intn(2) == 0 { // stranger names
			for i, x := range r.Perm(len(fsNames) - 1)[:6] {
				c.pool[i] = 1 + x
			}
		}
		return Op{"new", []int{b2i(flagVariant == "async" || flagVariant == "both" && r.Intn(3) == 0)[0]}}
	}
	w := func(p []int) []int { return append([]int{len(p)}, p...) }
	p := c.somePath(r)
	if c.async && r.Intn(12) == 0 {
		name := 1 + r.Intn(len(fsNames)-1)
		_, there := c.nodes[fmt.Sprint([]int{name})]
		if root := c.nodes[fmt.Sprint([]int{})]; !there && root.mode&0o300 == 0o300 {
			if r.Intn(3) == 0 {
				return Op{"firedir", []int{1, name}}
			}
			return Op{"fire", append([]int{1, name}, randRuns(r)...)}
		}
	}
	switch k := r.Intn(20); k {
	case 0, 1, 2:
		return Op{"createdir", w(p)}
	case 3:
		return Op{"removedir", w(p)}
	case 4:
		return Op{"removefile", w(p)}
	case 5, 6, 7:
		return Op{"write", append(w(p), randRuns(r)...)}
	case 8, 9:
		return Op{[]string{"read", "readtostring"}[r.Intn(2)], w(p)}
	case 10, 11:
		if r.Intn(3) == 0 {
			p = nil
		}
		return Op{"readdir", w(p)}
	case 12, 13, 14:
		return Op{"copy", append(w(p), c.somePath(r)...)}
	case 15, 16:
		return Op{"rename", append(w(p), c.somePath(r)...)}
	case 17:
		if n, ok := c.nodes[fmt.Sprint(p)]; ok && n.kind != 2 && !c.behindLink(p) {
			bits := []int{0o644, 0o600, 0o444, 0o200, 0o755, 0o666}
			if n.kind == 0 {
				bits = []int{0o755, 0o700, 0o555, 0o355}
			}
			return Op{"chmod", append(w(p), bits[r.Intn(len(bits))])}
		}
	case 18:
		_, ok := c.nodes[fmt.Sprint(p)]
		up, dir := c.nodes[fmt.Sprint(p[:len(p)-1])]
		if !ok && dir && up.kind == 0 && up.mode&0o300 == 0o300 {
			to := []int{1 + r.Intn(6)}
			if r.Intn(3) == 0 {
				to = append(to, 1+r.Intn(6))
			}
			return Op{"symlink", append(w(p), to...)}
		}
	case 19:
		if b, err := os.ReadFile("/proc/sys/kernel/ostype"); err == nil && string(b) == "Linux\n" && r.Intn(4) == 0 {
			return Op{"readkernel", nil}
		}
	}
	return Op{"readdir", w(nil)}
}

func (c *fsComp) behindLink(p []int) bool {
	for i := 1; i < len(p); i++ {
		n, ok := c.nodes[fmt.Sprint(p[:i])]
		if !ok || n.kind != 0 || n.mode&0o100 == 0 {
			return true
		}
	}
	return false
}
