package main

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/tfs"
	nef "github.com/snivilised/nefilim"
)

// treeRoot is where harness trees are rooted.
const treeRoot = "root"

// ent is an entry of the harness file system: its own DirEntry and FileInfo.
type ent struct {
	w      *world
	name   string
	path   string
	key    string // position in the tree, for labels
	dir    bool
	kids   []*ent
	loaded bool
	parent *ent
	depth  int // root is 0
	id     int
}

func (e *ent) Name() string { return e.name }
func (e *ent) IsDir() bool  { return e.dir }

// Type of an entry that is not a directory is any of the others: nothing but
// being a directory makes a difference to a traversal.
func (e *ent) Type() fs.FileMode {
	if e.dir {
		return fs.ModeDir
	}
	return fs.FileMode(e.bits("type")) & (fs.ModeType &^ fs.ModeDir)
}

// bits are any number, the same one each time.
func (e *ent) bits(what string) int {
	if given(e.key) {
		return 0
	}
	e.w.attrsMu.Lock()
	defer e.w.attrsMu.Unlock()
	label := what + ":" + e.key
	v, ok := e.w.attrs[label]
	if !ok {
		v = sym.Int(label)
		e.w.attrs[label] = v
	}
	return v
}
func (e *ent) Info() (fs.FileInfo, error) {
	if e.infoFault() {
		return nil, e.w.fault("info")
	}
	return e, nil
}
func (e *ent) infoFault() bool    { return e.w.infoFaults && e.w.infoBad[e] }
func (e *ent) Size() int64        { return int64(e.bits("size")) }
func (e *ent) Mode() fs.FileMode  { return e.Type() | fs.FileMode(e.bits("mode"))&^fs.ModeType }
func (e *ent) ModTime() time.Time { return time.Unix(int64(e.bits("time"))>>8, 0) }
func (e *ent) Sys() any           { return nil }

var (
	errClient  = error(&oddErr{"client error"})
	errClient2 = error(&oddErr{"client error 2"})
	errWrite   = error(&oddErr{"write fault"})
	errSkipper = error(&oddErr{"skip handler error"})
)

// oddErr is an error that, for all that is known, is any of the errors of the
// standard library, if the code asks.
type oddErr struct{ text string }

var (
	oddMu      sync.Mutex
	oddAnswers = map[string]bool{}
)

func (e *oddErr) answer(question string) bool {
	oddMu.Lock()
	defer oddMu.Unlock()
	question = e.text + ":" + question
	a, ok := oddAnswers[question]
	if !ok {
		a = sym.ConcBool(sym.Bool(question))
		oddAnswers[question] = a
	}
	return a
}

func (e *oddErr) Error() string   { return e.text }
func (e *oddErr) Timeout() bool   { return e.answer("timeout") }
func (e *oddErr) Temporary() bool { return e.answer("temporary") }
func (e *oddErr) Is(target error) bool {
	switch target {
	case fs.ErrNotExist, fs.ErrExist, fs.ErrPermission, fs.ErrInvalid, fs.ErrClosed, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe,
		context.Canceled, context.DeadlineExceeded, os.ErrDeadlineExceeded, os.ErrProcessDone, errors.ErrUnsupported:
		return e.answer("is " + target.Error())
	}
	if n, ok := target.(syscall.Errno); ok {
		return e.answer("is " + strconv.Itoa(int(n)))
	}
	return false
}

// fault is the error of the file system for failing operations of a kind, the
// same each time: one of the harness's own, or one of the well-known ones.
func (w *world) fault(kind string) error {
	if err, ok := w.faults[kind]; ok {
		return err
	}
	var err error
	switch sym.Pick("fault:"+kind, 3) {
	case 0:
		err = &oddErr{kind + " fault"}
	case 1:
		err = &fs.PathError{Op: kind, Path: "x", Err: fs.ErrNotExist}
	case 2:
		err = &fs.PathError{Op: kind, Path: "x", Err: fs.ErrPermission}
	}
	w.faults[kind] = err
	return err
}

// world is a lazily materialised symbolic directory tree with fault injection.
type world struct {
	root     *ent
	maxKids  int
	maxDepth int // entries deeper than this are never directories
	wide     int // entries that come before the symbolic ones of a directory
	deep     int // directories that come between the root and the symbolic entries
	budget   int // entries that may still be created
	count    int
	// naming
	names  []string
	nameFn func(w *world, parent *ent, i int) string
	kindFn func(k *ent, i int) bool
	// faults
	faults     map[string]error
	readFaults bool
	readBad    map[*ent]bool
	infoFaults bool
	infoBad    map[*ent]bool
	statBad    bool
	// bookkeeping
	opens     map[string]int
	reads     []string
	written   map[string][]byte
	dirs      map[string]bool
	modes     map[string]os.FileMode
	writeOK   bool
	mkOK      bool
	reverse   bool
	rel       bool
	all       []*ent
	decisions map[string]bool
	choices   map[string]int
	attrsMu   sync.Mutex
	attrs     map[string]int
}

func newWorld(maxKids, maxDepth, budget int) *world {
	oddMu.Lock()
	oddAnswers = map[string]bool{}
	oddMu.Unlock()
	w := &world{maxKids: maxKids, maxDepth: maxDepth, budget: budget,
		readBad: map[*ent]bool{}, infoBad: map[*ent]bool{}, faults: map[string]error{}, opens: map[string]int{},
		written: map[string][]byte{}, dirs: map[string]bool{}, modes: map[string]os.FileMode{}, writeOK: true, mkOK: true, rel: true,
		decisions: map[string]bool{}, choices: map[string]int{}, attrs: map[string]int{}}
	w.wide, w.deep = sym.Param("wide", 0), sym.Param("deep", 0)
	w.names = letters
	if sym.Param("themes", 0) != 0 && w.wide == 0 {
		w.names = themes[sym.Pick("theme", len(themes))]
	}
	w.root = &ent{w: w, name: treeRoot, path: treeRoot, key: "r", dir: true}
	w.all = append(w.all, w.root)
	if sym.Param("texts", 0) != 0 {
		t := treeTexts[sym.Pick("tree text", len(treeTexts))]
		w.root.path = t
		if i := strings.LastIndexByte(t, '/'); i >= 0 && len(t) > 1 {
			t = t[i+1:]
		}
		w.root.name = t
	}
	return w
}

// treeTexts are the paths of trees.
var treeTexts = []string{"top/my root", ".", "/", "/t\u00f6p/.root", "$r", "0", "./root", "top//root"}

var letters = []string{"a", "b", "c", "d", "e", "f", "g", "h"}

// themes are names as they occur, in the order of navigation.
var themes = [][]string{
	letters,
	{".git", "A b", "root", "z.txt"},
	{"-", "10000", "node_modules", "\u00e9~"},
	{"$HOME", "\xff", "\xff."},
	{"A", "a", "B", "b"},
}

// children materialises e's entries on first use.
func (w *world) children(e *ent) []*ent {
	if e.loaded || !e.dir {
		return e.kids
	}
	e.loaded = true
	if e.depth < w.deep {
		w.add(e, "^"+strconv.Itoa(e.depth), "0d", true)
		return e.kids
	}
	if e.depth == w.deep {
		for i := 0; i < w.wide; i++ {
			n := strconv.Itoa(10000 + i)
			k := w.add(e, "~"+n, n, i%3 == 1)
			k.loaded = true
		}
	}
	max := w.maxKids
	if max > w.budget {
		max = w.budget
	}
	n := 0
	if max > 0 {
		n = sym.Pick("n:"+e.key, max+1)
	}
	w.budget -= n
	for i := 0; i < n; i++ {
		name := w.names[min(i, len(w.names)-1)]
		if i >= len(w.names) {
			name += letters[i]
		}
		if w.nameFn != nil {
			name = w.nameFn(w, e, i)
		}
		k := w.add(e, e.key+letters[i], name, false)
		if w.kindFn != nil {
			k.dir = w.kindFn(k, i)
		} else if k.depth-w.deep <= w.maxDepth {
			k.dir = sym.ConcBool(sym.Bool("d:" + k.key))
		}
		if w.infoFaults {
			w.infoBad[k] = sym.Bool("if:" + k.key)
		}
	}
	if w.readFaults {
		w.readBad[e] = sym.ConcBool(sym.Bool("rf:" + e.key))
	}
	return e.kids
}

// add makes a new entry of directory e.
func (w *world) add(e *ent, key, name string, dir bool) *ent {
	k := &ent{w: w, parent: e, depth: e.depth + 1, key: key, name: name, dir: dir}
	switch {
	case filepath.Clean(e.path) == ".":
		k.path = k.name
	case e.path != filepath.Clean(e.path):
		k.path = filepath.Clean(e.path) + "/" + k.name
	case strings.HasSuffix(e.path, "/"):
		k.path = e.path + k.name
	default:
		k.path = e.path + "/" + k.name
	}
	w.count++
	k.id = w.count
	e.kids = append(e.kids, k)
	w.all = append(w.all, k)
	return k
}

// given tells whether what happens at the entry with this key, or with a label
// that has it, is not a matter of choice: it makes up the size of the tree.
func given(key string) bool { return strings.ContainsAny(key, "~^") }

// materialise builds the whole tree up front.
func (w *world) materialise() {
	for i := 0; i < len(w.all); i++ {
		w.children(w.all[i])
	}
}

func trimSep(p string) string {
	if p == "" {
		return p
	}
	return filepath.Clean(p)
}

func (w *world) find(path string) *ent {
	// neither a trailing separator nor the like makes a difference
	path = trimSep(path)
	for _, e := range w.all {
		if trimSep(e.path) == path {
			return e
		}
	}
	return nil
}

// ---- tfs.TraversalFS over the world

type forestFS struct{ w *world }

var _ tfs.TraversalFS = (*forestFS)(nil)

func (f *forestFS) Calc() nef.PathCalc {
	if f.w.rel {
		return &nef.RelativeCalc{Root: treeRoot}
	}
	return &nef.AbsoluteCalc{}
}
func (f *forestFS) IsRelative() bool { return f.w.rel }

func (f *forestFS) FileExists(name string) bool {
	if _, ok := f.w.written[name]; ok {
		return true
	}
	e := f.w.find(name)
	return e != nil && !e.dir
}

func (f *forestFS) DirectoryExists(name string) bool {
	if f.w.dirs[filepath.Clean(name)] {
		return true
	}
	e := f.w.find(name)
	return e != nil && e.dir
}

func (f *forestFS) MakeDir(name string, perm os.FileMode) error { return f.MakeDirAll(name, perm) }

func (f *forestFS) MakeDirAll(name string, perm os.FileMode) error {
	if !f.w.mkOK {
		return errWrite
	}
	f.w.dirs[filepath.Clean(name)] = true
	f.w.modes[filepath.Clean(name)] = perm
	return nil
}

func (f *forestFS) Ensure(as nef.PathAs) (string, error) {
	if err := f.MakeDirAll(as.Name, as.Perm); err != nil {
		return "", err
	}
	return as.Name, nil
}

func (f *forestFS) Open(name string) (fs.File, error) {
	return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
}

func (f *forestFS) Stat(name string) (fs.FileInfo, error) {
	if f.w.statBad {
		return nil, f.w.fault("stat")
	}
	e := f.w.find(name)
	if e == nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	return e, nil
}

func (f *forestFS) ReadDir(name string) ([]fs.DirEntry, error) {
	e := f.w.find(name)
	f.w.reads = append(f.w.reads, name)
	if e == nil || !e.dir {
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: fs.ErrNotExist}
	}
	kids := f.w.children(e)
	if f.w.readBad[e] {
		return nil, f.w.fault("read")
	}
	out := make([]fs.DirEntry, 0, len(kids))
	for i := range kids {
		if f.w.reverse {
			out = append(out, kids[len(kids)-1-i])
		} else {
			out = append(out, kids[i])
		}
	}
	return out, nil
}

func (f *forestFS) ReadFile(name string) ([]byte, error) {
	if b, ok := f.w.written[name]; ok {
		return b, nil
	}
	return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
}

func (f *forestFS) Create(name string) (fs.File, error) {
	return nil, errWrite
}

func (f *forestFS) WriteFile(name string, data []byte, perm os.FileMode) error {
	if !f.w.writeOK {
		return errWrite
	}
	f.w.written[name] = data
	f.w.modes[name] = perm
	return nil
}

func (w *world) forest() func(string) *core.Forest {
	return func(string) *core.Forest {
		f := &forestFS{w}
		return &core.Forest{T: f, R: f}
	}
}

func base(p string) string {
	if i := strings.LastIndex(p, "/"); i >= 0 {
		return p[i+1:]
	}
	return p
}
