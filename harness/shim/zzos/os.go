// Package zzos replaces os for the code under check: the file system is a table in memory,
// so nothing on the machine is read or written.
package zzos

import (
	"io"
	"io/fs"
	real "os"
	"path/filepath"
	"strings"
	"time"

	"github.com/CAU-CPSS/logument/internal/zzvf"
)

// Node is a file or directory of the table.
type Node struct {
	Name string
	Dir  bool
	Data []byte
}

// Nodes is the file system: clean names; "." and "/" always exist.
var Nodes []*Node

// Reads and Writes record the names asked for, as given.
var Reads, Writes []string

func init() { zzvf.OnReset(func() { Nodes, Reads, Writes = nil, nil, nil }) }

// Put adds a file and its directories.
func Put(name string, data []byte) {
	name = filepath.Clean(name)
	MkdirAll(filepath.Dir(name), 0o755)
	Nodes = append(Nodes, &Node{Name: name, Data: data})
}

// walk goes along the directories of a name with "..", as the system does: each must exist.
func walk(name string) bool {
	if !strings.Contains(name, "..") {
		return true
	}
	for i := 1; i < len(name); i++ {
		if name[i] != '/' {
			continue
		}
		c := filepath.Clean(name[:i])
		ok := c == "." || c == "/" || c == ".."
		for _, n := range Nodes {
			if n.Dir && n.Name == c {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func find(name string) *Node {
	c := filepath.Clean(name)
	if !walk(name) {
		return nil
	}
	if c == "." || c == "/" {
		return &Node{Name: c, Dir: true}
	}
	for _, n := range Nodes {
		if n.Name == c {
			return n
		}
	}
	return nil
}

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func ReadFile(name string) ([]byte, error) {
	Reads = append(Reads, name)
	n := find(name)
	if n == nil {
		return nil, perr("open", name, fs.ErrNotExist)
	}
	if n.Dir {
		return nil, perr("read", name, fs.ErrInvalid)
	}
	return append([]byte{}, n.Data...), nil
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	Writes = append(Writes, name)
	n := find(name)
	if n == nil {
		c := filepath.Clean(name)
		d := find(filepath.Dir(c))
		if d == nil || !d.Dir {
			return perr("open", name, fs.ErrNotExist)
		}
		n = &Node{Name: c}
		Nodes = append(Nodes, n)
	}
	if n.Dir {
		return perr("open", name, fs.ErrInvalid)
	}
	n.Data = append([]byte{}, data...)
	return nil
}

type info struct{ n *Node }

func (i info) Name() string       { return filepath.Base(i.n.Name) }
func (i info) Size() int64        { return int64(len(i.n.Data)) }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) ModTime() time.Time { return time.Unix(0, 0) }
func (i info) Sys() any           { return nil }
func (i info) Mode() fs.FileMode {
	if i.n.Dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}

func Stat(name string) (fs.FileInfo, error) {
	n := find(name)
	if n == nil {
		return nil, perr("stat", name, fs.ErrNotExist)
	}
	return info{n}, nil
}

func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func MkdirAll(name string, perm fs.FileMode) error {
	c := filepath.Clean(name)
	if n := find(c); n != nil {
		if n.Dir {
			return nil
		}
		return perr("mkdir", name, fs.ErrExist)
	}
	if err := MkdirAll(filepath.Dir(c), perm); err != nil {
		return err
	}
	Nodes = append(Nodes, &Node{Name: c, Dir: true})
	return nil
}

func Mkdir(name string, perm fs.FileMode) error {
	c := filepath.Clean(name)
	if find(c) != nil {
		return perr("mkdir", name, fs.ErrExist)
	}
	if d := find(filepath.Dir(c)); d == nil || !d.Dir {
		return perr("mkdir", name, fs.ErrNotExist)
	}
	Nodes = append(Nodes, &Node{Name: c, Dir: true})
	return nil
}

func under(name, dir string) bool {
	return name == dir || len(name) > len(dir) && name[:len(dir)] == dir && name[len(dir)] == '/'
}

func RemoveAll(name string) error {
	c := filepath.Clean(name)
	var keep []*Node
	for _, n := range Nodes {
		if !under(n.Name, c) {
			keep = append(keep, n)
		}
	}
	Nodes = keep
	return nil
}

func Remove(name string) error {
	n := find(name)
	if n == nil {
		return perr("remove", name, fs.ErrNotExist)
	}
	for _, o := range Nodes {
		if o != n && under(o.Name, n.Name) {
			return perr("remove", name, fs.ErrInvalid)
		}
	}
	return RemoveAll(name)
}

func Rename(from, to string) error {
	n := find(from)
	if n == nil {
		return perr("rename", from, fs.ErrNotExist)
	}
	a, b := n.Name, filepath.Clean(to)
	RemoveAll(b)
	for _, o := range Nodes {
		if under(o.Name, a) {
			o.Name = b + o.Name[len(a):]
		}
	}
	return nil
}

func TempDir() string                 { return "/tmp" }
func Getwd() (string, error)          { return "/work", nil }
func Chmod(string, fs.FileMode) error { return nil }

func temp(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; ; i++ {
		c := filepath.Join(dir, pattern+string(rune('0'+i)))
		if find(c) == nil {
			return c
		}
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	c := temp(dir, pattern)
	return c, MkdirAll(c, 0o700)
}

func CreateTemp(dir, pattern string) (*File, error) {
	c := temp(dir, pattern)
	MkdirAll(filepath.Dir(c), 0o755)
	return Create(c)
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	n := find(name)
	if n == nil || !n.Dir {
		return nil, perr("open", name, fs.ErrNotExist)
	}
	var r []fs.DirEntry
	for _, o := range Nodes {
		if filepath.Dir(o.Name) == n.Name {
			r = append(r, fs.FileInfoToDirEntry(info{o}))
		}
	}
	for i := range r { // by name
		for j := i; j > 0 && r[j].Name() < r[j-1].Name(); j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r, nil
}

// File is an open file of the table.
type File struct {
	n   *Node
	pos int
}

var Stdin, Stdout, Stderr = &File{}, &File{}, &File{}

func Open(name string) (*File, error) {
	Reads = append(Reads, name)
	n := find(name)
	if n == nil {
		return nil, perr("open", name, fs.ErrNotExist)
	}
	return &File{n: n}, nil
}

func Create(name string) (*File, error) {
	if err := WriteFile(name, nil, 0o644); err != nil {
		return nil, err
	}
	return &File{n: find(name)}, nil
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	if find(name) == nil && flag&real.O_CREATE == 0 {
		return nil, perr("open", name, fs.ErrNotExist)
	}
	if find(name) == nil || flag&real.O_TRUNC != 0 {
		return Create(name)
	}
	f, err := Open(name)
	if err == nil && flag&real.O_APPEND != 0 {
		f.pos = len(f.n.Data)
	}
	return f, err
}

func (f *File) Name() string {
	if f.n == nil {
		return "std"
	}
	return f.n.Name
}

func (f *File) Read(b []byte) (int, error) {
	if f.n == nil || f.pos >= len(f.n.Data) {
		return 0, io.EOF
	}
	k := copy(b, f.n.Data[f.pos:])
	f.pos += k
	return k, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f.n == nil {
		return len(b), nil
	}
	data := append(append([]byte{}, f.n.Data[:f.pos]...), b...)
	if f.pos += len(b); f.pos < len(f.n.Data) { // what stands behind stays
		data = append(data, f.n.Data[f.pos:]...)
	}
	f.n.Data = data
	return len(b), nil
}

func (f *File) Truncate(size int64) error {
	data := append([]byte{}, f.n.Data...)
	for int64(len(data)) < size {
		data = append(data, 0)
	}
	f.n.Data = data[:size]
	return nil
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		offset += int64(f.pos)
	case io.SeekEnd:
		offset += int64(len(f.n.Data))
	}
	if offset < 0 || offset > int64(len(f.n.Data)) {
		return 0, perr("seek", f.n.Name, fs.ErrInvalid)
	}
	f.pos = int(offset)
	return offset, nil
}

func (f *File) Chmod(fs.FileMode) error { return nil }

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	all, err := ReadDir(f.n.Name)
	if err != nil {
		return nil, err
	}
	all = all[f.pos:]
	if n > 0 {
		if len(all) == 0 {
			return nil, io.EOF
		}
		all = all[:min(n, len(all))]
	}
	f.pos += len(all)
	return all, nil
}

func (f *File) Readdir(n int) (r []fs.FileInfo, err error) {
	all, err := f.ReadDir(n)
	for _, e := range all {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}

func (f *File) Readdirnames(n int) (r []string, err error) {
	all, err := f.ReadDir(n)
	for _, e := range all {
		r = append(r, e.Name())
	}
	return r, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Close() error                      { return nil }
func (f *File) Sync() error                       { return nil }
func (f *File) Stat() (fs.FileInfo, error)        { return info{f.n}, nil }

// Exit ends the program.
type Exited struct{ Code int }

func Exit(code int) { panic(Exited{code}) }

var (
	ErrClosed     = fs.ErrClosed
	ErrExist      = fs.ErrExist
	ErrInvalid    = fs.ErrInvalid
	ErrNotExist   = fs.ErrNotExist
	ErrPermission = fs.ErrPermission
)

func isErr(err, want error) bool {
	if e, ok := err.(*fs.PathError); ok {
		err = e.Err
	}
	return err == want
}

func IsExist(err error) bool      { return isErr(err, fs.ErrExist) }
func IsNotExist(err error) bool   { return isErr(err, fs.ErrNotExist) }
func IsPermission(err error) bool { return isErr(err, fs.ErrPermission) }
