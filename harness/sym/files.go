package sym

import (
	"bytes"
	"embed"
	"errors"
	"flag"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// File is a file of the working directory.
type File struct {
	Name string
	Data []byte
}

var (
	files   []File
	opened  []openFile
	stdout  string
	scratch string
)

type openFile struct {
	f *os.File
	m *memFile
}

// Files makes the working directory one that holds exactly the files given.
// Native runs use a scratch directory; the engine redirects the functions of
// package os that the repository uses to the ones below.
func Files(fs ...File) {
	files, opened = fs, nil
	place(fs)
}

// place is nothing to the engine.
func place(fs []File) {
	Clean()
	d, err := os.MkdirTemp("", "verif-files-")
	if err != nil {
		panic(Stop{"error", err.Error()})
	}
	scratch = d
	for _, f := range fs {
		p := filepath.Join(d, f.Name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, f.Data, 0o644); err != nil {
			panic(Stop{"error", err.Error()})
		}
	}
	if err := os.Chdir(d); err != nil {
		panic(Stop{"error", err.Error()})
	}
}

// Clean removes the scratch directory.
func Clean() {
	if scratch != "" && strings.Contains(scratch, "verif-files-") {
		os.Chdir("/")
		os.RemoveAll(scratch)
		scratch = ""
	}
}

// ---- what the engine uses instead of package os ----

type memFile struct {
	name string
	data []byte
	pos  int
}

var errNoFile = errors.New("file does not exist")

func find(name string) (*memFile, error) {
	for _, f := range files {
		if f.Name == name {
			return &memFile{name: name, data: f.Data}, nil
		}
	}
	return nil, &fs.PathError{Op: "open", Path: name, Err: errNoFile}
}

func (f *memFile) Read(b []byte) (int, error) {
	if f.pos >= len(f.data) && len(b) > 0 {
		return 0, io.EOF
	}
	n := copy(b, f.data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *memFile) Close() error { return nil }

func (f *memFile) Stat() (fs.FileInfo, error) { return memInfo{f}, nil }

type memInfo struct{ f *memFile }

func (i memInfo) Name() string       { return i.f.name }
func (i memInfo) Size() int64        { return int64(len(i.f.data)) }
func (i memInfo) Mode() fs.FileMode  { return 0o644 }
func (i memInfo) ModTime() time.Time { return time.Time{} }
func (i memInfo) IsDir() bool        { return false }
func (i memInfo) Sys() interface{}   { return nil }

type memDir string

func (d memDir) path(name string) string {
	if p := strings.TrimPrefix(string(d), "./"); p != "." && p != "" {
		return p + "/" + name
	}
	return name
}

func (d memDir) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: errors.New("invalid argument")}
	}
	f, err := find(d.path(name))
	if err != nil {
		return nil, err
	}
	return f, nil
}

func (d memDir) ReadFile(name string) ([]byte, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "readfile", Path: name, Err: errors.New("invalid argument")}
	}
	return osReadFile(d.path(name))
}

func osDirFS(dir string) fs.FS { return memDir(dir) }

func osReadFile(name string) ([]byte, error) {
	f, err := find(strings.TrimPrefix(name, "./"))
	if err != nil {
		return nil, err
	}
	return append([]byte(nil), f.data...), nil
}

func osOpen(name string) (*os.File, error) {
	m, err := find(strings.TrimPrefix(name, "./"))
	if err != nil {
		return nil, err
	}
	f := new(os.File)
	opened = append(opened, openFile{f, m})
	return f, nil
}

func mem(f *os.File) *memFile {
	for _, o := range opened {
		if o.f == f {
			return o.m
		}
	}
	return nil
}

func fileRead(f *os.File, b []byte) (int, error) {
	m := mem(f)
	if m == nil {
		return 0, errNoFile
	}
	return m.Read(b)
}

func fileClose(f *os.File) error { return nil }

func fileStat(f *os.File) (fs.FileInfo, error) {
	m := mem(f)
	if m == nil {
		return nil, errNoFile
	}
	return m.Stat()
}

func fileWrite(f *os.File, b []byte) (int, error) {
	if f == os.Stdout {
		stdout += string(b)
	}
	return len(b), nil
}

func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

func fmtPrintln(a ...interface{}) (int, error) {
	stdout += fmt.Sprintln(a...)
	return 0, nil
}

func fmtPrint(a ...interface{}) (int, error) {
	stdout += fmt.Sprint(a...)
	return 0, nil
}

func fmtPrintf(format string, a ...interface{}) (int, error) {
	stdout += fmt.Sprintf(format, a...)
	return 0, nil
}

func timeNow() time.Time { return time.Time{} }

func timeSince(t time.Time) time.Duration { return time.Second }

type exited int

func osExit(code int) { panic(exited(code)) }

// ---- commands ----

// mainOf is the command's main function in the engine.
func mainOf() { panic("only in the engine") }

// native tells whether this is a native run; the engine makes it false.
func native() bool { return true }

// Command runs the command gimiq in the working directory: what it prints on
// standard output, and whether it ends without failure.
func Command(args ...string) (out string, ok bool) {
	if native() {
		cmd := exec.Command(os.Getenv("GIMIQ_BIN"), args...)
		var b bytes.Buffer
		cmd.Stdout = &b
		err := cmd.Run()
		if _, bad := err.(*exec.ExitError); err != nil && !bad {
			panic(Stop{"error", err.Error()})
		}
		return b.String(), err == nil
	}
	stdout = ""
	os.Stdout, os.Stderr = new(os.File), new(os.File)
	os.Args = append([]string{"gimiq"}, args...)
	flag.CommandLine = flag.NewFlagSet("gimiq", flag.PanicOnError)
	defer func() {
		if r := recover(); r != nil {
			code, exit := r.(exited)
			out, ok = stdout, exit && code == 0
		}
	}()
	mainOf()
	return stdout, true
}

// ---- embedded files ----

// Embedded is the content of a file that package genesis embeds.
func Embedded(name string) []byte {
	if !native() {
		b, ok := embedData(name)
		if !ok {
			panic(Stop{"assume", ""})
		}
		return []byte(b)
	}
	dir := os.Getenv("GENESIS_DIR")
	if dir == "" {
		dir = "/repo/genesis"
	}
	b, err := os.ReadFile(filepath.Join(dir, name))
	if err != nil {
		panic(Stop{"assume", ""})
	}
	return b
}

// embedData is provided by the engine.
func embedData(name string) (string, bool) { return "", false }

func embedReadFile(f embed.FS, name string) ([]byte, error) {
	b, ok := embedData(name)
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: errNoFile}
	}
	return []byte(b), nil
}

func embedOpen(f embed.FS, name string) (fs.File, error) {
	b, err := embedReadFile(f, name)
	if err != nil {
		return nil, err
	}
	return &memFile{name: name, data: b}, nil
}
