package zzmodels

import (
	"io"
	"os"
	"path/filepath"
)

// Ghost file system: an arbitrary initial content (a function of the path) plus a log of changes.
type FSEnt struct {
	Path, Data string
	Present    bool
}
type FSErr struct{ NotExist bool }

func (e *FSErr) Error() string { return "" }

type openFile struct {
	F      *os.File
	Path   string
	Closed bool
}

var (
	GhostFS      []FSEnt
	GhostFSFails bool
	GhostTorn    []string // files that were, at some moment, neither in their old nor their new state
	GhostOpen    []openFile
)

func fsGet(path string) (string, bool) {
	for i := len(GhostFS) - 1; i >= 0; i-- {
		if GhostFS[i].Path == path {
			return GhostFS[i].Data, GhostFS[i].Present
		}
	}
	return UFBytes("fs_data", -1, path), UFBool("fs_present", path)
}
func fsPut(path, data string, present bool) {
	GhostFS = append(GhostFS, FSEnt{path, data, present})
}
func fsFail() bool { return GhostFSFails && NondetBool() }

func os_ReadFile(path string) ([]byte, error) {
	if fsFail() {
		return nil, &FSErr{}
	}
	d, ok := fsGet(path)
	if !ok {
		return nil, &FSErr{NotExist: true}
	}
	return []byte(d), nil
}
func io_ioutil_ReadFile(path string) ([]byte, error) { return os_ReadFile(path) }
func os_WriteFile(path string, b []byte, perm os.FileMode) error {
	_, was := fsGet(path)
	if was {
		GhostTorn = append(GhostTorn, path)
	}
	if fsFail() {
		fsPut(path, NondetBytes(-1), true)
		return &FSErr{}
	}
	fsPut(path, string(b), true)
	return nil
}
func io_ioutil_WriteFile(path string, b []byte, perm os.FileMode) error {
	return os_WriteFile(path, b, perm)
}
func os_Stat(path string) (os.FileInfo, error) {
	if fsFail() {
		return nil, &FSErr{}
	}
	_, ok := fsGet(path)
	if !ok {
		return nil, &FSErr{NotExist: true}
	}
	return &FileInfo{}, nil
}
func os_Lstat(path string) (os.FileInfo, error) { return os_Stat(path) }
func os_IsNotExist(err error) bool {
	if e, ok := err.(*FSErr); ok {
		return e.NotExist
	}
	return false
}
func os_Remove(path string) error {
	if fsFail() {
		return &FSErr{}
	}
	_, ok := fsGet(path)
	if !ok {
		return &FSErr{NotExist: true}
	}
	GhostTorn = append(GhostTorn, path)
	fsPut(path, "", false)
	return nil
}
func os_Rename(from, to string) error {
	if fsFail() {
		return &FSErr{}
	}
	d, ok := fsGet(from)
	if !ok {
		return &FSErr{NotExist: true}
	}
	GhostTorn = append(GhostTorn, from)
	fsPut(from, "", false)
	fsPut(to, d, true)
	for i := range GhostOpen {
		if GhostOpen[i].Path == from {
			GhostOpen[i].Path = to
		}
	}
	return nil
}
func os_MkdirAll(path string, perm os.FileMode) error {
	if fsFail() {
		return &FSErr{}
	}
	return nil
}

// a new file no one else has
func io_ioutil_TempFile(dir, pattern string) (*os.File, error) {
	if fsFail() {
		return nil, &FSErr{}
	}
	base := NondetBytes(-1)
	Assume(NoSlash(base) && base != "")
	name := dir + "/" + base
	_, was := fsGet(name)
	Assume(!was)
	fsPut(name, "", true)
	f := new(os.File)
	GhostOpen = append(GhostOpen, openFile{f, name, false})
	return f, nil
}
func os_CreateTemp(dir, pattern string) (*os.File, error) { return io_ioutil_TempFile(dir, pattern) }
func os_Create(path string) (*os.File, error) {
	_, was := fsGet(path)
	if fsFail() {
		return nil, &FSErr{}
	}
	if was {
		GhostTorn = append(GhostTorn, path)
	}
	fsPut(path, "", true)
	f := new(os.File)
	GhostOpen = append(GhostOpen, openFile{f, path, false})
	return f, nil
}
func os_OpenFile(path string, flag int, perm os.FileMode) (*os.File, error) { return os_Create(path) }
func fileOf(f *os.File) int {
	for i := range GhostOpen {
		if GhostOpen[i].F == f {
			return i
		}
	}
	return -1
}
func os_File_Write(f *os.File, b []byte) (int, error) {
	i := fileOf(f)
	PanicIf("file not opened here", i < 0)
	d, _ := fsGet(GhostOpen[i].Path)
	GhostTorn = append(GhostTorn, GhostOpen[i].Path)
	if fsFail() {
		fsPut(GhostOpen[i].Path, d+NondetBytes(-1), true)
		return 0, &FSErr{}
	}
	if GhostOpen[i].Closed {
		return 0, &FSErr{}
	}
	fsPut(GhostOpen[i].Path, d+string(b), true)
	return len(b), nil
}
func os_File_Sync(f *os.File) error {
	if fsFail() {
		return &FSErr{}
	}
	return nil
}
func os_File_Chmod(f *os.File, m os.FileMode) error { return os_File_Sync(f) }
func os_Chmod(p string, m os.FileMode) error        { return nil }
func os_File_Close(f *os.File) error {
	i := fileOf(f)
	PanicIf("file not opened here", i < 0)
	GhostOpen[i].Closed = true
	if fsFail() {
		return &FSErr{}
	}
	return nil
}
func os_File_WriteString(f *os.File, s string) (int, error) { return os_File_Write(f, []byte(s)) }
func os_Truncate(path string, n int64) error {
	GhostTorn = append(GhostTorn, path)
	fsPut(path, NondetBytes(-1), true)
	return mayErr()
}
func os_File_Name(f *os.File) string {
	i := fileOf(f)
	PanicIf("file not opened here", i < 0)
	return GhostOpen[i].Path
}

type FileInfo struct {
	os.FileInfo
	Dir bool
}

func (f *FileInfo) IsDir() bool { return f.Dir }

// ---- path/filepath, on clean absolute paths ----

func clean(p string) bool { return UFBool("path_clean", p) }
func path_filepath_Join(elem ...string) string {
	r := elem[0]
	for _, e := range elem[1:] {
		if NoSlash(e) && e != "" && e != "." && e != ".." && clean(r) {
			r = r + "/" + e
			Assume(clean(r) && r != "")
		} else {
			r = UFBytes("path_join", -1, r, e)
		}
	}
	return r
}

// the directory part of dir + "/" + name
func path_filepath_Dir(p string) string {
	d, _ := path_filepath_Split(p)
	if len(d) > 0 {
		d = d[:len(d)-1]
	}
	return d
}
func path_filepath_Base(p string) string {
	_, f := path_filepath_Split(p)
	return f
}
func path_filepath_Split(p string) (string, string) {
	n := LastSlash(p)
	return p[:n+1], p[n+1:]
}
func net_url_PathEscape(s string) string { return UFBytes("pathescape", -1, s) }

// ---- numbers ----

func strconv_Itoa(n int) string { return Sprintf("%d", []interface{}{n}) }
func strconv_Atoi(s string) (int, error) {
	n, ok := ParseDec(s)
	if !ok || n < -1<<63 || n > 1<<63-1 {
		return 0, &Err{}
	}
	return n, nil
}
func strconv_ParseUint(s string, base, bits int) (uint64, error) {
	n, ok := ParseDec(s)
	if !ok || n < 0 || bits == 32 && n > 1<<32-1 {
		return 0, &Err{}
	}
	return uint64(n), nil
}
func strconv_ParseInt(s string, base, bits int) (int64, error) {
	n, ok := ParseDec(s)
	if !ok || n < -1<<63 || n > 1<<63-1 {
		return 0, &Err{}
	}
	return int64(n), nil
}
func fmt_Sscanf(s, format string, a ...interface{}) (int, error) {
	if format == "%d" && len(a) == 1 {
		if p, ok := a[0].(*uint32); ok {
			n, isNum := ParseDec(s)
			if !isNum || n < 0 || n > 1<<32-1 {
				return 0, &Err{}
			}
			*p = uint32(n)
			return 1, nil
		}
	}
	for _, x := range a {
		HavocArg(x)
	}
	return 0, mayErr()
}

// ---- contract vocabulary ----

func zzspec_TempDir() string {
	d := NondetBytes(-1)
	Assume(clean(d) && d != "")
	return d
}
func zzspec_MkdirAll(path string) {}
func zzspec_FSMayFail()           { GhostFSFails = true }
func zzspec_WatchFile(path string) {
	GhostTorn = nil
}
func zzspec_Torn(path string) bool {
	for i := range GhostTorn {
		if GhostTorn[i] == path {
			return true
		}
	}
	return false
}
func zzspec_File(path string) (string, bool) {
	d, ok := fsGet(path)
	if !ok {
		return "", false
	}
	return d, true
}
func zzspec_PutFile(path string, b []byte) { fsPut(path, string(b), true) }

var _ = filepath.Join
var _ io.Reader
