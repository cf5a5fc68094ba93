package zzspec

import (
	"encoding/binary"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	log "github.com/sirupsen/logrus"
)

var tempDirs []string

func init() {
	log.SetOutput(io.Discard)
	log.StandardLogger().ExitFunc = func(int) { panic("log.Fatal: the process ends") }
}

// TempDir is a storage directory of the contract's own with arbitrary content.
func TempDir() string {
	d, err := os.MkdirTemp("", "zz")
	if err != nil {
		panic(err)
	}
	tempDirs = append(tempDirs, d)
	return d
}

func resetFS() {
	for _, d := range tempDirs {
		os.RemoveAll(d)
	}
	tempDirs = nil
	for _, w := range watches {
		syscall.Close(w.fd)
	}
	watches = nil
}

func MkdirAll(path string) { os.MkdirAll(path, 0o700) }

// FSMayFail: file system operations may fail from here on (verifier only).
func FSMayFail() {}

// WatchFile: from here on the file is watched, see Torn. At run time by inotify (the verifier sees every step of
// every file anyhow).
func WatchFile(path string) {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return
	}
	if _, err = syscall.InotifyAddWatch(fd, filepath.Dir(path), syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_MODIFY|syscall.IN_MOVED_FROM); err != nil {
		syscall.Close(fd)
		return
	}
	watches = append(watches, &watch{fd: fd, dir: filepath.Dir(path), torn: map[string]bool{}})
}

type watch struct {
	fd   int
	dir  string
	torn map[string]bool
}

var watches []*watch

// Torn: the watched file was, at some moment, neither in its old nor its new state: it was written to, removed
// or moved away, and not only replaced.
func Torn(path string) bool {
	for _, w := range watches {
		buf := make([]byte, 1<<16)
		for {
			n, err := syscall.Read(w.fd, buf)
			if err != nil || n <= 0 {
				break
			}
			for i := 0; i+16 <= n; {
				l := int(binary.LittleEndian.Uint32(buf[i+12:]))
				w.torn[strings.TrimRight(string(buf[i+16:i+16+l]), "\x00")] = true
				i += 16 + l
			}
		}
		if w.dir == filepath.Dir(path) && w.torn[filepath.Base(path)] {
			return true
		}
	}
	return false
}

// File is the content of a file, if it exists.
func File(path string) (string, bool) {
	b, err := os.ReadFile(path)
	return string(b), err == nil
}

// PutFile sets the content of a file.
func PutFile(path string, b []byte) {
	if err := os.WriteFile(path, b, 0o600); err != nil {
		panic(err)
	}
}
