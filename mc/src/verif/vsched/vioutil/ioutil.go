// Package vioutil replaces io/ioutil's file functions by vos.
package vioutil

import (
	"io/fs"

	"verif/vsched/vos"
)

// ReadFile is ioutil.ReadFile.
func ReadFile(p string) ([]byte, error) { return vos.ReadFile(p) }

// WriteFile is ioutil.WriteFile.
func WriteFile(p string, d []byte, m fs.FileMode) error { return vos.WriteFile(p, d, m) }

// TempFile is ioutil.TempFile.
func TempFile(dir, pattern string) (*vos.File, error) { return vos.CreateTemp(dir, pattern) }

// TempDir is ioutil.TempDir.
func TempDir(dir, pattern string) (string, error) { return vos.MkdirTemp(dir, pattern) }

// ReadDir is ioutil.ReadDir.
func ReadDir(p string) ([]fs.FileInfo, error) {
	l, err := vos.ReadDir(p)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range l {
		fi, _ := e.Info()
		out = append(out, fi)
	}
	return out, nil
}
