// Package vioutil models io/ioutil on the filesystem of package vos.
package vioutil

import (
	"io"
	"strconv"

	"github.com/bwesterb/go-xmssmt/internal/vstubs/vos"
)

var Discard = io.Discard

func ReadFile(path string) ([]byte, error) { return vos.ReadFile(path) }
func WriteFile(path string, data []byte, perm vos.FileMode) error {
	return vos.WriteFile(path, data, perm)
}
func ReadAll(r io.Reader) ([]byte, error) { return io.ReadAll(r) }

var counter int

func TempFile(dir, pattern string) (*vos.File, error) {
	if dir == "" {
		dir = "/v"
	}
	counter++
	return vos.OpenFile(dir+"/"+pattern+strconv.Itoa(counter), vos.O_RDWR|vos.O_CREATE|vos.O_EXCL, 0600)
}

func TempDir(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/v"
	}
	counter++
	return dir + "/" + pattern + strconv.Itoa(counter), nil
}
