// Package sioutil replaces the parts of io/ioutil that touch the disk.
package sioutil

import (
	"os"

	"zkverif/simio/sos"
)

func ReadFile(name string) ([]byte, error) { return sos.ReadFile(name) }

func WriteFile(name string, data []byte, perm os.FileMode) error {
	return sos.WriteFile(name, data, perm)
}

func TempFile(dir, pattern string) (*sos.File, error) { return sos.CreateTemp(dir, pattern) }
