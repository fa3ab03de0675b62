// Package simioutil redirects io/ioutil to the simulated file system.
package simioutil

import (
	"os"

	"recengine/internal/zzsim/simos"
)

func ReadFile(name string) ([]byte, error) { return simos.ReadFile(name) }
func WriteFile(name string, data []byte, perm os.FileMode) error {
	return simos.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*simos.File, error) { return simos.CreateTemp(dir, pattern) }
