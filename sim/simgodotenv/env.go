// Package simgodotenv is the .env file loader on the simulated file system and
// environment. The parser is the real one.
package simgodotenv

import (
	"io"
	"sort"

	"recengine/internal/zzsim/simos"

	"github.com/joho/godotenv"
)

func names(files []string) []string {
	if len(files) == 0 {
		return []string{".env"}
	}
	return files
}

func read(name string) (map[string]string, error) {
	f, err := simos.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return godotenv.Parse(f)
}

func load(files []string, overload bool) error {
	for _, name := range names(files) {
		m, err := read(name)
		if err != nil {
			return err
		}
		var keys []string
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if _, has := simos.LookupEnv(k); !has || overload {
				simos.Setenv(k, m[k])
			}
		}
	}
	return nil
}

// Load is godotenv.Load.
func Load(files ...string) error { return load(files, false) }

// Overload is godotenv.Overload.
func Overload(files ...string) error { return load(files, true) }

// Read is godotenv.Read.
func Read(files ...string) (map[string]string, error) {
	r := map[string]string{}
	for _, name := range names(files) {
		m, err := read(name)
		if err != nil {
			return nil, err
		}
		for k, v := range m {
			r[k] = v
		}
	}
	return r, nil
}

// Parse is godotenv.Parse.
func Parse(r io.Reader) (map[string]string, error) { return godotenv.Parse(r) }

// Unmarshal is godotenv.Unmarshal.
func Unmarshal(s string) (map[string]string, error) { return godotenv.Unmarshal(s) }

// Marshal is godotenv.Marshal.
func Marshal(m map[string]string) (string, error) { return godotenv.Marshal(m) }

// Write is godotenv.Write.
func Write(m map[string]string, name string) error {
	s, err := godotenv.Marshal(m)
	if err != nil {
		return err
	}
	return simos.WriteFile(name, []byte(s+"\n"), 0644)
}
