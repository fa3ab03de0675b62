// Package simcrand stands for crypto/rand.
package simcrand

import (
	"encoding/base32"
	"math/big"

	"recengine/internal/zzsim/rt"
)

// Read is rand.Read.
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(rt.Random() >> 23)
	}
	return len(p), nil
}

type reader struct{}

func (reader) Read(p []byte) (int, error) { return Read(p) }

// Reader is rand.Reader.
var Reader = reader{}

// Int is rand.Int.
func Int(_ interface{ Read([]byte) (int, error) }, max *big.Int) (*big.Int, error) {
	b := make([]byte, len(max.Bytes())+8)
	Read(b)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), max), nil
}

// Text is rand.Text.
func Text() string {
	b := make([]byte, 17)
	Read(b)
	return base32.StdEncoding.EncodeToString(b)[:26]
}
