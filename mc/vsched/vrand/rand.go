// Package rand shadows crypto/rand.
package rand

import (
	"io"
	"math/big"

	"go.opencensus.io/internal/vsched"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) { vsched.Rand(b); return len(b), nil }

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, 16)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	return new(big.Int).Mod(new(big.Int).SetBytes(b), max), nil
}
func Text() string { b := make([]byte, 26); Read(b); for i := range b { b[i] = 'A' + b[i]%26 }; return string(b) }
