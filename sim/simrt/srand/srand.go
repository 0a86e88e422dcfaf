// Package srand replaces crypto/rand in instrumented code.
package srand

import (
	"io"
	"math/big"

	crand "crypto/rand"

	"verifsim/simrt"
)

var Reader io.Reader = simrt.Reader{}

func Read(b []byte) (int, error) {
	return io.ReadFull(Reader, b)
}

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return crand.Int(r, max) }
func Prime(r io.Reader, bits int) (*big.Int, error)   { return crand.Prime(r, bits) }

func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	if _, err := Read(b); err != nil {
		panic(err)
	}
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}
