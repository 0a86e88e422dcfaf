// Package spbkdf2 is a cheap stand-in for PBKDF2: a function of exactly the same inputs with a single
// iteration, so that simulated users can log in often. Its result depends on every input including the
// iteration count.
package spbkdf2

import (
	"encoding/binary"
	"hash"

	"golang.org/x/crypto/pbkdf2"
)

func Key(password, salt []byte, iter, keyLen int, h func() hash.Hash) []byte {
	s := make([]byte, 0, len(salt)+8)
	s = append(s, salt...)
	s = binary.BigEndian.AppendUint64(s, uint64(iter))
	return pbkdf2.Key(password, s, 1, keyLen, h)
}
