package main

import (
	"encoding/hex"
	"sort"
	"strings"
	"unicode/utf8"

	"verifsim/simrt"
)

// namePool holds texts used as group names, keywords and identifiers.
var namePool = []string{
	"alpha", "alph", "alpha ", " alpha", "Alpha", "alpha\x00", "alpha\x00b", "",
	"a", "a/b", "a:b", "a\"b", "a\\b", "a\\\"b", "<a&b>", "a'b", "{\"Groups\":{}}", "[]", "null", "0",
	"\u2028", "a\u2028b\u2029", "é", "e\u0301", "ß", "SS", "😀", "😀😀", "\U0010ffff", "\ufffd", "\ufeffbom",
	"\t\n\r", "\x00", "\x00\x00", "\x7f", "\x01\x02\x03", "beta", "gamma", "delta", "omega",
	"00000000-0000-0000-0000-000000000000", "very-" + strings.Repeat("long-", 60), strings.Repeat("x", 5000),
	"group/1", "group/10", "group/2", "日本語", "İi", "\u202egnp", "%s%d", "a=b&c", "../../x", "x\u0000\ufffd", "1e5",
}

// badNames and up are texts that are not valid UTF-8.
const badNames = 9000

// wildNames and up are texts that stand for others elsewhere.
const wildNames = 8000

// longNames and up are long texts of which some differ in their last byte alone.
const longNames = 8200

// name returns entry i; beyond the static ones names are made up deterministically.
func name(i int) string {
	if i < 0 {
		i = -i
	}
	if i < len(namePool) {
		return namePool[i]
	}
	if i >= wildNames && i < wildNames+100 {
		return []string{"*", "%", "?", ".*", "a*", "alph_", "alpha,alph", "^alpha$"}[(i-wildNames)%8]
	}
	if i >= longNames && i < longNames+100 {
		n := []int{255, 256, 1000, 4096, 8191, 8192, 16384, 32768, 65535, 65536, 65537, 100000}[(i-longNames)%12]
		return strings.Repeat("long-name-", n/10+1)[:n-1] + string(rune('a'+(i-longNames)/12%3))
	}
	if i >= badNames {
		// Not valid UTF-8.
		return []string{"\xff", "a\xc3", "\xed\xa0\x80"}[i%3]
	}
	r := simrt.NewRng(uint64(i))
	switch i % 5 {
	case 0: // many short ones
		return string(rune('a'+i%26)) + hex.EncodeToString([]byte{byte(i), byte(i >> 8)})
	case 1: // random unicode
		var b strings.Builder
		for n := 1 + r.N(12); n > 0; n-- {
			c := rune(r.N(0x3000))
			if r.P(20) {
				c = rune(0x10000 + r.N(0x10000))
			}
			b.WriteRune(c)
		}
		return b.String()
	case 2: // repeated to cross block boundaries
		return strings.Repeat(string(rune('a'+i%26)), 120+r.N(40))
	case 3:
		return namePool[i%len(namePool)] + "\x00" + namePool[(i/7)%len(namePool)]
	}
	return "name-" + hex.EncodeToString([]byte{byte(i), byte(i >> 8), byte(i >> 16)})
}

// related is a text close to another one.
func related(t string, r *simrt.Rng) string {
	switch r.N(12) {
	case 10, 11: // what reading it as UTF-8 leaves
		return strings.ToValidUTF8(t, []string{"?", "\ufffd", ""}[r.N(3)])
	case 0:
		return t + "\x00"
	case 1:
		return t + " "
	case 2:
		return strings.ToUpper(t)
	case 3:
		return strings.ToLower(t)
	case 4:
		return t + t
	case 5:
		return strings.TrimSpace(t)
	case 6, 7: // differs behind a long common beginning
		n := []int{16, 32, 64, 128, 136, 168, 256, 512, 1024, 4096, 8192, 65536}[r.N(12)]
		return (t + strings.Repeat("-", n))[:n] + string(rune('a'+r.N(26)))
	case 8: // cut off
		for i := range t {
			if i > len(t)/2 {
				return t[:i]
			}
		}
		return "-" + t
	}
	return "x" + t
}

// nearID is an ID or a pattern that looks like one.
func nearID(t string, k int) string {
	n := len(t) * (k / 8 % 4) / 4
	for n > 0 && !utf8.RuneStart(t[n]) {
		n--
	}
	switch k % 8 {
	case 0:
		return t[:n] + "*"
	case 1:
		return t[:n] + "%"
	case 2:
		return t[:n]
	case 3:
		return t + string(rune('0'+n%10))
	case 4:
		return strings.ToUpper(t)
	case 5:
		return t + "," + t
	case 6:
		return " " + t
	}
	return t + "\x00"
}

// secretName is a long unique text without special characters, recognisable when it leaks.
func secretName(seed uint64, kind string, i int) string {
	b := make([]byte, 12)
	simrt.NewStream(simrt.Mix64(seed, uint64(len(kind))*7919+uint64(kind[0]), uint64(i))).Read(b)
	const a = "bcdfghjklmnpqrstvwxz"
	var s strings.Builder
	for _, c := range b {
		s.WriteByte(a[int(c)%len(a)])
	}
	return kind + "_" + s.String() + "_secret"
}

var sizes = []int{0, 1, 2, 11, 12, 13, 15, 16, 17, 27, 28, 29, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 10000}
var bigSizes = []int{65535, 65536, 65537, 100000, 262144, 1 << 20, 1<<20 + 1}

// hugeContent and up select contents of many megabytes.
const hugeContent = 1_000_000

// contentOf makes the plaintext or associated data for a selector: low bits choose the size, the rest seed the bytes.
func contentOf(seed uint64, sel int) []byte {
	if sel < 0 {
		sel = -sel
	}
	kind := sel % 100
	n := 0
	switch {
	case sel >= hugeContent:
		n = []int{4<<20 + 1, 5<<20 + 7, 16 << 20, 17<<20 + 1}[kind%4]
	case kind < len(sizes):
		n = sizes[kind]
	case kind < 90:
		r := simrt.NewRng(uint64(sel))
		n = r.N(300)
	case kind < 97:
		n = bigSizes[kind-90]
	case kind == 97: // around a power of two
		r := simrt.NewRng(uint64(sel))
		n = 1<<(5+r.N(13)) - 2 + r.N(5)
	case kind == 98: // around a multiple of the block size
		r := simrt.NewRng(uint64(sel))
		n = 16*r.N(100) - 1 + r.N(3)
		if n < 0 {
			n = 0
		}
	default: // any magnitude
		r := simrt.NewRng(uint64(sel))
		n = int(r.U64() >> (64 - 17 + uint(r.N(13))))
	}
	b := make([]byte, n)
	switch (sel / 100) % 6 {
	case 0:
		// Zeroes, or equal for everybody.
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		copy(b, strings.Repeat("{\"Ciphertext\":\"AAAA\",\"OID\":null}", n/32+1))
	case 3:
		copy(b, strings.Repeat("\x00\xff\"\\\u2028<&>", n/9+1))
	default:
		simrt.NewStream(simrt.Mix64(seed, uint64(sel), 0xc0)).Read(b)
	}
	return b
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
