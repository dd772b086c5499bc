package main

import (
	"encoding/base64"
	"encoding/json"
	"unicode/utf8"
)

func jsonQuote(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}
func jsonFloat(f float64, is32 bool) string {
	var b []byte
	if is32 {
		b, _ = json.Marshal(float32(f))
	} else {
		b, _ = json.Marshal(f)
	}
	return string(b)
}
func jsonB64(b []byte) string { return `"` + base64.StdEncoding.EncodeToString(b) + `"` }
func unB64(b []byte) ([]byte, error) {
	return base64.StdEncoding.DecodeString(string(b))
}

// validUTF8 replaces every invalid byte by U+FFFD, as encoding/json does.
func validUTF8(b []byte) string {
	var out []rune
	for len(b) > 0 {
		r, n := utf8.DecodeRune(b)
		out = append(out, r)
		b = b[n:]
	}
	return string(out)
}
