// Package big makes large inputs.
package big

// Bytes is a long sequence of bytes that repeats only every 251 bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n && i < 251; i++ {
		b[i] = byte(i*i + 3*i + 1)
	}
	for k := 251; k < n; k *= 2 {
		copy(b[k:], b[:k])
	}
	return b
}
