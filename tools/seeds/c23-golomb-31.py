prop="C23"
needs="an Exp-Golomb code with 31 or 32 leading zeros (values of 2^31-1 and above)"
breaks="codes with 32 leading zeros are cut"
edits=[("bufio/golomb_reader.go","		if !(bit == 0 && i < 32) {\n","		if !(bit == 0 && i < 31) {\n")]
demo=r'''
package main

import (
	"bytes"

	"github.com/lkmio/avformat/bufio"
)

func main() {
	// 31 zeros, 1, 31 bits
	b := []byte{0, 0, 0, 1, 0x55, 0x55, 0x55, 0x56, 0xff}
	for _, z := range []uint{31, 32} {
		var v uint64 = 1<<z + 12345
		bits := make([]byte, 0, 80)
		for i := uint(0); i < z; i++ {
			bits = append(bits, 0)
		}
		for i := int(z); i >= 0; i-- {
			bits = append(bits, byte(v>>uint(i)&1))
		}
		bits = append(bits, 1, 0, 1, 1, 0, 1, 1, 1, 1)
		b = nil
		for i := 0; i+8 <= len(bits); i += 8 {
			var x byte
			for j := 0; j < 8; j++ {
				x = x<<1 | bits[i+j]
			}
			b = append(b, x)
		}
		r := &bufio.GolombBitReader{R: bytes.NewReader(b)}
		got, err := r.ReadExponentialGolombCode()
		check(err == nil && uint64(got) == v-1, "%d leading zeros: %d, want %d (%v)", z, got, v-1, err)
	}
}
'''
