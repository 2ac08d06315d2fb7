prop="C24"
needs="a write of more bytes than fit in the window"
breaks="a failing write has already changed the rest of the window"
edits=[("bufio/bytes_wirter.go","""	if err := b.peekN(len(data)); err != nil {
		return err
	}

	copy(b.data[b.offset-len(data):], data)
	return nil
""","""	copy(b.data[b.offset:], data)
	return b.peekN(len(data))
""")]
demo=r'''
package main

import "github.com/lkmio/avformat/bufio"

func main() {
	b := make([]byte, 8)
	w := bufio.NewBytesWriter(b)
	w.Write([]byte{1, 2, 3, 4, 5})
	err := w.Write([]byte{9, 9, 9, 9})
	check(err != nil && b[5] == 0 && w.Offset() == 5, "%v %v", err, b)
}
'''
