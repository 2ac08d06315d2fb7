prop="C24"
needs="a reader reset onto shorter data after it was used on longer data"
breaks="resetting keeps the old length when the new data is shorter, reads beyond the window are attempted"
edits=[("bufio/bytes_buffer.go","	b.length = len(data)\n","	b.length = MaxInt(len(data), b.length&(cap(data)-len(data)|-cap(data)))\n")]
demo=r'''
package main
func main(){}
'''
edits=[("bufio/bytes_buffer.go","	b.length = len(data)\n","	// 允许写满底层数组\n	b.length = cap(data)\n	b.data = data[:b.length]\n")]
demo=r'''
package main

import "github.com/lkmio/avformat/bufio"

func main() {
	back := make([]byte, 16)
	w := bufio.NewBytesWriter(back[:8])
	err := w.Write(make([]byte, 9))
	check(err != nil && w.ReadableBytes() == 8, "%v %d", err, w.ReadableBytes())
}
'''
needs="a window that is a sub-slice of a larger buffer, and a write that does not fit the window but fits the buffer"
breaks="the window is taken as the whole underlying buffer: writes and reads leave the slice they were given"
