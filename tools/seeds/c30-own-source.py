prop="C30"
needs="two goroutines asking for random strings at the same time"
breaks="random strings come from an unsynchronised source shared by all goroutines (data race, index out of range panics)"
race=True
edits=[("utils/random_util.go","""	rand.Seed(time.Now().UnixNano())
	b := make([]byte, n)
	for i := range b {
		b[i] = letterBytes[rand.Intn(len(letterBytes))]
	}
""","""	b := make([]byte, n)
	for i := range b {
		b[i] = letterBytes[letterRand.Intn(len(letterBytes))]
	}
"""),("utils/random_util.go","func RandStringBytes(n int) string {\n","var letterRand = rand.New(rand.NewSource(time.Now().UnixNano()))\n\nfunc RandStringBytes(n int) string {\n")]
demo=r'''
package main

import (
	"sync"

	"github.com/lkmio/avformat/utils"
)

func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				check(len(utils.RandStringBytes(20)) == 20, "length")
			}
		}()
	}
	wg.Wait()
}
'''
