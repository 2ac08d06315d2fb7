module verif/harness

go 1.25

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/lkmio/avformat v0.0.0
)

replace github.com/lkmio/avformat => /repo
