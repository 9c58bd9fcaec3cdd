module ctngverif

go 1.27

godebug default=go1.21

godebug asynctimerchan=0

require github.com/jik18001/CTngV2 v0.0.0

replace github.com/jik18001/CTngV2 => /repo

require (
	github.com/Workiva/go-datastructures v1.1.0
	github.com/bits-and-blooms/bitset v1.8.0
	github.com/gorilla/mux v1.8.0
	github.com/herumi/bls-go-binary v1.32.0
	github.com/txaty/go-merkletree v0.1.15
)

require github.com/txaty/gool v0.1.4 // indirect
