module verif

go 1.22

require github.com/mmcloughlin/ssarules v0.0.0

require (
	github.com/google/go-cmp v0.5.5 // indirect
	golang.org/x/xerrors v0.0.0-20191204190536-9bdfabe68543 // indirect
)

replace github.com/mmcloughlin/ssarules => /repo
