module verif

go 1.19

require (
	github.com/ilius/go-lru v0.1.0 // indirect
	github.com/ilius/go-table v0.0.0
)

replace github.com/ilius/go-table => /repo
