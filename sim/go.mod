module verif.local/sim

go 1.25

require (
	github.com/cybergarage/go-sqlparser v0.0.0
	github.com/cybergarage/go-tracing v1.1.5
	github.com/google/uuid v1.6.0
)

require (
	github.com/antlr4-go/antlr/v4 v4.13.1 // indirect
	github.com/cybergarage/go-safecast v1.3.5 // indirect
	golang.org/x/exp v0.0.0-20260112195511-716be5621a96 // indirect
)

replace github.com/cybergarage/go-sqlparser => /repo
