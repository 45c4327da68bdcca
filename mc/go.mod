module mc

go 1.24

require (
	github.com/Andrew-M-C/go.jsonvalue v0.0.0
	github.com/shopspring/decimal v1.4.0
)

replace github.com/Andrew-M-C/go.jsonvalue => /repo
