module harness

go 1.23

require (
	github.com/liyue201/gostl v0.0.0
	simrt v0.0.0
)

replace github.com/liyue201/gostl => ../gostl

replace simrt => ../rt
