module verif/harness

go 1.23

require (
	github.com/Wieku/gosu-pp v0.0.0
	pgregory.net/rapid v1.3.0
)

require golang.org/x/text v0.3.7

replace github.com/Wieku/gosu-pp => /repo
