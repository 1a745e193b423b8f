module verif/harness

go 1.26

require (
	github.com/savaki/kafka v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/savaki/kafka => /repo
