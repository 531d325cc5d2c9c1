module tshverif

go 1.26.0

require (
	github.com/monstermichl/typeshell v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/monstermichl/typeshell => /repo
