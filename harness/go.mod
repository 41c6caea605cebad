module verif/harness

go 1.26.0

require (
	github.com/lyraproj/dgo v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/lyraproj/dgo => /repo
