module verif/harness

go 1.27

require (
	github.com/go-restruct/restruct v0.0.0
	github.com/pkg/errors v0.8.1
)

replace github.com/go-restruct/restruct => /repo
