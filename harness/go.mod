module verif/harness

go 1.25

require (
	github.com/Aize-Public/forego v0.0.0
	golang.org/x/net v0.19.0
)

require (
	github.com/google/uuid v1.5.0 // indirect
	golang.org/x/sys v0.15.0 // indirect
)

replace github.com/Aize-Public/forego => /repo
