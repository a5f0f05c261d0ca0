module verif.local/harness

go 1.25

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/exascience/pargo v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/exascience/pargo => /repo
