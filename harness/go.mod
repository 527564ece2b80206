module vharness

go 1.26

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/sira-serverless-ir-arch/goirlib v0.0.0
	github.com/sira-serverless-ir-arch/porter2 v0.0.0-20150829210152-56e4718818e8
	golang.org/x/text v0.11.0
)

require (
	github.com/google/flatbuffers v23.5.26+incompatible // indirect
	github.com/google/uuid v1.3.0 // indirect
)

replace github.com/sira-serverless-ir-arch/goirlib => /repo
