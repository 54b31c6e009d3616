module vharness

go 1.24.0

require (
	github.com/hauke96/sigolo/v2 v2.0.0-SNAPSHOT.11
	wiki2book v0.0.0
)

require (
	github.com/gabriel-vasile/mimetype v1.4.11 // indirect
	github.com/go-shiori/go-epub v1.2.1 // indirect
	github.com/gofrs/uuid/v5 v5.4.0 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	github.com/vincent-petithory/dataurl v1.0.0 // indirect
	golang.org/x/net v0.47.0 // indirect
	golang.org/x/text v0.31.0 // indirect
)

replace wiki2book => /repo/src
