module vharness

go 1.26

require (
	github.com/bgokden/go-cache v2.1.1+incompatible
	github.com/bgokden/veri v0.0.0
	google.golang.org/grpc v1.47.0
	google.golang.org/protobuf v1.30.0
	pgregory.net/rapid v1.3.0
)

replace github.com/bgokden/veri => /repo

replace github.com/bgokden/go-cache => ./third_party/go-cache
