module verifharness

go 1.24

require (
	github.com/golang/protobuf v1.3.4
	github.com/jhump/protoreflect v1.6.0
	google.golang.org/grpc v1.28.0
	gopkg.in/yaml.v2 v2.2.8
	pgregory.net/rapid v1.3.0
)

require (
	golang.org/x/net v0.0.0-20200301022130-244492dfa37a // indirect
	golang.org/x/sys v0.0.0-20200302150141-5c8b2ff67527 // indirect
	golang.org/x/text v0.3.2 // indirect
	google.golang.org/genproto v0.0.0-20200311144346-b662892dd51b // indirect
)
