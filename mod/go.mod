module github.com/WatchBeam/rtmp

go 1.27

require (
	github.com/WatchBeam/amf0 v0.0.0
	github.com/anishathalye/porcupine v1.3.1
	github.com/stretchr/testify v1.12.1
)

require (
	github.com/stretchr/objx v0.5.3 // indirect
	go.yaml.in/yaml/v3 v3.0.5 // indirect
)

replace github.com/WatchBeam/amf0 => /verif/stub/amf0
