module verif.local/harness

go 1.24.4

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/dgraph-io/badger/v4 v4.7.0
	github.com/fido-alliance/iot-fdo-conformance-tools v0.0.0
	github.com/fxamacker/cbor/v2 v2.8.0
)

require (
	github.com/cespare/xxhash/v2 v2.3.0 // indirect
	github.com/cpuguy83/go-md2man/v2 v2.0.7 // indirect
	github.com/dgraph-io/ristretto/v2 v2.2.0 // indirect
	github.com/drhodes/golorem v0.0.0-20220328165741-da82e5b29246 // indirect
	github.com/dustin/go-humanize v1.0.1 // indirect
	github.com/fido-alliance/dhkx v0.3.4 // indirect
	github.com/go-logr/logr v1.4.3 // indirect
	github.com/go-logr/stdr v1.2.2 // indirect
	github.com/google/flatbuffers v25.2.10+incompatible // indirect
	github.com/google/uuid v1.6.0 // indirect
	github.com/gorilla/mux v1.8.1 // indirect
	github.com/joho/godotenv v1.5.1 // indirect
	github.com/klauspost/compress v1.18.0 // indirect
	github.com/russross/blackfriday/v2 v2.1.0 // indirect
	github.com/urfave/cli/v2 v2.27.7 // indirect
	github.com/x448/float16 v0.8.4 // indirect
	github.com/xrash/smetrics v0.0.0-20240521201337-686a1a2994c1 // indirect
	go.opentelemetry.io/auto/sdk v1.1.0 // indirect
	go.opentelemetry.io/otel v1.36.0 // indirect
	go.opentelemetry.io/otel/metric v1.36.0 // indirect
	go.opentelemetry.io/otel/trace v1.36.0 // indirect
	golang.org/x/crypto v0.39.0 // indirect
	golang.org/x/net v0.41.0 // indirect
	golang.org/x/sys v0.33.0 // indirect
	google.golang.org/protobuf v1.36.6 // indirect
)

replace github.com/fido-alliance/iot-fdo-conformance-tools => /repo
