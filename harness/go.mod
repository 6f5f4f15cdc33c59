module verifharness

go 1.20

require (
	github.com/anishathalye/porcupine v1.3.1
	go.etcd.io/etcd/api/v3 v3.5.7
	go.etcd.io/etcd/client/v3 v3.5.7
	google.golang.org/grpc v1.56.3
	golang.org/x/net v0.17.0
)
