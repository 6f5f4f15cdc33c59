// Command c13 asks a metadata server, over the interface the servers use among themselves, for names it does not own.
package main

import (
	"context"
	"fmt"
	"os"
	"strings"
	"time"

	"common/proto/msg"
	"common/proto/pb"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"

	. "verifharness/report"
)

// usage: c13 refuse ADDR ID...
func main() {
	addr, ids := os.Args[2], os.Args[3:]
	cc, err := grpc.Dial(addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	defer cc.Close()
	api := pb.NewMetadataApiClient(cc)
	for _, id := range ids {
		bucket, name, _ := strings.Cut(id, "/")
		md := &msg.Metadata{Name: name, Bucket: bucket}
		ver := &msg.Version{Hash: "h", Size: 5, Locate: []string{"127.0.0.1:1"}, StoreStrategy: 1, DataShards: 1, ShardSize: 5}
		bk := &msg.Bucket{Name: id}
		enc := func(m interface{ MarshalMsg([]byte) ([]byte, error) }) []byte {
			b, err := m.MarshalMsg(nil)
			if err != nil {
				panic(err)
			}
			return b
		}
		calls := []struct {
			what string
			do   func(ctx context.Context) (any, error)
		}{
			{"GetBucket", func(ctx context.Context) (any, error) { return api.GetBucket(ctx, &pb.MetaReq{Id: id}) }},
			{"GetMetadata", func(ctx context.Context) (any, error) {
				return api.GetMetadata(ctx, &pb.MetaReq{Id: id, WithExtra: true})
			}},
			{"GetVersion", func(ctx context.Context) (any, error) { return api.GetVersion(ctx, &pb.MetaReq{Id: id, Version: 1}) }},
			{"ListVersion", func(ctx context.Context) (any, error) {
				return api.ListVersion(ctx, &pb.MetaReq{Id: id, Page: &pb.Pageable{Page: 1, PageSize: 10}})
			}},
			{"SaveMetadata", func(ctx context.Context) (any, error) {
				return api.SaveMetadata(ctx, &pb.Metadata{Id: id, Msgpack: enc(md)})
			}},
			{"SaveVersion", func(ctx context.Context) (any, error) {
				return api.SaveVersion(ctx, &pb.Metadata{Id: id, Msgpack: enc(ver)})
			}},
			{"UpdateVersion", func(ctx context.Context) (any, error) {
				return api.UpdateVersion(ctx, &pb.Metadata{Id: id, Version: 1, Msgpack: enc(ver)})
			}},
			{"RemoveVersion", func(ctx context.Context) (any, error) {
				return api.RemoveVersion(ctx, &pb.MetaReq{Id: id, Version: 1})
			}},
			{"SaveBucket", func(ctx context.Context) (any, error) {
				return api.SaveBucket(ctx, &pb.Metadata{Id: id, Msgpack: enc(bk)})
			}},
		}
		for _, c := range calls {
			ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
			got, err := c.do(ctx)
			cancel()
			st := status.Code(err)
			switch {
			case err == nil:
				Violate("grpc:"+c.what, "%s of %q, which %s does not own, is answered %.200v", c.what, id, addr, got)
			case st == codes.DeadlineExceeded || strings.Contains(err.Error(), "connection refused"):
				Violate("grpc-silent:"+c.what, "%s of %q, which %s does not own: %v", c.what, id, addr, err)
			case st == codes.NotFound:
				// not refused, but not answered for another group's name either
				Violate("grpc-absent:"+c.what, "%s of %q is answered %v by %s, which does not own it", c.what, id, err, addr)
			}
			Case(fmt.Sprintf("%s -> %v", c.what, st))
			Event("foreign_calls", 1)
		}
	}
	Done()
}
