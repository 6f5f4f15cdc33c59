// Command c14 is a caller of the interface metadata servers use to move hash slots.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"os"
	"strconv"
	"strings"
	"time"

	"common/proto/msg"
	"common/proto/pb"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"

	. "verifharness/report"
)

func dial(addr string) (pb.HashSlotClient, func()) {
	cc, err := grpc.Dial(addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	return pb.NewHashSlotClient(cc), func() { cc.Close() }
}

// usage: c14 migrate ADDR HOST PORT SLOTS... | c14 abuse ADDR STORE SLOTS | c14 leave ADDR STORE SLOTS FILE NAME
func main() {
	switch os.Args[1] {
	case "migrate":
		migrate(os.Args[2], os.Args[3], os.Args[4], os.Args[5:])
	case "abuse":
		abuse(os.Args[2], os.Args[3], os.Args[4])
	case "delver":
		delver(os.Args[2], os.Args[3], os.Args[4])
	case "leave":
		leave(os.Args[2], os.Args[3], os.Args[4], os.Args[5], os.Args[6])
	}
}

// migrate prints how a migration was answered.
func migrate(addr, host, port string, slots []string) {
	cli, end := dial(addr)
	defer end()
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	r, err := cli.StartMigration(ctx, &pb.MigrationReq{TargetLocation: &pb.LocationInfo{Host: host, Port: port}, Slots: slots})
	out := map[string]string{"how": "ok"}
	if err != nil {
		out = map[string]string{"how": "error", "text": err.Error()}
	} else if !r.GetSuccess() {
		out = map[string]string{"how": "refused", "text": r.GetMessage()}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

// delver removes a version and prints whether that was done.
func delver(addr, id, seq string) {
	cc, err := grpc.Dial(addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		return
	}
	defer cc.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	n, _ := strconv.Atoi(seq)
	if _, err = pb.NewMetadataApiClient(cc).RemoveVersion(ctx, &pb.MetaReq{Id: id, Version: int32(n)}); err == nil {
		fmt.Println("ok")
	} else {
		fmt.Println(err)
	}
}

// abuse prepares and sends what the server must not take: names nobody announced, and streams that are cut off.
func abuse(addr, store, slots string) {
	cli, end := dial(addr)
	defer end()
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	md, _ := (&msg.Metadata{Name: "abused", Bucket: "b"}).MarshalMsg(nil)
	item := &pb.MigrationItem{Name: "b/abused", Data: md, Dest: 4}
	stream := func(what string, items ...*pb.MigrationItem) {
		sctx, cut := context.WithCancel(ctx)
		st, err := cli.StreamingReceive(sctx)
		took := 0
		for _, it := range items {
			if err != nil {
				break
			}
			_ = st.Send(it)
			var r *pb.Response
			if r, err = st.Recv(); err == nil {
				if !r.GetSuccess() {
					break
				}
				took++
			}
		}
		cut() // never ends properly
		Case(fmt.Sprintf("%s: %d of %d items taken, %v", what, took, len(items), err != nil))
		Event("abusive_streams", 1)
		if (what == "unannounced" || what == "outside") && took > 0 {
			Violate("abuse:"+what, "%s took a name (%s, kind %d) that nobody announced", addr, items[0].Name, items[0].Dest)
		}
	}
	stream("unannounced", item)
	var others []*pb.MigrationItem
	prepare := func(what, id string, l ...string) bool {
		r, err := cli.PrepareMigration(ctx, &pb.PrepareReq{Id: id, Location: &pb.LocationInfo{Host: "127.0.0.1", Port: "1"}, Slots: l})
		ok := err == nil && r.GetSuccess()
		Case(fmt.Sprintf("prepare %s -> %v", what, ok))
		Event("abusive_prepares", 1)
		return ok
	}
	for _, l := range [][]string{{"abc"}, {"7-5"}, {"-3-5"}, {"1-2-3"}, {"0-16385"}, {"16384-16390"}, {""}} {
		if prepare(strings.Join(l, ","), store, l...) {
			Violate("abuse:prepare", "%s agrees to receive the slots %q", addr, l)
		}
	}
	if prepare("unknown store", "nobody", slots) {
		Violate("abuse:prepare", "%s agrees to receive the slots %s from an unknown store", addr, slots)
	}
	if prepare("announced", store, slots) {
		// what is not in the slots that were announced may be the receiver's own
		bk := func(name string) []byte { b, _ := (&msg.Bucket{Name: name}).MarshalMsg(nil); return b }
		vs, _ := (&msg.Version{Hash: "h", Sequence: 1}).MarshalMsg(nil)
		for i := 0; i < 12; i++ {
			name := fmt.Sprint("b/other", i)
			if crc32.ChecksumIEEE([]byte(name))%16384 == crc32.ChecksumIEEE([]byte("b/abused"))%16384 {
				continue
			}
			others = append(others, &pb.MigrationItem{Name: name, Data: md, Dest: 4}, &pb.MigrationItem{Name: name, Data: vs, Dest: 1},
				&pb.MigrationItem{Name: name, Data: bk(name), Dest: 8}, &pb.MigrationItem{Name: "b/abused", Data: bk(name), Dest: 8})
		}
		for _, it := range others {
			stream("outside", it)
			if !prepare("announced again", store, slots) {
				break
			}
		}
		stream("announced", &pb.MigrationItem{Name: "b/abused", Data: md, Dest: 4}, &pb.MigrationItem{Name: "b/abused", Data: []byte("garbage"), Dest: 1})
	}
	Done()
}

// leave sends a name to a server and waits for the server to end.
func leave(addr, store, slots, file, name string) {
	cli, end := dial(addr)
	defer end()
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	took, last := 0, "taken"
	defer Done()
	defer os.WriteFile(file, nil, 0o644)
	r, err := cli.PrepareMigration(ctx, &pb.PrepareReq{Id: store, Location: &pb.LocationInfo{Host: "127.0.0.1", Port: "1"}, Slots: []string{slots}})
	if err != nil || !r.GetSuccess() {
		return
	}
	st, err := cli.StreamingReceive(ctx)
	if err != nil {
		return
	}
	bucket, base, _ := strings.Cut(name, "/")
	md, _ := (&msg.Metadata{Name: base, Bucket: bucket, CreateTime: 5, UpdateTime: 5}).MarshalMsg(nil)
	vs, _ := (&msg.Version{Hash: "left", UniqueId: "left", Sequence: 1, Size: 1, Locate: []string{"127.0.0.1:9"}}).MarshalMsg(nil)
	for _, it := range []*pb.MigrationItem{{Name: name, Data: md, Dest: 4}, {Name: name, Data: vs, Dest: 1}} {
		_ = st.Send(it)
		if r, err := st.Recv(); err != nil || !r.GetSuccess() {
			last = fmt.Sprint(err, r.GetMessage())
			break
		}
		took++
	}
	Case(fmt.Sprintf("left %d, %s", took, last))
	Event("items_left", int64(took))
	os.WriteFile(file, nil, 0o644)
	_, _ = st.Recv()
}
