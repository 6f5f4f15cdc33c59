// Package cluster runs the real goodfs servers (binaries built from the tree under test) as processes on
// the loopback network, with scratch directories for every byte they store and a fake etcd in this process.
package cluster

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/fakeetcd"
)

type Cluster struct {
	Dir      string
	Bins     string
	Group    string
	Etcd     *fakeetcd.Server
	EtcdAddr string
	mu       sync.Mutex
	Nodes    []*Node
	GoRace   bool
	// ExtraEnv is added to the environment of every server.
	ExtraEnv []string
	LogLevel string
}

type Node struct {
	C       *Cluster
	Kind    string // apiserver, metaserver, objectserver, adminserver
	ID      string
	Port    int
	Conf    string
	Dir     string
	Mounts  []string // object servers: scratch directories standing for drives
	Env     []string
	confTxt string
	mu      sync.Mutex
	cmd     *exec.Cmd
	done    chan struct{}
	waitErr error
	starts  int
}

// New creates a cluster under dir (created); the caller removes dir after Close.
func New(dir, bins string) (*Cluster, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	e := fakeetcd.New()
	addr, err := e.Start("127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	return &Cluster{Dir: dir, Bins: bins, Group: "vfs", Etcd: e, EtcdAddr: addr, LogLevel: "info"}, nil
}

var portMu sync.Mutex
var usedPorts = map[int]bool{}

// FreePort returns a loopback port that is free now and that this process has not handed out before. It lies below
// the range from which the kernel takes ports for outgoing connections, so that it stays free until it is used.
func FreePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for i := 0; i < 20000; i++ {
		p := 10000 + (os.Getpid()*131+len(usedPorts)*7+i*13)%22000
		if usedPorts[p] {
			continue
		}
		usedPorts[p] = true
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		l.Close()
		return p
	}
	panic("no free port")
}

// M is a nested configuration that is written as YAML.
type M map[string]any

func yaml(b *strings.Builder, m M, ind string) {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		switch v := m[k].(type) {
		case M:
			fmt.Fprintf(b, "%s%s:\n", ind, k)
			yaml(b, v, ind+"  ")
		case []string:
			fmt.Fprintf(b, "%s%s:\n", ind, k)
			for _, s := range v {
				fmt.Fprintf(b, "%s  - %q\n", ind, s)
			}
		case string:
			fmt.Fprintf(b, "%s%s: %q\n", ind, k, v)
		default:
			fmt.Fprintf(b, "%s%s: %v\n", ind, k, v)
		}
	}
}

func merge(dst, src M) M {
	for k, v := range src {
		if sv, ok := v.(M); ok {
			if dv, ok := dst[k].(M); ok {
				merge(dv, sv)
				continue
			}
		}
		dst[k] = v
	}
	return dst
}

func (c *Cluster) base(id, name string, port int) M {
	return M{
		"port": fmt.Sprint(port),
		"log":  M{"level": c.LogLevel, "caller": true},
		"etcd": M{"endpoint": []string{c.EtcdAddr}, "username": "root", "password": "root"},
		"registry": M{"server-ip": "127.0.0.1", "server-id": id, "group": c.Group, "name": name,
			"interval": "5s", "timeout": "3s"},
	}
}

func (c *Cluster) add(n *Node, conf M) *Node {
	n.C = c
	n.Dir = filepath.Join(c.Dir, n.ID)
	if err := os.MkdirAll(n.Dir, 0o755); err != nil {
		panic(err)
	}
	n.Conf = filepath.Join(n.Dir, "conf.yaml")
	n.SetConf(conf)
	c.mu.Lock()
	c.Nodes = append(c.Nodes, n)
	c.mu.Unlock()
	return n
}

// SetConf rewrites the configuration file used at the next start.
func (n *Node) SetConf(conf M) {
	var b strings.Builder
	yaml(&b, conf, "")
	n.confTxt = b.String()
	if err := os.WriteFile(n.Conf, []byte(n.confTxt), 0o644); err != nil {
		panic(err)
	}
}

// RewriteConf restores the configuration file as first written (servers may persist theirs).
func (n *Node) RewriteConf() { _ = os.WriteFile(n.Conf, []byte(n.confTxt), 0o644) }

func (c *Cluster) AddMeta(id string, over M) *Node {
	p := FreePort()
	conf := c.base(id, "metaserver", p)
	conf["data-dir"] = filepath.Join(c.Dir, id, "data")
	conf["hash-slot"] = M{"slots": []string{"0-16384"}, "prepare-timeout": "10s"}
	merge(conf, over)
	n := c.add(&Node{Kind: "metaserver", ID: id, Port: p}, conf)
	os.MkdirAll(filepath.Join(c.Dir, id, "data"), 0o755)
	return n
}

// AddMetaGroup adds a raft group of n meta servers that bootstraps itself.
func (c *Cluster) AddMetaGroup(group string, n int, over M) []*Node {
	var ids []string
	var ports []int
	var members []string
	for i := 0; i < n; i++ {
		ids = append(ids, fmt.Sprintf("%s-m%d", group, i))
		ports = append(ports, FreePort())
		members = append(members, fmt.Sprintf("%s,127.0.0.1:%d", ids[i], ports[i]))
	}
	var res []*Node
	for i := 0; i < n; i++ {
		conf := c.base(ids[i], "metaserver", ports[i])
		conf["data-dir"] = filepath.Join(c.Dir, ids[i], "data")
		conf["hash-slot"] = M{"slots": []string{"0-16384"}, "prepare-timeout": "10s"}
		conf["cluster"] = M{"enable": true, "bootstrap": true, "group-id": group, "nodes": members,
			"election-timeout": "900ms", "heartbeat-timeout": "800ms"}
		merge(conf, over)
		nd := c.add(&Node{Kind: "metaserver", ID: ids[i], Port: ports[i]}, conf)
		os.MkdirAll(filepath.Join(c.Dir, ids[i], "data"), 0o755)
		res = append(res, nd)
	}
	return res
}

// AddObject adds an object server whose drives are scratch directories shown to it as mount points.
func (c *Cluster) AddObject(id string, drives int, over M) *Node {
	p := FreePort()
	n := &Node{Kind: "objectserver", ID: id, Port: p}
	conf := c.base(id, "objectserver", p)
	for i := 0; i < drives; i++ {
		d := filepath.Join(c.Dir, id, fmt.Sprintf("drive%d", i))
		os.MkdirAll(d, 0o755)
		n.Mounts = append(n.Mounts, d)
	}
	conf["base-mount-point"] = n.Mounts[0]
	conf["storage-path"] = "/objects"
	conf["allowed-mount-points"] = n.Mounts
	merge(conf, over)
	c.add(n, conf)
	hp := filepath.Join(n.Dir, "proc")
	fakeProc(hp, n.Mounts)
	n.Env = append(n.Env, "HOST_PROC="+hp)
	return n
}

// Move gives a server that is not running another address.
func (n *Node) Move() {
	p := FreePort()
	n.confTxt = strings.ReplaceAll(n.confTxt, fmt.Sprintf("port: \"%d\"", n.Port), fmt.Sprintf("port: \"%d\"", p))
	n.confTxt = strings.ReplaceAll(n.confTxt, fmt.Sprintf("port: %d\n", n.Port), fmt.Sprintf("port: %d\n", p))
	n.Port = p
	n.RewriteConf()
}

// StoreDirs returns the directories in which an object server keeps its objects, one per drive.
func (n *Node) StoreDirs() []string {
	var r []string
	for _, m := range n.Mounts {
		r = append(r, filepath.Join(m, "objects", n.ID+"_store"))
	}
	return r
}

// OrderMounts changes the order in which an object server finds its drives (at its next start).
func (n *Node) OrderMounts(order []string) { fakeProc(filepath.Join(n.Dir, "proc"), order) }

func fakeProc(dir string, mounts []string) {
	os.MkdirAll(filepath.Join(dir, "1"), 0o755)
	os.MkdirAll(filepath.Join(dir, "self"), 0o755)
	var mi, mt strings.Builder
	for i, m := range mounts {
		fmt.Fprintf(&mi, "%d 1 8:%d / %s rw,relatime - ext4 /dev/vd%d rw\n", 100+i, i+1, m, i+1)
		fmt.Fprintf(&mt, "/dev/vd%d %s ext4 rw 0 0\n", i+1, m)
	}
	for _, p := range []string{"1", "self"} {
		os.WriteFile(filepath.Join(dir, p, "mountinfo"), []byte(mi.String()), 0o644)
		os.WriteFile(filepath.Join(dir, p, "mounts"), []byte(mt.String()), 0o644)
	}
	os.WriteFile(filepath.Join(dir, "mounts"), []byte(mt.String()), 0o644)
	os.WriteFile(filepath.Join(dir, "filesystems"), []byte("nodev\tsysfs\nnodev\tproc\n\text4\n"), 0o644)
	for _, f := range []string{"meminfo", "stat", "diskstats", "cpuinfo", "loadavg", "uptime", "vmstat"} {
		if b, err := os.ReadFile("/proc/" + f); err == nil {
			os.WriteFile(filepath.Join(dir, f), b, 0o644)
		}
	}
	// a drive with counters, so that averages over drives exist
	os.WriteFile(filepath.Join(dir, "diskstats"), []byte("   8       1 vd1 100 0 800 40 100 0 800 40 0 80 80 0 0 0 0 0 0\n   8       2 vd2 300 0 2400 120 300 0 2400 120 0 240 240 0 0 0 0 0 0\n"), 0o644)
}

func (c *Cluster) AddAPI(id string, over M) *Node {
	p := FreePort()
	conf := c.base(id, "apiserver", p)
	conf["discovery"] = M{"data-serv-name": "objectserver", "meta-serv-name": "metaserver"}
	conf["select-strategy"] = "random"
	conf["object"] = M{"checksum": false, "distinct-timeout": "300ms",
		"reed-solomon": M{"data-shards": 4, "parity-shards": 2, "block-per-shard": 16384, "rewrite-async": false},
		"replication":  M{"copies-count": 3, "block-size": "64KB", "loss-tolerance-rate": 0, "copy-async": false}}
	conf["auth"] = M{"enable": false}
	merge(conf, over)
	n := c.add(&Node{Kind: "apiserver", ID: id, Port: p}, conf)
	hp := filepath.Join(n.Dir, "proc")
	fakeProc(hp, []string{"/"})
	n.Env = append(n.Env, "HOST_PROC="+hp)
	return n
}

func (c *Cluster) AddAdmin(id string, over M) *Node {
	p := FreePort()
	conf := c.base(id, "adminserver", p)
	delete(conf, "registry")
	conf["discovery"] = M{"group": c.Group, "data-serv-name": "objectserver", "meta-serv-name": "metaserver", "api-serv-name": "apiserver"}
	merge(conf, over)
	return c.add(&Node{Kind: "adminserver", ID: id, Port: p}, conf)
}

func (n *Node) Addr() string    { return fmt.Sprintf("127.0.0.1:%d", n.Port) }
func (n *Node) URL() string     { return "http://" + n.Addr() }
func (n *Node) LogFile() string { return filepath.Join(n.Dir, "log.txt") }

func (n *Node) Running() bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.cmd == nil {
		return false
	}
	select {
	case <-n.done:
		return false
	default:
		return true
	}
}

// Start launches the server process; it does not wait for readiness.
func (n *Node) Start() error {
	n.mu.Lock()
	defer n.mu.Unlock()
	lf, err := os.OpenFile(n.LogFile(), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		return err
	}
	defer lf.Close()
	n.starts++
	fmt.Fprintf(lf, "==== start %d\n", n.starts)
	cmd := exec.Command(filepath.Join(n.C.Bins, n.Kind), "app", n.Conf)
	cmd.Dir = n.Dir
	cmd.Stdout = lf
	cmd.Stderr = lf
	tmp := filepath.Join(n.Dir, "tmp")
	os.MkdirAll(tmp, 0o755)
	cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + n.Dir, "TMPDIR=" + tmp, "SERVER_IP=127.0.0.1",
		"GORACE=halt_on_error=0 log_path=" + filepath.Join(n.Dir, "race"), "GOTRACEBACK=all"}, n.Env...)
	cmd.Env = append(cmd.Env, n.C.ExtraEnv...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	if err := cmd.Start(); err != nil {
		return err
	}
	n.cmd = cmd
	n.done = make(chan struct{})
	go func(cmd *exec.Cmd, done chan struct{}) {
		err := cmd.Wait()
		n.mu.Lock()
		n.waitErr = err
		n.mu.Unlock()
		close(done)
	}(cmd, n.done)
	return nil
}

// WaitReady waits until the server accepts connections and, when it registers, until it is in etcd.
func (n *Node) WaitReady(d time.Duration) error {
	dl := time.Now().Add(d)
	for time.Now().Before(dl) {
		if !n.Running() {
			return fmt.Errorf("%s exited: %v\n%s", n.ID, n.waitErr, n.LogTail(40))
		}
		c, err := net.DialTimeout("tcp", n.Addr(), 300*time.Millisecond)
		if err == nil {
			c.Close()
			if n.Kind == "adminserver" || n.registered() {
				return nil
			}
		}
		time.Sleep(30 * time.Millisecond)
	}
	return fmt.Errorf("%s not ready after %s\n%s", n.ID, d, n.LogTail(40))
}

func (n *Node) registered() bool {
	for k, v := range n.C.Etcd.List(n.C.Group + "/registry/" + n.Kind + "/") {
		if strings.Contains(k, n.ID) && strings.HasSuffix(v, fmt.Sprint(n.Port)) {
			return true
		}
	}
	return false
}

// Kill9 kills the process without warning.
func (n *Node) Kill9() {
	n.mu.Lock()
	cmd, done := n.cmd, n.done
	n.mu.Unlock()
	if cmd == nil {
		return
	}
	_ = cmd.Process.Kill()
	<-done
}

// Signal sends a signal to the process.
func (n *Node) Signal(s syscall.Signal) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.cmd != nil {
		_ = n.cmd.Process.Signal(s)
	}
}

func (n *Node) Pid() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.cmd == nil {
		return 0
	}
	return n.cmd.Process.Pid
}

// Stop terminates the server gracefully (SIGTERM); kills it after d. It reports whether it went by itself.
func (n *Node) Stop(d time.Duration) bool {
	n.mu.Lock()
	cmd, done := n.cmd, n.done
	n.mu.Unlock()
	if cmd == nil {
		return true
	}
	_ = cmd.Process.Signal(syscall.SIGTERM)
	select {
	case <-done:
		return true
	case <-time.After(d):
		_ = cmd.Process.Kill()
		<-done
		return false
	}
}

func (n *Node) LogTail(lines int) string {
	b, _ := os.ReadFile(n.LogFile())
	ls := bytes.Split(b, []byte("\n"))
	if len(ls) > lines {
		ls = ls[len(ls)-lines:]
	}
	return string(bytes.Join(ls, []byte("\n")))
}

// StartAll starts all nodes that do not run and waits for each: meta and object servers first.
func (c *Cluster) StartAll(d time.Duration) error {
	for _, kinds := range []string{"metaserver objectserver", "apiserver", "adminserver"} {
		var ws []*Node
		for _, n := range c.Nodes {
			if strings.Contains(kinds, n.Kind) && !n.Running() {
				if err := n.Start(); err != nil {
					return err
				}
				ws = append(ws, n)
			}
		}
		for _, n := range ws {
			if err := n.WaitReady(d); err != nil {
				return err
			}
		}
	}
	return nil
}

func (c *Cluster) ByKind(kind string) []*Node {
	var r []*Node
	for _, n := range c.Nodes {
		if n.Kind == kind {
			r = append(r, n)
		}
	}
	return r
}

func (c *Cluster) ByID(id string) *Node {
	for _, n := range c.Nodes {
		if n.ID == id {
			return n
		}
	}
	return nil
}

// Close kills everything.
func (c *Cluster) Close() {
	var wg sync.WaitGroup
	for _, n := range c.Nodes {
		wg.Add(1)
		go func(n *Node) { defer wg.Done(); n.Kill9() }(n)
	}
	wg.Wait()
	c.Etcd.Stop()
}

// HTTP is the client used for all plain requests.
var HTTP = &http.Client{
	Transport: &http.Transport{MaxIdleConnsPerHost: 64, DisableCompression: true, DisableKeepAlives: false},
	Timeout:   60 * time.Second,
}

type Resp struct {
	Code   int
	Body   []byte
	Header http.Header
	Err    error // transport error, including a body that ended early
}

func (r Resp) String() string {
	if r.Err != nil {
		return fmt.Sprintf("code=%d err=%v len=%d", r.Code, r.Err, len(r.Body))
	}
	b := r.Body
	if len(b) > 200 {
		b = b[:200]
	}
	return fmt.Sprintf("code=%d len=%d body=%q", r.Code, len(r.Body), b)
}

// Do sends one request. hdr is a list of key, value pairs.
func Do(method, url string, body []byte, hdr ...string) Resp {
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	req, err := http.NewRequest(method, url, rd)
	if err != nil {
		return Resp{Err: err}
	}
	for i := 0; i+1 < len(hdr); i += 2 {
		if hdr[i] == "Host" {
			req.Host = hdr[i+1]
			continue
		}
		req.Header.Set(hdr[i], hdr[i+1])
	}
	resp, err := HTTP.Do(req)
	if err != nil {
		return Resp{Err: err}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return Resp{Code: resp.StatusCode, Body: b, Header: resp.Header, Err: err}
}
