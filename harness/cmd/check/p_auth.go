package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/cluster"
)

func init() { props["C09"] = c09 }

// auRoute is one kind of request; each call makes a fresh one about things no other request is about.
type auRoute struct {
	name           string
	method, path   string
	hdr            []string
	body           []byte
	bucket, object string // what it is about
	code           int    // answer when it is served
	effect         bool
	secret         string // what only a served answer contains
	check          func() string
}

type auth struct {
	x    *Ctx
	c    *cluster.Cluster
	open API // a server without authentication: prepares and observes
	mu   sync.Mutex
	n    int
	body []byte
	hash string
}

func (a *auth) id() string {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.n++
	return fmt.Sprintf("%d", a.n)
}

func (a *auth) exists(bucket, name string) string {
	if _, r := a.open.Meta(bucket, name, 0); r.Err != nil || r.Code != 404 {
		return fmt.Sprintf("%s/%s exists: %s", bucket, name, r)
	}
	return ""
}

var auRoutes = []string{"put", "get", "get-range", "meta", "versions", "big-post", "big-head", "big-patch", "bucket-create", "bucket-get", "bucket-update", "bucket-delete", "check"}

// make prepares a request of the kind. ok is false when the preparation failed.
func (a *auth) make(kind string) (q auRoute, ok bool) {
	id := a.id()
	q = auRoute{name: kind, method: "GET", bucket: "b", object: "o n/" + id, code: 200}
	esc := url.PathEscape(q.object)
	prep := func(r Resp, code int) bool {
		if r.Err != nil || r.Code != code {
			a.x.Violate("prepare", "preparing a %s request: %s", kind, r)
			return false
		}
		return true
	}
	body := append([]byte("SECRET"+id+"."), a.body...)
	switch kind {
	case "put":
		q.method, q.path, q.body, q.code, q.effect = "PUT", "/v1/objects/"+esc, body, 201, true
		q.hdr = []string{"Bucket", "b", "Digest", digest(body)}
		q.check = func() string { return a.exists("b", q.object) }
	case "get", "get-range", "meta", "versions":
		q.object = "secret"
		q.hdr = []string{"Bucket", "b"}
		switch kind {
		case "get":
			q.path, q.secret = "/v1/objects/secret", "TOP-SECRET-CONTENT"
		case "get-range":
			q.path, q.secret = "/v1/objects/secret?version=1", "SECRET-CONTENT"
			q.hdr = append(q.hdr, "Range", "bytes=4-")
		case "meta":
			q.path, q.secret = "/v1/metadata/secret", a.hash
		case "versions":
			q.path, q.secret = "/v1/metadata/secret/versions?page=1&page_size=10", a.hash
		}
	case "big-post":
		q.method, q.path, q.code, q.effect = "POST", "/v1/big/"+esc, 201, true
		q.hdr = []string{"Bucket", "b", "Digest", digest(body), "Size", strconv.Itoa(len(body))}
		q.secret = "/v1/big/"
	case "big-head", "big-patch":
		r := a.open.do("POST", "/v1/big/"+esc, nil, "Bucket", "b", "Digest", digest(body), "Size", strconv.Itoa(len(body)))
		if !prep(r, 201) {
			return q, false
		}
		q.path = r.Header.Get("Location")
		q.hdr = []string{"Bucket", "b"}
		if kind == "big-head" {
			q.method = "HEAD"
			break
		}
		q.method, q.body, q.effect = "PATCH", body, true
		q.hdr = append(q.hdr, "Range", fmt.Sprintf("bytes=0-%d", len(body)-1))
		q.check = func() string { return a.exists("b", q.object) }
	case "bucket-create":
		q.bucket, q.object = "new-"+id, ""
		bt, _ := json.Marshal(Bucket{Name: q.bucket})
		q.method, q.path, q.body, q.code, q.effect = "POST", "/v1/bucket", bt, 201, true
		q.hdr = []string{"Content-Type", "application/json"}
		q.check = func() string {
			if _, r := a.open.GetBucket(q.bucket); r.Code != 404 {
				return "bucket exists: " + r.String()
			}
			return ""
		}
	case "bucket-get", "bucket-update", "bucket-delete":
		q.bucket, q.object = "bk-"+id, ""
		if !prep(a.open.CreateBucket(Bucket{Name: q.bucket, VersionRemains: 7, Policies: []string{"SECRET-POLICY"}}), 201) {
			return q, false
		}
		q.path = "/v1/bucket/" + q.bucket
		q.secret = "SECRET-POLICY"
		if kind == "bucket-update" {
			bt, _ := json.Marshal(Bucket{Name: q.bucket, VersionRemains: 9})
			q.method, q.body, q.effect, q.secret = "PUT", bt, true, ""
			q.hdr = []string{"Content-Type", "application/json"}
		}
		if kind == "bucket-delete" {
			q.method, q.code, q.effect, q.secret = "DELETE", 204, true, ""
		}
		if kind != "bucket-get" {
			q.check = func() string {
				if b, r := a.open.GetBucket(q.bucket); r.Code != 200 || b.VersionRemains != 7 {
					return fmt.Sprintf("bucket changed: %s %+v", r, b)
				}
				return ""
			}
		}
	case "check":
		q.bucket, q.object = "b", ""
		q.path = "/v1/security/check"
		q.hdr = []string{"Bucket", "b"}
	}
	return q, true
}

func (q *auRoute) String() string { return q.method + " " + q.path }

// served judges an answer that must be the request's own.
func (a *auth) served(q auRoute, r Resp, why string) {
	if q.name == "big-head" && r.Err != nil && r.Code == 200 {
		r.Err = nil
	}
	if r.Err != nil || r.Code != q.code && !(q.name == "get-range" && r.Code == 206) {
		a.x.Violate("refused-valid", "%s: %s is answered %s", why, q.String(), r)
		return
	}
	if q.secret != "" && !strings.Contains(string(r.Body), q.secret) && !strings.Contains(r.Header.Get("Location"), q.secret) {
		a.x.Violate("refused-valid", "%s: %s is answered without what was asked for: %s %.200q", why, q.String(), r, r.Body)
	}
	if q.check != nil {
		if q.check() == "" {
			a.x.Violate("refused-valid", "%s: %s is answered %s but had no effect", why, q.String(), r)
		}
	}
	a.x.Event("served_requests", 1)
}

// refused judges an answer to a request that must not be served.
func (a *auth) refused(q auRoute, r Resp, why string) {
	if r.Err == nil && r.Code/100 == 2 {
		a.x.Violate("served", "%s: %s is answered %s %.200q", why, q.String(), r, r.Body)
	}
	if q.secret != "" && strings.Contains(string(r.Body), q.secret) {
		a.x.Violate("disclosed", "%s: %s is refused with %s but discloses %q", why, q.String(), r, q.secret)
	}
	if q.check != nil {
		if e := q.check(); e != "" {
			a.x.Violate("effect", "%s: %s is answered %s but had an effect: %s", why, q.String(), r, e)
		}
	}
	a.x.Event("refusals_checked", 1)
}

func basic(u, p string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p))
}

// auForms are the ways of not having the right credentials (u, p).
func auForms(u, p string, rng *rand.Rand) map[string][]string {
	good := base64.StdEncoding.EncodeToString([]byte(u + ":" + p))
	f := map[string][]string{
		"none":             nil,
		"empty header":     {"Authorization", ""},
		"empty user":       {"Authorization", basic("", p)},
		"empty password":   {"Authorization", basic(u, "")},
		"both empty":       {"Authorization", basic("", "")},
		"wrong password":   {"Authorization", basic(u, p+"x")},
		"password prefix":  {"Authorization", basic(u, p[:len(p)-1])},
		"password case":    {"Authorization", basic(u, strings.ToUpper(p))},
		"wrong user":       {"Authorization", basic(u+"x", p)},
		"user prefix":      {"Authorization", basic(u[:len(u)-1], p)},
		"user case":        {"Authorization", basic(strings.ToUpper(u), p)},
		"swapped":          {"Authorization", basic(p, u)},
		"no colon":         {"Authorization", "Basic " + base64.StdEncoding.EncodeToString([]byte(u+p))},
		"user only":        {"Authorization", "Basic " + base64.StdEncoding.EncodeToString([]byte(u))},
		"not base64":       {"Authorization", "Basic " + u + ":" + p},
		"truncated":        {"Authorization", "Basic " + good[:len(good)-3]},
		"scheme only":      {"Authorization", "Basic"},
		"scheme and blank": {"Authorization", "Basic "},
		"bearer":           {"Authorization", "Bearer " + good},
		"token":            {"Token", good},
		"no scheme":        {"Authorization", good},
		"digest":           {"Authorization", fmt.Sprintf("Digest username=%q, password=%q", u, p)},
		"nul":              {"Authorization", basic(u, p+"\x00")},
		"colon in user":    {"Authorization", basic(u+":"+p, p)},
		"blanks":           {"Authorization", basic(" "+u, p+" ")},
		"other header":     {"Proxy-Authorization", basic(u, p)},
		"cookie":           {"Cookie", "Authorization=" + url.QueryEscape(basic(u, p))},
		"header key":       {"IsAuthenticated", "true"},
		"forwarded":        {"X-Forwarded-For", "127.0.0.1", "X-Original-URL", "/ping", "X-Rewrite-URL", "/ping", "X-HTTP-Method-Override", "GET"},
		"long":             {"Authorization", basic(u, p+strings.Repeat("A", 4000))},
		"percent":          {"Authorization", basic(url.QueryEscape("%"+u), "%"+p)},
		"random":           {"Authorization", basic(fmt.Sprint(rng.Int63()), fmt.Sprint(rng.Int63()))},
		"default":          {"Authorization", basic("admin", "admin")},
	}
	return f
}

// auVariants returns other spellings of a path that must not get around the authentication.
func auVariants(p string) map[string]string {
	path, q, _ := strings.Cut(p, "?")
	if q != "" {
		q = "?" + q
	}
	return map[string]string{
		"double slash":    "/" + path + q,
		"inner slash":     strings.Replace(path, "/v1/", "/v1//", 1) + q,
		"trailing slash":  path + "/" + q,
		"dot":             strings.Replace(path, "/v1/", "/./v1/", 1) + q,
		"dotdot":          "/ping/.." + path + q,
		"ping prefix":     "/ping" + path + q,
		"encoded slash":   strings.Replace(path, "/v1/", "/v1%2F", 1) + q,
		"encoded letter":  strings.Replace(path, "/v1/", "/%761/", 1) + q,
		"upper case":      strings.Replace(path, "/v1/", "/V1/", 1) + q,
		"semicolon":       path + ";a=b" + q,
		"backslash":       strings.Replace(path, "/v1/", "/v1\\", 1) + q,
		"absolute target": "http://x/ping" + path + q,
	}
}

func c09(x *Ctx) {
	x.Rule("every route of the api server, each with every form of missing, malformed or wrong credentials and other spellings of its path (password authentication), and with every " +
		"kind of callback answer (callback authentication); a server without authentication prepares and observes. A case is distinct by route and form.")
	c := x.Cluster("c", false)
	c.AddMeta("meta1", nil)
	for i := 0; i < 3; i++ {
		c.AddObject(fmt.Sprintf("obj%d", i), 1, nil)
	}
	obj := M{"distinct-size": "1GB", "distinct-timeout": "1ms", "reed-solomon": M{"data-shards": 2, "parity-shards": 1}, "replication": M{"copies-count": 2}}
	const usr, pwd = "keeper", "pass:word-1"
	open := API{N: c.AddAPI("open", M{"object": obj})}
	// the service a callback goes to
	cb := &auCallback{x: x, cases: map[string]*auCase{}}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		x.Inconclusive("no port for the callback service: %v", err)
		return
	}
	defer ln.Close()
	go http.Serve(ln, cb)
	pw := API{N: c.AddAPI("pw", M{"object": obj, "auth": M{"enable": true, "password": M{"enable": true, "username": usr, "password": pwd}}})}
	pw2 := API{N: c.AddAPI("pw2", M{"object": obj, "auth": M{"enable": true, "password": M{"enable": true, "username": "other", "password": "otherpass"}}})}
	cbs := API{N: c.AddAPI("cb", M{"object": obj, "auth": M{"enable": true, "callback": M{"enable": true, "url": "http://" + ln.Addr().String() + "/hook", "params": []string{"X-Case", "sign"}}}})}
	both := API{N: c.AddAPI("both", M{"object": obj, "auth": M{"enable": true, "password": M{"enable": true, "username": usr, "password": pwd},
		"callback": M{"enable": true, "url": "http://" + ln.Addr().String() + "/hook", "params": []string{"X-Case", "sign"}}}})}
	none := API{N: c.AddAPI("none", M{"object": obj, "auth": M{"enable": true}})}
	if !x.Start(c) || !x.MustBucket(open, Bucket{Name: "b"}) {
		return
	}
	a := &auth{x: x, c: c, open: open, body: blob(3000, x.Seed)}
	if _, r := open.Put("b", "secret", append([]byte("TOP-SECRET-CONTENT"), blob(70000, x.Seed+1)...), ""); r.Code != 201 {
		x.Violate("put", "server without authentication answers %s", r)
		return
	}
	m, _ := open.Meta("b", "secret", 0)
	if len(m.Versions) == 0 {
		x.Violate("prepare", "no metadata")
		return
	}
	a.hash = m.Versions[0].Hash

	cred := ""
	for k, v := range c.Etcd.List("") {
		if strings.Contains(v, usr) && strings.Contains(v, pwd) || strings.Contains(v, "otherpass") {
			cred = v
			x.Logf("credentials are kept in %s", k)
		}
	}
	first, second := basic(usr, pwd), basic("other", "otherpass")
	if !strings.Contains(cred, usr) { // the servers start at the same time
		first, second = second, first
	}
	c09password(a, pw, pw2, first, second)
	if x.Violated() {
		return
	}
	c09callback(a, cb, cbs)
	if x.Violated() {
		return
	}
	// refused uploads leave nothing at the object servers
	settled := census(c)
	capBefore := capacities(c)
	for i := 0; i < 40; i++ {
		for _, k := range []string{"put", "big-post"} {
			q, _ := a.make(k)
			cs := cb.add(auAnswer{code: 403})
			h := append(append([]string{}, q.hdr...), "X-Case", cs.id, "Authorization", basic(usr, fmt.Sprint(i)))
			a.refused(q, []API{pw, cbs, none, both}[i%4].do(q.method, q.path, q.body, h...), "refused uploads")
		}
	}
	if d := diffCensus(settled, census(c)); len(d) > 0 {
		x.Violate("effect", "refused uploads leave files at the object servers: %v", d)
	}
	if a, b := fmt.Sprint(capBefore), fmt.Sprint(capacities(c)); a != b {
		x.Violate("effect", "refused uploads use space: %s, then %s", a, b)
	}
	x.Case("refused uploads leave nothing")
	// nothing is enabled that could accept a request
	for _, k := range auRoutes {
		q, ok := a.make(k)
		if !ok {
			return
		}
		a.refused(q, none.do(q.method, q.path, q.body, append(q.hdr, "Authorization", first)...), "authentication on, no method enabled")
		x.Case("no-method " + k)
		// either may accept
		for i, okPw := range []bool{true, false} {
			q, ok := a.make(k)
			if !ok {
				return
			}
			cs := cb.add(auAnswer{code: 403, body: "{}"})
			h := append(append([]string{}, q.hdr...), "X-Case", cs.id)
			if len(q.hdr) == 0 || q.hdr[0] != "Bucket" {
				h = append(h, "Bucket", "b")
			}
			if okPw {
				a.served(q, both.do(q.method, q.path, q.body, append(h, "Authorization", first)...), "both methods, right password")
			} else {
				a.refused(q, both.do(q.method, q.path, q.body, append(h, "Authorization", basic(usr, "no"))...), "both methods, neither accepts")
			}
			x.Case(fmt.Sprintf("both %s %d", k, i))
		}
	}
	x.CheckAlive(c)
}

func c09password(a *auth, pw, pw2 API, good, wrong string) {
	x := a.x
	rng := rand.New(rand.NewSource(x.Seed))
	raw, _ := base64.StdEncoding.DecodeString(strings.TrimPrefix(good, "Basic "))
	u, p, _ := strings.Cut(string(raw), ":")
	forms := auForms(u, p, rng)
	forms["another server's"] = []string{"Authorization", wrong}
	var names []string
	for n := range forms {
		names = append(names, n)
	}
	sort.Strings(names)
	type job struct{ route, form string }
	var jobs []job
	for _, k := range auRoutes {
		for _, f := range names {
			jobs = append(jobs, job{k, f})
		}
	}
	srv := []API{pw, pw2}
	parallel(len(jobs), 8, func(i int) {
		j := jobs[i]
		q, ok := a.make(j.route)
		if !ok {
			return
		}
		s := srv[i%2]
		a.refused(q, s.do(q.method, q.path, q.body, append(append([]string{}, q.hdr...), forms[j.form]...)...), "password authentication, "+j.form)
		x.Case("password " + j.route + " " + j.form)
		if i%3 == 0 { // the same request is served right afterwards on the same connection
			a.served(q, s.do(q.method, q.path, q.body, append(append([]string{}, q.hdr...), "Authorization", good)...), "password authentication, right credentials")
			x.Case("password " + j.route + " right")
		}
	})
	if x.Violated() {
		return
	}
	// other spellings of the path, other methods
	for _, k := range auRoutes {
		q, ok := a.make(k)
		if !ok {
			return
		}
		for n, path := range auVariants(q.path) {
			r := rawRequest(pw.N, q.method, path, q.hdr, q.body)
			a.refused(q, r, "password authentication, no credentials, "+n)
			x.Case("spelling " + k + " " + n)
		}
		for _, mth := range []string{"OPTIONS", "TRACE", "HEAD", "POST", "PUT", "PATCH", "DELETE", "get", "CONNECT", "MKCOL"} {
			if mth == q.method {
				continue
			}
			r := rawRequest(pw.N, mth, q.path, q.hdr, q.body)
			a.refused(q, r, "password authentication, no credentials, method "+mth)
			x.Case("method " + k + " " + mth)
		}
	}
	// many at once, valid and invalid over the same connections
	var bad, fine int64
	parallel(x.Pick(600, 6000), 16, func(i int) {
		h := []string{"Bucket", "b"}
		valid := i%3 == 0
		if valid {
			h = append(h, "Authorization", good)
		} else if i%3 == 1 {
			h = append(h, "Authorization", wrong)
		}
		r := srv[i%2].do("GET", "/v1/objects/secret", nil, h...)
		has := strings.Contains(string(r.Body), "TOP-SECRET")
		if valid != has || valid != (r.Code == 200) {
			x.Violate("concurrent", "concurrent requests: credentials valid: %v, answered %s, content: %v", valid, r, has)
		}
		if valid {
			atomic.AddInt64(&fine, 1)
		} else {
			atomic.AddInt64(&bad, 1)
		}
	})
	x.Case("concurrent mix")
	x.Event("concurrent_valid", fine)
	x.Event("concurrent_invalid", bad)
	// credentials change while the servers run
	key := ""
	for k, v := range a.c.Etcd.List("") {
		if strings.Contains(v, u) && strings.Contains(v, p) {
			key = k
		}
	}
	if key == "" {
		x.Inconclusive("credentials not found in etcd")
		return
	}
	old := good
	for i := 0; i < x.Pick(6, 40); i++ {
		nu, np := fmt.Sprintf("user%d", i), fmt.Sprintf("secret-%d", rng.Int63())
		a.c.Etcd.Put(key, msgpMap("username", nu, "password", np))
		if i%3 == 2 { // configured credentials are not put back by a restart
			pw2.N.Kill9()
			if i%2 == 1 { // they cannot be read at first
				a.c.Etcd.FailNextGet(key, 1)
			}
			restart(pw2.N)
			if !eventually(20*time.Second, func() bool {
				return pw2.do("GET", "/v1/objects/secret", nil, "Bucket", "b", "Authorization", basic(nu, np)).Code == 200
			}) {
				x.Violate("refused-valid", "a restarted server does not serve requests with the right credentials within 20 s")
				return
			}
		}
		k := auRoutes[i%len(auRoutes)]
		for _, s := range srv {
			q, ok := a.make(k)
			if !ok {
				return
			}
			a.refused(q, s.do(q.method, q.path, q.body, append(append([]string{}, q.hdr...), "Authorization", old)...), "password authentication, former credentials")
			a.served(q, s.do(q.method, q.path, q.body, append(append([]string{}, q.hdr...), "Authorization", basic(nu, np))...), "password authentication, changed credentials")
		}
		old = basic(nu, np)
		x.Case(fmt.Sprintf("rotation %s restart=%v", k, i%3 == 2))
	}
	a.c.Etcd.Delete(key)
	for _, k := range auRoutes {
		q, ok := a.make(k)
		if !ok {
			return
		}
		for _, h := range []string{old, good, basic("", "")} {
			a.refused(q, pw.do(q.method, q.path, q.body, append(append([]string{}, q.hdr...), "Authorization", h)...), fmt.Sprintf("password authentication, no credentials exist, %q sent, etcd holds %v", h, a.c.Etcd.List("api")))
		}
		x.Case("no credentials exist " + k)
	}
	a.c.Etcd.Put(key, msgpMap("username", u, "password", p))
}

// msgpMap encodes a map of strings.
func msgpMap(kv ...string) string {
	b := []byte{0x80 | byte(len(kv)/2)}
	for _, s := range kv {
		b = append(b, 0xd9, byte(len(s)))
		b = append(b, s...)
	}
	return string(b)
}

// rawRequest sends a request line exactly as given.
func rawRequest(n *cluster.Node, method, target string, hdr []string, body []byte) Resp {
	conn, err := net.DialTimeout("tcp", n.Addr(), 5*time.Second)
	if err != nil {
		return Resp{Err: err}
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(20 * time.Second))
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\nContent-Length: %d\r\n", method, target, n.Addr(), len(body))
	for i := 0; i+1 < len(hdr); i += 2 {
		fmt.Fprintf(&b, "%s: %s\r\n", hdr[i], hdr[i+1])
	}
	b.WriteString("\r\n")
	io.WriteString(conn, b.String())
	conn.Write(body)
	all, err := io.ReadAll(conn)
	if len(all) == 0 {
		return Resp{Err: fmt.Errorf("no answer: %v", err)}
	}
	head, rest, _ := strings.Cut(string(all), "\r\n\r\n")
	r := Resp{Body: []byte(rest), Header: http.Header{}}
	lines := strings.Split(head, "\r\n")
	if f := strings.Fields(lines[0]); len(f) > 1 {
		r.Code, _ = strconv.Atoi(f[1])
	}
	for _, l := range lines[1:] {
		if k, v, ok := strings.Cut(l, ": "); ok {
			r.Header.Add(k, v)
		}
	}
	return r
}

// the service callbacks go to

type auAnswer struct {
	code  int
	body  string
	drop  bool
	delay time.Duration
}

type auTold struct {
	Bucket   string `json:"bucket"`
	FileName string `json:"file_name"`
	Method   string `json:"method"`
	Version  int    `json:"version"`
	Region   string `json:"region"`
	query    url.Values
}

type auCase struct {
	id     string
	answer auAnswer
	told   []auTold
	policy func(auTold) bool
}

type auCallback struct {
	x     *Ctx
	mu    sync.Mutex
	n     int
	cases map[string]*auCase
}

func (s *auCallback) add(ans auAnswer) *auCase {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	c := &auCase{id: fmt.Sprintf("case-%d", s.n), answer: ans}
	s.cases[c.id] = c
	return c
}

func (s *auCallback) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	var t auTold
	bt, _ := io.ReadAll(r.Body)
	err := json.Unmarshal(bt, &t)
	t.query = r.URL.Query()
	s.mu.Lock()
	c := s.cases[t.query.Get("X-Case")]
	if c == nil || err != nil {
		s.mu.Unlock()
		s.x.Violate("callback-form", "the callback is asked in a form that tells nothing: %s %s %q (%v)", r.Method, r.URL, bt, err)
		w.WriteHeader(403)
		return
	}
	c.told = append(c.told, t)
	ans := c.answer
	if c.policy != nil && !c.policy(t) {
		ans = auAnswer{code: 403, body: `{"message":"policy"}`}
	}
	s.mu.Unlock()
	s.x.Event("callbacks_observed", 1)
	time.Sleep(ans.delay)
	if ans.drop {
		if cn, _, err := w.(http.Hijacker).Hijack(); err == nil {
			cn.Close()
		}
		return
	}
	w.WriteHeader(ans.code)
	io.WriteString(w, ans.body)
}

func c09callback(a *auth, cb *auCallback, s API) {
	x := a.x
	answers := map[string]auAnswer{
		"200":            {code: 200},
		"200 with text":  {code: 200, body: "<html>no json</html>"},
		"200 slowly":     {code: 200, delay: 300 * time.Millisecond},
		"201":            {code: 201},
		"202":            {code: 202, body: `{"message":"later"}`},
		"204":            {code: 204},
		"206":            {code: 206},
		"300":            {code: 300, body: "?"},
		"302":            {code: 302},
		"304":            {code: 304},
		"400":            {code: 400, body: `{"message":"bad"}`},
		"401":            {code: 401},
		"403":            {code: 403, body: "no json"},
		"404":            {code: 404, body: `[1,2`},
		"429":            {code: 429, body: `{"message":5}`},
		"500":            {code: 500, body: `{"message":"bad"}`},
		"503":            {code: 503},
		"no answer":      {drop: true},
		"403 after 0.3s": {code: 403, delay: 300 * time.Millisecond},
	}
	var names []string
	for n := range answers {
		names = append(names, n)
	}
	sort.Strings(names)
	hosts := []string{"", "b.example.com", "other.example.com", "localhost", "10.0.0.1:8080", "secret.b"}
	type job struct {
		route, ans, host string
		withHdr          bool
	}
	var jobs []job
	for ri, k := range auRoutes {
		for i, n := range names {
			jobs = append(jobs, job{k, n, hosts[(ri+i)%len(hosts)], true})
		}
		for _, h := range hosts {
			jobs = append(jobs, job{k, "200", h, true})
		}
	}
	parallel(len(jobs), 8, func(i int) {
		j := jobs[i]
		q, ok := a.make(j.route)
		if !ok {
			return
		}
		cs := cb.add(answers[j.ans])
		h := append(append([]string{}, q.hdr...), "X-Case", cs.id)
		if q.object == "" && (len(q.hdr) == 0 || q.hdr[0] != "Bucket") {
			// requests about a bucket itself carry another bucket's name
			h = append(h, "Bucket", "decoy")
		}
		if j.host != "" {
			h = append(h, "Host", j.host)
		}
		region := []string{"", "north", "süd 2"}[i%3]
		if region != "" {
			h = append(h, "Region", region)
		}
		var sign []string // a configured parameter, in the query, the header, or both
		if i%4 == 1 || i%4 == 3 {
			for _, v := range []string{"q&" + cs.id, "q2"}[:1+i/4%2] {
				sign = append(sign, v)
				sep := "?"
				if strings.Contains(q.path, "?") {
					sep = "&"
				}
				q.path += sep + "sign=" + url.QueryEscape(v)
			}
		}
		if i%4 >= 2 {
			sign = append(sign, "h="+cs.id)
			h = append(h, "sign", "h="+cs.id)
		}
		version := 0
		if u, err := url.Parse(q.path); err == nil {
			version, _ = strconv.Atoi(u.Query().Get("version"))
		}
		why := fmt.Sprintf("callback authentication, host %q, answer %s", j.host, j.ans)
		r := s.do(q.method, q.path, q.body, h...)
		cb.mu.Lock()
		told := append([]auTold(nil), cs.told...)
		cb.mu.Unlock()
		if strings.HasPrefix(j.ans, "200") {
			a.served(q, r, why)
		} else {
			a.refused(q, r, why)
		}
		if len(told) == 0 {
			x.Violate("not-asked", "%s: %s is answered %s without asking the callback", why, q.String(), r)
		}
		for _, t := range told {
			if t.Method != q.method || t.Bucket != q.bucket || q.object != "" && t.FileName != q.object {
				x.Violate("told", "%s: %s about object %q of bucket %q: the callback is told bucket %q, object %q, method %q", why, q.String(), q.object, q.bucket, t.Bucket, t.FileName, t.Method)
			}
			got := append([]string(nil), t.query["sign"]...)
			sort.Strings(got)
			sort.Strings(sign)
			if t.Version != version || t.Region != region || strings.Join(got, "\n") != strings.Join(sign, "\n") {
				x.Violate("told", "%s: %s with version %d, region %q, parameter sign %q: the callback is told version %d, region %q, sign %q", why, q.String(), version, region, sign, t.Version, t.Region, got)
			}
		}
		x.Case(fmt.Sprintf("callback %s %s %q", j.route, j.ans, j.host))
	})
	if x.Violated() {
		return
	}
	// a policy decides by what it is told while the requests of all clients are mixed
	parallel(x.Pick(200, 2000), 12, func(i int) {
		k := auRoutes[i%len(auRoutes)]
		q, ok := a.make(k)
		if !ok {
			return
		}
		cs := cb.add(auAnswer{code: 200})
		allow := i/len(auRoutes)%2 == 0
		cb.mu.Lock()
		cs.policy = func(t auTold) bool {
			return allow && t.Method == q.method && t.Bucket == q.bucket && (q.object == "" || t.FileName == q.object)
		}
		cb.mu.Unlock()
		h := append(append([]string{}, q.hdr...), "X-Case", cs.id)
		if q.object == "" && (len(q.hdr) == 0 || q.hdr[0] != "Bucket") {
			h = append(h, "Bucket", "decoy")
		}
		r := s.do(q.method, q.path, q.body, h...)
		if allow {
			a.served(q, r, "callback authentication, allowed by policy")
		} else {
			a.refused(q, r, "callback authentication, denied by policy")
		}
		x.Case("policy " + k + fmt.Sprint(allow))
	})
}
