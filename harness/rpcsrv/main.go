// Command rpcsrv decides that RPC requests get exactly one matching answer and that bad input
// is contained (C32). The real server runs behind its real transports; streams of valid and
// malformed messages go in over raw connections and every answer is matched with its request.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/net/websocket"

	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/rpc"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

var h *vrep.R

const patience = 40 * time.Second

// ---- the service ----

type Arg struct {
	A int64             `json:"a"`
	B string            `json:"b"`
	C []int64           `json:"c"`
	M map[string]string `json:"m,omitempty"`
}

type Out struct {
	S string `json:"s"`
	N int64  `json:"n"`
	X *Arg   `json:"x"`
}

type Svc struct {
	live  int64 // running subscription feeds
	calls int64
}

type codedErr struct{ code int }

func (e codedErr) Error() string  { return fmt.Sprintf("coded %d", e.code) }
func (e codedErr) ErrorCode() int { return e.code }

func (s *Svc) Echo(a string, n int64, x *Arg) Out {
	atomic.AddInt64(&s.calls, 1)
	return Out{a, n, x}
}
func (s *Svc) Add(a, b int64) (int64, error) { return a + b, nil }
func (s *Svc) Opt(a int64, b *string) string {
	if b == nil {
		return fmt.Sprintf("%d-", a)
	}
	return fmt.Sprintf("%d-%s", a, *b)
}
func (s *Svc) Fail(m string) (*Out, error)  { return &Out{S: "leak"}, errors.New("failed: " + m) }
func (s *Svc) Coded(c int64) (int64, error) { return 0, codedErr{int(c)} }
func (s *Svc) Boom(k int64) int64 {
	switch k % 4 {
	case 0:
		panic("boom")
	case 1:
		var p *Out
		return p.N
	case 2:
		var m map[string]int
		m["a"] = 1
	case 3:
		panic(errors.New("boom"))
	}
	return 0
}
func (s *Svc) Slow(ctx context.Context, ms int64, tag string) string {
	select {
	case <-ctx.Done():
	case <-time.After(time.Duration(ms) * time.Millisecond):
	}
	return tag
}
func (s *Svc) Nothing()           {}
func (s *Svc) Nil() *Out          { return nil }
func (s *Svc) Zero() int64        { return 0 }
func (s *Svc) Big(n int64) string { return strings.Repeat("x", int(n)) }
func (s *Svc) Sum(xs []int64) int64 {
	var t int64
	for _, x := range xs {
		t += x
	}
	return t
}

// Ticks feeds 0, 1, 2, ... to the subscriber at once, without waiting for the confirmation.
func (s *Svc) Ticks(ctx context.Context, base int64, gapUs int64) (*rpc.Subscription, error) {
	n, ok := rpc.NotifierFromContext(ctx)
	if !ok {
		return nil, rpc.ErrNotificationsUnsupported
	}
	sub := n.CreateSubscription()
	atomic.AddInt64(&s.live, 1)
	go func() {
		defer atomic.AddInt64(&s.live, -1)
		for i := base; ; i++ {
			if n.Notify(sub.ID, i) != nil {
				return
			}
			select {
			case <-sub.Err():
				return
			case <-n.Closed():
				return
			case <-time.After(time.Duration(gapUs) * time.Microsecond):
			}
		}
	}()
	return sub, nil
}
func (s *Svc) BadTicks(ctx context.Context) (*rpc.Subscription, error) {
	return nil, errors.New("no ticks")
}
func (s *Svc) BoomTicks(ctx context.Context) (*rpc.Subscription, error) { panic("boom ticks") }

// ---- requests with their predicted answers ----

type want struct {
	id     string // canonical JSON of the id; "" when the answer need not carry one
	result string // canonical JSON of the result
	codes  []int  // acceptable error codes (nil: success)
	msg    string // error message when predicted
	maybe  bool   // no answer is fine too
	sub    bool   // result is a subscription id
	unsub  string // cancels that subscription
	class  string
}

func canon(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return recanon(b)
}

func recanon(b []byte) string {
	var v interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return "?" + string(b)
	}
	o, _ := json.Marshal(v)
	return string(o)
}

type idgen struct {
	g *rand.Rand
	n int
	p string
}

func (x *idgen) next() string {
	x.n++
	switch x.g.Intn(7) {
	case 0:
		return fmt.Sprintf("%d.5", x.n)
	case 1:
		return fmt.Sprintf("-%d", x.n)
	case 2:
		return canon(fmt.Sprintf("%s%d \"\\é世", x.p, x.n))
	case 3:
		return canon(fmt.Sprint(x.n)) // the string "7" is another id than 7
	case 4:
		return fmt.Sprintf("90071992547%05d", x.n) // beyond float precision once longer
	case 5:
		return canon(strings.Repeat("i", 1+x.g.Intn(300)) + fmt.Sprint(x.n))
	}
	return fmt.Sprint(x.n)
}

func str(g *rand.Rand) string {
	al := []rune("abc _\"\\/<>&\u2028\x01é世😀[]{},:")
	n := g.Intn(20)
	o := make([]rune, n)
	for i := range o {
		o[i] = al[g.Intn(len(al))]
	}
	return string(o)
}

func num(g *rand.Rand) int64 {
	switch g.Intn(4) {
	case 0:
		return int64(g.Intn(10))
	case 1:
		return g.Int63() - g.Int63()
	case 2:
		return 1<<53 + int64(g.Intn(5))
	}
	return -int64(g.Intn(1000))
}

func ws(g *rand.Rand) string {
	return []string{"", "", "", " ", "\n", "\t\r\n "}[g.Intn(6)]
}

// text lays a request out with its members in any order.
func text(g *rand.Rand, id, method, params string) string {
	m := []string{`"jsonrpc":` + ws(g) + `"2.0"`, `"method":` + ws(g) + canon(method)}
	if id != "" {
		m = append(m, `"id":`+ws(g)+id)
	}
	if params != "" {
		m = append(m, `"params":`+ws(g)+params)
	}
	if g.Intn(6) == 0 {
		m = append(m, `"extra":{"id":99,"method":"t_boom"}`)
	}
	g.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
	return ws(g) + "{" + ws(g) + strings.Join(m, ","+ws(g)) + ws(g) + "}"
}

func arr(v ...interface{}) string { return canon(v) }

// good makes a request the server must execute.
func good(g *rand.Rand, ids *idgen) (string, *want) {
	w := &want{id: ids.next()}
	set := func(class string, res interface{}) { w.class, w.result = class, canon(res) }
	fail := func(class string, code int, msg string) { w.class, w.codes, w.msg = class, []int{code}, msg }
	var m, p string
	switch g.Intn(14) {
	case 0, 1, 2:
		s, n := str(g), num(g)
		var x *Arg
		if g.Intn(2) == 0 {
			x = &Arg{A: num(g), B: str(g), C: []int64{num(g)}, M: map[string]string{str(g): str(g)}}
		}
		if x == nil && g.Intn(2) == 0 {
			p = arr(s, n)
		} else {
			p = arr(s, n, x)
		}
		m = "t_echo"
		set("echo", Out{s, n, x})
	case 3:
		a, b := num(g), num(g)
		m, p = "t_add", arr(a, b)
		set("add", a+b)
	case 4:
		a, b := num(g), str(g)
		m = "t_opt"
		switch g.Intn(3) {
		case 0:
			p = arr(a)
			set("opt", fmt.Sprintf("%d-", a))
		case 1:
			p = arr(a, nil)
			set("opt", fmt.Sprintf("%d-", a))
		default:
			p = arr(a, b)
			set("opt", fmt.Sprintf("%d-%s", a, b))
		}
	case 5:
		s := str(g)
		m, p = "t_fail", arr(s)
		fail("fail", -32002, "failed: "+s)
	case 6:
		c := -40000 - g.Intn(100)
		m, p = "t_coded", arr(c)
		fail("coded", c, fmt.Sprintf("coded %d", c))
	case 7:
		m, p = "t_boom", arr(g.Intn(4))
		fail("panic", -32001, "")
	case 8:
		ms, tag := g.Intn(30), str(g)
		m, p = "t_slow", arr(ms, tag)
		set("slow", tag)
	case 9:
		m = []string{"t_nothing", "t_nil"}[g.Intn(2)]
		p = []string{"", "[]"}[g.Intn(2)]
		set("null", nil)
	case 10:
		m, p = "t_zero", []string{"", "[]"}[g.Intn(2)]
		set("zero", 0)
	case 11:
		n := g.Intn(3000)
		if g.Intn(20) == 0 {
			n = 300000
		}
		m, p = "t_big", arr(n)
		set("big", strings.Repeat("x", n))
	case 12:
		n := g.Intn(200)
		xs := make([]int64, n)
		var t int64
		for i := range xs {
			xs[i] = int64(g.Intn(1000))
			t += xs[i]
		}
		m, p = "t_sum", canon([]interface{}{xs})
		set("sum", t)
	case 13:
		m, p = "u_add", arr(3, 4)
		set("second service", 7)
	}
	return text(g, w.id, m, p), w
}

// bad makes a request that must be refused with an error of its own.
func bad(g *rand.Rand, ids *idgen) (string, *want) {
	id := ids.next()
	e := func(class string, codes ...int) *want { return &want{id: id, class: class, codes: codes} }
	loose := func(class string) *want { return &want{class: class, codes: []int{-32600, -32700}} }
	pick := func(s ...string) string { return s[g.Intn(len(s))] }
	switch g.Intn(13) {
	case 0:
		return text(g, id, pick("t_none", "x_add", "t_Echo", "t_", "_add", "t_ticks"), pick("", "[]", "[1,2]")), e("unknown method", -32601)
	case 1:
		return text(g, id, pick("add", "", "t_add_x", "_", "__", "t-add", "t_add_"), pick("", "[]", "[1,2]")), e("misshapen method", -32601)
	case 2:
		return text(g, id, pick("t_add", "t_echo", "t_sum"), pick(`{"a":1}`, `"x"`, "5", "true", "null")), e("params not a list", -32602)
	case 3:
		return text(g, id, "t_add", pick(`["a",1]`, "[1,2,3]", "[1]", "[]", "[1.5,2]", "[99999999999999999999,1]", "[{},1]", "[[1],2]")), e("wrong params", -32602)
	case 4:
		return text(g, id, "t_echo", pick(`["a"]`, `[1,2]`, `["a",1,[]]`, `["a",1,{"a":"x"}]`, `["a",1,null,4]`)), e("wrong params", -32602)
	case 5:
		return text(g, id, "t_add", ""), e("missing params", -32602)
	case 6:
		w := loose("no id")
		w.maybe = true
		return text(g, "", "t_add", "[1,2]"), w
	case 7:
		return text(g, pick("{}", "[1]", "true", "false"), "t_add", "[1,2]"), loose("bad id")
	case 8:
		return `{"jsonrpc":"2.0","id":` + id + `,"method":` + pick("5", "{}", "[]", "true") + `,"params":[1,2]}`, loose("method not a string")
	case 9:
		return pick("5", `"t_add"`, "true", "null", "{}", "1.5e3"), loose("not a request")
	case 10:
		return text(g, id, "t_subscribe", pick("", "[5]", `{"a":1}`, `"ticks"`, "null")), &want{id: id, class: "bad subscribe", codes: []int{-32600, -32601, -32602}}
	case 11:
		return text(g, id, pick("t_subscribe", "x_subscribe"), pick(`["nope"]`, `["nope",1]`)), e("unknown subscription", -32601)
	default:
		return text(g, id, "t_unsubscribe", pick("", "[]", "[5]", `{"a":1}`)), e("bad unsubscribe", -32602)
	}
}

func special(g *rand.Rand, ids *idgen, subs bool) (string, *want) {
	id := ids.next()
	switch g.Intn(4) {
	case 0:
		return text(g, id, "t_subscribe", `["badTicks"]`), &want{id: id, class: "failing subscription", codes: []int{-32002}}
	case 1:
		return text(g, id, "t_subscribe", `["boomTicks"]`), &want{id: id, class: "panicking subscription", codes: []int{-32001}}
	case 2:
		return text(g, id, "t_unsubscribe", `["0xdead"]`), &want{id: id, class: "unsubscribe nothing", codes: []int{-32002}}
	}
	if !subs {
		return text(g, id, "t_subscribe", `["ticks",0,1000]`), &want{id: id, class: "subscribe without a stream", codes: []int{-32002}}
	}
	return text(g, id, "t_subscribe", arr("ticks", g.Intn(100), 50+g.Intn(3000))), &want{id: id, class: "subscribe", sub: true}
}

// ---- answers ----

type answer struct {
	Version *string         `json:"jsonrpc"`
	ID      json.RawMessage `json:"id"`
	Result  json.RawMessage `json:"result"`
	Error   *struct {
		Code    int    `json:"code"`
		Message string `json:"message"`
	} `json:"error"`
	Method string `json:"method"`
	Params *struct {
		Subscription string `json:"subscription"`
		Result       int64  `json:"result"`
	} `json:"params"`
}

func (a *answer) key() string {
	if len(a.ID) == 0 || string(a.ID) == "null" {
		return ""
	}
	return recanon(a.ID)
}

func judge(a *answer, w *want) string {
	if a.Version == nil || *a.Version != "2.0" {
		return "no protocol version"
	}
	if w.codes != nil {
		if a.Error == nil {
			return fmt.Sprintf("result %.80s instead of an error %v", a.Result, w.codes)
		}
		if len(a.Result) != 0 && string(a.Result) != "null" {
			return "both a result and an error"
		}
		for _, c := range w.codes {
			if c == a.Error.Code {
				if w.msg != "" && w.msg != a.Error.Message {
					return fmt.Sprintf("error message %q instead of %q", a.Error.Message, w.msg)
				}
				return ""
			}
		}
		return fmt.Sprintf("error %d (%s) instead of %v", a.Error.Code, a.Error.Message, w.codes)
	}
	if a.Error != nil {
		return fmt.Sprintf("error %d (%s) instead of a result", a.Error.Code, a.Error.Message)
	}
	if a.Result == nil {
		return "neither result nor error"
	}
	if w.sub {
		return ""
	}
	if got := recanon(a.Result); got != w.result {
		return fmt.Sprintf("result %.120s instead of %.120s", got, w.result)
	}
	return ""
}

// link is one connection of a client: sends messages, gives back messages.
type link interface {
	send(parts ...string) error
	recv() ([]byte, error)
	close()
}

type wsLink struct{ c *websocket.Conn }

func (l *wsLink) send(parts ...string) error {
	for _, p := range parts {
		if err := websocket.Message.Send(l.c, p); err != nil {
			return err
		}
	}
	return nil
}
func (l *wsLink) recv() ([]byte, error) {
	var b []byte
	err := websocket.Message.Receive(l.c, &b)
	return b, err
}
func (l *wsLink) close() { l.c.Close() }

type rawLink struct {
	c   net.Conn
	dec *json.Decoder
	g   *rand.Rand
}

func (l *rawLink) send(parts ...string) error {
	s := strings.Join(parts, "\n") + "\n"
	for len(s) > 0 {
		n := len(s)
		if l.g.Intn(2) == 0 {
			n = 1 + l.g.Intn(len(s))
		}
		if _, err := io.WriteString(l.c, s[:n]); err != nil {
			return err
		}
		s = s[n:]
	}
	return nil
}
func (l *rawLink) recv() ([]byte, error) {
	var m json.RawMessage
	err := l.dec.Decode(&m)
	return m, err
}
func (l *rawLink) close() { l.c.Close() }

// site is a server with its transports.
type site struct {
	srv  *rpc.Server
	svc  *Svc
	http *httptest.Server
	ws   *httptest.Server
	ipc  net.Listener
	dir  string
}

type Second struct{}

func (Second) Add(a, b int64) int64 { return a + b }

func open() *site {
	s := &site{srv: rpc.NewServer(), svc: &Svc{}}
	if err := s.srv.RegisterName("t", s.svc); err != nil {
		panic(err)
	}
	if err := s.srv.RegisterName("u", Second{}); err != nil {
		panic(err)
	}
	s.http = httptest.NewServer(s.srv)
	s.ws = httptest.NewServer(s.srv.WebsocketHandler([]string{"*"}))
	d, err := os.MkdirTemp("", "vrpc-")
	if err != nil {
		panic(err)
	}
	s.dir = d
	s.ipc, err = net.Listen("unix", filepath.Join(d, "s"))
	if err != nil {
		panic(err)
	}
	go s.srv.ServeListener(s.ipc)
	return s
}

func (s *site) shut() {
	s.srv.Stop()
	s.ipc.Close()
	s.http.CloseClientConnections()
	s.ws.CloseClientConnections()
	s.http.Close()
	s.ws.Close()
	os.RemoveAll(s.dir)
}

func (s *site) dial(kind string, g *rand.Rand) (link, error) {
	switch kind {
	case "ws":
		u := strings.Replace(s.ws.URL, "http", "ws", 1)
		c, err := websocket.Dial(u, "", "http://localhost")
		if err != nil {
			return nil, err
		}
		return &wsLink{c}, nil
	case "ipc":
		c, err := net.Dial("unix", filepath.Join(s.dir, "s"))
		if err != nil {
			return nil, err
		}
		return &rawLink{c, json.NewDecoder(c), g}, nil
	default:
		a, b := net.Pipe()
		go s.srv.ServeCodec(rpc.NewJSONCodec(a), rpc.OptionMethodInvocation|rpc.OptionSubscriptions)
		return &rawLink{b, json.NewDecoder(b), g}, nil
	}
}

// ---- one connection's history ----

type feed struct {
	next  int64
	first bool
	seen  int
	done  bool // unsubscribe was answered
}

type conn struct {
	c    string // case
	kind string
	l    link

	mu      sync.Mutex
	cond    *sync.Cond
	open    map[string]*want   // awaited single answers
	batches map[string][]*want // awaited batches by any of their ids
	anon    int                // answers without id that may come
	anonMin int                // ... and must come
	feeds   map[string]*feed
	early   map[string]bool
	nSub    int
	down    error
	bye     bool
	answers int
	batchN  int
}

func (x *conn) fail(key, f string, a ...interface{}) {
	h.Violate(x.c, "rpc "+key, "%s: %s", x.kind, fmt.Sprintf(f, a...))
}

func (x *conn) expect(w *want) {
	x.mu.Lock()
	if w.id == "" {
		x.anon++
		if !w.maybe {
			x.anonMin++
		}
	} else {
		x.open[recanon([]byte(w.id))] = w
	}
	x.mu.Unlock()
	h.Count("requests "+w.class, 1)
}

func (x *conn) one(a *answer, w *want) {
	if e := judge(a, w); e != "" {
		x.fail("wrong answer to "+w.class, "%s", e)
		return
	}
	h.Eval(x.kind+"/"+w.class, true)
	x.answers++
	if w.sub {
		var id string
		json.Unmarshal(a.Result, &id)
		if id == "" {
			x.fail("subscription without id", "%s", a.Result)
			return
		}
		if x.feeds[id] != nil {
			x.fail("subscription id reused", "%s", id)
		}
		x.feeds[id] = &feed{}
		x.nSub++
	}
	if w.unsub != "" {
		x.feeds[w.unsub].done = true
	}
}

func (x *conn) read() {
	for {
		m, err := x.l.recv()
		x.mu.Lock()
		if err != nil {
			x.down = err
			x.cond.Broadcast()
			x.mu.Unlock()
			return
		}
		x.take(m)
		x.cond.Broadcast()
		x.mu.Unlock()
	}
}

func (x *conn) take(m []byte) {
	t := bytes.TrimSpace(m)
	if len(t) > 0 && t[0] == '[' {
		var as []*answer
		if err := json.Unmarshal(t, &as); err != nil {
			x.fail("unreadable batch answer", "%v: %.200s", err, t)
			return
		}
		var ws []*want
		for _, a := range as {
			if k := a.key(); k != "" {
				ws = x.batches[k]
				break
			}
		}
		if ws == nil {
			x.fail("batch answer to nothing", "%.200s", t)
			return
		}
		if bad := x.batch(as, ws); bad != "" {
			x.fail("batch answer", "%s", bad)
		}
		for _, w := range ws {
			if w.id != "" {
				delete(x.batches, recanon([]byte(w.id)))
			}
		}
		x.batchN++
		return
	}
	a := new(answer)
	if err := json.Unmarshal(t, a); err != nil {
		x.fail("unreadable answer", "%v: %.200s", err, t)
		return
	}
	if a.Method != "" {
		x.notified(a)
		return
	}
	k := a.key()
	if k == "" {
		if a.Error == nil {
			x.fail("answer without id", "%.200s", t)
		}
		x.anon--
		if x.anonMin > 0 {
			x.anonMin--
		}
		if x.anon < 0 {
			x.fail("error answer to nothing", "%.200s", t)
		}
		return
	}
	w := x.open[k]
	if w == nil {
		if x.batches[k] != nil {
			x.fail("request of a batch answered alone", "%.200s", t)
		} else {
			x.fail("second answer or unknown id", "%.200s", t)
		}
		return
	}
	delete(x.open, k)
	x.one(a, w)
}

func (x *conn) batch(as []*answer, ws []*want) string {
	by := map[string]*want{}
	anon, anonMin := 0, 0
	for _, w := range ws {
		if w.id == "" {
			anon++
			if !w.maybe {
				anonMin++
			}
			continue
		}
		by[recanon([]byte(w.id))] = w
	}
	got := 0
	for _, a := range as {
		k := a.key()
		if k == "" {
			got++
			if a.Error == nil {
				return "result without id"
			}
			continue
		}
		w := by[k]
		if w == nil {
			return fmt.Sprintf("answers id %s twice or unasked", k)
		}
		delete(by, k)
		x.one(a, w)
	}
	for k, w := range by {
		return fmt.Sprintf("%d of %d requests answered; none for id %s (%s)", len(as), len(ws), k, w.class)
	}
	if got < anonMin || got > anon {
		return fmt.Sprintf("%d answers without id for %d..%d such requests", got, anonMin, anon)
	}
	return ""
}

func (x *conn) notified(a *answer) {
	if a.Method != "t_subscription" || a.Params == nil {
		x.fail("notification form", "%s", a.Method)
		return
	}
	f := x.feeds[a.Params.Subscription]
	if f == nil {
		x.fail("notification before confirmation", "subscription %s", a.Params.Subscription)
		x.feeds[a.Params.Subscription] = &feed{done: true}
		return
	}
	if f.done {
		x.fail("notification after unsubscribing", "subscription %s", a.Params.Subscription)
		return
	}
	v := a.Params.Result
	if f.first && v != f.next {
		x.fail("notifications lost or reordered", "%d after %d", v, f.next-1)
	}
	f.first, f.next = true, v+1
	f.seen++
	h.Count("notifications", 1)
}

// until waits for a condition on the connection; false when it does not come.
func (x *conn) until(what string, ok func() bool) bool {
	end := time.Now().Add(patience)
	t := time.AfterFunc(patience, func() { x.mu.Lock(); x.cond.Broadcast(); x.mu.Unlock() })
	defer t.Stop()
	x.mu.Lock()
	defer x.mu.Unlock()
	for !ok() {
		if x.down != nil {
			if !x.bye {
				x.fail("connection closed", "while waiting for %s: %v", what, x.down)
			}
			return false
		}
		if time.Now().After(end) {
			x.fail("no answer", "after %v: %s", patience, what)
			return false
		}
		x.cond.Wait()
	}
	return true
}

func (x *conn) pending() string {
	x.mu.Lock()
	defer x.mu.Unlock()
	for k, w := range x.open {
		return fmt.Sprintf("%s (%s)", k, w.class)
	}
	for k := range x.batches {
		return "batch with " + k
	}
	return ""
}

func start(c, kind string, l link) *conn {
	x := &conn{c: c, kind: kind, l: l, open: map[string]*want{}, batches: map[string][]*want{}, feeds: map[string]*feed{}}
	x.cond = sync.NewCond(&x.mu)
	go x.read()
	return x
}

// settled is true when everything awaited has come.
func (x *conn) settled() bool { return len(x.open) == 0 && len(x.batches) == 0 && x.anonMin == 0 }

func (x *conn) message(g *rand.Rand, ids *idgen) string {
	req := func() (string, *want) {
		switch k := g.Intn(20); {
		case k < 12:
			return good(g, ids)
		case k < 18:
			return bad(g, ids)
		default:
			return special(g, ids, true)
		}
	}
	if g.Intn(5) > 0 {
		t, w := req()
		x.expect(w)
		return t
	}
	n := 1 + g.Intn(8)
	var ts []string
	var ws []*want
	for i := 0; i < n; i++ {
		t, w := req()
		ts, ws = append(ts, t), append(ws, w)
	}
	for { // a batch is recognised by an id
		named := false
		for _, w := range ws {
			named = named || w.id != ""
		}
		if named {
			break
		}
		t, w := good(g, ids)
		ts, ws = append(ts, t), append(ws, w)
	}
	x.mu.Lock()
	for _, w := range ws {
		if w.id != "" {
			x.batches[recanon([]byte(w.id))] = ws
		}
		h.Count("requests in batches", 1)
	}
	x.mu.Unlock()
	return "[" + strings.Join(ts, ",") + "]"
}

// stream drives one connection: pipelined messages, then subscriptions, then the end.
func stream(c, kind string, s *site, g *rand.Rand, n int) {
	l, err := s.dial(kind, g)
	if err != nil {
		h.Violate(c, "rpc dial", "%s: %v", kind, err)
		return
	}
	x := start(c, kind, l)
	defer func() {
		x.mu.Lock()
		x.bye = true
		x.mu.Unlock()
		l.close()
	}()
	ids := &idgen{g: g, p: kind}
	for i := 0; i < n; {
		k := 1 + g.Intn(6)
		var parts []string
		for j := 0; j < k; j++ {
			parts = append(parts, x.message(g, ids))
		}
		i += k
		if err := l.send(parts...); err != nil {
			x.until("sending", func() bool { return false })
			return
		}
		h.Count("messages", int64(k))
		if g.Intn(3) == 0 {
			if !x.until(x.pending(), x.settled) {
				return
			}
		}
		if g.Intn(4) == 0 && !x.cancel(g, ids) {
			return
		}
	}
	if !x.until(x.pending(), x.settled) {
		return
	}
	// the feeds go on until they are cancelled, and stop then
	x.mu.Lock()
	var live []*feed
	for _, f := range x.feeds {
		if !f.done {
			live = append(live, f)
		}
	}
	x.mu.Unlock()
	for _, f := range live {
		f := f
		if !x.until("notifications", func() bool { return f.seen >= 2 }) {
			return
		}
	}
	for i := 0; i < 3; i++ {
		if !x.cancel(g, ids) {
			return
		}
	}
	w := &want{id: `"last"`, class: "echo", result: canon(Out{"a", 1, nil})}
	x.expect(w)
	if l.send(text(g, w.id, "t_echo", `["a",1]`)) != nil || !x.until("the last request", x.settled) {
		return
	}
	x.mu.Lock()
	h.Count("answers", int64(x.answers))
	h.Count("batches answered", int64(x.batchN))
	h.Count("subscriptions", int64(x.nSub))
	h.Count("connections "+kind, 1)
	x.mu.Unlock()
	if kind != "ws" && g.Intn(2) == 0 { // text that is no JSON: what came before is still answered
		var parts []string
		for j := 0; j < 3; j++ {
			t, w := good(g, ids)
			x.expect(w)
			parts = append(parts, t)
		}
		x.mu.Lock()
		x.anon++
		x.mu.Unlock()
		if l.send(append(parts, `{"jsonrpc":}`)...) == nil {
			x.until("requests before broken text", x.settled)
			h.Count("broken text after requests", 1)
		}
	}
}

// cancel ends one live subscription.
func (x *conn) cancel(g *rand.Rand, ids *idgen) bool {
	x.mu.Lock()
	id := ""
	for k, f := range x.feeds {
		if !f.done && f.seen > 0 { // once a notification came the subscription is certainly active
			id = k
			break
		}
	}
	x.mu.Unlock()
	if id == "" {
		return true
	}
	w := &want{id: ids.next(), class: "unsubscribe", result: "true", unsub: id}
	x.expect(w)
	if x.l.send(text(g, w.id, "t_unsubscribe", arr(id))) != nil {
		return false
	}
	if !x.until("unsubscribe", func() bool { return x.open[recanon([]byte(w.id))] == nil }) {
		return false
	}
	w2 := &want{id: ids.next(), class: "unsubscribe twice", codes: []int{-32002}}
	x.expect(w2)
	return x.l.send(text(g, w2.id, "t_unsubscribe", arr(id))) == nil
}

// posts drives the HTTP side.
func posts(c string, s *site, g *rand.Rand, n int) {
	cl := &http.Client{Timeout: patience}
	ids := &idgen{g: g, p: "http"}
	for i := 0; i < n; i++ {
		x := &conn{c: c, kind: "http", open: map[string]*want{}, batches: map[string][]*want{}, feeds: map[string]*feed{}}
		req := func() (string, *want) {
			switch k := g.Intn(20); {
			case k < 12:
				return good(g, ids)
			case k < 18:
				return bad(g, ids)
			default:
				for {
					t, w := special(g, ids, false)
					if w.class == "unsubscribe nothing" || w.class == "subscribe without a stream" || w.class == "failing subscription" || w.class == "panicking subscription" {
						return t, w
					}
				}
			}
		}
		var body string
		var ws []*want
		isBatch := g.Intn(4) == 0
		if isBatch {
			var ts []string
			for j := 0; j < 1+g.Intn(8); j++ {
				t, w := req()
				ts, ws = append(ts, t), append(ws, w)
			}
			body = "[" + strings.Join(ts, ",") + "]"
		} else {
			t, w := req()
			body, ws = t, []*want{w}
		}
		r, err := cl.Post(s.http.URL, "application/json", strings.NewReader(body))
		if err != nil {
			x.fail("request failed", "%v", err)
			return
		}
		b, err := io.ReadAll(r.Body)
		r.Body.Close()
		if err != nil || r.StatusCode != 200 {
			x.fail("request failed", "status %d %v", r.StatusCode, err)
			return
		}
		d := json.NewDecoder(bytes.NewReader(b))
		var m, rest json.RawMessage
		if err := d.Decode(&m); err != nil {
			if len(ws) == 1 && ws[0].maybe {
				continue
			}
			x.fail("no answer", "%v to %.200s", err, body)
			return
		}
		if d.Decode(&rest) != io.EOF {
			x.fail("second answer", "%.200s", b)
		}
		if isBatch {
			var as []*answer
			if err := json.Unmarshal(m, &as); err != nil {
				x.fail("batch answer", "%v: %.200s", err, m)
				continue
			}
			if e := x.batch(as, ws); e != "" {
				x.fail("batch answer", "%s", e)
			}
			h.Count("batches answered", 1)
		} else {
			a := new(answer)
			if err := json.Unmarshal(m, a); err != nil {
				x.fail("unreadable answer", "%v: %.200s", err, m)
				continue
			}
			if ws[0].id != "" && a.key() != recanon([]byte(ws[0].id)) {
				x.fail("wrong id", "%s instead of %s (%s)", a.ID, ws[0].id, ws[0].class)
			}
			x.one(a, ws[0])
		}
		h.Count("posts", 1)
	}
	// what is no request at all
	for _, t := range []string{"", "{", "[", "[1", `{"a"}`, "\x00", "[{]", `{"id":1,"method":"t_add","params":[1,2]`} {
		r, err := cl.Post(s.http.URL, "application/json", strings.NewReader(t))
		if err != nil {
			h.Violate(c, "rpc broken post", "%v for %q", err, t)
			continue
		}
		b, _ := io.ReadAll(r.Body)
		r.Body.Close()
		if t == "" {
			continue
		}
		a := new(answer)
		if json.Unmarshal(b, a) != nil || a.Error == nil {
			h.Violate(c, "rpc broken post", "%q answered with %.200q", t, b)
		}
		h.Count("broken posts", 1)
	}
	if r, err := cl.Post(s.http.URL, "text/plain", strings.NewReader(`{"jsonrpc":"2.0","id":1,"method":"t_add","params":[1,2]}`)); err == nil {
		if r.StatusCode == 200 {
			h.Violate(c, "rpc content type", "text/plain was served")
		}
		r.Body.Close()
	}
}

// rude sends requests and leaves, or does not read for a while.
func rude(c string, s *site, kind string, g *rand.Rand) {
	l, err := s.dial(kind, g)
	if err != nil {
		return
	}
	var parts []string
	ids := &idgen{g: g, p: "rude"}
	for i := 0; i < 1+g.Intn(6); i++ {
		t, _ := good(g, ids)
		parts = append(parts, t)
	}
	parts = append(parts, text(g, ids.next(), "t_big", arr(300000)), text(g, ids.next(), "t_subscribe", arr("ticks", 0, 50)))
	done := make(chan struct{})
	pause := time.Duration(g.Intn(30)) * time.Millisecond
	go func() { l.send(parts...); close(done) }()
	time.Sleep(pause)
	l.close()
	<-done
	h.Count("connections dropped", 1)
}

// callers use the package's own client, many goroutines on one connection.
func callers(c string, s *site, g *rand.Rand, kind string, n int) {
	var cl *rpc.Client
	var err error
	switch kind {
	case "http":
		cl, err = rpc.DialHTTP(s.http.URL)
	case "ws":
		cl, err = rpc.DialWebsocket(context.Background(), strings.Replace(s.ws.URL, "http", "ws", 1), "http://localhost")
	case "ipc":
		cl, err = rpc.DialIPC(context.Background(), filepath.Join(s.dir, "s"))
	default:
		cl = rpc.DialInProc(s.srv)
	}
	if err != nil {
		h.Violate(c, "rpc dial", "%s: %v", kind, err)
		return
	}
	defer cl.Close()
	seeds := make([]int64, 4)
	for i := range seeds {
		seeds[i] = g.Int63()
	}
	vrep.Parallel(len(seeds), len(seeds), func(w int) {
		g := rand.New(rand.NewSource(seeds[w]))
		fail := func(key, f string, a ...interface{}) {
			h.Violate(c, "rpc client "+key, "%s: %s", kind, fmt.Sprintf(f, a...))
		}
		for i := 0; i < n; i++ {
			ctx, cancel := context.WithTimeout(context.Background(), patience)
			switch g.Intn(7) {
			case 0, 1:
				s, k := str(g), num(g)
				var o Out
				if err := cl.CallContext(ctx, &o, "t_echo", s, k, &Arg{A: k, B: s}); err != nil {
					fail("call", "echo: %v", err)
				} else if o.S != s || o.N != k || o.X == nil || o.X.A != k {
					fail("answer", "%+v instead of %q %d", o, s, k)
				}
			case 2:
				m := str(g)
				err := cl.CallContext(ctx, nil, "t_fail", m)
				if err == nil || err.Error() != "failed: "+m {
					fail("error", "%v instead of failed: %s", err, m)
				}
			case 3:
				var t string
				tag := str(g)
				if err := cl.CallContext(ctx, &t, "t_slow", g.Intn(10), tag); err != nil || t != tag {
					fail("answer", "%q instead of %q", t, tag)
				}
			case 4:
				var o []rpc.BatchElem
				for j := 0; j < 1+g.Intn(5); j++ {
					a, b := num(g), num(g)
					o = append(o, rpc.BatchElem{Method: "t_add", Args: []interface{}{a, b}, Result: new(int64)})
					if g.Intn(4) == 0 {
						o = append(o, rpc.BatchElem{Method: "t_nope", Result: new(int64)})
					}
				}
				if err := cl.BatchCallContext(ctx, o); err != nil {
					fail("batch", "%v", err)
					break
				}
				for _, e := range o {
					if e.Method == "t_nope" {
						if e.Error == nil {
							fail("batch element", "no error for an unknown method")
						}
						continue
					}
					if e.Error != nil || *(e.Result.(*int64)) != e.Args[0].(int64)+e.Args[1].(int64) {
						fail("batch element", "%v+%v = %d %v", e.Args[0], e.Args[1], *(e.Result.(*int64)), e.Error)
					}
				}
			case 5:
				if kind == "http" {
					break
				}
				ch := make(chan int64)
				sub, err := cl.Subscribe(ctx, "t", ch, "ticks", 0, 100+g.Intn(1000))
				if err != nil {
					fail("subscribe", "%v", err)
					break
				}
				last := int64(-1)
				for k := 0; k < 1+g.Intn(5); k++ {
					select {
					case v := <-ch:
						if last >= 0 && v != last+1 {
							fail("notification", "%d after %d", v, last)
						}
						last = v
					case err := <-sub.Err():
						fail("subscription", "ended: %v", err)
					case <-ctx.Done():
						fail("notification", "none came")
					}
				}
				sub.Unsubscribe()
				h.Count("client subscriptions", 1)
			case 6:
				if err := cl.CallContext(ctx, nil, "t_boom", g.Intn(4)); err == nil {
					fail("error", "a panicking method succeeded")
				}
			}
			cancel()
			h.Count("client calls", 1)
			h.Eval("client/"+kind, true)
		}
	})
	// Callers that give up may cost the others their connection, never their answer: a call
	// ends with its own result or an error, in time.
	vrep.Parallel(len(seeds), len(seeds), func(w int) {
		g := rand.New(rand.NewSource(seeds[w] + 1))
		for i := 0; i < n; i++ {
			limit := patience
			if g.Intn(3) == 0 {
				limit = time.Duration(g.Intn(3000)) * time.Microsecond
			}
			ctx, cancel := context.WithTimeout(context.Background(), limit)
			var t string
			tag := str(g) + fmt.Sprint(w, i)
			err := cl.CallContext(ctx, &t, "t_slow", g.Intn(4), tag)
			switch {
			case err == nil && t != tag:
				h.Violate(c, "rpc client answer", "%s: %q instead of %q", kind, t, tag)
			case limit == patience && ctx.Err() != nil:
				h.Violate(c, "rpc client call hangs", "%s: no answer and no error within %v", kind, patience)
			case err != nil:
				h.Count("client calls given up", 1)
			}
			cancel()
			h.Eval("client giving up/"+kind, true)
		}
	})
}

func run(i int) {
	c := fmt.Sprintf("s%d", i)
	if !h.Want(c) || h.OverBudget() || h.NumViolations() > 8 {
		return
	}
	g := h.Rand(c)
	s := open()
	var wg sync.WaitGroup
	spawn := func(f func(g *rand.Rand)) {
		sub := rand.New(rand.NewSource(g.Int63()))
		wg.Add(1)
		go func() { defer wg.Done(); f(sub) }()
	}
	n := h.Scale(60, 120)
	for _, k := range []string{"ws", "ipc", "pipe"} {
		k := k
		for j := 0; j < 2; j++ {
			spawn(func(g *rand.Rand) { stream(c, k, s, g, n) })
		}
		spawn(func(g *rand.Rand) {
			for j := 0; j < 3; j++ {
				rude(c, s, k, g)
			}
		})
		spawn(func(g *rand.Rand) { callers(c, s, g, k, n/6) })
	}
	for j := 0; j < 2; j++ {
		spawn(func(g *rand.Rand) { posts(c, s, g, n) })
	}
	spawn(func(g *rand.Rand) { callers(c, s, g, "http", n/6) })
	wg.Wait()
	end := time.Now().Add(patience)
	for atomic.LoadInt64(&s.svc.live) != 0 {
		if time.Now().After(end) {
			h.Violate(c, "rpc subscription outlives its connection", "%d feeds still run", atomic.LoadInt64(&s.svc.live))
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	// stopping with requests in flight
	l, err := s.dial("ipc", g)
	if err == nil {
		go func() {
			for {
				if _, err := l.recv(); err != nil {
					return
				}
			}
		}()
		l.send(text(g, "1", "t_slow", `[20,"a"]`), text(g, "2", "t_subscribe", `["ticks",0,50]`))
		time.Sleep(time.Duration(g.Intn(10)) * time.Millisecond)
	}
	s.shut()
	if err == nil {
		l.close()
	}
	h.Count("servers", 1)
}

func main() {
	log15.Root().SetHandler(log15.DiscardHandler())
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	out := os.Stdout
	os.Stdout = devnull // the server prints a banner
	h = vrep.Open("C32", "a request that is answered never, twice, with another id, or with another result or error than its method gives; a batch answered in part; a notification outside its subscription; a server that stops serving or dies of malformed input or a failing method")
	h.Assume("text that is no JSON may end its connection after the requests before it are answered; null for a required argument, surplus arguments of methods without any, results that cannot be encoded and empty batches are not judged")
	vrep.Parallel(h.Scale(24, 400), 3, run)
	os.Stdout = out
	h.Close()
}
