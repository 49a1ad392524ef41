package checks

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"strings"
	"sync"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/nodeclient"

	"verif.local/mc/gen"
)

// sent is a request the client made.
type sent struct {
	method, path, query string
	header              http.Header
	body                []byte
}

// answer is what the node replies.
type answer struct {
	status int
	header map[string]string
	body   []byte
	err    error // the connection fails before any answer
	cut    bool  // the connection breaks after the body
}

// wire stands in for the network.
type wire struct {
	mu    sync.Mutex
	reqs  []*sent
	reply func(n int, r *sent) answer
}

var errWire = errors.New("connection broken")

type cutBody struct{ r io.Reader }

func (b *cutBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errWire
	}
	return n, err
}
func (b *cutBody) Close() error { return nil }

func (w *wire) RoundTrip(req *http.Request) (*http.Response, error) {
	s := &sent{method: req.Method, path: req.URL.EscapedPath(), query: req.URL.RawQuery, header: req.Header.Clone()}
	if req.URL.User != nil {
		p, _ := req.URL.User.Password()
		s.header.Set("X-User", req.URL.User.Username()+":"+p)
	}
	if req.Body != nil {
		s.body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	w.mu.Lock()
	n := len(w.reqs)
	w.reqs = append(w.reqs, s)
	w.mu.Unlock()
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	a := w.reply(n, s)
	if a.err != nil {
		return nil, a.err
	}
	h := http.Header{}
	for k, v := range a.header {
		h.Set(k, v)
	}
	var body io.ReadCloser = io.NopCloser(bytes.NewReader(a.body))
	if a.cut {
		body = &cutBody{bytes.NewReader(a.body)}
	}
	return &http.Response{StatusCode: a.status, Status: http.StatusText(a.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: body, ContentLength: -1, Request: req}, nil
}

// since forgets all requests and returns them.
func (w *wire) drain() []*sent {
	w.mu.Lock()
	defer w.mu.Unlock()
	r := w.reqs
	w.reqs = nil
	return r
}

// nodeInfo is the info of a node with the parameters of e.
func nodeInfo(e *gen.Env, com iotago.CommitmentID) *api.InfoResponse {
	t := time.Unix(1, 2).UTC()
	return &api.InfoResponse{Name: "node", Version: "1", Status: &api.InfoResNodeStatus{AcceptedTangleTime: t, RelativeAcceptedTangleTime: t, ConfirmedTangleTime: t, RelativeConfirmedTangleTime: t, LatestCommitmentID: com},
		ProtocolParameters: []*api.InfoResProtocolParameters{{StartEpoch: 0, Parameters: e.API.ProtocolParameters()}}, BaseToken: &api.InfoResBaseToken{Name: "t", TickerSymbol: "T", Unit: "u", Decimals: 3}}
}

// jsonOf is the JSON form of an API message.
func jsonOf(e *gen.Env, v any) []byte {
	b, err := e.API.JSONEncode(v)
	if err != nil {
		panic(err)
	}
	return b
}

// newClient makes a client that talks over a wire; setReply replaces the reply function.
func newClient(e *gen.Env, opts ...nodeclient.ClientOption) (*nodeclient.Client, *wire) {
	w := &wire{}
	info := jsonOf(e, nodeInfo(e, commitID(1, 3)))
	w.reply = func(int, *sent) answer { return answer{status: 200, body: info} }
	cl, err := nodeclient.New("http://node:1", append([]nodeclient.ClientOption{nodeclient.WithHTTPClient(&http.Client{Transport: w})}, opts...)...)
	if err != nil {
		panic(err)
	}
	w.drain()
	return cl, w
}

// plugin gives the handle of a plugin of a node that has them all.
func withPlugins(cl *nodeclient.Client, e *gen.Env, w *wire) (m nodeclient.ManagementClient, i nodeclient.IndexerClient, b nodeclient.BlockIssuerClient, ev *nodeclient.EventAPIClient) {
	old := w.reply
	body := jsonOf(e, &api.RoutesResponse{Routes: []iotago.PrefixedStringUint8{"core/v3", "management/v1", "indexer/v2", "blockissuer/v1", "mqtt/v2"}})
	w.reply = func(int, *sent) answer { return answer{status: 200, body: body} }
	var errs [4]error
	m, errs[0] = cl.Management(context.Background())
	i, errs[1] = cl.Indexer(context.Background())
	b, errs[2] = cl.BlockIssuer(context.Background())
	ev, errs[3] = cl.EventAPI(context.Background())
	for _, err := range errs {
		if err != nil {
			panic(err)
		}
	}
	w.reply = old
	w.drain()
	return
}

func has(s, sub string) bool { return strings.Contains(s, sub) }
