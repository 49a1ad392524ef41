package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	mqtt "github.com/eclipse/paho.mqtt.golang"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/nodeclient"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P32"] = p32 }

// endpoint is one request method of the client.
type endpoint struct {
	name                string
	do                  func(cl *clients) (any, error)
	method, path, query string
	accept, content     string
	body                []byte // exact request body
	reply               []byte // a good reply
	want                any    // the result for it
	nobody              bool   // the reply has no body
	header              map[string]string
	binary              bool
	health              bool // 503 is an answer
}

type clients struct {
	*nodeclient.Client
	m nodeclient.ManagementClient
	i nodeclient.IndexerClient
	b nodeclient.BlockIssuerClient
	e *nodeclient.EventAPIClient
}

const jsonMIME, rawMIME = "application/json", "application/vnd.iota.serializer-v2"

// encAny is the bytes of a result.
func encAny(e *gen.Env, v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case []any:
		s := ""
		for _, y := range x {
			s += encAny(e, y) + "|"
		}
		return s
	case bool, string, iotago.BlockID, iotago.OutputID, *iotago.OutputID, iotago.SlotIndex:
		return fmt.Sprintf("%T %v", x, x)
	}
	b, err := e.API.Encode(v)
	if err != nil {
		return fmt.Sprintf("%T not encodable: %v", v, err)
	}
	return fmt.Sprintf("%T %x", v, b)
}

func anyOf[T any](v T, err error) (any, error) {
	if err != nil {
		return nil, err
	}
	return v, nil
}

func endpoints(e *gen.Env) (out []*endpoint) {
	ctx := context.Background()
	msgs := map[string]any{}
	for _, m := range apiMsgs(e) {
		msgs[m.name[strings.LastIndex(m.name, ".")+1:]] = m.mk()
	}
	get := func(n string) any {
		v, ok := msgs[n]
		if !ok {
			panic("no message " + n)
		}
		return v
	}
	hrp := string(e.P.HRP)
	acc, anc, nf := gen.AccID(0xa1), gen.AncID(0xb1), gen.NFTID(0xc1)
	js := func(name, path string, reply any, do func(cl *clients) (any, error)) *endpoint {
		x := &endpoint{name: name, do: do, method: "GET", path: path, accept: jsonMIME, reply: jsonOf(e, reply), want: reply}
		out = append(out, x)
		return x
	}
	bin := func(name, path string, want any, reply []byte, do func(cl *clients) (any, error)) *endpoint {
		x := &endpoint{name: name, do: do, method: "GET", path: path, accept: rawMIME, reply: reply, want: want, binary: true}
		out = append(out, x)
		return x
	}
	enc := func(v any) []byte {
		b, err := e.API.Encode(v)
		if err != nil {
			panic(err)
		}
		return b
	}
	const cp = "/api/core/v3"
	out = append(out,
		&endpoint{name: "Health", do: func(cl *clients) (any, error) { return anyOf(cl.Health(ctx)) }, method: "GET", path: "/health", want: true, nobody: true, health: true},
		&endpoint{name: "NetworkHealth", do: func(cl *clients) (any, error) { return anyOf(cl.NetworkHealth(ctx)) }, method: "GET", path: cp + "/network/health", want: true, nobody: true, health: true})
	js("Routes", "/api/routes", get("RoutesResponse"), func(cl *clients) (any, error) { return anyOf(cl.Routes(ctx)) })
	js("Info", cp+"/info", nodeInfo(e, commitID(1, 3)), func(cl *clients) (any, error) { return anyOf(cl.Info(ctx)) }).accept = ""
	js("NetworkMetrics", cp+"/network/metrics", get("NetworkMetricsResponse"), func(cl *clients) (any, error) { return anyOf(cl.NetworkMetrics(ctx)) }).accept = ""
	blk := issued(baseBlock(e, 30, false), 0)
	bid := blockID(0x61, 30)
	bh := bid.ToHex()
	out = append(out, &endpoint{name: "SubmitBlock", method: "POST", path: cp + "/blocks", content: rawMIME, body: ref.Enc(blk), header: map[string]string{"Location": bh}, want: bid, nobody: true,
		do: func(cl *clients) (any, error) { return anyOf(cl.SubmitBlock(ctx, blk)) }})
	bin("BlockByBlockID", cp+"/blocks/"+bh, blk, ref.Enc(blk), func(cl *clients) (any, error) { return anyOf(cl.BlockByBlockID(ctx, bid)) })
	js("BlockMetadataByBlockID", cp+"/blocks/"+bh+"/metadata", get("BlockMetadataResponse"), func(cl *clients) (any, error) { return anyOf(cl.BlockMetadataByBlockID(ctx, bid)) })
	bin("BlockWithMetadataByBlockID", cp+"/blocks/"+bh+"/full", &api.BlockWithMetadataResponse{Block: blk, Metadata: get("BlockMetadataResponse").(*api.BlockMetadataResponse)}, append(ref.Enc(blk), enc(get("BlockMetadataResponse"))...), func(cl *clients) (any, error) { return anyOf(cl.BlockWithMetadataByBlockID(ctx, bid)) })
	js("BlockIssuance", cp+"/blocks/issuance", get("IssuanceBlockHeaderResponse"), func(cl *clients) (any, error) { return anyOf(cl.BlockIssuance(ctx)) })

	tx := synTx(e).Transaction
	outID := ref.OutputIDOf(ref.TxID(tx), 0)
	proof, err := iotago.OutputIDProofFromTransaction(tx, 0)
	if err != nil {
		panic(err)
	}
	oh := outID.ToHex()
	ores := &api.OutputResponse{Output: tx.Outputs[0], OutputIDProof: proof}
	meta := get("OutputMetadata").(*api.OutputMetadata)
	omres := &api.OutputWithMetadataResponse{Output: tx.Outputs[0], OutputIDProof: proof, Metadata: meta}
	bin("OutputByID", cp+"/outputs/"+oh, tx.Outputs[0], enc(ores), func(cl *clients) (any, error) { return anyOf(cl.OutputByID(ctx, outID)) })
	js("OutputMetadataByID", cp+"/outputs/"+oh+"/metadata", meta, func(cl *clients) (any, error) { return anyOf(cl.OutputMetadataByID(ctx, outID)) })
	bin("OutputWithMetadataByID", cp+"/outputs/"+oh+"/full", []any{tx.Outputs[0], meta}, enc(omres), func(cl *clients) (any, error) {
		o, m, err := cl.OutputWithMetadataByID(ctx, outID)
		if err != nil {
			return nil, err
		}
		return []any{o, m}, nil
	})
	txID := iotago.TransactionID(ref.TxID(tx))
	th := txID.ToHex()
	bin("TransactionByID", cp+"/transactions/"+th, tx, ref.Enc(tx), func(cl *clients) (any, error) { return anyOf(cl.TransactionByID(ctx, txID)) })
	bin("TransactionIncludedBlock", cp+"/transactions/"+th+"/included-block", blk, ref.Enc(blk), func(cl *clients) (any, error) { return anyOf(cl.TransactionIncludedBlock(ctx, txID)) })
	js("TransactionIncludedBlockMetadata", cp+"/transactions/"+th+"/included-block/metadata", get("BlockMetadataResponse"), func(cl *clients) (any, error) { return anyOf(cl.TransactionIncludedBlockMetadata(ctx, txID)) })
	js("TransactionMetadata", cp+"/transactions/"+th+"/metadata", get("TransactionMetadataResponse"), func(cl *clients) (any, error) { return anyOf(cl.TransactionMetadata(ctx, txID)) })
	com := &iotago.Commitment{ProtocolVersion: 3, Slot: 5, PreviousCommitmentID: commitID(7, 4), RootsID: iotago.Identifier(gen.Fill32(3)), CumulativeWeight: 6, ReferenceManaCost: 8}
	cid := commitID(0x31, 17)
	ch := cid.ToHex()
	js("CommitmentByID", cp+"/commitments/"+ch, com, func(cl *clients) (any, error) { return anyOf(cl.CommitmentByID(ctx, cid)) })
	js("CommitmentUTXOChangesByID", cp+"/commitments/"+ch+"/utxo-changes", get("UTXOChangesResponse"), func(cl *clients) (any, error) { return anyOf(cl.CommitmentUTXOChangesByID(ctx, cid)) })
	js("CommitmentUTXOChangesFullByID", cp+"/commitments/"+ch+"/utxo-changes/full", get("UTXOChangesFullResponse"), func(cl *clients) (any, error) { return anyOf(cl.CommitmentUTXOChangesFullByID(ctx, cid)) })
	for _, s := range []iotago.SlotIndex{0, 77, math.MaxUint32} {
		ss := cp + "/commitments/by-slot/" + strconv.FormatUint(uint64(s), 10)
		js(fmt.Sprintf("CommitmentBySlot %d", s), ss, com, func(cl *clients) (any, error) { return anyOf(cl.CommitmentBySlot(ctx, s)) })
		js(fmt.Sprintf("CommitmentUTXOChangesBySlot %d", s), ss+"/utxo-changes", get("UTXOChangesResponse"), func(cl *clients) (any, error) { return anyOf(cl.CommitmentUTXOChangesBySlot(ctx, s)) })
		js(fmt.Sprintf("CommitmentUTXOChangesFullBySlot %d", s), ss+"/utxo-changes/full", get("UTXOChangesFullResponse"), func(cl *clients) (any, error) { return anyOf(cl.CommitmentUTXOChangesFullBySlot(ctx, s)) })
	}
	accAddr := acc.ToAddress().(*iotago.AccountAddress)
	ab := ref.Bech32(hrp, ref.Enc(accAddr))
	for _, ws := range []iotago.WorkScore{0, 9, math.MaxUint32} {
		for _, c := range []bool{false, true} {
			q := url.Values{}
			if ws > 0 {
				q.Set("workScore", strconv.FormatUint(uint64(ws), 10))
			}
			var opt []iotago.CommitmentID
			if c {
				opt = append(opt, cid)
				q.Set("commitmentId", ch)
			}
			js(fmt.Sprintf("Congestion %d %v", ws, c), cp+"/accounts/"+ab+"/congestion", get("CongestionResponse"), func(cl *clients) (any, error) { return anyOf(cl.Congestion(ctx, accAddr, ws, opt...)) }).query = q.Encode()
		}
	}
	for _, ps := range []uint64{0, 5, math.MaxUint64} {
		for _, cur := range []string{"-", "c", "a&b=c d,é"} {
			q := url.Values{}
			if ps > 0 {
				q.Set("pageSize", strconv.FormatUint(ps, 10))
			}
			var opt []string
			if cur != "-" {
				opt = append(opt, cur)
				q.Set("cursor", cur)
			}
			js(fmt.Sprintf("Validators %d %s", ps, cur), cp+"/validators", get("ValidatorsResponse"), func(cl *clients) (any, error) { return anyOf(cl.Validators(ctx, ps, opt...)) }).query = q.Encode()
		}
	}
	js("Validator", cp+"/validators/"+ab, get("ValidatorResponse"), func(cl *clients) (any, error) { return anyOf(cl.Validator(ctx, accAddr)) })
	js("Rewards", cp+"/rewards/"+oh, get("ManaRewardsResponse"), func(cl *clients) (any, error) { return anyOf(cl.Rewards(ctx, outID)) })
	for _, ep := range []int64{-1, 0, 8, math.MaxUint32} {
		var opt []iotago.EpochIndex
		q := ""
		if ep >= 0 {
			opt, q = append(opt, iotago.EpochIndex(ep)), fmt.Sprintf("epoch=%d", ep)
		}
		js(fmt.Sprintf("Committee %d", ep), cp+"/committee", get("CommitteeResponse"), func(cl *clients) (any, error) { return anyOf(cl.Committee(ctx, opt...)) }).query = q
	}
	const mp = "/api/management/v1"
	js("PeerByID", mp+"/peers/somepeer", get("PeerInfo"), func(cl *clients) (any, error) { return anyOf(cl.m.PeerByID(ctx, "somepeer")) })
	js("Peers", mp+"/peers", get("PeersResponse"), func(cl *clients) (any, error) { return anyOf(cl.m.Peers(ctx)) })
	out = append(out, &endpoint{name: "RemovePeerByID", method: "DELETE", path: mp + "/peers/somepeer", nobody: true, want: true, do: func(cl *clients) (any, error) { return anyOf(true, cl.m.RemovePeerByID(ctx, "somepeer")) }})
	for _, al := range []string{"", "alias"} {
		var opt []string
		req := map[string]any{"multiAddress": "/ip4/1.2.3.4"}
		if al != "" {
			opt = append(opt, al)
			req["alias"] = al
		}
		x := js("AddPeer "+al, mp+"/peers", get("PeerInfo"), func(cl *clients) (any, error) { return anyOf(cl.m.AddPeer(ctx, "/ip4/1.2.3.4", opt...)) })
		x.method, x.content = "POST", jsonMIME
		x.body, _ = json.Marshal(req)
	}
	js("BlockIssuer Info", "/api/blockissuer/v1/info", get("BlockIssuerInfo"), func(cl *clients) (any, error) { return anyOf(cl.b.Info(ctx)) }).accept = ""
	// client.Do on a route of one's own
	js("Do", "/own/route", get("PeerInfo"), func(cl *clients) (any, error) {
		v := new(api.PeerInfo)
		_, err := cl.Do(ctx, "PUT", "/own/route?x=1", nil, v)
		return anyOf(v, err)
	}).query = "x=1"
	out[len(out)-1].method, out[len(out)-1].accept = "PUT", ""
	_, _ = anc, nf
	return
}

// fault is what goes wrong with a reply.
type fault struct {
	name     string
	status   int
	body     string // good, none, error, garbage
	err, cut bool
}

func (f fault) answer(x *endpoint) answer {
	a := answer{status: f.status, cut: f.cut, header: x.header}
	switch f.body {
	case "good":
		a.body = x.reply
	case "error":
		a.body = []byte(`{"error":{"code":"17","message":"what went wrong"}}`)
	case "garbage":
		a.body = []byte("<html>oops</html>")
	case "null", "{}", "[]", "7":
		a.body = []byte(f.body)
	}
	if f.err {
		a.err = errWire
	}
	return a
}

var statusErr = map[int]error{400: nodeclient.ErrHTTPBadRequest, 401: nodeclient.ErrHTTPUnauthorized, 404: nodeclient.ErrHTTPNotFound, 500: nodeclient.ErrHTTPInternalServerError, 501: nodeclient.ErrHTTPNotImplemented, 503: nodeclient.ErrHTTPServiceUnavailable}

func faults() (out []fault) {
	for _, s := range []int{200, 201} {
		for _, b := range []string{"good", "none", "garbage", "null", "{}", "[]", "7"} {
			out = append(out, fault{fmt.Sprintf("%d %s", s, b), s, b, false, false})
		}
		out = append(out, fault{fmt.Sprintf("%d cut after the body", s), s, "good", false, true})
	}
	out = append(out, fault{"204", 204, "none", false, false}, fault{"no connection", 0, "", true, false})
	for _, s := range []int{202, 206, 300, 304, 400, 401, 403, 404, 409, 418, 429, 500, 501, 502, 503, 504, 599} {
		for _, b := range []string{"none", "error", "garbage", "good"} {
			out = append(out, fault{fmt.Sprintf("%d %s", s, b), s, b, false, false})
		}
		out = append(out, fault{fmt.Sprintf("%d cut", s), s, "error", false, true})
	}
	return
}

func p32client(e *gen.Env, opts ...nodeclient.ClientOption) (*clients, *wire) {
	cl, w := newClient(e, opts...)
	r := &clients{Client: cl}
	r.m, r.i, r.b, r.e = withPlugins(cl, e, w)
	return r, w
}

// judgeRequest compares the request of an endpoint.
func judgeRequest(c *core.C, x *endpoint, s *sent) bool {
	ok := c.Check(s.method == x.method && s.path == x.path && s.query == x.query, "request "+x.name, "%s requests %s %s?%s instead of %s %s?%s", x.name, s.method, s.path, s.query, x.method, x.path, x.query)
	ok = c.Check(s.header.Get("Accept") == x.accept && s.header.Get("Content-Type") == x.content, "headers "+x.name, "%s sends accept %q content %q", x.name, s.header.Get("Accept"), s.header.Get("Content-Type")) && ok
	same := bytes.Equal(s.body, x.body)
	if x.content == jsonMIME {
		var a, b any
		same = json.Unmarshal(s.body, &a) == nil && json.Unmarshal(x.body, &b) == nil && fmt.Sprint(a) == fmt.Sprint(b)
	}
	return c.Check(same, "body "+x.name, "%s sends body %s instead of %s", x.name, s.body, x.body) && ok
}

func p32(x *core.Ctx) {
	x.Assume("the network is replaced by a stand-in below net/http (redirects and keep-alive are not modelled); the messages' own JSON and binary codecs, also on JSON values of a wrong type, are judged by P17 and P18")
	e := gen.NewEnv(ref.Default())
	eps := endpoints(e)
	var names []string
	for _, p := range eps {
		names = append(names, p.name)
	}
	fs := faults()
	var fnames []string
	for _, f := range fs {
		fnames = append(fnames, f.name)
	}
	x.Product("requests and replies", []core.Dim{core.DL("method", names...), core.DL("reply", fnames...)}, func(v []int, c *core.C) {
		p, f := endpoints(e)[v[0]], fs[v[1]]
		cl, w := p32client(e)
		w.reply = func(int, *sent) answer { return f.answer(p) }
		var got any
		var err error
		pan := core.Panics(func() { got, err = p.do(cl) })
		c.Step(1)
		if !c.Check(pan == "", "panic "+p.name, "%s panics on reply %s: %s", p.name, f.name, pan) {
			return
		}
		reqs := w.drain()
		if !c.Check(len(reqs) == 1, "number of requests", "%s made %d requests", p.name, len(reqs)) || !judgeRequest(c, p, reqs[0]) {
			return
		}
		ok := f.status == 200 || f.status == 201
		switch {
		case p.health && f.status == 503 && (f.body == "error" || f.body == "none" || f.body == "good") && !f.cut:
			c.Check(err == nil && got == false, "health", "%s says %v, %v for 503", p.name, got, err)
			c.Outcome("unhealthy")
		case ok && (p.nobody || f.body == "good" && !f.cut), p.nobody && f.status == 204:
			if c.Check(err == nil, "good reply refused", "%s refuses %s: %v", p.name, f.name, err) {
				c.Check(encAny(e, got) == encAny(e, p.want), "result "+p.name, "%s returns %s instead of %s", p.name, encAny(e, got), encAny(e, p.want))
			}
			c.Outcome("result")
		default:
			if !c.Check(err != nil, "fault hidden "+f.name, "%s returns %s although the reply is: %s", p.name, encAny(e, got), f.name) {
				return
			}
			c.Outcome("error")
			if f.err || f.cut {
				c.Check(errors.Is(err, errWire), "broken connection", "%s hides the broken connection: %v", p.name, err)
			} else if !ok && f.status != 204 && (f.body == "error" || f.body == "none") {
				want := statusErr[f.status]
				if want == nil {
					want = nodeclient.ErrHTTPUnknownError
				}
				c.Check(errors.Is(err, want), "status error", "%s returns %v for status %d", p.name, err, f.status)
				c.Check(f.body == "none" || has(err.Error(), "what went wrong"), "error message", "%s loses the message of the node: %v", p.name, err)
			}
		}
	})
	x.Product("truncated and incomplete replies", []core.Dim{core.DL("method", names...)}, func(v []int, c *core.C) {
		p := endpoints(e)[v[0]]
		if p.nobody {
			c.Skip()
			return
		}
		cl, w := p32client(e)
		try := func(what string, body []byte, must bool) {
			w.reply = func(int, *sent) answer { return answer{status: 200, body: body} }
			var got any
			var err error
			pan, why := panicSite(func() { got, err = p.do(cl) })
			c.Step(1)
			if strings.Contains(pan, "serix dependency") {
				c.Outcome("panic in the serix dependency (P17)")
				return
			}
			if c.Check(pan == "", "panic "+p.name, "%s panics when %s: %s %s", p.name, what, pan, why) {
				c.Check(!must || err != nil, "incomplete accepted "+p.name+" "+what, "%s returns %s when %s", p.name, encAny(e, got), what)
			}
		}
		for k := 0; k < len(p.reply); k++ {
			try(fmt.Sprintf("the reply is cut to %d of %d bytes", k, len(p.reply)), p.reply[:k], true)
		}
		if p.binary {
			return
		}
		var doc map[string]any
		d := json.NewDecoder(bytes.NewReader(p.reply))
		d.UseNumber()
		if err := d.Decode(&doc); err != nil {
			panic(err)
		}
		optional := map[string]bool{"cursor": true, "weakParents": true, "shallowLikeParents": true, "subunit": true, "alias": true, "gossipMetrics": true, "included": true, "spent": true, "transactionFailureReason": true, "transactionFailureDetails": true, "latestCommittedEpochPoolRewards": true, "features": true, "immutableFeatures": true, "k": true, "commitmentId": true}
		damage(doc, "", func(path, last string) {
			b, _ := json.Marshal(doc)
			try("the reply lacks "+path, b, !optional[last])
		})
	})
	x.Product("client options", []core.Dim{core.DL("user", "none", "a:b"), core.DL("hook", "none", "rewrite")}, func(v []int, c *core.C) {
		var opts []nodeclient.ClientOption
		if v[0] == 1 {
			opts = append(opts, nodeclient.WithUserInfo(url.UserPassword("a", "b")))
		}
		if v[1] == 1 {
			opts = append(opts, nodeclient.WithRequestURLHook(func(u string) string {
				return strings.Replace(u, "http://node:1/", "http://node:1/proxy/", 1)
			}))
		}
		cl, w := p32client(e, opts...)
		for _, p := range endpoints(e) {
			w.reply = func(int, *sent) answer { return answer{status: 200, body: p.reply, header: p.header} }
			_, err := p.do(cl)
			c.Step(1)
			s := w.drain()
			if !c.Check(err == nil && len(s) == 1, "options", "%s: %v", p.name, err) {
				return
			}
			user := ""
			if v[0] == 1 {
				user = "a:b"
			}
			path := p.path
			if v[1] == 1 {
				path = "/proxy" + path
			}
			c.Check(s[0].header.Get("X-User") == user && s[0].path == path, "options "+p.name, "%s asks %s as %q", p.name, s[0].path, s[0].header.Get("X-User"))
		}
	})
	plugins := []string{"core/v3", "management/v1", "indexer/v2", "blockissuer/v1", "mqtt/v2", "management/v2", "indexer"}
	x.Product("plugins of the node", []core.Dim{core.D("routes", 1<<len(plugins))}, func(v []int, c *core.C) {
		cl, w := newClient(e)
		var rs []iotago.PrefixedStringUint8
		on := map[string]bool{}
		for i, p := range plugins {
			if v[0]>>i&1 == 1 {
				rs = append(rs, iotago.PrefixedStringUint8(p))
				on[p] = true
			}
		}
		body := jsonOf(e, &api.RoutesResponse{Routes: rs})
		w.reply = func(int, *sent) answer { return answer{status: 200, body: body} }
		ctx := context.Background()
		check := func(p string, h any, err, missing error) {
			c.Step(1)
			c.Check((err == nil) == on[p] && (err == nil || errors.Is(err, missing)), "plugin "+p, "routes %v: %v, %v", rs, h, err)
		}
		m, err := cl.Management(ctx)
		check("management/v1", m, err, nodeclient.ErrManagementPluginNotAvailable)
		i, err := cl.Indexer(ctx)
		check("indexer/v2", i, err, nodeclient.ErrIndexerPluginNotAvailable)
		b, err := cl.BlockIssuer(ctx)
		check("blockissuer/v1", b, err, nodeclient.ErrBlockIssuerPluginNotAvailable)
		ev, err := cl.EventAPI(ctx)
		check("mqtt/v2", ev, err, nodeclient.ErrMQTTPluginNotAvailable)
	})
	p32walk(x, e)
	p32validators(x, e)
	p32single(x, e)
	p32issuer(x, e)
	p32events(x, e)
}

// damage removes every named part of a JSON document, one at a time.
func damage(v any, path string, at func(path, last string)) {
	switch x := v.(type) {
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			old := x[k]
			delete(x, k)
			at(path+"."+k, k)
			x[k] = old
			damage(old, path+"."+k, at)
		}
	case []any:
		for i := range x {
			damage(x[i], fmt.Sprintf("%s[%d]", path, i), at)
		}
	}
}

// ---- walking an indexer query -------------------------------------------------------------------------------------

type iquery struct {
	name, path string
	mk         func() (nodeclient.IndexerQuery, url.Values)
}

func iqueries() []iquery {
	yes, no := true, false
	par := func(kv ...string) url.Values {
		v := url.Values{}
		for i := 0; i < len(kv); i += 2 {
			v.Set(kv[i], kv[i+1])
		}
		return v
	}
	cr := api.IndexerCreationParams{CreatedBefore: 8, CreatedAfter: 4294967295}
	un := api.IndexerUnlockableByAddressParams{UnlockableByAddressBech32: "un"}
	nt := api.IndexerNativeTokenParams{HasNativeToken: &yes, NativeToken: "0xff"}
	tl := api.IndexerTimelockParams{HasTimelock: &no, TimelockedBefore: 3, TimelockedAfter: 4}
	ex := api.IndexerExpirationParams{HasExpiration: &yes, ExpiresBefore: 5, ExpiresAfter: 6, ExpirationReturnAddressBech32: "er"}
	sd := api.IndexerStorageDepositParams{HasStorageDepositReturn: &no, StorageDepositReturnAddressBech32: "sd"}
	pg := api.IndexerCursorParams{PageSize: 2}
	return []iquery{
		{"outputs", "/outputs", func() (nodeclient.IndexerQuery, url.Values) { return &api.OutputsQuery{}, par() }},
		{"outputs filtered", "/outputs", func() (nodeclient.IndexerQuery, url.Values) {
			return &api.OutputsQuery{IndexerCursorParams: pg, IndexerNativeTokenParams: nt, IndexerCreationParams: cr, IndexerUnlockableByAddressParams: un},
				par("pageSize", "2", "hasNativeToken", "true", "nativeToken", "0xff", "createdBefore", "8", "createdAfter", "4294967295", "unlockableByAddress", "un")
		}},
		{"basic filtered", "/outputs/basic", func() (nodeclient.IndexerQuery, url.Values) {
			return &api.BasicOutputsQuery{IndexerCursorParams: pg, IndexerTimelockParams: tl, IndexerExpirationParams: ex, IndexerCreationParams: cr, IndexerStorageDepositParams: sd, IndexerNativeTokenParams: nt, IndexerUnlockableByAddressParams: un, AddressBech32: "ad", SenderBech32: "se", Tag: "ta&g =é"},
				par("pageSize", "2", "hasTimelock", "false", "timelockedBefore", "3", "timelockedAfter", "4", "hasExpiration", "true", "expiresBefore", "5", "expiresAfter", "6", "expirationReturnAddress", "er", "createdBefore", "8", "createdAfter", "4294967295", "hasStorageDepositReturn", "false", "storageDepositReturnAddress", "sd", "hasNativeToken", "true", "nativeToken", "0xff", "unlockableByAddress", "un", "address", "ad", "sender", "se", "tag", "ta&g =é")
		}},
		{"accounts filtered", "/outputs/account", func() (nodeclient.IndexerQuery, url.Values) {
			return &api.AccountsQuery{IndexerCreationParams: cr, IndexerUnlockableByAddressParams: un, AddressBech32: "ad", SenderBech32: "se", IssuerBech32: "is"},
				par("createdBefore", "8", "createdAfter", "4294967295", "unlockableByAddress", "un", "address", "ad", "sender", "se", "issuer", "is")
		}},
		{"anchors filtered", "/outputs/anchor", func() (nodeclient.IndexerQuery, url.Values) {
			return &api.AnchorsQuery{IndexerCreationParams: cr, IndexerUnlockableByAddressParams: un, StateControllerBech32: "st", GovernorBech32: "go", IssuerBech32: "is"},
				par("createdBefore", "8", "createdAfter", "4294967295", "unlockableByAddress", "un", "stateController", "st", "governor", "go", "issuer", "is")
		}},
		{"foundries filtered", "/outputs/foundry", func() (nodeclient.IndexerQuery, url.Values) {
			return &api.FoundriesQuery{IndexerCreationParams: cr, IndexerNativeTokenParams: nt, AccountAddressBech32: "ac"},
				par("createdBefore", "8", "createdAfter", "4294967295", "hasNativeToken", "true", "nativeToken", "0xff", "accountAddress", "ac")
		}},
		{"nfts filtered", "/outputs/nft", func() (nodeclient.IndexerQuery, url.Values) {
			return &api.NFTsQuery{IndexerCursorParams: pg, IndexerTimelockParams: tl, IndexerExpirationParams: ex, IndexerCreationParams: cr, IndexerStorageDepositParams: sd, IndexerUnlockableByAddressParams: un, AddressBech32: "ad", SenderBech32: "se", IssuerBech32: "is", Tag: "tag"},
				par("pageSize", "2", "hasTimelock", "false", "timelockedBefore", "3", "timelockedAfter", "4", "hasExpiration", "true", "expiresBefore", "5", "expiresAfter", "6", "expirationReturnAddress", "er", "createdBefore", "8", "createdAfter", "4294967295", "hasStorageDepositReturn", "false", "storageDepositReturnAddress", "sd", "unlockableByAddress", "un", "address", "ad", "sender", "se", "issuer", "is", "tag", "tag")
		}},
		{"delegations filtered", "/outputs/delegation", func() (nodeclient.IndexerQuery, url.Values) {
			return &api.DelegationOutputsQuery{IndexerCreationParams: cr, AddressBech32: "ad", ValidatorBech32: "va"},
				par("createdBefore", "8", "createdAfter", "4294967295", "address", "ad", "validator", "va")
		}},
	}
}

// pagings lists all ways to cut n items into pages of 0 to most items, with at most empty pages without items.
func pagings(n, most, empty int) (out [][]int) {
	if n == 0 {
		out = append(out, nil)
	}
	for k := 0; k <= most && k <= n; k++ {
		if k == 0 {
			if empty > 0 {
				for _, r := range pagings(n, most, empty-1) {
					out = append(out, append([]int{0}, r...))
				}
			}
			continue
		}
		for _, r := range pagings(n-k, most, empty) {
			out = append(out, append([]int{k}, r...))
		}
	}
	return
}

func p32walk(x *core.Ctx, e *gen.Env) {
	var pgs [][]int
	for n := 0; n <= core.Pick(x, 5, 7); n++ {
		for _, p := range pagings(n, 3, 1) {
			if len(p) > 0 {
				pgs = append(pgs, p)
			}
		}
	}
	qs := iqueries()
	var qn, pn []string
	for _, q := range qs {
		qn = append(qn, q.name)
	}
	for _, p := range pgs {
		pn = append(pn, fmt.Sprint(p))
	}
	fl := []string{"none", "404 error", "500 none", "503 garbage", "418 error", "no connection", "cut", "truncated", "204", "garbage", "missing items", "missing slot", "empty body"}
	cursors := []string{"c", "a&b=c d#é%"}
	x.Product("walking a query", []core.Dim{core.DL("query", qn...), core.DL("pages", pn...), core.DL("fault", fl...), core.D("at page", 6), core.DL("cursors", cursors...)}, func(v []int, c *core.C) {
		q, pages, f, at := qs[v[0]], pgs[v[1]], fl[v[2]], v[3]
		if f == "none" && at > 0 || at >= len(pages) || (v[4] > 0 && (v[0] != 2 || f != "none")) {
			c.Skip()
			return
		}
		cl, w := p32client(e)
		item := func(i int) string { return "0x" + fmt.Sprintf("%076x", i+1) }
		start := make([]int, len(pages)+1)
		for i, k := range pages {
			start[i+1] = start[i] + k
		}
		name := func(i int) string { return fmt.Sprintf("%s%d", cursors[v[4]], i) }
		base := 0
		w.reply = func(n int, s *sent) answer {
			vals, _ := url.ParseQuery(s.query)
			i := 0
			if cur := vals.Get("cursor"); cur != "" {
				for i = 1; i < len(pages) && name(i) != cur; i++ {
				}
				if i == len(pages) {
					return answer{status: 400}
				}
			}
			base = i
			doc := map[string]any{"committedSlot": 5, "pageSize": 3, "items": []string{}}
			var its []string
			for k := start[i]; k < start[i+1]; k++ {
				its = append(its, item(k))
			}
			if its != nil {
				doc["items"] = its
			}
			if i+1 < len(pages) {
				doc["cursor"] = name(i + 1)
			}
			a := answer{status: 200}
			if i == at {
				switch f {
				case "404 error":
					return answer{status: 404, body: []byte(`{"error":{"code":"1","message":"m"}}`)}
				case "500 none":
					return answer{status: 500}
				case "503 garbage":
					return answer{status: 503, body: []byte("<>")}
				case "418 error":
					return answer{status: 418, body: []byte(`{"error":{"code":"1","message":"m"}}`)}
				case "no connection":
					return answer{err: errWire}
				case "cut":
					a.cut = true
				case "204":
					return answer{status: 204}
				case "garbage":
					return answer{status: 200, body: []byte("<>")}
				case "empty body":
					return a
				case "missing items":
					delete(doc, "items")
				case "missing slot":
					delete(doc, "committedSlot")
				}
			}
			a.body, _ = json.Marshal(doc)
			if i == at && f == "truncated" {
				a.body = a.body[:len(a.body)-1]
			}
			return a
		}
		query, want := q.mk()
		rs, err := cl.i.Outputs(context.Background(), query)
		if !c.Check(err == nil, "query", "%v", err) {
			return
		}
		var got []string
		rounds := 0
		pan := core.Panics(func() {
			for rs.Next() {
				for _, it := range rs.Response.Items {
					got = append(got, string(it))
				}
				if rounds++; rounds > 20 {
					break
				}
			}
		})
		c.Step(rounds + 1)
		if !c.Check(pan == "" && rounds <= 20, "walk ends", "panic %q after %d pages", pan, rounds) {
			return
		}
		_ = base
		reqs := w.drain()
		expect := len(pages)
		if f != "none" {
			expect = at + 1
		}
		if !c.Check(len(reqs) == expect, "pages asked", "%d pages were asked for, expected %d; items %v, error %v", len(reqs), expect, got, rs.Error) {
			return
		}
		for i, s := range reqs {
			vals, err := url.ParseQuery(s.query)
			cur := vals.Get("cursor")
			vals.Del("cursor")
			wantCur := ""
			if i > 0 {
				wantCur = name(i)
			}
			c.Check(err == nil && s.method == "GET" && s.path == "/api/indexer/v2"+q.path && cur == wantCur && vals.Encode() == want.Encode(), "page request", "page %d asks %s %s?%s, expected filters %s and cursor %q", i, s.method, s.path, s.query, want.Encode(), wantCur)
			c.Check(s.header.Get("Accept") == jsonMIME, "page accept", "accept %q", s.header.Get("Accept"))
		}
		n := start[len(pages)]
		if f != "none" {
			n = start[at]
		}
		ok := len(got) == n
		for i := 0; ok && i < n; i++ {
			ok = got[i] == item(i)
		}
		c.Check(ok, "items", "the walk returns %v instead of the first %d items", got, n)
		c.Check((rs.Error != nil) == (f != "none"), "error "+f, "error %v at fault %s", rs.Error, f)
		c.Check(!rs.Next(), "after the end", "Next is true after the end")
		c.Check((rs.Error != nil) == (f != "none"), "error after the end", "error %v at fault %s", rs.Error, f)
		if f == "none" {
			c.Outcome("walked")
		} else {
			c.Outcome("error")
		}
	})
	// fetching the outputs of a page
	tx := synTx(e).Transaction
	tx.Outputs = iotago.Outputs[iotago.TxEssenceOutput]{basic(gen.Ed(0), 100, 1), nft(gen.NFTID(1), gen.Ed(1), 200, 0), account(gen.AccID(1), gen.Ed(2), 300, 0, 0), basic(gen.Ed(3), 100, 1)}
	bad := []string{"none", "not hex", "short", "long", "empty", "no prefix", "unknown", "other output"}
	x.Product("outputs of a page", []core.Dim{core.D("items", 4), core.DL("bad item", bad...), core.D("at", 4)}, func(v []int, c *core.C) {
		n, b, at := v[0], bad[v[1]], v[2]
		if b == "none" && at > 0 || b != "none" && at >= n {
			c.Skip()
			return
		}
		cl, w := p32client(e)
		res := map[string][]byte{}
		var items []string
		for i := 0; i < n; i++ {
			id := ref.OutputIDOf(ref.TxID(tx), uint16(i%len(tx.Outputs))).ToHex()
			p, _ := iotago.OutputIDProofFromTransaction(tx, uint16(i%len(tx.Outputs)))
			o := tx.Outputs[i%len(tx.Outputs)]
			raw, err := e.API.Encode(&api.OutputResponse{Output: o, OutputIDProof: p})
			if err != nil {
				panic(err)
			}
			if i == at {
				switch b {
				case "not hex":
					id = id[:10] + "zz" + id[12:]
				case "short":
					id = id[:len(id)-2]
				case "long":
					id += "00"
				case "empty":
					id = ""
				case "no prefix":
					id = id[2:]
				case "other output":
					raw, _ = e.API.Encode(&api.OutputResponse{Output: basic(gen.Ed(7), 77, 0), OutputIDProof: p})
				}
			}
			items = append(items, id)
			if !(i == at && b == "unknown") {
				res["/api/core/v3/outputs/"+id] = raw
			}
		}
		page, _ := json.Marshal(map[string]any{"committedSlot": 1, "pageSize": 4, "items": append([]string{}, items...)})
		w.reply = func(_ int, s *sent) answer {
			if has(s.path, "indexer") {
				return answer{status: 200, body: page}
			}
			if raw, ok := res[s.path]; ok {
				return answer{status: 200, body: raw}
			}
			return answer{status: 404}
		}
		rs, err := cl.i.Outputs(context.Background(), &api.OutputsQuery{})
		if !c.Check(err == nil, "query", "%v", err) {
			return
		}
		var outs iotago.Outputs[iotago.Output]
		pan := core.Panics(func() {
			if rs.Next() {
				outs, err = rs.Outputs(context.Background())
			} else {
				err = rs.Error
			}
		})
		c.Step(1)
		if !c.Check(pan == "", "panic on page", "items %v: %s", items, pan) {
			return
		}
		if b != "none" {
			c.Check(err != nil, "bad item hidden", "items %v: %d outputs and no error", items, len(outs))
			c.Outcome("error")
			return
		}
		c.Outcome("outputs")
		ok := err == nil && len(outs) == n
		for i := 0; ok && i < n; i++ {
			ok = bytes.Equal(ref.Enc(outs[i]), ref.Enc(tx.Outputs[i%len(tx.Outputs)]))
		}
		c.Check(ok, "outputs", "items %v: %d outputs, %v", items, len(outs), err)
	})
}

func p32validators(x *core.Ctx, e *gen.Env) {
	var pgs [][]int
	var pn []string
	for n := 0; n <= core.Pick(x, 5, 7); n++ {
		for _, p := range pagings(n, 3, 1) {
			if len(p) > 0 {
				pgs = append(pgs, p)
				pn = append(pn, fmt.Sprint(p))
			}
		}
	}
	fl := []string{"none", "500", "no connection", "cut", "truncated", "204", "missing validators", "empty body"}
	x.Product("all validators", []core.Dim{core.DL("pages", pn...), core.DL("fault", fl...), core.D("at page", 6), core.DL("at most", "all", "1", "2", "3", "9")}, func(v []int, c *core.C) {
		pages, f, at := pgs[v[0]], fl[v[1]], v[2]
		if f == "none" && at > 0 || at >= len(pages) {
			c.Skip()
			return
		}
		cl, w := p32client(e)
		start := make([]int, len(pages)+1)
		for i, k := range pages {
			start[i+1] = start[i] + k
		}
		w.reply = func(_ int, s *sent) answer {
			vals, _ := url.ParseQuery(s.query)
			i := 0
			if cur := vals.Get("cursor"); cur != "" {
				fmt.Sscanf(cur, "p&%d", &i)
			}
			if i >= len(pages) {
				return answer{status: 400}
			}
			r := &api.ValidatorsResponse{PageSize: 3, Validators: []*api.ValidatorResponse{}}
			for k := start[i]; k < start[i+1]; k++ {
				r.Validators = append(r.Validators, &api.ValidatorResponse{AddressBech32: fmt.Sprintf("v%d", k)})
			}
			if i+1 < len(pages) {
				r.Cursor = fmt.Sprintf("p&%d", i+1)
			}
			a := answer{status: 200, body: jsonOf(e, r)}
			if i == at {
				switch f {
				case "500":
					return answer{status: 500}
				case "no connection":
					return answer{err: errWire}
				case "cut":
					a.cut = true
				case "truncated":
					a.body = a.body[:len(a.body)-1]
				case "204":
					return answer{status: 204}
				case "missing validators":
					a.body = []byte(`{"pageSize":3}`)
				case "empty body":
					a.body = nil
				}
			}
			return a
		}
		most := []int{0, 1, 2, 3, 9}[v[3]]
		var opt []int
		last := len(pages)
		if most > 0 {
			opt = append(opt, most)
			last = min(last, most)
		}
		r, all, err := cl.ValidatorsAll(context.Background(), opt...)
		c.Step(1)
		reqs := len(w.drain())
		if f != "none" && at < last {
			c.Check(err != nil && r == nil && !all && reqs == at+1, "validators fault", "fault %s at page %d: %v, all %v, error %v after %d requests", f, at, r, all, err, reqs)
			c.Outcome("error")
			return
		}
		if !c.Check(err == nil && all == (last == len(pages)) && reqs == last, "validators walk", "pages %v, at most %d: all %v, error %v after %d requests", pages, most, all, err, reqs) {
			return
		}
		c.Outcomef("all %v", all)
		ok := len(r.Validators) == start[last]
		for i := 0; ok && i < start[last]; i++ {
			ok = r.Validators[i].AddressBech32 == fmt.Sprintf("v%d", i)
		}
		c.Check(ok, "validators", "pages %v, at most %d: %d validators instead of %d", pages, most, len(r.Validators), start[last])
	})
}

// p32single: queries for one output.
func p32single(x *core.Ctx, e *gen.Env) {
	acc, anc, nf, del := gen.AccID(0xa1), gen.AncID(0xb1), gen.NFTID(0xc1), gen.DelID(0xd1)
	fid := foundryID(gen.AccID(0xa1), 3)
	hrp := string(e.P.HRP)
	outs := []iotago.TxEssenceOutput{account(acc, gen.Ed(0), 100, 1, 0), anchor(anc, gen.Ed(0), gen.Ed(1), 100, 1, 0), foundry(gen.AccID(0xa1), 100, 3, 9, 1, 100), nft(nf, gen.Ed(0), 100, 1), delegation(del, gen.Ed(0), 100, 100, gen.AccAddr(0x73), 4, 5), basic(gen.Ed(0), 100, 1)}
	kinds := []string{"account", "anchor", "foundry", "nft", "delegation", "basic"}
	tx := synTx(e).Transaction
	tx.Outputs = outs
	pathOf := []string{"account/" + ref.Bech32(hrp, ref.Enc(acc.ToAddress())), "anchor/" + ref.Bech32(hrp, ref.Enc(anc.ToAddress())), "foundry/" + fid.ToHex(), "nft/" + ref.Bech32(hrp, ref.Enc(nf.ToAddress())), "delegation/" + del.ToHex()}
	x.Product("queries for one output", []core.Dim{core.DL("asked", kinds[:5]...), core.DL("output", kinds...), core.DL("reply", "good", "two items", "no items", "404", "500", "bad item", "204", "output missing", "no connection")}, func(v []int, c *core.C) {
		cl, w := p32client(e)
		how := v[2]
		id := ref.OutputIDOf(ref.TxID(tx), uint16(v[1]))
		p, _ := iotago.OutputIDProofFromTransaction(tx, uint16(v[1]))
		raw, err := e.API.Encode(&api.OutputResponse{Output: outs[v[1]], OutputIDProof: p})
		if err != nil {
			panic(err)
		}
		items := [][]string{{id.ToHex()}, {id.ToHex(), "0x" + strings.Repeat("77", 38)}, {}, nil, nil, {"0x12"}, nil, {id.ToHex()}, nil}[how]
		page, _ := json.Marshal(map[string]any{"committedSlot": 6, "pageSize": 4, "items": items})
		w.reply = func(_ int, s *sent) answer {
			if has(s.path, "indexer") {
				switch how {
				case 3, 4:
					return answer{status: 404 + 96*(how-3)}
				case 6:
					return answer{status: 204}
				case 8:
					return answer{err: errWire}
				}
				return answer{status: 200, body: page}
			}
			if how == 7 {
				return answer{status: 404}
			}
			return answer{status: 200, body: raw}
		}
		ctx := context.Background()
		var gid *iotago.OutputID
		var got iotago.Output
		var slot iotago.SlotIndex
		pan := core.Panics(func() {
			switch v[0] {
			case 0:
				i, o, s, er := cl.i.Account(ctx, acc.ToAddress().(*iotago.AccountAddress))
				if gid, slot, err = i, s, er; o != nil {
					got = o
				}
			case 1:
				i, o, s, er := cl.i.Anchor(ctx, anc.ToAddress().(*iotago.AnchorAddress))
				if gid, slot, err = i, s, er; o != nil {
					got = o
				}
			case 2:
				i, o, s, er := cl.i.Foundry(ctx, fid)
				if gid, slot, err = i, s, er; o != nil {
					got = o
				}
			case 3:
				i, o, s, er := cl.i.NFT(ctx, nf.ToAddress().(*iotago.NFTAddress))
				if gid, slot, err = i, s, er; o != nil {
					got = o
				}
			case 4:
				i, o, s, er := cl.i.Delegation(ctx, del)
				if gid, slot, err = i, s, er; o != nil {
					got = o
				}
			}
		})
		c.Step(1)
		if !c.Check(pan == "", "panic on one output", "%s", pan) {
			return
		}
		reqs := w.drain()
		c.Check(len(reqs) > 0 && reqs[0].method == "GET" && reqs[0].path == "/api/indexer/v2/outputs/"+pathOf[v[0]], "one output request", "asks %s", reqs[0].path)
		if how < 2 && v[0] == v[1] {
			c.Outcome("found")
			c.Check(err == nil && gid != nil && *gid == id && slot == 6 && got != nil && bytes.Equal(ref.Enc(got), ref.Enc(outs[v[1]])), "one output", "%v %v at %d, %v", gid, got, slot, err)
			return
		}
		c.Outcome("error")
		c.Check(err != nil && got == nil, "one output fault", "no error, %v", got)
		if how == 2 {
			c.Check(errors.Is(err, nodeclient.ErrIndexerNotFound), "not found", "%v", err)
		}
		if how == 3 || how == 4 {
			c.Check(errors.Is(err, statusErr[404+96*(how-3)]), "one output status", "%v", err)
		}
	})
}

// powZeros is the number of trailing zero bits of the hash of the digest of data and the nonce.
func powZeros(data []byte, nonce uint64) int {
	msg := append([]byte{}, ref.Blake(data)...)
	for i := 0; i < 8; i++ {
		msg = append(msg, byte(nonce>>(8*i)))
	}
	h := ref.Blake(msg)
	n := 0
	for i := 24; i < 32; i++ {
		for b := 0; b < 8; b++ {
			if h[i]>>b&1 == 1 {
				return n
			}
			n++
		}
	}
	return n
}

// p32issuer: payloads sent to a block issuer.
func p32issuer(x *core.Ctx, e *gen.Env) {
	faultsAt := []string{"none", "info 500", "info garbage", "issue 400", "issue garbage", "issue 204", "no connection"}
	x.Product("payloads for the block issuer", []core.Dim{core.D("target", 13), core.DL("workers", "default", "1", "3"), core.DL("payload", "tagged data", "transaction", "invalid"), core.DL("fault", faultsAt...)}, func(v []int, c *core.C) {
		if v[3] > 0 && (v[0] != 4 || v[1] > 0) {
			c.Skip()
			return
		}
		f := faultsAt[v[3]]
		cl, w := p32client(e)
		made := &api.BlockCreatedResponse{BlockID: blockID(5, 6)}
		w.reply = func(n int, s *sent) answer {
			if has(s.path, "info") {
				switch f {
				case "info 500":
					return answer{status: 500}
				case "info garbage":
					return answer{status: 200, body: []byte("<>")}
				}
				return answer{status: 200, body: jsonOf(e, &api.BlockIssuerInfo{BlockIssuerAddress: "x", PowTargetTrailingZeros: uint8(v[0])})}
			}
			switch f {
			case "issue 400":
				return answer{status: 400}
			case "issue garbage":
				return answer{status: 200, body: []byte("<>")}
			case "issue 204":
				return answer{status: 204}
			case "no connection":
				return answer{err: errWire}
			}
			return answer{status: 201, body: jsonOf(e, made)}
		}
		var pay iotago.ApplicationPayload
		switch v[2] {
		case 0:
			pay = &iotago.TaggedData{Tag: []byte{byte(v[0])}, Data: []byte("data")}
		case 1:
			pay = synTx(e)
		case 2:
			pay = &iotago.TaggedData{Tag: bytes.Repeat([]byte{1}, 300)}
		}
		var wk []int
		if v[1] > 0 {
			wk = append(wk, []int{0, 1, 3}[v[1]])
		}
		got, err := cl.b.SendPayload(context.Background(), pay, commitID(9, 8), wk...)
		c.Step(1)
		reqs := w.drain()
		if v[2] == 2 || f != "none" {
			c.Outcome("error")
			c.Check(err != nil && got == nil, "issuer fault", "fault %s: %v", f, got)
			c.Check(v[2] != 2 || len(reqs) == 1, "invalid payload sent", "%d requests", len(reqs))
			return
		}
		c.Outcome("issued")
		if !c.Check(err == nil && got.BlockID == made.BlockID && len(reqs) == 2, "issued", "%v, %v", got, err) {
			return
		}
		s := reqs[1]
		nonce, perr := strconv.ParseUint(s.header.Get("X-IOTA-BlockIssuer-PoW-Nonce"), 10, 64)
		c.Check(reqs[0].method == "GET" && reqs[0].path == "/api/blockissuer/v1/info" && s.method == "POST" && s.path == "/api/blockissuer/v1/issue" && bytes.Equal(s.body, ref.Enc(pay)) && s.header.Get("Content-Type") == rawMIME &&
			s.header.Get("X-IOTA-BlockIssuer-Commitment-ID") == commitID(9, 8).ToHex(), "issue request", "%s %s %v %x", s.method, s.path, s.header, s.body)
		c.Check(perr == nil && powZeros(s.body, nonce) >= v[0], "issue nonce", "nonce %d has %d zeros, %d are needed", nonce, powZeros(s.body, nonce), v[0])
	})
}

// ---- events ---------------------------------------------------------------------------------------------------------

type doneToken struct{ err error }

func (t doneToken) Wait() bool                     { return true }
func (t doneToken) WaitTimeout(time.Duration) bool { return true }
func (t doneToken) Done() <-chan struct{}          { ch := make(chan struct{}); close(ch); return ch }
func (t doneToken) Error() error                   { return t.err }

type fakeMsg struct {
	topic string
	data  []byte
}

func (m fakeMsg) Duplicate() bool   { return false }
func (m fakeMsg) Qos() byte         { return 2 }
func (m fakeMsg) Retained() bool    { return false }
func (m fakeMsg) Topic() string     { return m.topic }
func (m fakeMsg) MessageID() uint16 { return 1 }
func (m fakeMsg) Payload() []byte   { return m.data }
func (m fakeMsg) Ack()              {}

// fakeMQTT is a broker in memory.
type fakeMQTT struct {
	mqtt.Client
	mu        sync.Mutex
	connected bool
	subs      map[string]mqtt.MessageHandler
	log       []string
	fail      error
}

func (f *fakeMQTT) IsConnected() bool      { return f.connected }
func (f *fakeMQTT) IsConnectionOpen() bool { return f.connected }
func (f *fakeMQTT) Connect() mqtt.Token    { f.connected = f.fail == nil; return doneToken{f.fail} }
func (f *fakeMQTT) Disconnect(uint)        { f.connected = false }
func (f *fakeMQTT) Unsubscribe(ts ...string) mqtt.Token {
	for _, t := range ts {
		f.log = append(f.log, "un "+t)
		delete(f.subs, t)
	}
	return doneToken{f.fail}
}
func (f *fakeMQTT) Subscribe(t string, q byte, h mqtt.MessageHandler) mqtt.Token {
	f.log = append(f.log, fmt.Sprintf("sub %s %d", t, q))
	if f.fail != nil {
		return doneToken{f.fail}
	}
	f.subs[t] = h
	return doneToken{}
}

type subscription struct {
	name, topic string
	raw         func(i int) []byte
	sub         func(ev *nodeclient.EventAPIClient) (func() (any, bool), *nodeclient.EventAPIClientSubscription)
}

func chanOf[T any](ch <-chan T, s *nodeclient.EventAPIClientSubscription) (func() (any, bool), *nodeclient.EventAPIClientSubscription) {
	return func() (any, bool) {
		select {
		case v, ok := <-ch:
			return v, ok
		case <-time.After(5 * time.Second):
			return nil, false
		}
	}, s
}

func subscriptions(e *gen.Env) (out []subscription) {
	enc := func(v any) []byte {
		b, err := e.API.Encode(v)
		if err != nil {
			panic(err)
		}
		return b
	}
	type EV = nodeclient.EventAPIClient
	type next = func() (any, bool)
	type ES = nodeclient.EventAPIClientSubscription
	coms := func(i int) []byte {
		return ref.Enc(&iotago.Commitment{ProtocolVersion: 3, Slot: iotago.SlotIndex(5 + i)})
	}
	blks := func(i int) []byte { return ref.Enc(issued(baseBlock(e, uint32(30+i), i == 1), i)) }
	var bm, tm func(i int) []byte
	for _, m := range apiMsgs(e) {
		v := m.mk()
		switch v := v.(type) {
		case *api.BlockMetadataResponse:
			bm = func(i int) []byte { v.BlockID = blockID(byte(i), 9); return enc(v) }
		case *api.TransactionMetadataResponse:
			tm = func(i int) []byte { v.TransactionID = gen.TxIDAt(byte(i), 9); return enc(v) }
		}
	}
	tx := synTx(e).Transaction
	om := func(i int) []byte {
		p, _ := iotago.OutputIDProofFromTransaction(tx, 0)
		return enc(&api.OutputWithMetadataResponse{Output: tx.Outputs[0], OutputIDProof: p, Metadata: &api.OutputMetadata{OutputID: gen.OutID(byte(i), 3, 0), Included: &api.OutputInclusionMetadata{Slot: 3}}})
	}
	add := func(name, topic string, raw func(int) []byte, f func(ev *EV) (next, *ES)) {
		out = append(out, subscription{name, topic + "/raw", raw, f})
	}
	hrp := string(e.P.HRP)
	acc, anc, nf, del := gen.AccID(0xa1), gen.AncID(0xb1), gen.NFTID(0xc1), gen.DelID(0xd1)
	fid := foundryID(acc, 3)
	txID, bid, oid := gen.TxIDAt(7, 8), blockID(9, 9), gen.OutID(4, 4, 4)
	bech := func(a iotago.Address) string { return ref.Bech32(hrp, ref.Enc(a)) }
	add("CommitmentsLatest", "commitments/latest", coms, func(ev *EV) (next, *ES) { return chanOf(ev.CommitmentsLatest()) })
	add("CommitmentsFinalized", "commitments/finalized", coms, func(ev *EV) (next, *ES) { return chanOf(ev.CommitmentsFinalized()) })
	add("Blocks", "blocks", blks, func(ev *EV) (next, *ES) { return chanOf(ev.Blocks()) })
	add("BlocksValidation", "blocks/validation", blks, func(ev *EV) (next, *ES) { return chanOf(ev.BlocksValidation()) })
	add("BlocksBasic", "blocks/basic", blks, func(ev *EV) (next, *ES) { return chanOf(ev.BlocksBasic()) })
	add("BlocksBasicWithTaggedData", "blocks/basic/tagged-data", blks, func(ev *EV) (next, *ES) { return chanOf(ev.BlocksBasicWithTaggedData()) })
	add("BlocksBasicWithTaggedDataByTag", "blocks/basic/tagged-data/0x01ff", blks, func(ev *EV) (next, *ES) { return chanOf(ev.BlocksBasicWithTaggedDataByTag([]byte{1, 255})) })
	add("BlocksBasicWithTransactions", "blocks/basic/transaction", blks, func(ev *EV) (next, *ES) { return chanOf(ev.BlocksBasicWithTransactions()) })
	add("BlocksBasicWithTransactionsWithTaggedData", "blocks/basic/transaction/tagged-data", blks, func(ev *EV) (next, *ES) { return chanOf(ev.BlocksBasicWithTransactionsWithTaggedData()) })
	add("BlocksBasicWithTransactionsWithTaggedDataByTag", "blocks/basic/transaction/tagged-data/0x01ff", blks, func(ev *EV) (next, *ES) {
		return chanOf(ev.BlocksBasicWithTransactionsWithTaggedDataByTag([]byte{1, 255}))
	})
	add("BlockMetadataTransactionIncludedBlocksByTransactionID", "transactions/"+txID.ToHex()+"/included-block-metadata", bm, func(ev *EV) (next, *ES) {
		return chanOf(ev.BlockMetadataTransactionIncludedBlocksByTransactionID(txID))
	})
	add("TransactionMetadataByTransactionID", "transaction-metadata/"+txID.ToHex(), tm, func(ev *EV) (next, *ES) { return chanOf(ev.TransactionMetadataByTransactionID(txID)) })
	add("BlockMetadataByBlockID", "block-metadata/"+bid.ToHex(), bm, func(ev *EV) (next, *ES) { return chanOf(ev.BlockMetadataByBlockID(bid)) })
	add("BlockMetadataAcceptedBlocks", "block-metadata/accepted", bm, func(ev *EV) (next, *ES) { return chanOf(ev.BlockMetadataAcceptedBlocks()) })
	add("BlockMetadataConfirmedBlocks", "block-metadata/confirmed", bm, func(ev *EV) (next, *ES) { return chanOf(ev.BlockMetadataConfirmedBlocks()) })
	add("OutputWithMetadataByOutputID", "outputs/"+oid.ToHex(), om, func(ev *EV) (next, *ES) { return chanOf(ev.OutputWithMetadataByOutputID(oid)) })
	add("OutputsWithMetadataByAccountID", "outputs/account/"+bech(acc.ToAddress()), om, func(ev *EV) (next, *ES) { return chanOf(ev.OutputsWithMetadataByAccountID(acc)) })
	add("OutputsWithMetadataByAnchorID", "outputs/anchor/"+bech(anc.ToAddress()), om, func(ev *EV) (next, *ES) { return chanOf(ev.OutputsWithMetadataByAnchorID(anc)) })
	add("OutputsWithMetadataByFoundryID", "outputs/foundry/"+fid.ToHex(), om, func(ev *EV) (next, *ES) { return chanOf(ev.OutputsWithMetadataByFoundryID(fid)) })
	add("OutputsWithMetadataByNFTID", "outputs/nft/"+bech(nf.ToAddress()), om, func(ev *EV) (next, *ES) { return chanOf(ev.OutputsWithMetadataByNFTID(nf)) })
	add("OutputsWithMetadataByDelegationID", "outputs/delegation/"+del.ToHex(), om, func(ev *EV) (next, *ES) { return chanOf(ev.OutputsWithMetadataByDelegationID(del)) })
	for cond, s := range map[api.EventAPIUnlockCondition]string{api.EventAPIUnlockConditionAny: "+", api.EventAPIUnlockConditionAddress: "address", api.EventAPIUnlockConditionStorageReturn: "storage-return", api.EventAPIUnlockConditionExpiration: "expiration", api.EventAPIUnlockConditionStateController: "state-controller", api.EventAPIUnlockConditionGovernor: "governor", api.EventAPIUnlockConditionImmutableAccount: "immutable-account"} {
		add("OutputsWithMetadataByUnlockConditionAndAddress "+s, "outputs/unlock/"+s+"/"+bech(gen.Ed(3)), om, func(ev *EV) (next, *ES) {
			return chanOf(ev.OutputsWithMetadataByUnlockConditionAndAddress(cond, gen.Ed(3)))
		})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return
}

func p32events(x *core.Ctx, e *gen.Env) {
	var names []string
	for _, s := range subscriptions(e) {
		names = append(names, s.name)
	}
	// every sequence of up to n messages, good, broken or cut short
	kinds := []string{"-", "good 0", "good 1", "empty", "garbage", "cut"}
	ds := []core.Dim{core.DL("subscription", names...)}
	n := core.Pick(x, 3, 4)
	for i := 0; i < n; i++ {
		ds = append(ds, core.DL(fmt.Sprintf("message %d", i), kinds...))
	}
	x.Product("events", ds, func(v []int, c *core.C) {
		for i := 1; i < n; i++ {
			if v[i] == 0 && v[i+1] != 0 {
				c.Skip()
				return
			}
		}
		cl, _ := p32client(e)
		broker := &fakeMQTT{subs: map[string]mqtt.MessageHandler{}}
		cl.e.MQTTClient = broker
		errs := make(chan error, 16)
		cl.e.Errors = errs
		ctx, stop := context.WithCancel(context.Background())
		defer stop()
		s := subscriptions(e)[v[0]]
		c.Check(core.Panics(func() { s.sub(cl.e) }) != "", "subscribed without connection", "%s", s.name)
		if err := cl.e.Connect(ctx); !c.Check(err == nil, "connect", "%v", err) {
			return
		}
		next, sub := s.sub(cl.e)
		h := broker.subs[s.topic]
		if !c.Check(sub.Error() == nil && h != nil && len(broker.subs) == 1, "topic "+s.name, "%s subscribes %v instead of %s", s.name, broker.log, s.topic) {
			return
		}
		for _, k := range v[1:] {
			if k == 0 {
				break
			}
			var data []byte
			good := false
			switch kinds[k] {
			case "good 0", "good 1":
				data, good = s.raw(k-1), true
			case "garbage":
				data = []byte{0xff, 0xff, 0xff, 0xff}
			case "cut":
				data = s.raw(0)
				data = data[:len(data)-1]
			}
			c.Step(1)
			pan := make(chan string, 1)
			go func() { pan <- core.Panics(func() { h(broker, fakeMsg{s.topic, data}) }) }()
			if good {
				got, ok := next()
				if c.Check(ok, "event lost", "%s: the event does not arrive", s.name) {
					c.Check(encAny(e, got) == fmt.Sprintf("%T %x", got, data), "event", "%s: %s instead of %x", s.name, encAny(e, got), data)
				}
			}
			if p := <-pan; !c.Check(p == "", "event panic", "%s: %s", s.name, p) {
				return
			}
			if !good {
				c.Check(len(errs) > 0, "event error", "%s: a broken event is dropped without error", s.name)
			} else {
				c.Check(len(errs) == 0, "event error", "%s: error for a good event", s.name)
			}
			for len(errs) > 0 {
				<-errs
			}
		}
		// nobody listens and the context ends
		done := make(chan string, 1)
		go func() { done <- core.Panics(func() { h(broker, fakeMsg{s.topic, s.raw(0)}) }) }()
		stop()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			c.Fail("event hangs", "%s: the handler does not end with the context", s.name)
		}
		c.Check(sub.Close() == nil && broker.log[len(broker.log)-1] == "un "+s.topic, "unsubscribe", "%v", broker.log)
		c.Outcome("done")
	})
	x.Product("failing subscriptions", []core.Dim{core.DL("subscription", names...)}, func(v []int, c *core.C) {
		cl, _ := p32client(e)
		broker := &fakeMQTT{subs: map[string]mqtt.MessageHandler{}}
		cl.e.MQTTClient = broker
		s := subscriptions(e)[v[0]]
		broker.fail = errWire
		c.Check(errors.Is(cl.e.Connect(context.Background()), errWire), "connect error", "no error")
		broker.fail = nil
		c.Check(cl.e.Connect(context.Background()) == nil, "connect", "error")
		broker.fail = errWire
		_, sub := s.sub(cl.e)
		c.Step(1)
		c.Check(errors.Is(sub.Error(), errWire) && sub.Close() != nil, "subscription error", "%s: %v", s.name, sub.Error())
	})
}
