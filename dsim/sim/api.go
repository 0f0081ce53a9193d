package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"

	"github.com/go-logr/logr"
	apimeta "k8s.io/apimachinery/pkg/api/meta"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/rest"
	"k8s.io/klog/v2"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"github.com/l7mp/dcontroller/pkg/apiserver"
)

// extAPI is the extension API server with its clients: real HTTP servers and
// clients over sockets in memory.
type extAPI struct {
	w      *world
	net    *memNet
	s      *apiserver.APIServer
	addr   string
	cancel context.CancelFunc
	done   chan error
	http   *http.Client
}

const extPort = 8080

func newExtAPI(w *world, c client.Client) (*extAPI, error) { return newExtAPIAt(w, c, 0) }

func newExtAPIAt(w *world, c client.Client, startAt time.Duration, opts ...func(c *apiserver.Config)) (*extAPI, error) {
	klog.SetLogger(logr.Discard())
	a := &extAPI{w: w, net: newMemNet(), addr: fmt.Sprintf("127.0.0.1:%d", extPort), done: make(chan error, 1)}
	r := newRng(w.p.Seed, "memnet")
	switch w.p.cfgI("net_us") {
	case 0:
	default:
		m := w.p.cfgI("net_us")
		a.net.lat = func() time.Duration { return time.Duration(r.i64(m+1)) * time.Microsecond }
	}
	cfg, err := apiserver.NewDefaultConfig("127.0.0.1", extPort, c, true, true, logr.Discard())
	if err != nil {
		return nil, err
	}
	for _, o := range opts {
		o(&cfg)
	}
	if a.s, err = apiserver.NewAPIServer(cfg); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithCancel(context.Background())
	a.cancel = cancel
	go func() {
		if d := startAt - now(); d > 0 {
			time.Sleep(d)
		}
		a.done <- a.s.Start(ctx)
	}()
	a.http = &http.Client{Transport: &http.Transport{DialContext: a.net.dial, MaxIdleConnsPerHost: 2}}
	return a, nil
}

func (a *extAPI) stop() {
	a.cancel()
}

func storeGVKs() []schema.GroupVersionKind {
	var ret []schema.GroupVersionKind
	for _, k := range storeKinds {
		ret = append(ret, viewGVK(k.op, k.kind))
	}
	return ret
}

// client registers the kinds (once more) and returns a client for them.
func (a *extAPI) client(gvks []schema.GroupVersionKind) (client.WithWatch, error) {
	if err := a.s.RegisterGVKs(gvks); err != nil {
		return nil, err
	}
	mapper := apimeta.NewDefaultRESTMapper(nil)
	for _, k := range gvks {
		gvr := k.GroupVersion().WithResource(strings.ToLower(k.Kind))
		mapper.AddSpecific(k, gvr, gvr, apimeta.RESTScopeNamespace)
	}
	return client.NewWithWatch(&rest.Config{Host: "http://" + a.addr, QPS: -1, Dial: func(ctx context.Context, network, addr string) (net.Conn, error) {
		return a.net.dial(ctx, network, addr)
	}}, client.Options{Mapper: mapper, Scheme: runtime.NewScheme()})
}

type rawResp struct {
	code int
	ct   string
	body []byte
	obj  M
	err  error
}

// raw performs a plain HTTP request.
func (a *extAPI) raw(method, path, ct, body string, hdr ...string) rawResp {
	req, err := http.NewRequest(method, "http://"+a.addr+path, bytes.NewReader([]byte(body)))
	if err != nil {
		return rawResp{err: err}
	}
	if ct != "" {
		req.Header.Set("Content-Type", ct)
	}
	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header.Set(hdr[i], hdr[i+1])
	}
	resp, err := a.http.Do(req)
	if err != nil {
		return rawResp{err: err}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	r := rawResp{code: resp.StatusCode, ct: resp.Header.Get("Content-Type"), body: b, err: err}
	var m M
	if json.Unmarshal(b, &m) == nil {
		r.obj = m
	}
	return r
}

func genC15(r *rng) *plan {
	var p *plan
	switch r.n(5) {
	case 0, 1:
		p = genC08(r)
	case 2, 3:
		p = genC09(r)
	default:
		p = genRaw(r)
	}
	p.Prop = "C15"
	p.Cfg["api"] = true
	p.Cfg["net_us"] = pick(r, []int64{0, 1, 100, 3000})
	return p
}
