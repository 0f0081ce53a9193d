package main

import (
	"crypto"
	"crypto/hmac"
	"crypto/rsa"
	"crypto/sha256"
	_ "embed"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	rbacv1 "k8s.io/api/rbac/v1"

	"github.com/l7mp/dcontroller/pkg/apiserver"
	"github.com/l7mp/dcontroller/pkg/auth"
)

// Requests to a protected extension API server with tokens good and bad,
// issued and used on machines whose clocks differ and jump.

//go:embed keys/a.crt
var keyACrt []byte

//go:embed keys/a.key
var keyAKey []byte

//go:embed keys/b.key
var keyBKey []byte

const (
	apiNode   = 60 // where the API server runs
	issueNode = 61 // where tokens are issued
)

// The answers a request may get.
const (
	mayPass = 1 << iota
	may401
	may403
)

type authTok struct {
	raw        string
	user       string
	namespaces []string
	rules      []rbacv1.PolicyRule
	nbf, exp   int64 // s
}

type authRun struct {
	w      *world
	a      *extAPI
	ka, kb *rsa.PrivateKey
	toks   map[int]*authTok
	clock  map[string]int64 // ns ahead of the common time
	jumps  int
}

func secretOf(key string) string { return "S!" + key + "!" }

// wall is the wall clock of the API server, in ns.
func (a *authRun) wall(of string) int64 { return t0.UnixNano() + int64(now()) + a.clock[of] }

func newAuth(w *world) (*authRun, error) {
	a := &authRun{w: w, toks: map[int]*authTok{}, clock: map[string]int64{}}
	var err error
	if a.ka, err = auth.ParsePrivateKey(keyAKey); err != nil {
		return nil, err
	}
	if a.kb, err = auth.ParsePrivateKey(keyBKey); err != nil {
		return nil, err
	}
	return a, nil
}

// config protects the API server.
func (a *authRun) config(c *apiserver.Config) {
	pub, err := auth.ParsePublicKey(keyACrt)
	if err != nil {
		fatal(err)
	}
	c.Authenticator = auth.NewJWTAuthenticator(pub)
	c.Authorizer = auth.NewCompositeAuthorizer()
}

func (a *authRun) setClock(of string, off int64) {
	n := uint32(apiNode)
	if of == "issuer" {
		n = issueNode
	}
	a.jumps++
	a.clock[of] = off
	dsimClock(n, off)
	a.w.srv.fired["clock-jump"]++
	a.w.log("clock of %s %v ahead", of, time.Duration(off))
}

func strs(v any) []string {
	l, _ := v.([]any)
	var ret []string
	for _, x := range l {
		ret = append(ret, str(x))
	}
	return ret
}

func (a *authRun) issue(o opStep) error {
	t := &authTok{user: str(o.Obj["user"]), namespaces: strs(o.Obj["namespaces"])}
	rs, _ := o.Obj["rules"].([]any)
	for _, x := range rs {
		m, _ := x.(M)
		t.rules = append(t.rules, rbacv1.PolicyRule{Verbs: strs(m["verbs"]), APIGroups: strs(m["apiGroups"]), Resources: strs(m["resources"]), ResourceNames: strs(m["resourceNames"])})
	}
	key := a.ka
	if o.S == "other" { // a generator of somebody else
		key = a.kb
	}
	life := time.Duration(o.N) * time.Millisecond
	jumps := a.jumps
	from := a.wall("issuer")
	dsimSetNode(issueNode)
	raw, err := auth.NewTokenGenerator(key).GenerateToken(t.user, t.namespaces, t.rules, life)
	dsimSetNode(0)
	to := a.wall("issuer")
	if err != nil {
		return err
	}
	t.raw = raw
	if cfg := auth.GenerateKubeconfig(a.a.addr, t.user, raw, &auth.KubeconfigOptions{ClusterName: "c", ContextName: "c", HTTPMode: true}); cfg.AuthInfos[t.user].Token != raw {
		a.w.fail("bad-token", "the kubeconfig of %s holds another token", t.user)
	}
	var c struct {
		Username   string              `json:"username"`
		Namespaces []string            `json:"namespaces"`
		Rules      []rbacv1.PolicyRule `json:"rules"`
		Exp, Nbf   float64
	}
	p := strings.Split(raw, ".")
	if len(p) != 3 {
		a.w.fail("bad-token", "not a token: %s", raw)
		return nil
	}
	b, err := base64.RawURLEncoding.DecodeString(p[1])
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	js := func(v any) string { b, _ := json.Marshal(v); return string(b) }
	if err != nil || c.Username != t.user || len(c.Namespaces)+len(t.namespaces) > 0 && js(c.Namespaces) != js(t.namespaces) || len(c.Rules)+len(t.rules) > 0 && js(c.Rules) != js(t.rules) {
		a.w.fail("bad-token", "the token of %s says %s (%v)", o, b, err)
	}
	t.nbf, t.exp = int64(c.Nbf), int64(c.Exp)
	if jumps == a.jumps && (t.nbf*1e9 > to || t.nbf*1e9 <= from-1e9 || t.exp*1e9 > to+int64(life) || t.exp*1e9 <= from+int64(life)-1e9) {
		a.w.fail("bad-token", "the token of %s issued at %d to %d is valid from %d to %d", o, from, to, t.nbf, t.exp)
	}
	if o.S == "other" {
		t.exp = 0
	}
	a.toks[o.Src] = t
	return nil
}

func b64(v any) string {
	b, ok := v.([]byte)
	if !ok {
		b, _ = json.Marshal(v)
	}
	return base64.RawURLEncoding.EncodeToString(b)
}

// header is the Authorization header of a request; it tells whether the token
// in it is one of the server.
func (a *authRun) header(o opStep) (string, *authTok, bool) {
	t := a.toks[o.Src]
	if t == nil {
		if o.Tok != "" && o.Tok != "none" {
			return "Bearer nothing", nil, false
		}
		return "", nil, false
	}
	p := strings.Split(t.raw, ".")
	var claims M
	b, _ := base64.RawURLEncoding.DecodeString(p[1])
	json.Unmarshal(b, &claims) //nolint:errcheck
	full := cp(claims)
	delete(full, "namespaces")
	delete(full, "rules")
	full["exp"] = a.wall("server")/1e9 + 1000
	full["nbf"] = a.wall("server")/1e9 - 1000
	sign := func(head M, c M, k *rsa.PrivateKey) string {
		in := b64(head) + "." + b64(c)
		h := sha256.Sum256([]byte(in))
		sig, err := rsa.SignPKCS1v15(nil, k, crypto.SHA256, h[:])
		if err != nil {
			fatal(err)
		}
		return in + "." + b64(sig)
	}
	switch o.Tok {
	case "none":
		return "", t, false
	case "basic":
		return "Basic " + t.raw, t, false
	case "bare":
		return t.raw, t, false
	case "empty":
		return "Bearer ", t, false
	case "two":
		return "Bearer " + p[0] + "." + p[1], t, false
	case "nosig":
		return "Bearer " + p[0] + "." + p[1] + ".", t, false
	case "cut":
		return "Bearer " + t.raw[:len(t.raw)-8], t, false
	case "flip":
		s := []byte(t.raw)
		i := len(s) - 20 - int(o.T%100)
		if s[i] == 'A' {
			s[i] = 'B'
		} else {
			s[i] = 'A'
		}
		return "Bearer " + string(s), t, false
	case "payload": // other claims under the same signature
		return "Bearer " + p[0] + "." + b64(full) + "." + p[2], t, false
	case "sig": // the signature of another token
		for _, i := range tokIDs(a.toks) {
			if x := a.toks[i]; x.raw != t.raw {
				return "Bearer " + p[0] + "." + p[1] + "." + strings.Split(x.raw, ".")[2], t, false
			}
		}
		return "Bearer " + p[0] + "." + p[1] + "." + p[1], t, false
	case "algnone":
		return "Bearer " + b64(M{"alg": "none", "typ": "JWT"}) + "." + b64(full) + ".", t, false
	case "hs256": // the public key as a secret
		in := b64(M{"alg": "HS256", "typ": "JWT"}) + "." + b64(full)
		h := hmac.New(sha256.New, keyACrt)
		h.Write([]byte(in))
		return "Bearer " + in + "." + b64(h.Sum(nil)), t, false
	case "otherkey":
		return "Bearer " + sign(M{"alg": "RS256", "typ": "JWT"}, full, a.kb), t, false
	case "jwk": // carries the key it is signed with
		return "Bearer " + sign(M{"alg": "RS256", "typ": "JWT", "jwk": M{"kty": "RSA", "n": b64(a.kb.N.Bytes()), "e": "AQAB"}}, full, a.kb), t, false
	}
	return "Bearer " + t.raw, t, true
}

var tokTampers = []string{"none", "basic", "bare", "empty", "two", "nosig", "cut", "flip", "payload", "sig", "algnone", "hs256", "otherkey", "jwk"}

func tokIDs(m map[int]*authTok) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// valid tells whether a token is valid at an instant of the server's clock.
func (t *authTok) valid(wall int64) bool { return t.nbf*1e9 <= wall && wall < t.exp*1e9 }

// raw sends a request with its token and tells how it may be answered.
func (a *authRun) raw(o opStep, method, path, ct, body string, hdr ...string) (rawResp, int) {
	h, t, ours := a.header(o)
	if h != "" {
		hdr = append(hdr, "Authorization", h)
	}
	jumps := a.jumps
	before := t != nil && ours && t.valid(a.wall("server"))
	r := a.a.raw(method, path, ct, body, hdr...)
	after := t != nil && ours && t.valid(a.wall("server"))
	v := 0
	open := ours && t != nil && (before != after || jumps != a.jumps)
	if !before || open {
		v |= may401
	}
	if before || open {
		switch ok, sub := t.allows(method, path); {
		case !ok:
			v |= may403
		case sub:
			v |= mayPass | may403
		default:
			v |= mayPass
		}
	}
	if open {
		a.w.counts["token_at_boundary"]++
	}
	if t != nil && ours && !before && !open {
		if a.wall("server") < t.nbf*1e9 {
			a.w.counts["token_not_yet_valid"]++
		} else {
			a.w.counts["token_expired"]++
		}
	}
	// nothing of what the token does not grant anything on
	if r.err == nil {
		for _, s := range strings.Split(string(r.body), "S!")[1:] {
			key, _, ok := strings.Cut(s, "!")
			i := strings.Split(key, "/")
			if !ok || len(i) != 4 {
				continue
			}
			see := false
			if before || open {
				for _, verb := range []string{"get", "list", "watch", "update", "patch", "delete", "create", "deletecollection"} {
					see = see || t.grants(verb, i[0]+".view.dcontroller.io", strings.ToLower(i[1]), i[2], i[3])
				}
			}
			if !see {
				a.w.fail("leak", "%s %s with the token of %s (%s) answers %d with %s", method, path, o, a.show(t), r.code, key)
			}
		}
	}
	return r, v
}

func (a *authRun) show(t *authTok) string {
	if t == nil {
		return "no token"
	}
	b, _ := json.Marshal(t.rules)
	return fmt.Sprintf("%s in %v with %s, valid %d to %d, server at %.3f", t.user, t.namespaces, b, t.nbf, t.exp, float64(a.wall("server"))/1e9)
}

// answered judges the answer of a request.
func (a *authRun) answered(o opStep, v int, r rawResp) {
	if r.err != nil {
		return
	}
	_, t, _ := a.header(o)
	switch {
	case r.code == 401 && v&may401 != 0:
		a.w.counts["unauthenticated"]++
	case r.code == 403 && v&may403 != 0:
		a.w.counts["forbidden"]++
	case r.code == 401 || r.code == 403:
		a.w.fail("refused", "%s (%s) is answered %d %s", o, a.show(t), r.code, short(string(r.body)))
	case v&mayPass == 0:
		a.w.fail("let-through", "%s (%s) is answered %d %s", o, a.show(t), r.code, short(string(r.body)))
	default:
		a.w.counts["let_through"]++
	}
}

// allows tells whether a token grants a request, as documented; sub tells
// that the request is about a part of an object.
func (t *authTok) allows(method, path string) (ok, sub bool) {
	u, err := url.Parse(path)
	if err != nil {
		return false, false
	}
	p := strings.Split(strings.Trim(u.Path, "/"), "/")
	if p[0] == "apis" && len(p) > 3 { // apis G V ...
		group, rest := p[1], p[3:]
		ns, name := "", ""
		if rest[0] == "namespaces" && len(rest) > 2 {
			ns, rest = rest[1], rest[2:]
		}
		if len(rest) > 1 {
			name = rest[1]
		}
		verb := map[string]string{"GET": "get", "POST": "create", "PUT": "update", "PATCH": "patch", "DELETE": "delete"}[method]
		if name == "" && verb == "get" {
			verb = "list"
			if q := u.Query().Get("watch"); q == "true" || q == "1" {
				verb = "watch"
			}
		}
		if name == "" && verb == "delete" {
			verb = "deletecollection"
		}
		return t.grants(verb, group, rest[0], ns, name), len(rest) > 2
	}
	return true, false
}

func (t *authTok) grants(verb, group, res, ns, name string) bool {
	if len(t.namespaces) > 0 {
		ok := false
		for _, n := range t.namespaces {
			ok = ok || n == "*" || ns != "" && n == ns
		}
		if !ok {
			return false
		}
	}
	if len(t.rules) == 0 {
		return true
	}
	for _, r := range t.rules {
		if globs(r.Verbs, verb) && globs(r.APIGroups, group) && globs(r.Resources, res) {
			switch verb {
			case "list", "watch", "create", "deletecollection":
				return true
			}
			if len(r.ResourceNames) == 0 || name == "" || globs(r.ResourceNames, name) {
				return true
			}
		}
	}
	return false
}

// globs matches with patterns of at most one wildcard.
func globs(ps []string, v string) bool {
	for _, p := range ps {
		pre, suf, star := strings.Cut(p, "*")
		if !star && p == v || star && len(v) >= len(pre)+len(suf) && v[:len(pre)] == pre && v[len(v)-len(suf):] == suf {
			return true
		}
	}
	return false
}

var (
	discPaths = []string{"/apis", "/api", "/version", "/healthz", "/livez", "/readyz", "/", "/apis/op1.view.dcontroller.io", "/apis/op1.view.dcontroller.io/v1alpha1", "/apis/op2.view.dcontroller.io/v1alpha1", "/openapi/v2"}
	tricks    = []string{"dots", "encoded", "watchpath", "proxypath", "slashes", "core", "nsfield", "postns", "putname", "delfield", "override", "impersonate", "remote", "query", "case"}
)

// other performs the requests that leave no trace in the store.
func (a *authRun) other(s *rawRun, raw func(method, path, ct, body string, hdr ...string) rawResp, v *int, o opStep) {
	i := strings.Split(o.Key, "/")
	op, kind, ns, name := i[0], i[1], i[2], i[3]
	path, coll := rawPath(op, kind, ns, name), rawPath(op, kind, ns, "")
	var r rawResp
	switch o.Do {
	case "disc":
		r = raw("GET", discPaths[int(o.N)%len(discPaths)], "", "")
	case "watch":
		p := coll
		if o.N%2 == 1 {
			p = fmt.Sprintf("/apis/%s.view.dcontroller.io/v1alpha1/%s", op, strings.ToLower(kind))
		}
		r = raw("GET", p+"?watch=true&timeoutSeconds=1", "", "")
		if r.err == nil && r.code == 200 && o.N%2 == 0 {
			for _, k := range secretsIn(string(r.body)) {
				if !strings.HasPrefix(k, op+"/"+kind+"/"+ns+"/") {
					a.w.fail("leak", "%s answers %s", p, k)
				}
			}
		}
	case "trick":
		ons := "ns1"
		if ns == "ns1" {
			ons = "ns2"
		}
		js := func(v any) string { b, _ := json.Marshal(v); return string(b) }
		body := rawBody(op, kind, ns, name, M{"data": M{"tricked": true}})
		method, ct, b := "GET", "", ""
		var hdr []string
		p := path
		switch o.S {
		case "dots":
			p = strings.Replace(path, "/namespaces/"+ns, "/namespaces/"+ons+"/"+strings.ToLower(kind)+"/../../"+ns, 1)
		case "encoded":
			p = strings.Replace(path, "/namespaces/"+ns, "/namespaces/"+ons+"%2F..%2F"+ns, 1)
		case "watchpath":
			p = strings.Replace(path, "/v1alpha1/", "/v1alpha1/watch/", 1) + "?timeoutSeconds=1"
		case "proxypath":
			p = strings.Replace(path, "/v1alpha1/", "/v1alpha1/proxy/", 1)
		case "slashes":
			p = strings.Replace(path, "/v1alpha1/", "//v1alpha1//", 1)
		case "core":
			p = "/api/v1/namespaces/" + ns + "/" + strings.ToLower(kind) + "/" + name
		case "nsfield":
			p = rawPath(op, kind, ons, "") + "?fieldSelector=" + url.QueryEscape("metadata.namespace="+ns)
		case "postns":
			method, ct, b, p = "POST", "application/json", js(body), rawPath(op, kind, ons, "")
		case "putname":
			method, ct, b, p = "PUT", "application/json", js(body), path+"x"
		case "delfield":
			method, p = "DELETE", rawPath(op, kind, ons, "")+"?fieldSelector="+url.QueryEscape("metadata.namespace="+ns)
		case "override":
			hdr = []string{"X-HTTP-Method-Override", "DELETE"}
		case "impersonate":
			hdr = []string{"Impersonate-User", "admin", "Impersonate-Group", "system:masters"}
		case "remote":
			hdr = []string{"X-Remote-User", "admin", "X-Remote-Group", "system:masters"}
		case "query":
			p = path + "?access_token=" + strings.TrimPrefix(a.anyToken(), "Bearer ")
		case "case":
			p = strings.Replace(path, "/apis/", "/APIS/", 1)
		}
		r = raw(method, p, ct, b, hdr...)
		a.w.log("trick %s %s: %d %s", o.S, o.Key, r.code, short(string(r.body)))
		a.w.counts["trick_"+o.S]++
		if r.err == nil && r.code < 500 && r.code != 401 && *v == may401 {
			a.w.fail("let-through", "%s is answered %d %s", o, r.code, short(string(r.body)))
		}
		if r.err == nil && r.code >= 500 {
			a.w.fail("wrong-status", "%s is answered %d %s", o, r.code, short(string(r.body)))
		}
		for _, n := range []string{ns, ons} {
			for _, nm := range []string{name, name + "x"} {
				k := op + "/" + kind + "/" + n + "/" + nm
				got, err := s.store(op, kind, n, nm)
				if err != nil {
					a.w.fail("store", "get %s: %v", k, err)
				} else if o.S == "delfield" && n == ons {
					s.set(k, got) // an empty selection may mean all of them
				} else if !sameJSON(got, s.state[k]) {
					a.w.fail("wrong-effect", "%s answered %d and left %s in the store instead of %s", o, r.code, js(got), js(s.state[k]))
				}
			}
		}
		return
	}
	a.w.log("%s %d %s: %d %s", o.Do, o.N, o.Key, r.code, short(string(r.body)))
	if r.err != nil {
		if !s.broke {
			a.w.fail("no-answer", "%s: %v", o, r.err)
		}
		return
	}
	a.answered(o, *v, r)
	if *v&mayPass != 0 && r.code >= 500 {
		a.w.fail("wrong-status", "%s is answered %d %s", o, r.code, short(string(r.body)))
	}
}

func (a *authRun) anyToken() string {
	for _, i := range tokIDs(a.toks) {
		return a.toks[i].raw
	}
	return ""
}

func secretsIn(s string) []string {
	var ret []string
	for _, x := range strings.Split(s, "S!")[1:] {
		if k, _, ok := strings.Cut(x, "!"); ok && strings.Count(k, "/") == 3 {
			ret = append(ret, k)
		}
	}
	return ret
}

func runAuth(w *world) error {
	hs, _, _, _, err := storeHandles()
	if err != nil {
		return err
	}
	s := &rawRun{w: w, c: hs[2].c, state: map[string]M{}}
	if s.auth, err = newAuth(w); err != nil {
		return err
	}
	dsimSetNode(apiNode)
	s.a, err = newExtAPIAt(w, hs[2].c, 0, s.auth.config)
	dsimSetNode(0)
	if err != nil {
		return err
	}
	s.auth.a = s.a
	// the harness's own connections only
	s.a.http.Transport.(*http.Transport).MaxIdleConnsPerHost = 4
	defer s.a.stop()
	if err := s.a.s.RegisterGVKs(storeGVKs()); err != nil {
		return err
	}
	time.Sleep(900 * time.Millisecond)
	s.broke = w.p.cfgB("resets")
	c := &conv{w: w}
	all := c.users(func(o opStep) error {
		switch o.Do {
		case "issue":
			return s.auth.issue(o)
		case "clock":
			s.auth.setClock(o.Key, o.N*1e6+int64(o.Src)*1e3)
			return nil
		}
		return s.do(o)
	})
	if !c.await(all) {
		w.fail("blocked", "requests to the extension API are not answered: %s", strings.Join(repoGoroutines(), "\n"))
		return nil
	}
	for _, k := range storeKinds {
		m, err := listViews(s.c, k.op, k.kind)
		if err != nil {
			return err
		}
		for key := range m {
			if s.state[k.op+"/"+k.kind+"/"+key] == nil {
				w.fail("wrong-effect", "nobody created %s/%s %s", k.op, k.kind, key)
			}
		}
	}
	return nil
}

// pattern is something that may match a value.
func pattern(r *rng, v string) string {
	i := r.n(len(v) + 1)
	switch r.n(8) {
	case 0, 1, 2:
		return v
	case 3:
		return v[:i] + "*"
	case 4:
		return "*" + v[i:]
	case 5:
		return v[:i] + "*" + v[i+r.n(len(v)-i+1):]
	case 6: // both ends share a part of it
		return v[:i] + "*" + v[r.n(i+1):]
	}
	return pick(r, []string{"*", "", v + "x", "x" + v, "none"})
}

func genRule(r *rng, names []string) M {
	some := func(vs []string, all int) []any {
		if r.p(all, 10) {
			return []any{"*"}
		}
		var ret []any
		for i, n := 0, 1+r.n(3); i < n; i++ {
			ret = append(ret, pattern(r, pick(r, vs)))
		}
		return ret
	}
	m := M{
		"apiGroups": some([]string{"op1.view.dcontroller.io", "op2.view.dcontroller.io", "other.view.dcontroller.io", "apps"}, 4),
		"resources": some([]string{"alpha", "beta", "nothing"}, 4),
	}
	switch r.n(4) {
	case 0:
		m["verbs"] = []any{"get", "list", "watch"}
	default:
		m["verbs"] = some([]string{"get", "list", "watch", "create", "update", "patch", "delete", "deletecollection"}, 3)
	}
	if r.p(1, 10) {
		delete(m, pick(r, []string{"apiGroups", "resources", "verbs"}))
	}
	if r.p(1, 3) {
		m["resourceNames"] = some(names, 1)
	}
	return m
}

func genC16(r *rng) *plan {
	p := genRaw(r)
	p.Scen, p.Prop = "auth", "C16"
	p.Cfg["api"] = true
	p.Cfg["net_us"] = pick(r, []int64{0, 1, 100, 3000})
	if r.p(3, 4) {
		p.Cfg["resets"] = false
		var ops []opStep
		for _, o := range p.Ops {
			if o.Do != "reset" {
				ops = append(ops, o)
			}
		}
		p.Ops = ops
	}
	var names []string
	seen := map[string]bool{}
	nc := 0
	for _, o := range p.Ops {
		if o.Who > nc {
			nc = o.Who
		}
		if i := strings.Split(o.Key, "/"); len(i) == 4 && !seen[i[3]] {
			seen[i[3]] = true
			names = append(names, i[3])
		}
	}
	if len(names) == 0 {
		names = []string{"x"}
	}
	// clocks
	skew := func() int64 {
		return pick(r, []int64{0, 0, 300, -300, 1000, -1000, 1500, -2000, 60000, -60000, 3600000, -3600000, 86400000 * 400, -86400000 * 30})
	}
	var extra []opStep
	ticking := r.p(1, 2) // else time stands still, so to say
	if ticking && r.p(1, 2) {
		extra = append(extra, opStep{T: 900, Do: "clock", Key: "server", N: skew(), Src: r.n(1000)})
	}
	if ticking && r.p(1, 2) {
		extra = append(extra, opStep{T: 900, Do: "clock", Key: "issuer", N: skew(), Src: r.n(1000)})
	}
	// tokens
	nt := 1 + r.n(4)
	var lives []int64
	for i := 1; i <= nt; i++ {
		o := opStep{T: 950, Do: "issue", Src: i, Obj: M{"user": pick(r, []string{"u1", "u2", "system:admin", "ü"})}}
		if r.p(1, 12) {
			o.S = "other"
		}
		if r.p(1, 6) {
			o.T += r.i64(3000)
		}
		o.N = int64(86400000)
		if ticking && r.p(1, 2) {
			o.N = pick(r, []int64{3600000, 3600000, 86400000 * 365, 30000, 10000, 5000, 2000, 1000, 1500, 999, 300, 0, -1000, -5000})
		}
		lives = append(lives, o.N)
		if r.p(1, 2) {
			var ns []any
			for j, n := 0, 1+r.n(2); j < n; j++ {
				ns = append(ns, pick(r, []string{"*", "ns1", "ns1", "ns2", "ns2", "ns", "ns11", "other"}))
			}
			o.Obj["namespaces"] = ns
		}
		if r.p(1, 2) {
			var rs []any
			for j, n := 0, 1+r.n(3); j < n; j++ {
				rs = append(rs, genRule(r, names))
			}
			o.Obj["rules"] = rs
		}
		extra = append(extra, o)
	}
	// requests
	shift := int64(0)
	gaps := []int64{0}
	if ticking {
		gaps = pick(r, [][]int64{{0}, {0, 0, 0, 300, 1000}, {0, 0, 1000, 10000}, {0, 0, 0, 0, 0, 0, 3600000}})
	}
	var last int64
	for i := range p.Ops {
		shift += pick(r, gaps)
		o := &p.Ops[i]
		o.T += shift
		last = o.T
		o.Src = 1 + r.n(nt)
		if r.p(1, 20) {
			o.Src = nt + 1 // never issued
		}
		if r.p(1, 8) {
			o.Tok = pick(r, tokTampers)
		}
		if o.Do == "reset" {
			continue
		}
		switch r.n(12) {
		case 0:
			o.Do, o.N, o.S, o.Obj = "disc", int64(r.n(100)), "", nil
		case 1:
			o.Do, o.N, o.S, o.Obj = "watch", int64(r.n(100)), "", nil
		case 2, 3:
			o.Do, o.S, o.Obj = "trick", pick(r, tricks), nil
		}
		if ticking && r.p(1, 12) {
			j := opStep{T: o.T, Do: "clock", Key: "server", N: skew(), Src: r.n(1000)}
			if r.p(1, 2) {
				j.N = lives[r.n(len(lives))] - (o.T - 950) + pick(r, []int64{-1000, -100, 0, 100, 1000})
			}
			if r.p(1, 4) {
				j.Key = "issuer"
			}
			extra = append(extra, j)
			if r.p(1, 3) {
				extra = append(extra, opStep{T: o.T + 1, Do: "issue", Src: 1 + r.n(nt), N: pick(r, lives), Obj: extra[0].Obj})
				if extra[0].Do != "issue" {
					extra[len(extra)-1].Obj = M{"user": "again"}
				}
			}
		}
	}
	for i := range extra {
		extra[i].Who = 0
	}
	p.Ops = append(p.Ops, extra...)
	p.sortOps()
	p.EndAt = last + 5000
	return p
}
