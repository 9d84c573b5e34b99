package scen

import (
	"encoding/base64"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"

	"github.com/childe/healer"
	"github.com/childe/healer/zz_sim/kafka"
	"github.com/childe/healer/zz_sim/sgin"
	"github.com/childe/healer/zz_sim/sim"
)

func init() {
	register("http-auth", func(e *Env) { httpAuth(e, false) }, "A04")
	register("http-auth-faults", func(e *Env) { httpAuth(e, true) }, "A04")
}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

// credentials makes an Authorization header; ok tells whether it is the right
// one.
func credentials(user, pass string) (hdr string, ok bool) {
	up := func(u, p string) (string, bool) { return "Basic " + b64(u+":"+p), u == user && p == pass }
	switch work(16) {
	case 0, 1, 2:
		return up(user, pass)
	case 3:
		return "", false
	case 4:
		return workPick("Basic", "Basic ", "x", " ", "Bearer "+b64(user+":"+pass), "Digest username="+user, "Basic !!!!"), false
	case 5:
		return "Basic " + b64(user), false
	case 6:
		return up(user, "")
	case 7:
		return up("", pass)
	case 8:
		return up("", "")
	case 9:
		return up(user, pass+workPick("x", " ", ":", ":x"))
	case 10:
		return up(user, pass[:work(len(pass)+1)])
	case 11:
		return up(user[:work(len(user)+1)], pass)
	case 12:
		return up(pass, user)
	case 13:
		return up(user, strings.ToUpper(pass))
	case 14:
		return "Basic " + b64(pass), pass == user+":"+pass
	}
	return up(workPick("admin", "root", user), workPick("admin", "secret", user))
}

// httpAuth: with --auth, only who has the credentials gets through.
func httpAuth(e *Env, faults bool) {
	e.Setup(1 + cfg(3))
	e.C.SaslUser = ""
	if cfgChance(1, 10) { // credentials that are none
		p := e.start("api", nil, "api", "--auth", cfgPick("x", "user", "a b"))
		if !WaitFor(10*SEC, 10*MS, func() bool { return p.done || len(sgin.Servers) > 0 }) || !p.done || p.code == 0 {
			e.Violate("A04", "the API starts though its credentials are malformed", "%q: ended %v with %d", p.args, p.done, p.code)
		}
		return
	}
	user := cfgPick("u", "admin", "svc-user", "a b")
	pass := cfgPick("p", "secret", "S3:cr:et", ":", "longer password", "admin")
	getOK := cfgChance(1, 2)
	args := []string{"api", "-p", "8080", "--auth", user + ":" + pass}
	if getOK {
		args = append(args, "--get-allowed")
	}
	if cfgChance(1, 4) {
		args = append(args, "--cors")
	}
	mode := 0
	if faults {
		mode = 2
		e.Until = now() + int64(20+cfg(60))*SEC
		e.Perm = cfgPick(0, 50, 200)
		e.Chaos([]string{"crash", "partition", "reset", "blackhole"}, cfg(5))
	}
	e.start("api", nil, args...)
	if !WaitFor(10*SEC, 10*MS, func() bool { return len(sgin.Servers) > 0 }) {
		e.Violate("A04", "the HTTP server does not start", "%q", args)
		return
	}
	var srv *sgin.Engine
	for _, x := range sim.Sorted(sgin.Servers) {
		srv = x
	}
	g := &Group{}
	for i := 0; i < cfg(3); i++ { // people with the credentials
		a := &adm{e: e, via: "http", chg: "A04", qry: "A04", srv: srv, owner: fmt.Sprintf("admin%d", i+1), ns: fmt.Sprintf("ns%d", i+1), mode: mode, user: user, pass: pass}
		a.furnish()
		ops := 2 + cfg(5)
		g.Go(a.owner, a.owner, func() {
			for k := 0; k < ops; k++ {
				if work(2) == 0 {
					a.read()
				} else {
					mk := []func() op{a.createPartitions, a.createAcls, a.deleteAcls, a.alterConfigs, a.reassign}
					a.run(mk[work(len(mk))]())
				}
				pause(300)
			}
		})
	}
	for i := 0; i < 1+cfg(3); i++ { // anybody
		a := &adm{e: e, ns: fmt.Sprintf("any%d", i+1)}
		a.furnish()
		ops := 4 + cfg(10)
		g.Go(a.ns, a.ns, func() {
			for k := 0; k < ops; k++ {
				a.anybody(srv, user, pass, getOK)
				pause(200)
			}
		})
	}
	if !g.Wait(40000 * SEC) {
		e.Violate("A04", "an HTTP request gets no answer", "%v", sim.Alive("api"))
	}
}

// anybody makes one request with whatever credentials.
func (a *adm) anybody(srv *sgin.Engine, user, pass string, getOK bool) {
	e := a.e
	a.seq++
	owner := fmt.Sprintf("%s-http%d", a.ns, a.seq)
	t := a.topics()[0]
	g := a.groups()[0]
	n := len(e.C.Topic(t).Parts)
	known := true
	who := a.someACL().Principal
	var method, path, body string
	switch work(14) {
	case 0:
		method, path = "GET", "/health?"
	case 1:
		method, path = "GET", "/metadata?"
	case 2:
		method, path = "GET", "/groups?"
	case 3:
		method, path = "GET", "/topic/"+t+"/offsets?"
	case 4:
		method, path = "GET", "/configs/topic/"+t+"?"
	case 5:
		method, path = "GET", "/group/"+g+"?"
	case 6:
		method, path, known = "OPTIONS", "/create-partitions?", false
	case 7:
		method, path, known = "HEAD", "/health?", false
	case 8:
		method, path, known = workPick("GET", "POST", "PUT", "DELETE", "PATCH"), "/nowhere?", false
	case 9, 10:
		method, path, body = "POST", "/create-partitions?", fmt.Sprintf(`{"topic":%q,"count":%d,"timeout":5000}`, t, n+1)
	case 11:
		method, path, body = "POST", "/topic/"+t+"/config/retention.ms/"+fmt.Sprint(1000+work(1000))+"?", ""
	case 12:
		method, path, body = "DELETE", "/delete-acls?", toJSON([]*healer.DeleteAclsFilter{{ResourceType: 1, PatternType: 1, Principal: &who, Operation: 1, PermissionType: 1}})
	case 13:
		method, path, body = "POST", "/elect-leaders?", fmt.Sprintf(`{"timeout_ms":5000,"topic_partitions":[{"topic":%q,"partitions":[0]}]}`, t)
	}
	hdr, ok := credentials(user, pass)
	var rd io.Reader
	if body != "" {
		rd = strings.NewReader(body)
	}
	req := httptest.NewRequest(method, path+"bootstrap="+e.C.Bootstrap(), rd)
	if hdr != "" {
		req.Header.Set("Authorization", hdr)
	}
	rec := httptest.NewRecorder()
	pre, h0 := a.state(), len(e.C.Hist)
	sim.Log("%s %s with %q (right: %v)", method, path, hdr, ok)
	if !CallIn(owner, owner, 4000*SEC, func() { srv.ServeHTTP(rec, req) }) {
		e.Violate("A04", "an HTTP request gets no answer", "%s %s: %v", method, path, sim.Alive(owner))
		return
	}
	free := getOK && (method == "GET" || method == "HEAD" || method == "OPTIONS")
	if ok || free {
		sim.Probe("http-let-in")
		if rec.Code == http.StatusUnauthorized {
			e.Violate("A04", "a request with the right credentials is rejected", "%s %s with %q (get-allowed %v): %d", method, path, hdr, getOK, rec.Code)
		}
		return
	}
	sim.Probe("http-kept-out")
	sleep(SEC)
	if known && rec.Code != http.StatusUnauthorized {
		e.Violate("A04", "a request without the credentials is not rejected", "%s %s with %q (get-allowed %v): %d %.200q", method, path, hdr, getOK, rec.Code, rec.Body.String())
	}
	if !known && rec.Code/100 == 2 {
		e.Violate("A04", "a request without the credentials is not rejected", "%s %s with %q (get-allowed %v): %d %.200q", method, path, hdr, getOK, rec.Code, rec.Body.String())
	}
	if s := rec.Body.String(); strings.Contains(s, t) || strings.Contains(s, g) {
		e.Violate("A04", "a rejected request is told about the cluster", "%s %s with %q: %.300q", method, path, hdr, s)
	}
	for _, r := range e.C.Hist[h0:] {
		if r.Owner == owner {
			e.Violate("A04", "a request without the credentials reaches the cluster", "%s %s with %q: %s", method, path, hdr, kafka.APIName(r.API))
		}
	}
	if d := diffMap(pre, a.state()); d != "" {
		e.Violate("A04", "a request without the credentials changes the cluster", "%s %s with %q: %s", method, path, hdr, d)
	}
}
