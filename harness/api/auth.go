package api

import (
	"bytes"
	"encoding/json"
	"errors"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/blnkfinance/blnk"
	authz "github.com/blnkfinance/blnk/api/middleware"
	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/model"
	"github.com/gin-gonic/gin"
)

// In symbolic runs the slow hash is replaced by an ideal one.

var vHashes = map[string]string{}

//verif:override golang.org/x/crypto/bcrypt.GenerateFromPassword
func vHash(p []byte, cost int) ([]byte, error) {
	h := "$2a$10$" + string(rune('a'+len(vHashes)))
	vHashes[h] = string(p)
	return []byte(h), nil
}

//verif:override golang.org/x/crypto/bcrypt.CompareHashAndPassword
func vVerify(h, p []byte) error {
	if plain, ok := vHashes[string(h)]; ok && plain == string(p) {
		return nil
	}
	return errors.New("hashedPassword is not the hash of the given password")
}

const vMaster = "master-secret-0123456789"

var vMethods = []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "get", "*", ""}

// vAction is the action a method asks for.
func vAction(m string) string {
	switch m {
	case "GET", "HEAD":
		return "read"
	case "POST", "PUT", "PATCH":
		return "write"
	case "DELETE":
		return "delete"
	}
	return ""
}

// vNames are the first parts of paths with the resource they belong to.
var vNames = [][2]string{{"ledgers", "ledgers"}, {"balances", "balances"}, {"accounts", "accounts"}, {"identities", "identities"},
	{"transactions", "transactions"}, {"balance-monitors", "balance-monitors"}, {"hooks", "hooks"}, {"api-keys", "api-keys"},
	{"search", "search"}, {"reconciliation", "reconciliation"}, {"metadata", "metadata"}, {"backup", "backup"},
	{"mocked-account", "accounts"}, {"multi-search", "search"}, {"refund-transaction", "transactions"}}

// vResource is the resource of a path, or nothing.
func vResource(path string) string {
	p := path
	if strings.HasPrefix(p, "/") {
		p = p[1:]
	}
	if i := strings.IndexByte(p, '/'); i >= 0 {
		p = p[:i]
	}
	for _, n := range vNames {
		if p == n[0] {
			return n[1]
		}
	}
	return ""
}

// vGrants says whether a scope grants an action on a resource.
func vGrants(scope, resource, action string) bool {
	if resource == "" || action == "" {
		return false
	}
	return scope == resource+":"+action || scope == resource+":*" || scope == "*:"+action || scope == "*:*"
}

// vScopeText is any text, or one that nearly is a scope.
func vScopeText(n string) string {
	max := 4
	if vf.Thorough() {
		max = 6
	}
	switch vf.Choose("shape"+n, 3) {
	case 0:
		return vf.Str("scope text"+n, 0, max, "")
	case 1:
		return vf.Str("resource text"+n, 0, max, "") + ":write"
	}
	return "ledgers:" + vf.Str("action text"+n, 0, max, "")
}

// vScope is a scope made of known parts, or any text.
func vScope(n, resource string, text bool) string {
	if text && vf.Bool("any"+n) {
		return vScopeText(n)
	}
	if vf.Bool("same"+n) {
		return resource + ":" + []string{"read", "write", "delete", "*", "", "rea", "reads", "read:"}[vf.Choose("action"+n, 8)]
	}
	return []string{"*", "", "ledgers", "ledger", "api-keys", "*:"}[vf.Choose("resource"+n, 6)] + ":" + []string{"read", "write", "delete", "*"}[vf.Choose("action"+n, 4)]
}

func vPath() string {
	switch k := vf.Choose("path", 4); k {
	case 0:
		if vf.Thorough() {
			return "/" + vf.Str("path text", 0, 8, "a-z/")
		}
		return "/" + vf.Str("path text", 0, 5, "a-z/")
	case 1:
		return "/" + vNames[vf.Choose("name", len(vNames))][0] + []string{"", "/x", "s", "//x"}[vf.Choose("rest", 4)]
	case 2:
		return []string{"/", "/health", "/metrics", "//", "/health/", "/metrics/x", "", "health"}[vf.Choose("open", 8)]
	default:
		return "/" + []string{"Ledgers", "ledger", "backup-s3", "ldg_1/metadata"}[vf.Choose("odd", 4)]
	}
}

// VPermit: who is served and who is refused.
func VPermit() {
	gin.SetMode(gin.ReleaseMode)
	w := blnk.VNew()
	conf := w.Conf()
	conf.Server.Secure, conf.Server.SecretKey = true, vMaster
	path, method := "/ledgers/x", "GET"
	key, scopes := "", []string{}
	granted := false
	switch kind := vf.Choose("key", 5); kind {
	case 0: // none, with and without authentication
		path, method = vPath(), vMethods[vf.Choose("method", len(vMethods))]
		conf.Server.Secure = vf.Bool("secure")
	case 1: // the master's, if there is one
		path, method = vPath(), vMethods[vf.Choose("method", len(vMethods))]
		key, granted = vMaster, true
		if vf.Bool("no master key") {
			conf.Server.SecretKey, granted = "", false
		}
	case 2: // any text
		if vf.Bool("no master key") {
			conf.Server.SecretKey = ""
		}
		key = vf.Str("key text", 1, 26, "")
		granted = vf.StrEq(key, conf.Server.SecretKey)
	default:
		expires := time.Now().Add(time.Hour)
		state := 0
		if kind == 3 {
			scopes, granted = []string{"*:*"}, true
			state = vf.Choose("state", 7)
		} else {
			mode := vf.Choose("mode", 3)
			switch mode {
			case 0: // any path
				path = vPath()
				scopes = []string{[]string{"*:*", "ledgers:*", "*:read"}[vf.Choose("scope", 3)]}
			case 1: // known paths and scopes of known parts
				path = "/" + vNames[vf.Choose("name", len(vNames))][0]
				method = vMethods[vf.Choose("method", len(vMethods))]
				scopes = []string{vScope("a", vResource(path), false)}
				if k := vf.Choose("more", 3); k > 0 {
					scopes = append(scopes, []string{"", "hooks:read", "accounts:*"}[k])
				}
			case 2: // any scope
				path = []string{"/ledgers", "/api-keys/x"}[vf.Choose("name", 2)]
				method = []string{"GET", "POST", "DELETE"}[vf.Choose("method", 3)]
				scopes = []string{vScopeText("a")}
			}
			res := vResource(path)
			for _, s := range scopes {
				granted = granted || vGrants(s, res, vAction(method))
			}
		}
		if state == 1 {
			expires, granted = time.Now().Add(-time.Hour), false
		}
		k, err := w.Svc().CreateAPIKey(w.Ctx(), "k", "owner", scopes, expires)
		if err != nil {
			vf.Stop()
		}
		key = k.Key
		if state == 2 || state == 1 {
			w.Svc().GetAPIKeyByKey(w.Ctx(), key)
		}
		if state == 2 || state == 3 {
			granted = false
			vf.Assert(w.Svc().RevokeAPIKey(w.Ctx(), k.APIKeyID, "owner") == nil, "a key can be revoked by its owner")
		}
		switch state {
		case 4:
			key, granted = key[:16], false
		case 5:
			w.Svc().GetAPIKeyByKey(w.Ctx(), key)
			key, granted = key[:len(key)-1]+"x", false
		case 6:
			key, granted = key+"x", false
		}
	}
	open := path == "/" || path == "/health" || path == "/metrics" || !conf.Server.Secure
	rep := &vReply{head: http.Header{}}
	c := gin.CreateTestContextOnly(rep, gin.New())
	c.Request = &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}}
	if key != "" {
		c.Request.Header.Set("X-Blnk-Key", key)
	}
	authz.NewAuthMiddleware(w.Svc()).Authenticate()(c)
	served := !c.IsAborted()
	if served {
		vf.Reach("served")
	} else {
		vf.Reach("refused")
	}
	vf.Assert(vf.Iff(served, vf.Or(open, granted)), "a request is served exactly when it carries a key that grants it")
	if !served {
		vf.Assert(rep.code == 401 || rep.code == 403, "a refused request is answered as unauthorized")
	}
	_, master := c.Get("isMasterKey")
	vf.Assert(vf.Implies(master, vf.StrEq(key, vMaster)), "only the master key makes a master")
	vf.WaitAll()
}

// VGrant: a key never passes on what it does not have.
func VGrant() {
	res, act := "ledgers", []string{"read", "write", "delete"}[vf.Choose("what", 3)]
	method := map[string]string{"read": "GET", "write": "POST", "delete": "DELETE"}[act]
	other := []string{"hooks:read", "*:read", "ledgers:*", "*:*", ""}
	mine := []string{"", other[vf.Choose("other", 5)]}
	asked := []string{""}
	if vf.Bool("any text") {
		mine[0] = []string{"ledgers:write", ":", "*:", ":*", "ledgers"}[vf.Choose("mine", 5)]
		asked[0] = vScopeText("c")
	} else {
		mine[0] = vScope("a", res, vf.Thorough())
		asked[0] = vScope("c", res, false)
	}
	if !authz.CanGrantScopes(mine, asked) {
		vf.Reach("refused")
		vf.Assert(!(asked[0] != "" && vGrants(asked[0], res, act) && (asked[0] == mine[0] || asked[0] == mine[1])), "a key can pass on what it has")
		return
	}
	vf.Reach("granted")
	vf.Assert(!vGrants(asked[0], res, act) || vGrants(mine[0], res, act) || vGrants(mine[1], res, act), "what is granted was held")
	vf.Assert(authz.HasPermission(asked, authz.Resource(res), method) == vGrants(asked[0], res, act), "a scope grants what it says")
}

// VGuarded: every route asks for a key first.
func VGuarded() {
	s := vServe()
	s.Conf().Server.Secure = true
	s.Conf().Server.SecretKey = vMaster
	rs := s.r.Routes()
	i := vf.Choose("route", len(rs))
	p := ""
	for _, seg := range strings.Split(rs[i].Path, "/")[1:] {
		if strings.HasPrefix(seg, ":") {
			seg = "x"
		}
		p += "/" + seg
	}
	if p == "/" || p == "/health" || p == "/metrics" {
		return
	}
	if !vf.Symbolic() && strings.HasPrefix(p, "/backup") {
		vf.Stop()
	}
	s.DB().Log, s.DB().LogOn = nil, true
	key := []string{"", "wrong"}[vf.Choose("key", 2)]
	r := s.send(rs[i].Method, p, key, []string{"", `{"name":"x"}`}[vf.Choose("body", 2)])
	vf.WaitAll()
	vf.Reach("asked")
	vf.Assert(r.code == 401, "a route is closed to who has no key")
	for _, q := range s.DB().Log {
		vf.Assert(key != "" && strings.HasPrefix(q, "query") && strings.Contains(q, "FROM blnk.api_keys"), "a refused request touches nothing")
	}
	vf.Assert(len(s.Store().Tasks) == 0 && len(s.Store().KV) == 0, "a refused request leaves nothing")
}

// vCodeOf is the code of an error reply.
func vCodeOf(r *vReply) string {
	var m struct {
		D struct {
			Code string `json:"code"`
		} `json:"error_detail"`
	}
	if json.NewDecoder(bytes.NewReader(r.body)).Decode(&m) != nil {
		return ""
	}
	return m.D.Code
}

var _ = model.APIKey{}
var _ = vCodeOf
