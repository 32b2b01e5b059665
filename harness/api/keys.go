package api

import (
	"context"
	"encoding/json"
	"strings"
	"time"

	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/blnkfinance/blnk/model"
)

type vKeyed struct {
	id, owner, secret string
	all, dead         bool
	end               time.Time
}

// mint makes a key as some caller and reports what came of it.
func (s *vServer) mint(caller, owner, scopes string, life time.Duration) (*vKeyed, int) {
	end := time.Now().Add(life)
	r := s.send("POST", "/api-keys", caller, `{"name":"n","owner":"`+owner+`","scopes":[`+scopes+`],"expires_at":"`+end.UTC().Format(time.RFC3339Nano)+`"}`)
	if r.code != 201 {
		return nil, r.code
	}
	var k model.APIKey
	if json.Unmarshal(r.body, &k) != nil {
		return nil, r.code
	}
	return &vKeyed{id: k.APIKeyID, owner: k.OwnerID, secret: k.Key, end: end}, r.code
}

// vKeep checks that no stored text holds a secret.
func (s *vServer) vKeep(ks []*vKeyed) {
	for _, row := range s.DB().Rows("api_keys") {
		for _, v := range row {
			if t, ok := v.(string); ok {
				for _, k := range ks {
					vf.Assert(!strings.Contains(t, k.secret), "the secret is not stored")
				}
			}
		}
	}
}

// VKeys: keys of two owners under a sequence of requests by either and the master.
func VKeys() {
	s := vServe()
	s.Conf().Server.Secure, s.Conf().Server.SecretKey = true, vMaster
	var ks []*vKeyed
	scopeA := []string{`"api-keys:*"`, `"*:*"`}[vf.Choose("scope of a", 2)]
	for _, o := range []string{"alice", "bob"} {
		sc := `"api-keys:*"`
		if o == "alice" {
			sc = scopeA
		}
		k, code := s.mint(vMaster, o, sc, time.Hour)
		vf.Assert(code == 201 && k != nil && k.owner == o, "the master makes keys for anyone")
		if k == nil {
			return
		}
		ks = append(ks, k)
	}
	n := 2
	if vf.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		at := vItoa(i)
		who := vf.Choose("caller"+at, 3)
		caller, self := vMaster, ""
		alive := true
		if who < 2 {
			caller, self = ks[who].secret, ks[who].owner
			alive = !ks[who].dead
		}
		owner := ""
		if k := vf.Choose("owner"+at, 3); k > 0 {
			owner = vf.Str("owner"+at, 1+2*k, 1+2*k, "a-z")
		}
		mine := who == 2 || owner == self || owner == ""
		eff := owner
		if who < 2 {
			eff = self
		}
		switch vf.Choose("request"+at, 3) {
		case 0:
			want := []string{`"api-keys:read"`, `"ledgers:write"`, `"*:*"`, ``}[vf.Choose("asked"+at, 3-i)]
			k, code := s.mint(caller, owner, want, time.Hour)
			if k != nil {
				vf.Reach("made")
				vf.Assert(alive, "a revoked key makes no keys")
				vf.Assert(mine && k.owner == eff, "a key is made for the caller's own owner")
				held := who == 2 || want == "" || want == `"api-keys:read"` || who == 0 && scopeA == `"*:*"`
				vf.Assert(held, "a key passes on no more than it has")
				ks = append(ks, k)
			} else {
				vf.Assert(code >= 400 && code < 500, "a refused request is answered as such")
			}
		case 1:
			r := s.send("GET", "/api-keys?owner="+owner, caller, "")
			if r.code == 200 {
				vf.Reach("listed")
				vf.Assert(alive, "a revoked key lists no keys")
				vf.Assert(mine, "another owner's keys are not listed")
				var l []model.APIKey
				if strings.TrimSpace(string(r.body)) != "null" {
					vf.Assert(json.Unmarshal(r.body, &l) == nil, "the list can be read")
				}
				c := 0
				for _, k := range ks {
					if k.owner == eff {
						c++
					}
				}
				vf.Assert(len(l) == c, "the list is of the owner's keys")
				for _, k := range l {
					vf.Assert(k.OwnerID == eff, "only the owner's keys are listed")
				}
				for _, k := range ks {
					vf.Assert(!strings.Contains(string(r.body), k.secret), "the secret is not shown again")
				}
			} else {
				vf.Assert(!(alive && mine && (who < 2 || owner != "")), "the owner can list its keys")
			}
		case 2:
			t := 0
			if i == 0 || who == 1 {
				t = vf.Choose("target"+at, 2)
			}
			r := s.send("DELETE", "/api-keys/"+ks[t].id+"?owner="+owner, caller, "")
			if r.code == 204 {
				vf.Reach("revoked")
				vf.Assert(alive, "a revoked key revokes no keys")
				vf.Assert(mine && ks[t].owner == eff, "only the owner or the master revokes a key")
				ks[t].dead = true
			} else {
				vf.Assert(!(alive && mine && ks[t].owner == eff), "the owner can revoke its key")
			}
		}
		vf.WaitAll()
	}
	for _, k := range ks {
		if k.owner != "" {
			r := s.send("GET", "/api-keys", k.secret, "")
			ok := r.code == 200 || r.code == 403 && vCodeOf(r) == "AUTH_INSUFFICIENT_PERMISSIONS"
			vf.Assert(ok == !k.dead, "a key works until it is revoked")
		}
	}
	vf.WaitAll()
	s.vKeep(ks)
}

// VExpiry: a key stops when its time has come, used before or not.
func VExpiry() {
	s := vServe()
	s.Conf().Server.Secure, s.Conf().Server.SecretKey = true, vMaster
	k, _ := s.mint(vMaster, "alice", `"api-keys:*"`, 300*time.Millisecond)
	if k == nil {
		vf.Stop()
	}
	if vf.Bool("used") {
		vf.Assert(s.send("GET", "/api-keys", k.secret, "").code == 200, "a live key works")
	}
	time.Sleep(time.Second)
	vf.Assert(s.send("GET", "/api-keys", k.secret, "").code == 401, "an expired key does not")
	vf.Assert(s.send("POST", "/api-keys", k.secret, `{"name":"n","owner":"alice","scopes":[],"expires_at":"2100-01-01T00:00:00Z"}`).code == 401, "and makes no other")
	vf.WaitAll()
}

// VKeyRace: a key that is looked up while it is being revoked.
func VKeyRace() {
	s := vServe()
	k, err := s.Svc().CreateAPIKey(s.Ctx(), "n", "alice", []string{"*:*"}, time.Now().Add(time.Hour))
	if err != nil {
		vf.Stop()
	}
	if vf.Bool("used") {
		s.Svc().GetAPIKeyByKey(s.Ctx(), k.Key)
	}
	var revoked error
	vf.Par(1, func() { s.Svc().GetAPIKeyByKey(context.Background(), k.Key) }, func() { revoked = s.Svc().RevokeAPIKey(context.Background(), k.APIKeyID, "alice") })
	vf.Assert(revoked == nil, "the owner can revoke its key")
	got, err := s.Svc().GetAPIKeyByKey(s.Ctx(), k.Key)
	vf.Reach("revoked")
	vf.Assert(err != nil || !got.IsValid(), "a revoked key is not accepted")
}

