package monitoringexporter

import (
	"encoding/json"
	"errors"
	"reflect"
	"strings"

	"github.com/sirupsen/logrus"

	"github.com/blnkfinance/blnk/internal/vf"
)

// vLine is what leaves the process for a log line: the payload the exporter posts.
func vLine(msg string, fields logrus.Fields) logPayload {
	h := &LogHook{queue: make(chan logPayload, 1)}
	e := &logrus.Entry{Message: msg, Data: fields, Level: logrus.ErrorLevel}
	vf.Assert(h.Fire(e) == nil, "a log line is refused by the exporter")
	return <-h.queue
}

// vSame reports whether two exported values are the same.
func vSame(a, b interface{}) bool {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return ok && vf.StrEq(x, y)
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		same := true
		for k, v := range x {
			w, ok := y[k]
			if !ok {
				return false
			}
			same = vf.And(same, vSame(v, w))
		}
		return same
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		same := true
		for i := range x {
			same = vf.And(same, vSame(x[i], y[i]))
		}
		return same
	}
	return reflect.DeepEqual(a, b)
}

// vSecret is a secret of n symbols out of letters, digits and set (one: within a longer secret); the second text is
// another secret of the same length.
func vSecret(n int, set string) (string, string) {
	s := vf.Str("secret", n, n, "a-zA-Z0-9"+set)
	if n == 1 {
		return "s" + s + "t", "xyz"
	}
	r := "xxx"
	return s, r[:n]
}

// vCase writes a lower-case name with every letter in either case.
func vCase(name string) string {
	out := ""
	for i := 0; i < len(name); i++ {
		c := name[i : i+1]
		if name[i] >= 'a' && name[i] <= 'z' {
			c = vf.Str("letter", 1, 1, c+string(rune(name[i]-32)))
		}
		out += c
	}
	return out
}

func vAround(name string) string { return vf.Str(name, 1, 1, " -~") }

// vForm is a text of the given form that carries the secret, twice: with the secret and with another one.
func vForm(form int, n int) (string, string) {
	switch form {
	case 0: // a bearer token
		pre := vf.Str("before", 1, 1, " -/:-@[-^`{-~")
		post := vAround("after")
		word := vCase("bearer")
		s, r := vSecret(n, "._~+/=-")
		return pre + word + " " + s + post, pre + word + " " + r + post
	case 1: // user and password of an address
		scheme := []string{"http", "https", "HTTPS", "postgres", "redis", "nats+tls"}[vf.Choose("scheme", 6)]
		pre := ""
		if scheme == "https" {
			pre = vAround("before")
		}
		post := []string{"", "/p", "/p?a=b", ":80/p, failed", "%"}[vf.Choose("rest of the address", 5)]
		s, r := vSecret(n, "._~+!$-")
		if vf.Choose("password alone", 2) == 1 {
			return pre + scheme + "://u:" + s + "@h" + post, pre + scheme + "://u:" + r + "@h" + post
		}
		return pre + scheme + "://" + s + "@h" + post, pre + scheme + "://" + r + "@h" + post
	case 2: // a value in the query of an address
		pre := []string{"https://h/p?", "http://h?", "https://h/p?a=b&", "https://h:80/p?a=b;&"}[vf.Choose("address", 4)]
		post := []string{"", "&c=d", " and more", "&c", "#f"}[vf.Choose("rest of the address", 5)]
		s, r := vSecret(n, "._~+/:@-")
		return pre + "k=" + s + post, pre + "k=" + r + post
	default: // a value in a query without an address
		pre := []string{"GET /p?", "/p?a=b&", "?", "a &"}[vf.Choose("path", 4)]
		post := vAround("after")
		s, r := vSecret(n, "._~+/:@?=%;,-")
		return pre + "k=" + s + post, pre + "k=" + r + post
	}
}

// VRedactText: what is exported of a text does not depend on the secret in it.
func VRedactText() {
	form := vf.Choose("form", 4)
	n := 2
	second := vf.Choose("a second secret", 2) == 1
	if vf.Thorough() {
		n = 3
	}
	if second || form == 1 || form == 2 {
		n--
	}
	text, other := vForm(form, n)
	if !second && vf.Choose("at the end of what is kept", 2) == 1 {
		pad := strings.Repeat(".", 501) + " "
		text, other = pad+text, pad+other
	}
	if second {
		more := []string{" Bearer tok-2", " https://u:p2@h/?q=v2", " /p?q=v2"}[vf.Choose("second form", 3)]
		text, other = text+more, other+more
		out := vLine(text, nil).Message
		for _, leak := range []string{"tok-2", "p2", "v2"} {
			vf.Assert(!vHas(out, leak), "the second secret of a text is exported")
		}
	}
	a, b := vLine(text, nil).Message, vLine(other, nil).Message
	vf.Observe("exported", a)
	vf.Assert(vf.StrEq(a, b), "what is exported of a text depends on the secret in it")
	vf.Reach([]string{"bearer", "userinfo", "query", "bare query"}[form])
}

// vHas reports whether s contains the given text.
func vHas(s, part string) bool {
	found := false
	for i := 0; i+len(part) <= len(s); i++ {
		here := true
		for j := 0; j < len(part); j++ {
			here = vf.And(here, s[i+j] == part[j])
		}
		found = vf.Or(found, here)
	}
	return found
}

var vSensitive = []string{"authorization", "token", "secret", "password", "api_key", "apikey", "credential", "dsn", "url", "uri", "endpoint", "callback", "metadata", "webhook", "x_blnk_key"}

// VRedactNames: nothing of a value under a sensitive name is exported, in whatever case and with whatever around it the
// name is written, and harmless values are.
func VRedactNames() {
	name := vDash(vSensitive[vf.Choose("name", len(vSensitive))])
	at := 0
	switch vf.Choose("written", 4) {
	case 0:
		name = vCase(name)
	case 1:
		if len(name) > 8 && !vf.Thorough() {
			name = vAround("before") + name[:4] + vCase(name[4:])
		} else {
			name = vAround("before") + vCase(name)
		}
	case 2:
		name = "X" + name + vAround("after")
	case 3:
		name = "x_" + strings.ToUpper(name[:1]) + name[1:] + "_2"
		at = vf.Choose("where", 5)
	}
	s, _ := vSecret(2, "")
	a, b := vLine("m", vUnder(at, name, s, "v")), vLine("m", vUnder(at, name, "xx", "v"))
	vf.Assert(vSame(map[string]interface{}(a.Fields), map[string]interface{}(b.Fields)), "what is exported of a field depends on the value under a sensitive name")
	vf.Assert(vKeeps(a.Fields, "v"), "a harmless value is not exported")
	vf.Reach("names")
}

func vDash(name string) string {
	if strings.Contains(name, "_") && vf.Choose("dashes", 2) == 1 {
		return strings.ReplaceAll(name, "_", "-")
	}
	return name
}

type vBag struct {
	Name string            `json:"password"`
	Note string            `json:"note"`
	In   map[string]string `json:"in"`
}

// vUnder puts the secret under the name, and a harmless value besides.
func vUnder(at int, name, secret, plain string) logrus.Fields {
	switch at {
	case 0:
		return logrus.Fields{name: secret, "ok": plain}
	case 1:
		return logrus.Fields{"in": map[string]interface{}{name: secret, "ok": plain}}
	case 2:
		return logrus.Fields{"in": []interface{}{map[string]string{name: secret, "ok": plain}}}
	case 3:
		return logrus.Fields{"in": map[string]interface{}{"deep": logrus.Fields{name: []string{secret}}, "ok": plain}}
	default:
		return logrus.Fields{"in": map[string][]string{name: {secret}, "ok": {plain}}}
	}
}

func vKeeps(v interface{}, want string) bool {
	switch x := v.(type) {
	case string:
		return x == want
	case map[string]interface{}:
		for _, e := range x {
			if vKeeps(e, want) {
				return true
			}
		}
	case []interface{}:
		for _, e := range x {
			if vKeeps(e, want) {
				return true
			}
		}
	}
	return false
}

type vNamed string

func (v vNamed) String() string { return "named " + string(v) }

// vPut hides a text in a structure of the given kind.
func vPut(kind int, text string) interface{} {
	switch kind {
	case 0:
		return text
	case 1:
		return errors.New(text)
	case 2:
		return vNamed(text)
	case 3:
		return []string{"a", text}
	case 4:
		return map[string]string{"k": text}
	case 5:
		return map[string][]string{"k": {text}}
	case 6:
		return [2]string{text, "b"}
	case 7:
		return []error{errors.New(text)}
	case 8:
		return vBag{Note: text}
	case 9:
		return &vBag{In: map[string]string{"k": text}}
	case 10:
		return []byte(text)
	case 11:
		return map[string]json.RawMessage{"k": json.RawMessage(`"` + text + `"`)}
	case 12:
		return vBag{Name: text}
	case 13:
		t := text
		return &t
	case 14:
		return []vBag{{Note: text}}
	default:
		return json.RawMessage(`{"Password":"` + text[len(text)-2:] + `","ok":["` + text + `"]}`)
	}
}

const vKinds = 16

func vNest(kind int, v interface{}) interface{} {
	switch kind {
	case 0:
		return v
	case 1:
		return map[string]interface{}{"k": v, "n": 1}
	case 2:
		return []interface{}{nil, true, v}
	case 3:
		return logrus.Fields{"k": v}
	default:
		return map[string][]interface{}{"k": {v}}
	}
}

// VRedactNested: a secret in a text is not exported from whatever structure the text is in.
func VRedactNested() {
	s, r := vSecret(2, "")
	kind := vf.Choose("kind", vKinds)
	nest := vf.Choose("inside", 5)
	nest2 := vf.Choose("inside that", 5)
	form := []string{"Bearer ", "GET /p?k="}[vf.Choose("form", 2)]
	put := func(t string) logrus.Fields {
		return logrus.Fields{"k": vNest(nest2, vNest(nest, vPut(kind, form+t)))}
	}
	a, b := vLine("m", put(s)), vLine("m", put(r))
	vf.Assert(vSame(map[string]interface{}(a.Fields), map[string]interface{}(b.Fields)), "what is exported of a structure depends on the secret in it")
	vf.Reach("nested")
}
