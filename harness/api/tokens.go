package api

import (
	"crypto/cipher"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"hash"
	"strings"
	"unicode/utf8"

	"github.com/blnkfinance/blnk/internal/tokenization"
	"github.com/blnkfinance/blnk/internal/vf"
)

// In symbolic runs the cipher and the keyed hash are ideal ones.

type vBlock struct{ key string }

func (b vBlock) BlockSize() int          { return 16 }
func (b vBlock) Encrypt(dst, src []byte) { vf.Inconclusive("a block is encrypted") }
func (b vBlock) Decrypt(dst, src []byte) { vf.Inconclusive("a block is decrypted") }

//verif:override crypto/aes.NewCipher
func vAES(key []byte) (cipher.Block, error) { return vBlock{string(key)}, nil }

type vBox struct{ key, nonce, text, extra string }

var vBoxes []vBox

type vGCM struct{ key string }

//verif:override crypto/cipher.NewGCM
func vNewGCM(b cipher.Block) (cipher.AEAD, error) { return vGCM{b.(vBlock).key}, nil }

func (g vGCM) NonceSize() int { return 12 }
func (g vGCM) Overhead() int  { return 16 }
func (g vGCM) Seal(dst, nonce, text, extra []byte) []byte {
	vBoxes = append(vBoxes, vBox{g.key, string(nonce), string(text), string(extra)})
	n := len(vBoxes)
	return append(dst, "sealed.box.."+string([]byte{byte('a' + n/26/26%26), byte('a' + n/26%26), byte('a' + n%26)})+"."...)
}
func (g vGCM) Open(dst, nonce, c, extra []byte) ([]byte, error) {
	t := string(c)
	if len(t) == 16 && t[:12] == "sealed.box.." && t[15] == '.' {
		n := int(t[12]-'a')*26*26 + int(t[13]-'a')*26 + int(t[14]-'a')
		if n >= 1 && n <= len(vBoxes) {
			if b := vBoxes[n-1]; b.key == g.key && b.nonce == string(nonce) && b.extra == string(extra) {
				return append(dst, b.text...), nil
			}
		}
	}
	return nil, errors.New("cipher: message authentication failed")
}

type vMac struct {
	key string
	n   int
}

var vMacs int

//verif:override crypto/hmac.New
func vHMAC(h func() hash.Hash, key []byte) hash.Hash { vMacs++; return &vMac{key: string(key), n: vMacs} }

func (m *vMac) Write(b []byte) (int, error) { return len(b), nil }
func (m *vMac) Sum(b []byte) []byte {
	h := sha256.Sum256([]byte(m.key + string([]byte{byte(m.n), byte(m.n >> 8)})))
	return append(b, h[:]...)
}
func (m *vMac) Reset()         {}
func (m *vMac) Size() int      { return 32 }
func (m *vMac) BlockSize() int { return 64 }

func vClass(r rune) int {
	switch {
	case 'a' <= r && r <= 'z':
		return 1
	case 'A' <= r && r <= 'Z':
		return 2
	case '0' <= r && r <= '9':
		return 3
	}
	return 0
}

// vShown is the part of a token made to look like the text.
func vShown(token string) string {
	t := strings.TrimPrefix(token, "FPT:")
	return t[:strings.LastIndex(t, ":")]
}

// VTokens: every text comes back from its token, whatever the key, and the token does not show it.
func VTokens() {
	n, m := 2, 4
	if vf.Thorough() {
		n, m = 3, 6
	}
	var x string
	if vf.Bool("any characters") {
		x = vf.Str("text", 0, n, "")
	} else {
		x = vf.Str("long text", n+1, m, "bM7:")
	}
	runes := []rune(x)
	var shown [][]rune
	keys := 8
	for k := 0; k < keys; k++ {
		s := tokenization.NewTokenizationService([]byte("0123456789abcdef0123456789abcde" + vItoa(k)))
		t, err := s.TokenizeWithMode(x, tokenization.FormatPreservingMode)
		vf.Assert(err == nil, "every text can be tokenized")
		vf.Assert(strings.HasPrefix(t, "FPT:"), "a format-preserving token can be told")
		shown = append(shown, []rune(vShown(t)))
		if k > 0 {
			continue
		}
		back, err := s.Detokenize(t)
		vf.Assert(err == nil && vf.StrEq(back, x), "the text comes back")
		back, err = s.DetokenizeWithMode(t, tokenization.FormatPreservingMode)
		vf.Assert(err == nil && vf.StrEq(back, x), "the text comes back when the format is named")
		u, err := s.TokenizeWithMode(x, tokenization.StandardMode)
		vf.Assert(err == nil && !strings.Contains(u, ":"), "every text has a standard token")
		back, err = s.Detokenize(u)
		vf.Assert(err == nil && vf.StrEq(back, x), "the text comes back from a standard token")
		o := tokenization.NewTokenizationService([]byte("0123456789abcdef0123456789abcdeX"))
		_, err = o.Detokenize(t)
		vf.Assert(err != nil, "another key does not open it")
		off := tokenization.NewTokenizationService(nil)
		_, err = off.TokenizeWithMode(x, tokenization.FormatPreservingMode)
		vf.Assert(err != nil, "nothing is tokenized without a key")
	}
	if utf8.ValidString(x) {
		for i, r := range runes {
			if vClass(r) == 0 {
				continue
			}
			same := true
			for _, t := range shown {
				vf.Assert(len(t) == len(runes) && vClass(t[i]) == vClass(r), "the token looks like the text")
				same = vf.And(same, t[i] == r)
			}
			vf.Assert(!same, "no letter or digit of the text shows")
		}
	}
	vf.Reach("tokenized")
}

var vTokenNames = []string{"EmailAddress", "emailAddress", "Street", "Gender", "IdentityID", "email_address", "MetaData"}

// VPerson: tokenizing and detokenizing fields of a person.
func VPerson() {
	s := vServe()
	s.Tokens("0123456789abcdef0123456789abcdef")
	s.Person("idt_1", `{"a":"b"}`)
	s.Person("idt_2", `{"a":"b"}`)
	mail := vf.Str("mail", 0, 2, "a-c:@")
	s.DB().Put("identity", "identity_id", "idt_1", "email_address", mail)
	cols := map[string]string{"EmailAddress": "email_address", "Street": "street"}
	was := map[string]string{"EmailAddress": mail, "Street": "Street 1"}
	hid := map[string]bool{}
	f := func(id, c string) string { return s.Field("identity", "identity_id", id, c) }
	rest := func() string {
		t := f("idt_2", "email_address") + "|" + f("idt_2", "street") + "|" + f("idt_2", "meta_data")
		for _, c := range []string{"first_name", "last_name", "other_names", "phone_number", "post_code", "city", "country", "state", "nationality", "gender", "organization_name", "category", "identity_type"} {
			t += "|" + f("idt_1", c)
		}
		return t
	}
	others := rest()
	n := 2
	if vf.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		op := vf.Choose("request", 4)
		name := "EmailAddress"
		if op != 3 {
			name = vTokenNames[vf.Choose("field", len(vTokenNames))]
		}
		plain := strings.ToUpper(name[:1]) + name[1:]
		_, allowed := cols[plain]
		var r *vReply
		switch op {
		case 0, 1:
			if op == 0 {
				r = s.send("POST", "/identities/idt_1/tokenize/"+name, "", "")
			} else {
				r = s.send("POST", "/identities/idt_1/tokenize", "", `{"fields":["`+name+`"]}`)
			}
			ok := allowed && !hid[plain]
			vf.Assert((r.code == 200) == ok, "an allowed field is tokenized once, no other")
			if ok {
				hid[plain] = true
				vf.Reach("tokenized")
			}
		case 2:
			var got string
			if vf.Bool("by list") {
				var m struct{ Fields map[string]string }
				r = s.send("POST", "/identities/idt_1/detokenize", "", `{"fields":["`+name+`"]}`)
				json.Unmarshal(r.body, &m)
				got = m.Fields[name]
			} else {
				var m struct{ Value string }
				r = s.send("GET", "/identities/idt_1/detokenize/"+name, "", "")
				json.Unmarshal(r.body, &m)
				got = m.Value
			}
			vf.Assert((r.code == 200) == hid[plain], "a tokenized field is detokenized, no other")
			if r.code == 200 {
				vf.Assert(vf.StrEq(got, was[plain]), "the text comes back")
				vf.Reach("back")
			}
		case 3:
			var m struct{ Fields map[string]string }
			r = s.send("POST", "/identities/idt_1/detokenize", "", `{}`)
			vf.Assert(r.code == 200 && json.Unmarshal(r.body, &m) == nil, "all fields are detokenized")
			vf.Assert(len(m.Fields) == len(hid), "exactly the tokenized fields come back")
			for k := range hid {
				vf.Assert(vf.StrEq(m.Fields[k], was[k]), "the text comes back")
			}
		}
		vf.WaitAll()
	}
	for k, c := range cols {
		if hid[k] {
			vf.Assert(strings.HasPrefix(f("idt_1", c), "FPT:"), "a tokenized field is stored as a token")
		} else {
			vf.Assert(vf.StrEq(f("idt_1", c), was[k]), "another field is left alone")
		}
	}
	vf.Assert(rest() == others, "no other field and no other identity changes")
	p, err := s.Svc().GetDetokenizedIdentity("idt_1")
	vf.Assert(err == nil && vf.StrEq(p.EmailAddress, mail) && p.Street == "Street 1" && p.FirstName == "First" && p.MetaData["a"] == "b", "the whole identity comes back")
}

// VPersonRace: two fields tokenized at once.
func VPersonRace() {
	s := vServe()
	s.Tokens("0123456789abcdef0123456789abcdef")
	s.Person("idt_1", `{"a":"b"}`)
	fs := []string{"EmailAddress", []string{"EmailAddress", "Street"}[vf.Choose("second", 2)]}
	codes := make([]int, 2)
	ask := func(i int) func() {
		return func() { codes[i] = s.send("POST", "/identities/idt_1/tokenize/"+fs[i], "", "").code }
	}
	vf.Par(1, ask(0), ask(1))
	vf.WaitAll()
	ok := 0
	for i, c := range codes {
		if c == 200 {
			ok++
			col := map[string]string{"EmailAddress": "email_address", "Street": "street"}[fs[i]]
			vf.Assert(strings.HasPrefix(s.Field("identity", "identity_id", "idt_1", col), "FPT:"), "a field reported tokenized is stored as a token")
			p := s.send("GET", "/identities/idt_1/detokenize/"+fs[i], "", "")
			vf.Assert(p.code == 200, "it can be detokenized")
		}
	}
	vf.Assert(ok >= 1, "one of them succeeds")
	if fs[0] == fs[1] {
		vf.Assert(ok == 1, "a field is not tokenized twice")
	}
	vf.Reach("tokenized")
}
