// Logging in to a server, with any users file and any credentials.
package sysh

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vnet"
	"github.com/LogicalOverflow/music-sync/verifrt/vssh"
	gossh "golang.org/x/crypto/ssh"
)

// a key pair, named by the public key
type pair struct {
	s    gossh.Signer
	name string
}

var (
	pairs []pair
	host  []byte
)

func makePairs() {
	for len(pairs) < 6 {
		var k interface{}
		if len(pairs)%2 == 0 {
			_, k, _ = ed25519.GenerateKey(crand.Reader)
		} else {
			k, _ = ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		}
		s, err := gossh.NewSignerFromKey(k)
		if err != nil {
			panic(err)
		}
		pairs = append(pairs, pair{s, fmt.Sprint("key", len(pairs))})
	}
	k, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	b, _ := x509.MarshalECPrivateKey(k)
	host = pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b})
}

// asking claims a public key without a proof.
type asking struct{ claimed gossh.Signer }

func (f asking) PublicKey() gossh.PublicKey { return f.claimed.PublicKey() }
func (f asking) Sign(r io.Reader, b []byte) (*gossh.Signature, error) {
	return nil, errors.New("not mine")
}

// forged claims one public key and signs with another.
type forged struct{ claimed, used gossh.Signer }

func (f forged) PublicKey() gossh.PublicKey { return f.claimed.PublicKey() }
func (f forged) Sign(r io.Reader, b []byte) (*gossh.Signature, error) {
	return f.used.Sign(r, b)
}

type user struct {
	name, pw string
	key      int // index of the pair, -1: none, -2: unusable
}

func secret(r *rand.Rand) string {
	var b strings.Builder
	for i := r.Intn(3); i >= 0; i-- {
		b.WriteString([]string{"a", "A", "test-password", "ü", "夏", " ", "\x00", "\n", "\"", "\\", "пароль", "e\u0301", "%s", "*", "null", strings.Repeat("p", r.Intn(300)), "\ufffd", "0"}[r.Intn(18)])
	}
	return b.String()
}

// alter makes something similar.
func alter(s string, r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return s + "\x00"
	case 1:
		return s + " "
	case 2:
		return " " + s
	case 3:
		return s + "\n"
	case 4:
		return strings.ToUpper(s)
	case 5:
		return strings.ToLower(s)
	case 6:
		return strings.TrimSpace(s)
	case 7:
		if len(s) > 0 {
			return s[:len(s)-1]
		}
		return "x"
	case 8:
		if len(s) > 0 {
			return s[1:]
		}
	case 9:
		return s + s
	case 10:
		return strings.Replace(s, "\ufffd", "\xff", -1)
	}
	return ""
}

// credential is what a client offers, and how the trace has it.
func credential(us []user, name string, r *rand.Rand) (gossh.AuthMethod, vh.J) {
	pick := func() *user {
		if len(us) == 0 {
			return nil
		}
		for i := range us {
			if us[i].name == name && r.Intn(3) > 0 {
				return &us[i]
			}
		}
		return &us[r.Intn(len(us))]
	}
	u := pick()
	word := func(s string) string { return strconv.QuoteToASCII(s) }
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		p := secret(r)
		if u != nil && r.Intn(5) > 0 {
			p = u.pw
		}
		if r.Intn(4) == 0 {
			p = alter(p, r)
		}
		if u != nil && u.key >= 0 && r.Intn(12) == 0 {
			p = base64.StdEncoding.EncodeToString(pairs[u.key].s.PublicKey().Marshal())
		}
		return gossh.Password(p), vh.J{"kind": "password", "value": word(p), "by": word("")}
	case 4, 5, 6, 7:
		k := r.Intn(len(pairs))
		if u != nil && u.key >= 0 && r.Intn(5) > 0 {
			k = u.key
		}
		return gossh.PublicKeys(pairs[k].s), vh.J{"kind": "key", "value": pairs[k].name, "by": pairs[k].name}
	case 8:
		k := r.Intn(len(pairs))
		if u != nil && u.key >= 0 {
			k = u.key
		}
		if r.Intn(3) > 0 {
			return gossh.PublicKeys(asking{pairs[k].s}), vh.J{"kind": "key", "value": pairs[k].name, "by": "nobody"}
		}
		j := (k + 2) % len(pairs) // of the same type
		return gossh.PublicKeys(forged{pairs[k].s, pairs[j].s}), vh.J{"kind": "key", "value": pairs[k].name, "by": pairs[j].name}
	}
	return gossh.KeyboardInteractive(func(_, _ string, qs []string, _ []bool) ([]string, error) {
		return make([]string, len(qs)), nil
	}), vh.J{"kind": "interactive", "value": word(""), "by": word("")}
}

// usersFile writes the users in one of many ways; it returns what kind of file it is.
func usersFile(path string, us []user, r *rand.Rand) string {
	var b bytes.Buffer
	str := func(s string) string {
		j, _ := json.Marshal(s)
		if r.Intn(3) == 0 {
			var e bytes.Buffer
			for _, c := range string(j) {
				if c > 126 && c < 0x10000 {
					fmt.Fprintf(&e, "\\u%04x", c)
				} else {
					e.WriteRune(c)
				}
			}
			return e.String()
		}
		return string(j)
	}
	ws := func() string { return []string{"", "", " ", "\n", "\t"}[r.Intn(5)] }
	b.WriteString("{" + ws())
	for i, u := range us {
		if i > 0 {
			b.WriteString("," + ws())
		}
		b.WriteString(str(u.name) + ws() + ":" + ws() + "{")
		var fs []string
		if u.pw != "" || r.Intn(3) == 0 {
			fs = append(fs, `"password"`+ws()+":"+str(u.pw))
		}
		switch {
		case u.key >= 0:
			fs = append(fs, `"pubKey":`+ws()+`"`+base64.StdEncoding.EncodeToString(pairs[u.key].s.PublicKey().Marshal())+`"`)
		case u.key == -2:
			w := pairs[r.Intn(len(pairs))].s.PublicKey().Marshal()
			w = [][]byte{[]byte("ssh-rsa"), w[:len(w)/2], {0, 0, 0, 0}, []byte(strings.Repeat("x", 40)), w[4:]}[r.Intn(5)]
			fs = append(fs, `"pubKey":"`+base64.StdEncoding.EncodeToString(w)+`"`)
		case r.Intn(4) == 0:
			fs = append(fs, []string{`"pubKey":""`, `"pubKey":null`}[r.Intn(2)])
		}
		if r.Intn(5) == 0 {
			fs = append(fs, `"comment":["x"]`)
		}
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		b.WriteString(strings.Join(fs, ","+ws()) + "}" + ws())
	}
	if r.Intn(5) > 0 {
		b.WriteString("}" + ws())
		os.WriteFile(path, b.Bytes(), 0o644)
		return "good"
	}
	more := ""
	if len(us) > 0 {
		more = ","
	}
	switch r.Intn(9) {
	case 0: // missing
	case 1:
		os.MkdirAll(path, 0o755)
	case 2:
		os.WriteFile(path, nil, 0o644)
	case 3: // ends too early
		os.WriteFile(path, b.Bytes(), 0o644)
	case 4:
		os.WriteFile(path, []byte(b.String()+more+`"extra":["a","b"]}`), 0o644)
	case 5:
		os.WriteFile(path, []byte(b.String()+more+`"extra":{"password":5}}`), 0o644)
	case 6:
		os.WriteFile(path, []byte(b.String()+more+`"extra":{"pubKey":"no base 64!"}}`), 0o644)
	case 7:
		os.WriteFile(path, []byte("["+b.String()+"}]"), 0o644)
	default:
		os.WriteFile(path, []byte(b.String()+more+`extra}`), 0o644)
	}
	return "bad"
}

func attempt(addr, name string, ms []gossh.AuthMethod, drop int) bool {
	c, err := vnet.Connect(addr, 1<<16, 1<<16)
	if err != nil {
		return false
	}
	defer c.Close()
	defer time.AfterFunc(3*time.Minute, func() { c.Close() }).Stop()
	if drop > 0 {
		c.FailWrites(drop)
	}
	cfg := &gossh.ClientConfig{User: name, Auth: ms, HostKeyCallback: gossh.InsecureIgnoreHostKey()}
	conn, chans, reqs, err := gossh.NewClientConn(c, addr, cfg)
	if err != nil {
		return false
	}
	cl := gossh.NewClient(conn, chans, reqs)
	s, err := cl.NewSession()
	if err != nil {
		return false
	}
	out, err := s.StdoutPipe()
	if err != nil {
		return false
	}
	if s.RequestPty("xterm", 25, 80, gossh.TerminalModes{}) != nil || s.Shell() != nil {
		return false
	}
	got := make(chan bool, 1)
	go func() {
		var b bytes.Buffer
		buf := make([]byte, 512)
		for !strings.Contains(b.String(), "music-sync") {
			n, err := out.Read(buf)
			b.Write(buf[:n])
			if err != nil {
				got <- false
				return
			}
		}
		got <- true
	}()
	select {
	case ok := <-got:
		return ok
	case <-time.After(time.Minute):
		return false
	}
}

func login(n int, r *rand.Rand) vh.J {
	makePairs()
	begin()
	vh.Perturb(r)
	dir := scratch(n)
	defer os.RemoveAll(dir)
	us := []user{}
	taken := map[string]bool{}
	for i := r.Intn(5); i > 0; i-- {
		u := user{name: secret(r), key: -1}
		if len(us) > 0 && r.Intn(2) == 0 {
			u.name = alter(us[0].name, r)
			if strings.Contains(u.name, "\xff") || strings.ToValidUTF8(u.name, "") != u.name {
				continue
			}
		}
		if taken[u.name] {
			continue
		}
		taken[u.name] = true
		if r.Intn(3) > 0 {
			u.pw = secret(r)
			if len(us) > 0 && r.Intn(6) == 0 {
				u.pw = us[0].pw
			}
		}
		if r.Intn(2) == 0 {
			u.key = r.Intn(len(pairs)+1) - 1
			if u.key < 0 {
				u.key = -2
			}
		}
		us = append(us, u)
	}
	kind := usersFile(dir+"/users", us, r)
	os.WriteFile(dir+"/host", host, 0o600)
	l := &log{}
	said := []vh.J{}
	word := func(s string) string { return strconv.QuoteToASCII(s) }
	for _, u := range us {
		k := "none"
		if u.key >= 0 {
			k = pairs[u.key].name
		}
		said = append(said, vh.J{"name": word(u.name), "password": word(u.pw), "key": k})
	}
	l.add(vh.J{"k": "start", "kind": kind, "users": said})
	startServer("--music-dir", dir, "--users-file", dir+"/users", "--host-key", dir+"/host", "--logging", "off", "--stream-start-delay", "10000h")
	const at = "127.0.0.1:13334"
	if s := vssh.Server(); s != nil {
		ln, err := vnet.Listen("tcp", at)
		if err != nil {
			panic(err)
		}
		go s.Serve(ln)
		settle()
	}
	var wg sync.WaitGroup
	for k := 2 + r.Intn(8); k > 0; k-- {
		name := secret(r)
		if len(us) > 0 && r.Intn(8) > 0 {
			name = us[r.Intn(len(us))].name
		}
		if r.Intn(8) == 0 {
			name = alter(name, r)
		}
		var ms []gossh.AuthMethod
		offers := []vh.J{}
		kinds := map[string]bool{}
		for i := r.Intn(3) * r.Intn(2); i >= 0; i-- {
			m, j := credential(us, name, r)
			if kinds[j["kind"].(string)] { // a client tries only one of each kind
				continue
			}
			kinds[j["kind"].(string)] = true
			if j["kind"] == "key" && j["by"] != j["value"] && j["by"] != "nobody" { // ends the connection
				i = 0
			}
			ms, offers = append(ms, m), append(offers, j)
		}
		if r.Intn(12) == 0 {
			ms, offers = nil, []vh.J{}
		}
		drop := 0
		if r.Intn(8) == 0 {
			drop = 1 + r.Intn(2500)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			ok := attempt(at, name, ms, drop)
			if !ok && drop > 0 {
				return
			}
			l.add(vh.J{"k": "login", "user": word(name), "offers": offers, "shell": ok})
		}()
		if r.Intn(2) == 0 {
			wg.Wait()
		}
	}
	wg.Wait()
	return vh.J{"ev": l.all()}
}
