// Package vcli is a client of the music server of its own: it shares the
// message types with the product, but not the wire format code.
package vcli

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifrt/vnet"
	"github.com/golang/protobuf/proto"
)

// Envelope packs data under a type name.
func Envelope(typ string, data []byte) []byte {
	b, err := proto.Marshal(&comm.Envelope{Type: typ, Data: data})
	if err != nil {
		panic(err)
	}
	return b
}

// Deflate compresses data.
func Deflate(data []byte) []byte {
	var z bytes.Buffer
	w := zlib.NewWriter(&z)
	w.Write(data)
	w.Close()
	return z.Bytes()
}

// Frame puts the length before an envelope.
func Frame(env []byte) []byte {
	b := make([]byte, 8, 8+len(env))
	binary.LittleEndian.PutUint64(b, uint64(len(env)))
	return append(b, env...)
}

// Encode returns the frame of a message.
func Encode(m proto.Message) []byte {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	return Frame(Envelope(proto.MessageName(m), Deflate(b)))
}

// ErrFormat: what was received is no frame.
var ErrFormat = errors.New("vcli: not a frame")

// Decode reads one frame.
func Decode(r io.Reader) (proto.Message, error) {
	h := make([]byte, 8)
	if _, err := io.ReadFull(r, h); err != nil {
		return nil, err
	}
	n := binary.LittleEndian.Uint64(h)
	if n > 1<<28 {
		return nil, ErrFormat
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	e := &comm.Envelope{}
	if err := proto.Unmarshal(b, e); err != nil {
		return nil, ErrFormat
	}
	t := proto.MessageType(e.Type)
	z, err := zlib.NewReader(bytes.NewReader(e.Data))
	if t == nil || err != nil {
		return nil, ErrFormat
	}
	d, err := io.ReadAll(z)
	if err != nil {
		return nil, ErrFormat
	}
	m := reflect.New(t.Elem()).Interface().(proto.Message)
	if err := proto.Unmarshal(d, m); err != nil {
		return nil, ErrFormat
	}
	return m, nil
}

// Rec is a message received, and when.
type Rec struct {
	At int64
	M  proto.Message
}

// Client is a connection to the server, with everything received on it.
type Client struct {
	Name  string
	Conn  *vnet.Conn
	mu    sync.Mutex
	recs  []Rec
	err   error
	stall chan struct{}
	wmu   chan struct{}
	On    func(m proto.Message) // called for every message
}

// Join connects to the server. capacity bounds the bytes in flight towards the client.
func Join(address, name string, capacity int) (*Client, error) {
	c, err := vnet.Connect(address, capacity, 1<<20)
	if err != nil {
		return nil, err
	}
	return Attach(c, name), nil
}

// Attach makes a client of a connection.
func Attach(c *vnet.Conn, name string) *Client { return AttachWith(c, name, nil) }

// AttachWith has on called for every message received.
func AttachWith(c *vnet.Conn, name string, on func(proto.Message)) *Client {
	k := &Client{Name: name, Conn: c, wmu: make(chan struct{}, 1), On: on}
	go k.loop()
	return k
}

type gated struct{ k *Client }

func (g gated) Read(b []byte) (int, error) {
	for {
		g.k.mu.Lock()
		ch := g.k.stall
		g.k.mu.Unlock()
		if ch == nil {
			break
		}
		<-ch
	}
	return g.k.Conn.Read(b)
}

func (k *Client) loop() {
	for {
		m, err := Decode(gated{k})
		k.mu.Lock()
		if err != nil {
			k.err = err
			k.mu.Unlock()
			return
		}
		k.recs = append(k.recs, Rec{time.Now().UnixNano(), m})
		on := k.On
		k.mu.Unlock()
		if on != nil {
			on(m)
		}
	}
}

// Stall stops reading; Resume goes on.
func (k *Client) Stall() {
	k.mu.Lock()
	if k.stall == nil {
		k.stall = make(chan struct{})
	}
	k.mu.Unlock()
}

func (k *Client) Resume() {
	k.mu.Lock()
	if k.stall != nil {
		close(k.stall)
		k.stall = nil
	}
	k.mu.Unlock()
}

// Recs returns the messages received so far, and how receiving ended (nil: it goes on).
func (k *Client) Recs() ([]Rec, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]Rec(nil), k.recs...), k.err
}

// Send writes a message.
func (k *Client) Send(m proto.Message) error { return k.Raw(Encode(m)) }

// Raw writes bytes.
func (k *Client) Raw(b []byte) error {
	k.wmu <- struct{}{}
	defer func() { <-k.wmu }()
	_, err := k.Conn.Write(b)
	return err
}

// Subscribe subscribes to a channel.
func (k *Client) Subscribe(c comm.Channel) error {
	return k.Send(&comm.SubscribeChannelRequest{Channel: c})
}

// Leave closes the connection.
func (k *Client) Leave() { k.Resume(); k.Conn.Close() }

func (k *Client) String() string { return fmt.Sprintf("client %s", k.Name) }

// Watch has f called for every message from now on, and for those received already.
func (k *Client) Watch(f func(interface{})) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if f == nil {
		k.On = nil
		return
	}
	for _, r := range k.recs {
		f(r.M)
	}
	k.On = func(m proto.Message) { f(m) }
}
