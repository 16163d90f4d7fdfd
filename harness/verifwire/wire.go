// Package verifwire speaks the protocol of music-sync over raw connections,
// without any of its transport code.
package verifwire

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"reflect"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/golang/protobuf/proto"
)

// Encode returns what is sent for m.
func Encode(m proto.Message) []byte {
	inner, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	var z bytes.Buffer
	w := zlib.NewWriter(&z)
	w.Write(inner)
	w.Close()
	return Envelope(proto.MessageName(m), z.Bytes())
}

// Envelope wraps compressed data.
func Envelope(name string, data []byte) []byte {
	env, err := proto.Marshal(&comm.Envelope{Type: name, Data: data})
	if err != nil {
		panic(err)
	}
	b := make([]byte, 8, 8+len(env))
	binary.LittleEndian.PutUint64(b, uint64(len(env)))
	return append(b, env...)
}

// Read reads one message.
func Read(r io.Reader) (proto.Message, error) {
	head := make([]byte, 8)
	if _, err := io.ReadFull(r, head); err != nil {
		return nil, err
	}
	n := binary.LittleEndian.Uint64(head)
	if n > 1<<28 {
		return nil, fmt.Errorf("package of %d bytes", n)
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	e := &comm.Envelope{}
	if err := proto.Unmarshal(b, e); err != nil {
		return nil, err
	}
	t := proto.MessageType(e.Type)
	if t == nil {
		return nil, fmt.Errorf("unknown type %q", e.Type)
	}
	z, err := zlib.NewReader(bytes.NewReader(e.Data))
	if err != nil {
		return nil, err
	}
	data, err := ioutil.ReadAll(z)
	if err != nil {
		return nil, err
	}
	m := reflect.New(t.Elem()).Interface().(proto.Message)
	return m, proto.Unmarshal(data, m)
}

// Client is a connection to a server, recording what it receives.
type Client struct {
	Conn net.Conn
	mu   sync.Mutex
	got  []proto.Message
	err  error
	on   func(proto.Message)
	wake chan struct{}
}

// Dial connects, on (may be nil) is told every message received.
func Dial(addr string, on func(proto.Message)) (*Client, error) {
	c, err := net.DialTimeout("tcp", addr, 30*time.Second)
	if err != nil {
		return nil, err
	}
	return NewClient(c, on), nil
}

// Follow connects without recording: every message received is only handed to on.
func Follow(addr string, on func(proto.Message)) (*Client, error) {
	c, err := net.DialTimeout("tcp", addr, 30*time.Second)
	if err != nil {
		return nil, err
	}
	return newClient(c, on, false), nil
}

// NewClient records what arrives on conn.
func NewClient(conn net.Conn, on func(proto.Message)) *Client { return newClient(conn, on, true) }

func newClient(conn net.Conn, on func(proto.Message), record bool) *Client {
	cl := &Client{Conn: conn, on: on, wake: make(chan struct{}, 1)}
	go func() {
		for {
			m, err := Read(conn)
			cl.mu.Lock()
			if err != nil {
				cl.err = err
			} else if record {
				cl.got = append(cl.got, m)
			}
			cl.mu.Unlock()
			if err == nil && on != nil {
				on(m)
			}
			select {
			case cl.wake <- struct{}{}:
			default:
			}
			if err != nil {
				return
			}
		}
	}()
	return cl
}

// Send sends m.
func (c *Client) Send(m proto.Message) error {
	_, err := c.Conn.Write(Encode(m))
	return err
}

// Got returns what was received and the error which ended the connection.
func (c *Client) Got() ([]proto.Message, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]proto.Message(nil), c.got...), c.err
}

// Len returns how many messages were received.
func (c *Client) Len() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.got)
}

// Wait waits until ok is true of what was received; false after patience or the end of the connection.
func (c *Client) Wait(patience time.Duration, ok func([]proto.Message) bool) bool {
	end := time.After(patience)
	for {
		got, err := c.Got()
		if ok(got) {
			return true
		}
		if err != nil {
			return false
		}
		select {
		case <-c.wake:
		case <-end:
			return false
		}
	}
}

// Close closes the connection.
func (c *Client) Close() { c.Conn.Close() }
