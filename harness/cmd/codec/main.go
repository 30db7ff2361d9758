// codec calls the real encoders and decoders and records what they do
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/url"
	"os"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"
)

type ints []int

func toInts(b []byte) ints {
	r := make(ints, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func (l ints) bytes() []byte {
	r := make([]byte, len(l))
	for i, x := range l {
		r[i] = byte(x)
	}
	return r
}

type op struct {
	Op     string `json:"op"`
	F      string `json:"f"`
	Enc    string `json:"enc"`
	ID     ints   `json:"id"`
	Name   ints   `json:"name"`
	Pld    ints   `json:"pld"`
	Safe   bool   `json:"safe"`
	Fault  int    `json:"fault"` // k: the k-th write fails, -1: closing fails
	Part   int    `json:"part"`  // bytes accepted by the failing write
	Maj    int    `json:"maj"`
	Min    int    `json:"min"`
	RT     [2]int `json:"rt"`
	BS     [2]int `json:"bs"`
	Buf    int    `json:"buf"` // -1: exactly the length of the last output
	B      ints   `json:"b"`
	Last   bool   `json:"last"`
	Via    string `json:"via"` // bytes read utf
	Chunks []int  `json:"chunks"`
	Eof    bool   `json:"eof"`  // EOF comes with the last bytes
	RErr   int    `json:"rerr"` // -1: the reader fails after the input
	Fresh  bool   `json:"fresh"`
	Close  bool   `json:"close"`
	Pool   bool   `json:"pool"`
}

type obj = map[string]interface{}

// ---- writer ----

type writer struct {
	fault, part int
	n           int
	hit         bool
	w           []byte
	closes      int
	misuse      bool
}

var errFault = errors.New("injected")

func (w *writer) Write(p []byte) (int, error) {
	if w.closes > 0 {
		w.misuse = true
	}
	if w.hit {
		// Nothing may be written after a failed write
		w.misuse = true
		return 0, errFault
	}
	w.n++
	if w.n == w.fault {
		w.hit = true
		k := w.part
		if k >= len(p) {
			k = len(p) - 1
		}
		if k < 0 {
			k = 0
		}
		w.w = append(w.w, p[:k]...)
		return k, errFault
	}
	w.w = append(w.w, p...)
	return len(p), nil
}

func (w *writer) Close() error {
	w.closes++
	if w.fault == -1 {
		w.hit = true
		return errFault
	}
	return nil
}

// ---- reader ----

type reader struct {
	data   []byte
	chunks []int
	i      int
	eof    bool
	fail   bool
}

func (r *reader) Read(p []byte) (int, error) {
	end := io.EOF
	if r.fail {
		end = errFault
	}
	n := len(r.data)
	if len(r.chunks) > 0 {
		n = r.chunks[r.i%len(r.chunks)]
		r.i++
		if n == 0 {
			// An empty read doesn't mean anything
			return 0, nil
		}
	}
	if len(r.data) < 1 {
		return 0, end
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) < 1 && r.eof {
		return n, end
	}
	return n, nil
}

var encodings = map[string]pld.Encoding{
	"bin": pld.Binary, "utf8": pld.Utf8, "utf16": pld.Utf16,
}

func encName(e pld.Encoding) string {
	for k, v := range encodings {
		if v == e {
			return k
		}
	}
	return fmt.Sprint(e)
}

var special = map[string]byte{
	"shutdown": message.MsgReplyShutdown, "internal": message.MsgReplyInternalError,
	"notfound": message.MsgReplySessionNotFound,
	"max":      message.MsgReplyMaxSessConnsReached,
	"disabled": message.MsgReplySessionsDisabled,
}

func guarded(f func() error) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = "panic"
		}
	}()
	if err := f(); err != nil {
		return "err"
	}
	return "ok"
}

func encode(o *op, w io.WriteCloser) error {
	e := encodings[o.Enc]
	id, name, p := o.ID.bytes(), o.Name.bytes(), o.Pld.bytes()
	switch o.F {
	case "sig":
		return message.WriteMsgSignal(w, name, e, p, o.Safe)
	case "req":
		return message.WriteMsgRequest(w, id, name, e, p, o.Safe)
	case "rep":
		return message.WriteMsgReply(w, id, e, p)
	case "err":
		return message.WriteMsgReplyError(w, id, name, p, o.Safe)
	case "closereq":
		return message.WriteMsgNamelessRequest(w, message.MsgRequestCloseSession, id, nil)
	case "restore":
		return message.WriteMsgNamelessRequest(w, message.MsgRequestRestoreSession, id, p)
	case "hb":
		return message.WriteMsgHeartbeat(w)
	case "closed":
		return message.WriteMsgNotifySessionClosed(w)
	case "created":
		return message.WriteMsgNotifySessionCreated(w, p)
	default:
		return message.WriteMsgSpecialRequestReply(w, special[o.F], id)
	}
}

// ---- server with one connection ----

type hooks struct{ con chan wwr.Connection }

func (h hooks) OnClientConnected(_ wwr.ConnectionOptions, c wwr.Connection) { h.con <- c }

type impl struct {
	wwr.ServerImplementation
	hooks
}

func (i impl) OnClientConnected(o wwr.ConnectionOptions, c wwr.Connection) {
	i.hooks.OnClientConnected(o, c)
}
func (i impl) OnClientDisconnected(wwr.Connection, error) {}

type trans struct{ onNew wwr.OnNewConnection }

func (t *trans) Initialize(_ wwr.ServerOptions, _ wwr.IsShuttingDown, n wwr.OnNewConnection) error {
	t.onNew = n
	return nil
}
func (t *trans) Serve() error     { return nil }
func (t *trans) Shutdown() error  { return nil }
func (t *trans) Address() url.URL { return url.URL{} }

type sock struct {
	w      *writer
	opened int
}

func (s *sock) GetWriter() (io.WriteCloser, error) { s.opened++; return s.w, nil }
func (s *sock) Read(*message.Message, time.Time) wwr.ErrSockRead {
	select {}
}
func (s *sock) IsConnected() bool    { return true }
func (s *sock) RemoteAddr() net.Addr { return nil }
func (s *sock) Close() error         { return nil }

type peer struct {
	con wwr.Connection
	s   *sock
}

var peers = map[int]*peer{}

func getPeer(buf int) *peer {
	if p := peers[buf]; p != nil {
		return p
	}
	t := &trans{}
	l := log.New(io.Discard, "", 0)
	h := hooks{make(chan wwr.Connection, 1)}
	_, err := wwr.NewServer(impl{hooks: h}, wwr.ServerOptions{
		Sessions: wwr.Disabled, WarnLog: l, ErrorLog: l,
		MessageBufferSize: uint32(buf),
	}, t)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	s := &sock{w: &writer{}}
	go t.onNew(wwr.ConnectionOptions{}, s)
	p := &peer{<-h.con, s}
	peers[buf] = p
	return p
}

// ---- session ----

type session struct {
	msg  *message.Message
	buf  int
	last []byte
}

func pair(v uint32) [2]int { return [2]int{int(v & 0xffff), int(v >> 16)} }

func (s *session) do(o *op) obj {
	fields := func(r obj) obj {
		r["f"], r["enc"], r["id"], r["name"], r["pld"] = o.F, o.Enc, o.ID, o.Name, o.Pld
		r["maj"], r["min"], r["rt"], r["bs"] = o.Maj, o.Min, o.RT, o.BS
		r["safe"] = o.Safe
		return r
	}
	switch o.Op {
	case "enc":
		w := &writer{fault: o.Fault, part: o.Part}
		out := guarded(func() error { return encode(o, w) })
		calc := -1
		e := encodings[o.Enc]
		if o.F == "sig" {
			calc = message.CalcMsgLenSignal(o.Name.bytes(), e, o.Pld.bytes())
		} else if o.F == "req" {
			calc = message.CalcMsgLenRequest(o.Name.bytes(), e, o.Pld.bytes())
		}
		s.last = nil
		if out == "ok" {
			s.last = w.w
		}
		return fields(obj{"e": "enc", "out": out, "w": toInts(w.w), "hit": w.hit,
			"closes": w.closes, "misuse": w.misuse, "calc": calc})
	case "sig":
		p := getPeer(o.Buf)
		p.s.w = &writer{fault: o.Fault, part: o.Part}
		p.s.opened = 0
		out := guarded(func() error {
			return p.con.Signal(o.Name.bytes(), wwr.Payload{
				Encoding: encodings[o.Enc], Data: o.Pld.bytes(),
			})
		})
		w := p.s.w
		s.last = nil
		if out == "ok" {
			s.last = w.w
		}
		o.F, o.Safe = "sig", true
		return fields(obj{"e": "sig", "out": out, "w": toInts(w.w), "hit": w.hit,
			"closes": w.closes, "misuse": w.misuse, "opened": p.s.opened, "buf": o.Buf})
	case "conf":
		o.F = "conf"
		var b []byte
		out := guarded(func() (err error) {
			b, err = message.NewAcceptConfMessage(message.ServerConfiguration{
				MajorProtocolVersion: byte(o.Maj),
				MinorProtocolVersion: byte(o.Min),
				SubProtocolName:      o.Pld.bytes(),
				ReadTimeout:          time.Duration(o.RT[0]+o.RT[1]<<16) * time.Millisecond,
				MessageBufferSize:    uint32(o.BS[0] + o.BS[1]<<16),
			})
			return
		})
		s.last = b
		return fields(obj{"e": "conf", "out": out, "w": toInts(b)})
	case "dec":
		in := o.B.bytes()
		if o.Last {
			in = s.last
		}
		buf := o.Buf
		if buf < 0 {
			buf = len(in)
			if buf < 1 {
				buf = 1
			}
		}
		if s.msg == nil || s.buf != buf || o.Fresh {
			if o.Pool {
				s.msg = message.NewSyncPool(uint32(buf), 0).Get()
			} else {
				s.msg = message.NewMessage(uint32(buf))
			}
			s.buf = buf
		} else if o.Close {
			s.msg.Close()
		}
		m := s.msg
		var typed bool
		keep := append([]byte(nil), in...)
		out := guarded(func() (err error) {
			if o.Via == "bytes" {
				typed, err = m.ReadBytes(in)
			} else {
				typed, err = m.Read(&reader{
					data: in, chunks: o.Chunks, eof: o.Eof, fail: o.RErr != 0,
				})
			}
			return
		})
		if out == "ok" && !typed {
			out = "none"
		}
		r := obj{"t": int(m.MsgType), "id": toInts(m.MsgIdentifier[:]),
			"idb": toInts(m.MsgIdentifierBytes), "name": toInts(m.MsgName),
			"enc": encName(m.MsgPayload.Encoding), "pld": toInts(m.MsgPayload.Data),
			"maj": int(m.ServerConfiguration.MajorProtocolVersion),
			"min": int(m.ServerConfiguration.MinorProtocolVersion),
			"rt":  pair(uint32(m.ServerConfiguration.ReadTimeout / time.Millisecond)),
			"bs":  pair(m.ServerConfiguration.MessageBufferSize),
			"sub": toInts(m.ServerConfiguration.SubProtocolName)}
		if out == "ok" {
			// The getters must agree with the fields
			guard := guarded(func() error {
				if m.Identifier() != m.MsgIdentifier || !bytes.Equal(m.Name(), m.MsgName) ||
					!bytes.Equal(m.Payload(), m.MsgPayload.Data) ||
					m.PayloadEncoding() != m.MsgPayload.Encoding {
					return errFault
				}
				return nil
			})
			if guard != "ok" {
				out = "panic"
			}
		}
		return obj{"e": "dec", "buf": buf, "b": toInts(keep), "out": out, "r": r,
			"rerr": o.RErr != 0 && o.Via != "bytes"}
	case "utf":
		in := o.B.bytes()
		orig := append([]byte(nil), in...)
		var u []byte
		out := guarded(func() (err error) {
			p := pld.Payload{Encoding: encodings[o.Enc], Data: in}
			if o.Via == "msg" {
				m := message.NewMessage(1)
				m.ReadBytes([]byte{message.MsgHeartbeat})
				m.MsgPayload = p
				u, err = m.PayloadUtf8()
			} else {
				u, err = p.Utf8()
			}
			return
		})
		return obj{"e": "utf", "enc": o.Enc, "b": toInts(orig), "out": out,
			"u": toInts(u), "mod": !bytes.Equal(in, orig)}
	}
	panic("unknown operation " + o.Op)
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	defer out.Flush()
	enc := json.NewEncoder(out)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) < 1 && err != nil {
			return
		}
		var c struct {
			ID  int   `json:"id"`
			Ops []*op `json:"ops"`
		}
		if err := json.Unmarshal(line, &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		s := &session{}
		ev := []obj{}
		for _, o := range c.Ops {
			for _, l := range []*ints{&o.ID, &o.Name, &o.Pld, &o.B} {
				if *l == nil {
					*l = ints{}
				}
			}
			ev = append(ev, s.do(o))
		}
		enc.Encode(obj{"id": c.ID, "ev": ev})
		if in.Buffered() < 1 || c.ID%16 == 0 {
			out.Flush()
		}
	}
}
