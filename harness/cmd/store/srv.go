package main

import (
	"context"
	"encoding/json"
	"errors"
	"io/ioutil"
	"log"
	"strconv"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"wwrverif/fake"
	"wwrverif/sim"
)

// backend performs the operations through a server that uses the session
// manager
type backend struct {
	c   *comp
	srv wwr.Server
	tr  *fake.Transport
	key string
	mng *manager
}

func (b *backend) OnClientConnected(wwr.ConnectionOptions, wwr.Connection) {}
func (b *backend) OnClientDisconnected(wwr.Connection, error)              {}
func (b *backend) OnSignal(context.Context, wwr.Connection, wwr.Message)   {}
func (b *backend) Generate() string                                        { return b.key }
func (b *backend) OnRequest(
	_ context.Context, con wwr.Connection, m wwr.Message,
) (wwr.Payload, error) {
	i, _ := strconv.Atoi(string(m.Payload()))
	var info wwr.SessionInfo
	if infos[i] != nil {
		info = wwr.GenericSessionInfoParser(infos[i])
	}
	if con.CreateSession(info) != nil {
		return wwr.Payload{}, errors.New("failed")
	}
	b.c.mu.Lock()
	b.c.cre[0] = con.SessionCreation()
	b.c.mu.Unlock()
	return wwr.Payload{Data: []byte("ok")}, nil
}

// manager notes failing creations, the server only logs them
type manager struct {
	wwr.SessionManager
	failed bool
}

func (m *manager) OnSessionCreated(con wwr.Connection) error {
	err := m.SessionManager.OnSessionCreated(con)
	if err != nil {
		m.failed = true
	}
	return err
}

func newBackend(c *comp) *backend {
	b := &backend{c: c, tr: fake.NewTransport(), mng: &manager{
		SessionManager: wwr.NewDefaultSessionManager(c.arg)}}
	nolog := log.New(ioutil.Discard, "", 0)
	srv, err := wwr.NewServer(b, wwr.ServerOptions{
		SessionManager:      b.mng,
		SessionKeyGenerator: b,
		MessageBufferSize:   1 << 17,
		WarnLog:             nolog,
		ErrorLog:            nolog,
	}, b.tr)
	if err != nil {
		panic(err)
	}
	b.srv = srv
	return b
}

// ask sends a request and returns its reply. The first message is the
// configuration
func ask(s *fake.Socket, typ byte, rest []byte) (byte, []byte) {
	const id = "01234567"
	n := len(s.Sent())
	s.Send(append(append([]byte{typ}, id...), rest...))
	for ; ; n++ {
		m := s.Await(n, 5*time.Second)
		if m == nil {
			return 255, nil
		}
		// Notifications may be sent as well
		if len(m) >= 9 && string(m[1:9]) == id {
			return m[0], m[9:]
		}
	}
}

func (b *backend) connect() *fake.Socket {
	s := b.tr.Connect(wwr.ConnectionOptions{})
	s.Await(0, 5*time.Second)
	return s
}

func (b *backend) lookup(s *fake.Socket, key string) sim.Ev {
	t, p := ask(s, message.MsgRequestRestoreSession, []byte(key))
	switch t {
	case message.MsgReplyUtf8, message.MsgReplyBinary:
		var j wwr.JSONEncodedSession
		if json.Unmarshal(p, &j) != nil {
			return sim.Ev{"r": "fail"}
		}
		return sim.Ev{"r": "found", "j": j}
	case message.MsgReplySessionNotFound:
		return sim.Ev{"r": "none"}
	case message.MsgReplyInternalError:
		return sim.Ev{"r": "err"}
	}
	return sim.Ev{"r": "fail"}
}

func (b *backend) do(op sim.Ev, key string) sim.Ev {
	if key == "" {
		return sim.Ev{"r": "fail"}
	}
	s := b.connect()
	defer func() {
		s.Close()
		<-s.Done
	}()
	switch sim.Str(op, "k") {
	case "create":
		b.key, b.mng.failed = key, false
		t, _ := ask(s, message.MsgRequestBinary,
			append([]byte{0}, strconv.Itoa(sim.Num(op, "i"))...))
		switch t {
		case message.MsgReplyBinary:
			if b.mng.failed {
				return sim.Ev{"r": "err"}
			}
			return sim.Ev{"r": "ok"}
		case message.MsgReplyError, message.MsgReplyInternalError:
			return sim.Ev{"r": "err"}
		}
		return sim.Ev{"r": "fail"}
	case "lookup":
		return b.lookup(s, key)
	case "close":
		// Whether or not anybody has this session
		if sim.Num(op, "n")%2 == 0 {
			b.srv.CloseSession(key)
		}
		r := b.lookup(s, key)
		if r["r"] != "found" {
			_, _, _ = b.srv.CloseSession(key)
			return sim.Ev{"r": "err"}
		}
		if sim.Num(op, "n")%3 == 0 {
			if _, _, err := b.srv.CloseSession(key); err != nil {
				return sim.Ev{"r": "fail"}
			}
			return sim.Ev{"r": "ok"}
		}
		if t, _ := ask(s, message.MsgRequestCloseSession, nil); t != message.MsgReplyBinary {
			return sim.Ev{"r": "fail"}
		}
		return sim.Ev{"r": "ok"}
	}
	panic("unknown operation")
}
