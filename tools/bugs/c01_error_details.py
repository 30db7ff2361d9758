ID="C01-error-ptr-details"; PROP="C01"
NEEDS="a handler returning an error that wraps a request error"
BREAKS="the text of an internal error is sent to the client when it wraps a request error"
EDITS=[("handleRequest.go","""	default:
		srv.errorLog.Printf(
			"request handler internal error: %v",
			returnedErr,
		)
		srv.failMsg(con, msg, nil)
""","""	default:
		srv.errorLog.Printf(
			"request handler internal error: %v",
			returnedErr,
		)
		var reqErr ErrRequest
		if errors.As(returnedErr, &reqErr) {
			reqErr.Message = returnedErr.Error()
			srv.failMsg(con, msg, reqErr)
		} else {
			srv.failMsg(con, msg, nil)
		}
"""),("handleRequest.go","""	"context"

""","""	"context"
	"errors"

""")]
DEMO=r'''
package main

import (
	"context"
	"fmt"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
)

func main() {
	e := start(&impl{request: func(context.Context, wwr.Connection, wwr.Message) (wwr.Payload, error) {
		return wwr.Payload{}, fmt.Errorf("database at 10.0.0.1: %w", wwr.ErrRequest{Code: "C", Message: "m"})
	}}, wwr.ServerOptions{})
	s := e.connect(0)
	s.handshake()
	s.send(request(5, "a", ""))
	m := s.recv("reply")
	check(m.MsgType == message.MsgReplyInternalError, "unexpected reply %d: %s", m.MsgType, m.MsgPayload.Data)
}
'''
