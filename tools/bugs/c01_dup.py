ID="C01-same-identifier"; PROP="C01"
NEEDS="two clients whose requests have the same identifier and overlap"
BREAKS="the request of one client is taken for a repetition of the other client's request and never answered"
EDITS=[("handleRequest.go","""	// Execute user-space hook
""","""	// Release message buffer
	defer msg.Close()
	defer srv.deregisterHandler(con)

	// Ignore repeated requests
	if _, repeated := srv.inProgress.LoadOrStore(msg.MsgIdentifier, con); repeated {
		return
	}

	// Execute user-space hook
"""),("handleRequest.go","""		srv.failMsg(con, msg, nil)
	}

	srv.deregisterHandler(con)

	// Release message buffer
	msg.Close()
}
""","""		srv.failMsg(con, msg, nil)
	}

	srv.inProgress.Delete(msg.MsgIdentifier)
}
"""),("server.go","""	messagePool       message.Pool
""","""	messagePool       message.Pool

	// inProgress lists the requests being handled by their identifier
	inProgress sync.Map
""")]
DEMO=r'''
package main

import (
	"context"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

func main() {
	begun := make(chan struct{}, 2)
	goOn := make(chan struct{})
	e := start(&impl{request: func(context.Context, wwr.Connection, wwr.Message) (wwr.Payload, error) {
		begun <- struct{}{}
		<-goOn
		return wwr.Payload{}, nil
	}}, wwr.ServerOptions{})
	a, b := e.connect(0), e.connect(0)
	a.handshake()
	b.handshake()
	a.send(request(1, "a", ""))
	<-begun
	b.send(request(1, "b", ""))
	select {
	case <-begun:
	case <-time.After(2 * time.Second):
		check(false, "the second client's request isn't handled")
	}
	close(goOn)
	a.recv("reply")
	b.recv("reply")
}
'''
