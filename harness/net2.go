package main

import (
	"context"
	"io"
	"log"
	"net"
)

func nolog() *log.Logger { return log.New(io.Discard, "", 0) }

func connContext(ctx context.Context, c net.Conn) context.Context {
	if t, ok := c.(tokConn); ok {
		return context.WithValue(ctx, ctxKey{}, t.token)
	}
	return ctx
}
