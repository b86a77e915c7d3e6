package main

import (
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"sync"

	"github.com/continusec/verifiabledatastructures/pb"
	vgrpc "github.com/continusec/verifiabledatastructures/server/grpc"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"google.golang.org/grpc"
)

// lockedBuf keeps what a server logs.
type lockedBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.b) < 1<<20 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return string(l.b)
}

// restServer is a REST server for a service, on the loopback interface.
type restServer struct {
	*httptest.Server
	Errors lockedBuf // what net/http complained of: panics, mainly
	hc     *http.Client
}

func newREST(svc Svc) *restServer {
	rs := &restServer{}
	s := httptest.NewUnstartedServer(httprest.CreateRESTHandler(svc, nil, log.New(io.Discard, "", 0)))
	s.Config.ErrorLog = log.New(&rs.Errors, "", 0)
	s.Start()
	rs.Server = s
	rs.hc = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 64, MaxIdleConns: 64}}
	return rs
}

// Client is the repository's REST client to it.
func (rs *restServer) Client() Svc {
	return (&httprest.Client{BaseURL: rs.URL, HTTPClient: rs.hc}).MustDial()
}

func (rs *restServer) Close() {
	rs.hc.CloseIdleConnections()
	rs.Server.CloseClientConnections()
	rs.Server.Close()
}

// grpcServer is a gRPC server for a service, on the loopback interface.
type grpcServer struct {
	s    *grpc.Server
	Addr string
}

func newGRPC(svc Svc) *grpcServer {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := grpc.NewServer()
	pb.RegisterVerifiableDataStructuresServiceServer(s, svc)
	go s.Serve(lis)
	return &grpcServer{s, lis.Addr().String()}
}

// Client is the repository's gRPC client to it.
func (g *grpcServer) Client() Svc {
	return (&vgrpc.Client{Address: g.Addr, NoGrpcSecurity: true}).MustDial()
}

func (g *grpcServer) Close() { g.s.Stop() }
