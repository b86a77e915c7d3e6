package main

import (
	"context"

	"github.com/continusec/verifiabledatastructures/pb"
	"google.golang.org/protobuf/proto"
)

// tweakSvc passes every call to Inner, and lets Tweak see and replace the answer (a copy of the real one).
type tweakSvc struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	Inner Svc
	Raw   bool // Tweak gets the real answer
	Tweak func(method string, req, resp proto.Message, err error) (proto.Message, error)
}

func tw[Q, A proto.Message](t *tweakSvc, ctx context.Context, m string, req Q, f func(context.Context, Q) (A, error)) (A, error) {
	resp, err := f(ctx, req)
	var in proto.Message
	if err == nil {
		if in = resp; !t.Raw {
			in = proto.Clone(resp)
		}
	}
	if t.Tweak == nil {
		return resp, err
	}
	out, err := t.Tweak(m, req, in, err)
	if err != nil {
		var zero A
		return zero, err
	}
	return out.(A), nil
}

func (t *tweakSvc) LogAddEntry(ctx context.Context, req *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	return tw(t, ctx, "LogAddEntry", req, t.Inner.LogAddEntry)
}
func (t *tweakSvc) LogTreeHash(ctx context.Context, req *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	return tw(t, ctx, "LogTreeHash", req, t.Inner.LogTreeHash)
}
func (t *tweakSvc) LogInclusionProof(ctx context.Context, req *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return tw(t, ctx, "LogInclusionProof", req, t.Inner.LogInclusionProof)
}
func (t *tweakSvc) LogConsistencyProof(ctx context.Context, req *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	return tw(t, ctx, "LogConsistencyProof", req, t.Inner.LogConsistencyProof)
}
func (t *tweakSvc) LogFetchEntries(ctx context.Context, req *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return tw(t, ctx, "LogFetchEntries", req, t.Inner.LogFetchEntries)
}
func (t *tweakSvc) MapSetValue(ctx context.Context, req *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	return tw(t, ctx, "MapSetValue", req, t.Inner.MapSetValue)
}
func (t *tweakSvc) MapGetValue(ctx context.Context, req *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	return tw(t, ctx, "MapGetValue", req, t.Inner.MapGetValue)
}
func (t *tweakSvc) MapTreeHash(ctx context.Context, req *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	return tw(t, ctx, "MapTreeHash", req, t.Inner.MapTreeHash)
}
