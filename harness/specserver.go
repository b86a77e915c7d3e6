package main

import (
	"context"
	"encoding/json"

	"vharness/spec"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/pb"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// specServer serves whatever its logs hold, with proofs that fit. It can be made to serve a history that no honest server would.
type specServer struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	Logs map[pb.LogType]*LogModel
	// MapHeads[i] is the map head for size i+1
	MapHeads []*pb.MapTreeHashResponse
}

var errSpecRange = status.Error(codes.InvalidArgument, "bad size")

func (s *specServer) log(l *pb.LogRef) *LogModel {
	if m := s.Logs[l.GetLogType()]; m != nil {
		return m
	}
	return &LogModel{}
}

func (s *specServer) LogTreeHash(ctx context.Context, req *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	m := s.log(req.Log)
	n := int(req.TreeSize)
	if n == 0 {
		n = m.Len()
	}
	if n < 0 || n > m.Len() {
		return nil, errSpecRange
	}
	if n == 0 {
		return &pb.LogTreeHashResponse{}, nil
	}
	return lth(n, m.Tree.Root(n)), nil
}

func (s *specServer) LogInclusionProof(ctx context.Context, req *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	m := s.log(req.Log)
	n := int(req.TreeSize)
	if n == 0 {
		n = m.Len()
	}
	i := int(req.LeafIndex)
	if len(req.MtlHash) > 0 {
		if i = m.Index(req.MtlHash); i < 0 {
			return nil, status.Error(codes.NotFound, "no such hash")
		}
	}
	if n < 1 || n > m.Len() || i < 0 || i >= n {
		return nil, errSpecRange
	}
	return &pb.LogInclusionProofResponse{LeafIndex: int64(i), TreeSize: int64(n), AuditPath: cpp(m.Tree.Inclusion(i, n))}, nil
}

func (s *specServer) LogConsistencyProof(ctx context.Context, req *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	m := s.log(req.Log)
	n := int(req.TreeSize)
	if n == 0 {
		n = m.Len()
	}
	f := int(req.FromSize)
	if n < 1 || n > m.Len() || f < 1 || f >= n {
		return nil, errSpecRange
	}
	return &pb.LogConsistencyProofResponse{FromSize: int64(f), TreeSize: int64(n), AuditPath: cpp(m.Tree.Consistency(f, n))}, nil
}

func (s *specServer) LogFetchEntries(ctx context.Context, req *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	m := s.log(req.Log)
	a, b := int(req.First), int(req.Last)
	if b == 0 {
		b = m.Len()
	}
	if a < 0 || b > m.Len() || a >= b {
		return nil, errSpecRange
	}
	rv := &pb.LogFetchEntriesResponse{}
	for _, e := range m.Entries[a:b] {
		rv.Values = append(rv.Values, &pb.LeafData{LeafInput: cp(e.LeafInput), ExtraData: cp(e.ExtraData), Format: e.Format})
	}
	return rv, nil
}

func (s *specServer) MapTreeHash(ctx context.Context, req *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	n := int(req.TreeSize)
	if n == 0 {
		n = len(s.MapHeads)
	}
	if n < 0 || n > len(s.MapHeads) {
		return nil, errSpecRange
	}
	if n == 0 {
		return &pb.MapTreeHashResponse{RootHash: spec.Defaults[0], MutationLog: &pb.LogTreeHashResponse{}}, nil
	}
	h := s.MapHeads[n-1]
	return &pb.MapTreeHashResponse{RootHash: cp(h.RootHash), MutationLog: lth(int(h.MutationLog.TreeSize), cp(h.MutationLog.RootHash))}, nil
}

// jsonEntry makes an entry of JSON content.
func jsonEntry(o interface{}) *pb.LeafData {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	return jsonEntryOf(b)
}

func jsonEntryOf(b []byte) *pb.LeafData {
	var x interface{}
	if err := json.Unmarshal(b, &x); err != nil {
		return &pb.LeafData{LeafInput: []byte("not json"), ExtraData: b, Format: pb.DataFormat_JSON}
	}
	h, err := objecthash.ObjectHashWithStdRedaction(x)
	if err != nil {
		panic(err)
	}
	return &pb.LeafData{LeafInput: h, ExtraData: b, Format: pb.DataFormat_JSON}
}

type obj = map[string]interface{}

// headEntry makes a tree head log entry.
func headEntry(root []byte, n int64, mroot []byte) *pb.LeafData {
	ml := obj{}
	if n != 0 {
		ml["tree_size"] = n
	}
	if len(mroot) > 0 {
		ml["root_hash"] = mroot
	}
	o := obj{"mutation_log": ml}
	if len(root) > 0 {
		o["root_hash"] = root
	}
	return jsonEntry(o)
}

// mutEntry makes a mutation log entry: the leaf input leaves out the value's extra data.
func mutEntry(o obj) *pb.LeafData {
	b, _ := json.Marshal(o)
	var c obj
	json.Unmarshal(b, &c)
	if v, ok := c["value"].(obj); ok {
		delete(v, "extra_data")
		delete(v, "format")
	}
	h, err := objecthash.ObjectHashWithStdRedaction(c)
	if err != nil {
		panic(err)
	}
	return &pb.LeafData{LeafInput: h, ExtraData: b, Format: pb.DataFormat_JSON}
}

// specServerFor serves a map's honest history.
func specServerFor(w *MapWorld) *specServer {
	s := &specServer{Logs: map[pb.LogType]*LogModel{tMut: {}, tHead: {}}}
	for i := range w.Mut.Entries {
		s.Logs[tMut].Add(w.Mut.Entries[i])
		s.Logs[tHead].Add(w.Heads.Entries[i])
		s.MapHeads = append(s.MapHeads, &pb.MapTreeHashResponse{RootHash: w.Root(i + 1), MutationLog: lth(i+1, w.Mut.Tree.Root(i+1))})
	}
	return s
}
