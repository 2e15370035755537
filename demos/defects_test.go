// Demonstrations, against the real code, of the defects recorded in
// /verif/KNOWN_FINDINGS.json.  Not part of any check (the checks are static);
// run with /verif/demos/run.sh.  Every test fails on the base commit and passes
// on the repaired tree.
package relation_graph_test

import (
	"context"
	"fmt"
	"strings"
	"testing"
	"time"

	rcdb "github.com/sourcenetwork/raccoondb"
	"github.com/stretchr/testify/require"
	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/internal/policy"
	rg "github.com/sourcenetwork/zanzi/internal/relation_graph"
	"github.com/sourcenetwork/zanzi/internal/store/kv_store"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

var ctx = context.Background()

const pol = `
id: p
name: p
resources:
  user:
    relations:
      self: {expr: _this, types: ['*']}
  grp:
    relations:
      member: {expr: _this, types: ['*']}
      self: {expr: _this, types: ['*']}
  file:
    relations:
      a: {expr: _this, types: ['*']}
      b: {expr: _this, types: ['*']}
      ab: {expr: _this, types: ['*']}
      parent: {expr: _this, types: ['*']}
      inter: {expr: a & b, types: ['*']}
      diff: {expr: a - b, types: ['*']}
      ttu: {expr: parent->a, types: ['*']}
`

type env struct {
	kv rcdb.KVStore
	p  api.PolicyServiceServer
	g  api.RelationGraphServer
}

func newEnvKV(t *testing.T, kv rcdb.KVStore, defs ...string) *env {
	s, err := kv_store.NewKVStore(kv)
	require.NoError(t, err)
	e := &env{kv: kv, p: policy.NewService(s.GetPolicyRepository())}
	e.g = rg.NewService(s.GetRelationNodeRepository(), s.GetPolicyRepository(), &types.NoopLogger{})
	for _, d := range defs {
		_, err := e.p.CreatePolicy(ctx, yaml(d))
		require.NoError(t, err)
	}
	return e
}
func newEnv(t *testing.T, defs ...string) *env { return newEnvKV(t, rcdb.NewMemKV(), defs...) }
func yaml(d string) *api.CreatePolicyRequest {
	return &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: d}}}
}

var b domain.RelationshipBuilder

func (e *env) set(t *testing.T, p string, r domain.Relationship) {
	_, err := e.p.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: p, Relationship: &r})
	require.NoError(t, err)
}
func (e *env) check(t *testing.T, id, rel, user string) bool {
	r, err := e.g.Check(ctx, &api.CheckRequest{PolicyId: "p", AccessRequest: &domain.AccessRequest{
		Object: domain.NewEntity("file", id), Relation: rel, Subject: domain.NewEntity("user", user)}})
	require.NoError(t, err)
	return r.Result.Authorized
}

// F1 (C01)
func TestF1OperandsIndependent(t *testing.T) {
	e := newEnv(t, pol)
	e.set(t, "p", b.Relationship("file", "1", "a", "user", "bob"))
	e.set(t, "p", b.Relationship("file", "1", "b", "user", "bob"))
	require.True(t, e.check(t, "1", "inter", "bob"), "bob is in both operands of a & b")
	require.False(t, e.check(t, "1", "diff", "bob"), "bob is excluded by b in a - b")
}

// F2/F3 (C14)
func TestF2KeyCollision(t *testing.T) {
	e := newEnv(t, strings.ReplaceAll(pol, "id: p", "id: p"))
	e.set(t, "p", b.Relationship("file", "1a", "b", "user", "bob")) // file:1a#b
	require.False(t, e.check(t, "1", "ab", "bob"), "file:1#ab must not see file:1a#b")
}

func TestF3NodeIdCollision(t *testing.T) {
	n := func(res, id, rel string) string {
		return (&domain.RelationNode{Node: &domain.RelationNode_EntitySet{EntitySet: &domain.EntitySetNode{Object: domain.NewEntity(res, id), Relation: rel}}}).Id()
	}
	require.NotEqual(t, n("file", "x/y", "z"), n("file/x", "y", "z"))
}

// F4 (C13)
func TestF4PolicyIsolation(t *testing.T) {
	e := newEnv(t, pol, strings.Replace(pol, "id: p", "id: q", 1))
	r := b.Relationship("file", "1", "a", "user", "bob")
	e.set(t, "p", r)
	got, err := e.p.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: "q", Relationship: &r})
	require.NoError(t, err)
	require.Nil(t, got.Record, "relationship was only set in policy p")
}

func TestF4bPolicyIdRangeOverlap(t *testing.T) {
	other := "p////in/" + strings.Repeat("x", 20)
	e := newEnv(t, pol, strings.Replace(pol, "id: p", "id: '"+other+"'", 1))
	e.set(t, other, b.Relationship("file", "1", "a", "user", "bob"))
	r, err := e.p.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: anySel()})
	require.NoError(t, err)
	require.Empty(t, r.Result.Records)
}

func anySel() *domain.RelationshipSelector {
	sb := domain.SelectorBuilder{}
	sb.AnyObject().AnyRelation().AnySubject()
	s := sb.Build()
	return &s
}

// F5 (C17)
func TestF5EntitySetSubjectSelector(t *testing.T) {
	e := newEnv(t, pol)
	r := b.EntitySet("file", "1", "a", "grp", "g", "member")
	e.set(t, "p", r)
	s := anySel()
	s.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_SubjectSpec{SubjectSpec: r.Subject}}
	got, err := e.p.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: s})
	require.NoError(t, err)
	require.Len(t, got.Result.Records, 1)
}

// F6 (C22)
func TestF6WildcardObjectNamedRelation(t *testing.T) {
	e := newEnv(t, pol)
	e.set(t, "p", b.Relationship("file", "1", "a", "user", "bob"))
	s := anySel()
	s.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_RelationName{RelationName: "a"}}
	got, err := e.p.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: s})
	require.NoError(t, err)
	require.Len(t, got.Result.Records, 1)
}

// F7 (C17)
func TestF7TouchedSelector(t *testing.T) {
	e := newEnv(t, pol)
	e.set(t, "p", b.Relationship("file", "1", "a", "user", "bob"))
	s := anySel()
	s.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ObjectSpec{ObjectSpec: domain.NewEntity("file", "1")}}
	req := &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: s}
	// what any transport, logger or cache does with a request: size it and print it
	_, err := proto.Marshal(req)
	require.NoError(t, err)
	_ = req.String()
	got, err := e.p.FindRelationshipRecords(ctx, req)
	require.NoError(t, err)
	require.Len(t, got.Result.Records, 1)
}

// F8 (C09/C10)
func TestF8RequiredFields(t *testing.T) {
	e := newEnv(t, pol)
	for _, r := range []domain.Relationship{
		b.Relationship("file", "", "a", "user", "bob"),
		b.Relationship("file", "1", "a", "user", ""),
		b.EntitySet("file", "1", "a", "grp", "", "member"),
	} {
		_, err := e.p.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: "p", Relationship: &r})
		require.ErrorIs(t, err, policy.ErrInvalidRelationship)
	}
	_, err := e.p.CreatePolicy(ctx, yaml(strings.Replace(pol, "id: p", "id: ''", 1)))
	require.Error(t, err, "policy without an id")
	_, err = e.p.CreatePolicy(ctx, yaml(strings.NewReplacer("id: p", "id: z", "  grp:", "  '':").Replace(pol)))
	require.Error(t, err, "resource without a name")
}

// F9 (C22)
func TestF9NilFields(t *testing.T) {
	e := newEnv(t, pol)
	run := func(name string, f func() error) {
		require.NotPanics(t, func() { _ = f() }, name)
	}
	run("create", func() error { _, err := e.p.CreatePolicy(ctx, &api.CreatePolicyRequest{}); return err })
	run("update", func() error { _, err := e.p.UpdatePolicy(ctx, &api.UpdatePolicyRequest{}); return err })
	run("setrel", func() error {
		_, err := e.p.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: "p"})
		return err
	})
	run("setrel2", func() error {
		_, err := e.p.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: "p", Relationship: &domain.Relationship{Object: domain.NewEntity("file", "1"), Relation: "a"}})
		return err
	})
	run("delrel", func() error {
		_, err := e.p.DeleteRelationship(ctx, &api.DeleteRelationshipRequest{PolicyId: "p"})
		return err
	})
	run("getrel", func() error {
		_, err := e.p.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: "p"})
		return err
	})
	run("find", func() error {
		_, err := e.p.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: "p"})
		return err
	})
	run("delrels", func() error {
		_, err := e.p.DeleteRelationships(ctx, &api.DeleteRelationshipsRequest{PolicyId: "p"})
		return err
	})
	run("check", func() error { _, err := e.g.Check(ctx, &api.CheckRequest{PolicyId: "p"}); return err })
	run("check2", func() error {
		_, err := e.g.Check(ctx, &api.CheckRequest{PolicyId: "p", AccessRequest: &domain.AccessRequest{}})
		return err
	})
	run("explain", func() error { _, err := e.g.ExplainCheck(ctx, &api.ExplainCheckRequest{PolicyId: "p"}); return err })
	run("expand", func() error { _, err := e.g.Expand(ctx, &api.ExpandRequest{PolicyId: "p"}); return err })
	run("expand2", func() error {
		_, err := e.g.Expand(ctx, &api.ExpandRequest{PolicyId: "p", Root: &domain.RelationNode{Node: &domain.RelationNode_EntitySet{EntitySet: &domain.EntitySetNode{}}}})
		return err
	})
	mk := func(rel *domain.Relation) *api.CreatePolicyRequest {
		return &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: &domain.Policy{Id: "n" + fmt.Sprint(time.Now().UnixNano()),
			Resources: []*domain.Resource{{Name: "file", Relations: []*domain.Relation{rel}}, {Name: "user"}}}}}}
	}
	run("noexpr", func() error { _, err := e.p.CreatePolicy(ctx, mk(&domain.Relation{Name: "a"})); return err })
	run("nil operand", func() error {
		_, err := e.p.CreatePolicy(ctx, mk(&domain.Relation{Name: "a", RelationExpression: &domain.RelationExpression{Expression: &domain.RelationExpression_Tree{Tree: &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{OpNode: &domain.OpNode{}}}}}}))
		require.Error(t, err)
		return err
	})
	run("no restriction", func() error {
		r := mk(&domain.Relation{Name: "a", RelationExpression: &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: "_this"}}})
		_, err := e.p.CreatePolicy(ctx, r)
		if err != nil {
			return err
		}
		rel := b.Relationship("file", "1", "a", "user", "bob")
		_, err = e.p.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: r.PolicyDefinition.GetPolicy().Id, Relationship: &rel})
		return err
	})
}

// F10 (C22/C04)
func TestF10TTUWildcard(t *testing.T) {
	e := newEnv(t, pol)
	e.set(t, "p", b.Wildcard("file", "1", "parent", "file"))
	require.NotPanics(t, func() {
		_, err := e.g.Check(ctx, &api.CheckRequest{PolicyId: "p", AccessRequest: &domain.AccessRequest{
			Object: domain.NewEntity("file", "1"), Relation: "ttu", Subject: domain.NewEntity("user", "bob")}})
		require.Error(t, err)
	})
}

// F11 (C23)
func TestF11DumpRootlessCycle(t *testing.T) {
	e := newEnv(t, pol)
	e.set(t, "p", b.EntitySet("grp", "x", "member", "grp", "y", "member"))
	e.set(t, "p", b.EntitySet("grp", "y", "member", "grp", "x", "member"))
	r, err := e.g.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: "p"})
	require.NoError(t, err)
	require.Contains(t, r.GetDot(), "grp:x, member")
	require.Contains(t, r.GetDot(), "grp:y, member")
	require.Equal(t, 3, strings.Count(r.GetDot(), "->"), r.GetDot())
}

// on the base commit this overflows the stack and kills the process: run it last, alone
func TestZZF11DumpRootedCycle(t *testing.T) {
	e := newEnv(t, pol)
	e.set(t, "p", b.EntitySet("file", "1", "a", "grp", "x", "member"))
	e.set(t, "p", b.EntitySet("grp", "x", "member", "grp", "y", "member"))
	e.set(t, "p", b.EntitySet("grp", "y", "member", "grp", "x", "member"))
	_, err := e.g.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: "p"})
	require.NoError(t, err)
}

// F12 (C25)
func TestF12JSONExplain(t *testing.T) {
	e := newEnv(t, pol)
	e.set(t, "p", b.Relationship("file", "1", "a", "user", "bob"))
	for _, f := range []api.ExplainFormat{api.ExplainFormat_SPEW, api.ExplainFormat_JSON, api.ExplainFormat_DOT} {
		_, err := e.g.ExplainCheck(ctx, &api.ExplainCheckRequest{PolicyId: "p", Format: f, AccessRequest: &domain.AccessRequest{
			Object: domain.NewEntity("file", "1"), Relation: "a", Subject: domain.NewEntity("user", "bob")}})
		require.NoError(t, err, f.String())
	}
}

type faultKV struct {
	rcdb.KVStore
	failIter bool
	gate     func(op string)
}

func (f *faultKV) Iterator(s, e []byte) rcdb.Iterator {
	it := f.KVStore.Iterator(s, e)
	if f.failIter {
		return &failIter{it}
	}
	return it
}
func (f *faultKV) Set(k, v []byte) error {
	if f.gate != nil {
		f.gate("set")
	}
	return f.KVStore.Set(k, v)
}

type failIter struct{ rcdb.Iterator }

func (f *failIter) Error() error { return fmt.Errorf("disk error") }
func (f *failIter) Valid() bool  { return true }
func (f *failIter) Value() []byte {
	return nil
}

// F13 (C18): the relationship removal fails; the policy must still be there, so that
// the deletion can be retried and nothing is left behind.
func TestF13DeletePolicyOrder(t *testing.T) {
	kv := &faultKV{KVStore: rcdb.NewMemKV()}
	e := newEnvKV(t, kv, pol)
	e.set(t, "p", b.Relationship("file", "1", "a", "user", "bob"))
	kv.failIter = true
	_, err := e.p.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: "p"})
	require.Error(t, err)
	kv.failIter = false
	got, err := e.p.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"})
	require.NoError(t, err)
	require.NotNil(t, got.Record, "policy gone, its relationships left behind")
}

// F14 (C12)
func TestF14ConcurrentCreate(t *testing.T) {
	kv := &faultKV{KVStore: rcdb.NewMemKV()}
	e := newEnvKV(t, kv)
	kv.gate = func(string) { time.Sleep(100 * time.Millisecond) }
	res := make(chan error, 2)
	for i := 0; i < 2; i++ {
		go func() { _, err := e.p.CreatePolicy(ctx, yaml(pol)); res <- err }()
	}
	ok := 0
	for i := 0; i < 2; i++ {
		if <-res == nil {
			ok++
		}
	}
	require.Equal(t, 1, ok, "both creates of the same id succeeded")
}

// F15 (C28)
func TestF15ListPolicyIds(t *testing.T) {
	kv := rcdb.NewMemKV()
	require.NoError(t, kv.Set([]byte("zzz-foreign"), []byte("x")))
	e := newEnvKV(t, kv)
	r, err := e.p.ListPolicyIds(ctx, &api.ListPolicyIdsRequest{})
	require.NoError(t, err)
	require.Empty(t, r.Records)
}
func TestF15bListReleasesIterator(t *testing.T) {
	e := newEnv(t, pol)
	for i := 0; i < 300; i++ {
		e.set(t, "p", b.Relationship("file", fmt.Sprint(i), "a", "user", "bob"))
	}
	_, err := e.p.ListPolicyIds(ctx, &api.ListPolicyIdsRequest{})
	require.NoError(t, err)
	done := make(chan struct{})
	go func() { e.set(t, "p", b.Relationship("file", "after", "a", "user", "bob")); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("write blocked after ListPolicyIds: iterator not released")
	}
}

// F17 (C24)
func TestF17ExpandIntersection(t *testing.T) {
	e := newEnv(t, pol)
	e.set(t, "p", b.Relationship("file", "1", "a", "user", "alice"))
	e.set(t, "p", b.Relationship("file", "1", "b", "user", "bob"))
	r, err := e.g.Expand(ctx, &api.ExpandRequest{PolicyId: "p", Format: api.ExplainFormat_DOT, Root: &domain.RelationNode{Node: &domain.RelationNode_EntitySet{
		EntitySet: &domain.EntitySetNode{Object: domain.NewEntity("file", "1"), Relation: "inter"}}}})
	require.NoError(t, err)
	require.Contains(t, r.GoalTree, "user:alice")
	require.Contains(t, r.GoalTree, "user:bob")
}
