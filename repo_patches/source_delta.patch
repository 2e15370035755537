From a0fd750eefea7289def2af39a4d1e10d92a2fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:44 +0000
Subject: [PATCH 01/23] fix: evaluate the operands of a set operator
 independently

---
 internal/relation_graph/searcher.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index d6625ba..64cffe9 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -93,7 +93,7 @@ func (s *Searcher) searchAND(ctx context.Context, policy *domain.Policy, tree *A
 		}
 
 		// ANDNode requires that all Paths to the Goal are found
-		if newPath.GetResult() == SearchResult_FAILURE {
+		if newPath.GetResult() != SearchResult_SUCCESS {
 			foundAll = false
 			s.logger.Debugf("AND Node terminated: node %v did not reach path", newPath)
 			break
@@ -189,9 +189,11 @@ func (s *Searcher) searchPath(ctx context.Context, policy *domain.Policy, node *
 	if _, ok := s.seenNodes[nodeId]; ok {
 		s.logger.Debugf("duplicated node - terminating brach: %v", node.RelationNode)
 		return pathNode, nil
-	} else {
-		s.seenNodes[nodeId] = struct{}{}
 	}
+	// the trail only holds the nodes between the origin and the current node:
+	// a node reached through another branch must be evaluated again
+	s.seenNodes[nodeId] = struct{}{}
+	defer delete(s.seenNodes, nodeId)
 
 	spec := GoalFoundSpec{}
 	found := spec.Found(node, goal)
-- 
2.43.0


From f46a45329ef42104e55f4f0d9f487de1b2162845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:46 +0000
Subject: [PATCH 02/23] fix: expand every branch of an intersection

---
 internal/relation_graph/searcher.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index 64cffe9..f383f83 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -95,8 +95,11 @@ func (s *Searcher) searchAND(ctx context.Context, policy *domain.Policy, tree *A
 		// ANDNode requires that all Paths to the Goal are found
 		if newPath.GetResult() != SearchResult_SUCCESS {
 			foundAll = false
-			s.logger.Debugf("AND Node terminated: node %v did not reach path", newPath)
-			break
+			// Target is nil during Expand calls, which must walk every Path
+			if goal.Target != nil {
+				s.logger.Debugf("AND Node terminated: node %v did not reach path", newPath)
+				break
+			}
 		}
 	}
 
-- 
2.43.0


From b8950e964dce4fd490ea12a75070c4d0ba1f2ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:48 +0000
Subject: [PATCH 03/23] fix: give different relation nodes different storage
 keys

---
 internal/store/kv_store/model.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/store/kv_store/model.go b/internal/store/kv_store/model.go
index 659156d..9b2facd 100644
--- a/internal/store/kv_store/model.go
+++ b/internal/store/kv_store/model.go
@@ -2,6 +2,7 @@ package kv_store
 
 import (
 	"crypto/sha256"
+	"encoding/binary"
 
 	rcdb "github.com/sourcenetwork/raccoondb"
 
@@ -24,9 +25,13 @@ type relationNodeKeyer struct{}
 
 func (t *relationNodeKeyer) Key(node *RelationNode) []byte {
 	hasher := sha256.New()
-	hasher.Write([]byte(node.Resource))
-	hasher.Write([]byte(node.Id))
-	hasher.Write([]byte(node.Relation))
+	hasher.Write([]byte{byte(node.Type)})
+	// fields are prefixed with their length, otherwise different nodes could
+	// yield the same sequence of bytes
+	for _, field := range []string{node.Resource, node.Id, node.Relation} {
+		hasher.Write(binary.BigEndian.AppendUint64(nil, uint64(len(field))))
+		hasher.Write([]byte(field))
+	}
 	return hasher.Sum(nil)
 }
 
-- 
2.43.0


From 9ff2eb687a7be3ae635c0ddead4fe4c3d5970f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:51 +0000
Subject: [PATCH 04/23] fix: give different relation nodes different ids

---
 pkg/domain/relation_graph.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/pkg/domain/relation_graph.go b/pkg/domain/relation_graph.go
index a40e222..1020d2c 100644
--- a/pkg/domain/relation_graph.go
+++ b/pkg/domain/relation_graph.go
@@ -5,6 +5,7 @@ import (
 
 	"crypto/sha256"
 	"encoding/base64"
+	"encoding/binary"
 )
 
 func (n *RelationNode) GetObject() *Entity {
@@ -35,26 +36,23 @@ func (n *RelationNode) IsTerminalNode() bool {
 // Hash produces an Id of a RelationNode which uniquely identifies it.
 func (n *RelationNode) Id() string {
 	hasher := sha256.New()
-	separator := []byte{byte('/')}
+	// fields are prefixed with their length and nodes with their variant,
+	// otherwise different nodes could yield the same sequence of bytes
+	write := func(variant byte, fields ...string) {
+		hasher.Write([]byte{variant})
+		for _, field := range fields {
+			hasher.Write(binary.BigEndian.AppendUint64(nil, uint64(len(field))))
+			hasher.Write([]byte(field))
+		}
+	}
 
-	// since Ids and Relations are required, it's impossible
-	// for users to created an entity node which would cause a clash
 	switch node := n.Node.(type) {
 	case *RelationNode_EntitySet:
-		hasher.Write([]byte(node.EntitySet.Object.Resource))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.EntitySet.Object.Id))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.EntitySet.Relation))
+		write(1, node.EntitySet.Object.Resource, node.EntitySet.Object.Id, node.EntitySet.Relation)
 	case *RelationNode_Entity:
-		hasher.Write([]byte(node.Entity.Object.Resource))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.Entity.Object.Id))
-		hasher.Write(separator)
+		write(2, node.Entity.Object.Resource, node.Entity.Object.Id)
 	case *RelationNode_Wildcard:
-		hasher.Write([]byte(node.Wildcard.Resource))
-		hasher.Write(separator)
-		hasher.Write(separator)
+		write(3, node.Wildcard.Resource)
 	default:
 	}
 
-- 
2.43.0


From 54dd4deeb2759507e4da0d43df764783655ed173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:53 +0000
Subject: [PATCH 05/23] fix: keep the relationships of each policy in a key
 space of its own

---
 internal/store/kv_store/kv_store.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index 3b1d167..8d694f0 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -1,6 +1,8 @@
 package kv_store
 
 import (
+	"crypto/sha256"
+
 	rcdb "github.com/sourcenetwork/raccoondb"
 
 	"github.com/sourcenetwork/zanzi/internal/policy"
@@ -40,6 +42,13 @@ type KVStore struct {
 	relationshipDataPrefixKV rcdb.KVStore
 }
 
+// policyPrefix maps a policy id to a prefix of constant length, such that
+// no policy's prefix is also a prefix of another policy's keys
+func policyPrefix(policyId string) []byte {
+	sum := sha256.Sum256([]byte(policyId))
+	return sum[:]
+}
+
 func (kv *KVStore) getPolicyStore() *rcdb.ObjectStore[*domain.PolicyRecord] {
 	return &kv.policyStore
 }
@@ -47,7 +56,7 @@ func (kv *KVStore) getPolicyStore() *rcdb.ObjectStore[*domain.PolicyRecord] {
 func (kv *KVStore) getRelationshipStore(policyId string) rcdb.RaccoonStore[*Relationship, *RelationNode] {
 	factory := func() *Relationship { return &Relationship{} }
 	marshaler := rcdb.ProtoMarshaler[*Relationship](factory)
-	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, []byte(policyId))
+	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyPrefix(policyId))
 	schema := rcdb.RaccoonSchema[*Relationship, *RelationNode]{
 		Store:     store,
 		Keyer:     &relationNodeKeyer{},
@@ -60,7 +69,8 @@ func (kv *KVStore) getRelationshipDataStore(policyId string) *rcdb.ObjectStore[*
 	factory := func() *RelationshipData { return &RelationshipData{} }
 	marshaler := rcdb.ProtoMarshaler[*RelationshipData](factory)
 	ider := relationshipDataIDer{}
-	store := rcdb.NewObjStore[*RelationshipData](kv.relationshipDataPrefixKV, marshaler, &ider)
+	prefixed := rcdb.NewWrapperKV(kv.relationshipDataPrefixKV, policyPrefix(policyId))
+	store := rcdb.NewObjStore[*RelationshipData](prefixed, marshaler, &ider)
 	return &store
 }
 
-- 
2.43.0


From be46b595ef5604f096dcb8e53a5a2da397955671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:56 +0000
Subject: [PATCH 06/23] fix: return the resource of an entity set subject

---
 pkg/domain/relationship.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/domain/relationship.go b/pkg/domain/relationship.go
index ebad6d7..4a5bd38 100644
--- a/pkg/domain/relationship.go
+++ b/pkg/domain/relationship.go
@@ -84,7 +84,7 @@ func (s *Subject) GetResourceName() string {
 	case *Subject_Entity:
 		return subj.Entity.Resource
 	case *Subject_EntitySet:
-		return subj.EntitySet.Relation
+		return subj.EntitySet.Entity.Resource
 	case *Subject_ResourceSet:
 		return subj.ResourceSet.ResourceName
 	}
-- 
2.43.0


From 6bbe197e9a5a6792f74a9c9a4212f0386688ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:58 +0000
Subject: [PATCH 07/23] fix: accept a named relation selector with a wildcard
 object selector

---
 internal/policy/spec.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index b387c56..ae2348d 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -383,6 +383,16 @@ func (s *ValidSelectorSpec) validRelationSelector(objSelector *domain.ObjectSele
 
 	relName := relSelector.GetRelationName()
 
+	if objSelector.GetWildcard() != nil {
+		// any resource is selected, hence the relation may belong to any of them
+		for _, resource := range policy.Resources {
+			if resource.GetRelationByName(relName) != nil {
+				return nil
+			}
+		}
+		return fmt.Errorf("relation %v: %w", relName, ErrRelationNotFound)
+	}
+
 	resourceName := s.getObjectSelectorResourceName(objSelector)
 	resource := policy.GetResourceByName(resourceName)
 	relation := resource.GetRelationByName(relName)
-- 
2.43.0


From 6e2d130b9a17e346158f627688ebf94d97c2d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:59 +0000
Subject: [PATCH 08/23] fix: compare selector messages by value

---
 internal/policy/selector_spec.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/policy/selector_spec.go b/internal/policy/selector_spec.go
index a9b4378..6dacba2 100644
--- a/internal/policy/selector_spec.go
+++ b/internal/policy/selector_spec.go
@@ -2,7 +2,8 @@ package policy
 
 import (
 	"fmt"
-	"reflect"
+
+	"google.golang.org/protobuf/proto"
 
 	"github.com/sourcenetwork/zanzi/pkg/domain"
 )
@@ -59,7 +60,7 @@ func (s *RelationshipSelectorSpec) Satisfies(relationship *domain.Relationship)
 
 func (s *RelationshipSelectorSpec) objectSpec(entity *domain.Entity) predicate {
 	return func(r *domain.Relationship) bool {
-		return reflect.DeepEqual(entity, r.Object)
+		return proto.Equal(entity, r.Object)
 	}
 }
 
@@ -89,7 +90,7 @@ func (s *RelationshipSelectorSpec) relationWildcardSpec() predicate {
 
 func (s *RelationshipSelectorSpec) subjectSpec(subject *domain.Subject) predicate {
 	return func(r *domain.Relationship) bool {
-		return reflect.DeepEqual(r.Subject, subject)
+		return proto.Equal(r.Subject, subject)
 	}
 }
 
-- 
2.43.0


From 2df563942d9764414b01e4b8570ef8b0c3f6adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:01 +0000
Subject: [PATCH 09/23] fix: reject policies and relationships with required
 fields missing

---
 internal/policy/spec.go | 44 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index ae2348d..4ba6f27 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -39,7 +39,25 @@ func (s *ValidPolicySpec) verify(policy *domain.Policy) error {
 }
 
 func (s *ValidPolicySpec) RequiredFieldsPresent(policy *domain.Policy) error {
-	return policy.Validate()
+	if err := policy.Validate(); err != nil {
+		return err
+	}
+
+	// the generated validators do not enforce the required fields
+	if policy.Id == "" {
+		return fmt.Errorf("policy id required: %w", ErrInvalidPolicy)
+	}
+	for _, resource := range policy.Resources {
+		if resource.Name == "" {
+			return fmt.Errorf("resource name required: %w", ErrInvalidPolicy)
+		}
+		for _, relation := range resource.Relations {
+			if relation.Name == "" {
+				return fmt.Errorf("resource %v: relation name required: %w", resource.Name, ErrInvalidPolicy)
+			}
+		}
+	}
+	return nil
 }
 
 func (s *ValidPolicySpec) UniqueResourceAndRelationsNames(policy *domain.Policy) error {
@@ -177,6 +195,30 @@ func (s *AllowedRelationshipSpec) requiredFields(relationship *domain.Relationsh
 	if err != nil {
 		return fmt.Errorf("relationship %v: %w", relationship, ErrInvalidRelationship)
 	}
+
+	// the generated validators do not enforce the required fields
+	fields := []string{
+		relationship.GetObject().GetResource(),
+		relationship.GetObject().GetId(),
+		relationship.GetRelation(),
+	}
+	switch subject := relationship.GetSubject().GetSubject().(type) {
+	case *domain.Subject_Entity:
+		fields = append(fields, subject.Entity.GetResource(), subject.Entity.GetId())
+	case *domain.Subject_EntitySet:
+		entity := subject.EntitySet.GetEntity()
+		fields = append(fields, entity.GetResource(), entity.GetId(), subject.EntitySet.GetRelation())
+	case *domain.Subject_ResourceSet:
+		fields = append(fields, subject.ResourceSet.GetResourceName())
+	default:
+		return fmt.Errorf("relationship %v: subject missing: %w", relationship, ErrInvalidRelationship)
+	}
+
+	for _, field := range fields {
+		if field == "" {
+			return fmt.Errorf("relationship %v: required field missing: %w", relationship, ErrInvalidRelationship)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From d95c6e695e5270081364f214edc48c478129c159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:49 +0000
Subject: [PATCH 10/23] fix: return an error for a tuple to userset rule over a
 wildcard

---
 internal/relation_graph/rule_evaluator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/relation_graph/rule_evaluator.go b/internal/relation_graph/rule_evaluator.go
index 371d80a..a5ebae8 100644
--- a/internal/relation_graph/rule_evaluator.go
+++ b/internal/relation_graph/rule_evaluator.go
@@ -117,7 +117,8 @@ func buildTupleToUsersetNode(node *domain.RelationNode, computedRelation string)
 	case *domain.RelationNode_Entity:
 		entitySetNode.Object = nodeType.Entity.Object
 	case *domain.RelationNode_Wildcard:
-		//TODO not sure how I should go about this scenario yet...
+		// a wildcard stands for a set of objects, there is no single userset to rewrite to
+		return nil, fmt.Errorf("building tuple to userset node: wildcard subject %v: %w", node, domain.ErrInvalidVariant)
 	default:
 		return nil, fmt.Errorf("building tuple to userset node: node %v: %w", node, domain.ErrInvalidVariant)
 	}
-- 
2.43.0


From d6835b94b0cfdfed1702741bd74cda81307442da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:51 +0000
Subject: [PATCH 11/23] fix: answer incomplete requests with an error

---
 internal/policy/helpers.go             |  4 +--
 internal/policy/selector_spec.go       |  6 ++---
 internal/policy/spec.go                | 37 +++++++++++++++++++++-----
 internal/relation_graph/goal_tree.go   |  2 +-
 internal/relation_graph/service.go     | 12 +++++++++
 internal/store/kv_store/mapper.go      | 12 ++++-----
 pkg/domain/relation_expression_tree.go |  2 +-
 pkg/domain/relationship.go             |  2 +-
 8 files changed, 56 insertions(+), 21 deletions(-)

diff --git a/internal/policy/helpers.go b/internal/policy/helpers.go
index 588caf0..e2e99ff 100644
--- a/internal/policy/helpers.go
+++ b/internal/policy/helpers.go
@@ -21,7 +21,7 @@ func GetExpressionTree(r *domain.Relation) (*domain.RelationExpressionTree, erro
 	var tree *domain.RelationExpressionTree
 	var err error
 
-	switch t := r.RelationExpression.Expression.(type) {
+	switch t := r.GetRelationExpression().GetExpression().(type) {
 	case *domain.RelationExpression_Expr:
 		tree, err = parser.Parse(t.Expr)
 		if err != nil {
@@ -40,7 +40,7 @@ func GetPolicyFromDefinition(d *api.PolicyDefinition) (*domain.Policy, error) {
 	var policy *domain.Policy
 	var err error
 
-	switch definition := d.Definition.(type) {
+	switch definition := d.GetDefinition().(type) {
 	case *api.PolicyDefinition_Policy:
 		policy = definition.Policy
 	case *api.PolicyDefinition_PolicyYaml:
diff --git a/internal/policy/selector_spec.go b/internal/policy/selector_spec.go
index 6dacba2..3bad792 100644
--- a/internal/policy/selector_spec.go
+++ b/internal/policy/selector_spec.go
@@ -20,7 +20,7 @@ type RelationshipSelectorSpec struct {
 func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelectorSpec, error) {
 	spec := RelationshipSelectorSpec{}
 
-	switch objectSelector := selector.ObjectSelector.Selector.(type) {
+	switch objectSelector := selector.GetObjectSelector().GetSelector().(type) {
 	case *domain.ObjectSelector_ObjectSpec:
 		spec.objectPredicate = spec.objectSpec(objectSelector.ObjectSpec)
 	case *domain.ObjectSelector_Wildcard:
@@ -31,7 +31,7 @@ func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelecto
 		return spec, fmt.Errorf("ObjectSelector %v: %w", objectSelector, domain.ErrInvalidVariant)
 	}
 
-	switch relationSelector := selector.RelationSelector.Selector.(type) {
+	switch relationSelector := selector.GetRelationSelector().GetSelector().(type) {
 	case *domain.RelationSelector_RelationName:
 		spec.relationPredicate = spec.relationNameSpec(relationSelector.RelationName)
 	case *domain.RelationSelector_Wildcard:
@@ -40,7 +40,7 @@ func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelecto
 		return spec, fmt.Errorf("RelationSelector %v: %w", relationSelector, domain.ErrInvalidVariant)
 	}
 
-	switch subjectSelector := selector.SubjectSelector.Selector.(type) {
+	switch subjectSelector := selector.GetSubjectSelector().GetSelector().(type) {
 	case *domain.SubjectSelector_SubjectSpec:
 		spec.subjectPredicate = spec.subjectSpec(subjectSelector.SubjectSpec)
 	case *domain.SubjectSelector_Wildcard:
diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index 4ba6f27..dbe4f5a 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -100,6 +100,9 @@ func (s *ValidPolicySpec) RelationExpressionWellDefined(policy *domain.Policy, l
 			if err != nil {
 				return fmt.Errorf("resoruce %v: relation %v: %w", resource.Name, relation.Name, err)
 			}
+			if err := s.validExpressionTree(tree); err != nil {
+				return fmt.Errorf("resource %v: relation %v: %w", resource.Name, relation.Name, err)
+			}
 			rules := tree.GetRules()
 			for _, rule := range rules {
 				err := s.policyContainsRelationsInRule(resource.Name, relation.Name, lut, rule)
@@ -112,6 +115,26 @@ func (s *ValidPolicySpec) RelationExpressionWellDefined(policy *domain.Policy, l
 	return nil
 }
 
+// validExpressionTree verifies that every node in the tree is set and that every operator is known
+func (s *ValidPolicySpec) validExpressionTree(tree *domain.RelationExpressionTree) error {
+	switch node := tree.GetNode().(type) {
+	case *domain.RelationExpressionTree_Rule:
+		return nil
+	case *domain.RelationExpressionTree_OpNode:
+		switch node.OpNode.Operator {
+		case domain.Operator_UNION, domain.Operator_INTERSECTION, domain.Operator_DIFFERENCE:
+		default:
+			return fmt.Errorf("operator %v: %w", node.OpNode.Operator, ErrRelExpTree)
+		}
+		if err := s.validExpressionTree(node.OpNode.Left); err != nil {
+			return err
+		}
+		return s.validExpressionTree(node.OpNode.Right)
+	default:
+		return fmt.Errorf("missing node: %w", ErrRelExpTree)
+	}
+}
+
 func (s *ValidPolicySpec) policyContainsRelationsInRule(resource, relation string, lut PolicyLookUpTable, rule *domain.Rule) error {
 	switch r := rule.Rule.(type) {
 	case *domain.Rule_Cu:
@@ -299,7 +322,7 @@ func (s *SubjectRestrictionSpec) Satisfies(relationship *domain.Relationship, ta
 
 	var err error
 
-	switch restriction := relation.SubjectRestriction.SubjectRestriction.(type) {
+	switch restriction := relation.GetSubjectRestriction().GetSubjectRestriction().(type) {
 	case *domain.SubjectRestriction_UniversalSet:
 		err = nil
 	case *domain.SubjectRestriction_RestrictionSet:
@@ -380,17 +403,17 @@ func (s *SubjectRestrictionSpec) satisfiesRestriction(restriction *domain.Subjec
 type ValidSelectorSpec struct{}
 
 func (s *ValidSelectorSpec) Satisfies(selector *domain.RelationshipSelector, policy *domain.Policy) error {
-	err := s.validObjectSelector(selector.ObjectSelector, policy)
+	err := s.validObjectSelector(selector.GetObjectSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("object selector invalid: policy %v: %w", policy.Id, err)
 	}
 
-	err = s.validRelationSelector(selector.ObjectSelector, selector.RelationSelector, policy)
+	err = s.validRelationSelector(selector.GetObjectSelector(), selector.GetRelationSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("relation selector invalid: policy %v: %w", policy.Id, err)
 	}
 
-	err = s.validSubjectSelector(selector.SubjectSelector, policy)
+	err = s.validSubjectSelector(selector.GetSubjectSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("subject selector invalid: policy %v: %w", policy.Id, err)
 	}
@@ -399,7 +422,7 @@ func (s *ValidSelectorSpec) Satisfies(selector *domain.RelationshipSelector, pol
 }
 
 func (s *ValidSelectorSpec) validObjectSelector(selector *domain.ObjectSelector, policy *domain.Policy) error {
-	switch s := selector.Selector.(type) {
+	switch s := selector.GetSelector().(type) {
 	case *domain.ObjectSelector_ObjectSpec:
 		resource := policy.GetResourceByName(s.ObjectSpec.Resource)
 		if resource == nil {
@@ -446,7 +469,7 @@ func (s *ValidSelectorSpec) validRelationSelector(objSelector *domain.ObjectSele
 }
 
 func (s *ValidSelectorSpec) getObjectSelectorResourceName(objSelector *domain.ObjectSelector) string {
-	switch s := objSelector.Selector.(type) {
+	switch s := objSelector.GetSelector().(type) {
 	case *domain.ObjectSelector_ObjectSpec:
 		return s.ObjectSpec.Resource
 	case *domain.ObjectSelector_ResourceSpec:
@@ -456,7 +479,7 @@ func (s *ValidSelectorSpec) getObjectSelectorResourceName(objSelector *domain.Ob
 }
 
 func (s *ValidSelectorSpec) validSubjectSelector(selector *domain.SubjectSelector, policy *domain.Policy) error {
-	switch s := selector.Selector.(type) {
+	switch s := selector.GetSelector().(type) {
 	case *domain.SubjectSelector_ResourceSpec:
 		resource := policy.GetResourceByName(s.ResourceSpec)
 		if resource == nil {
diff --git a/internal/relation_graph/goal_tree.go b/internal/relation_graph/goal_tree.go
index f276691..2c88fc5 100644
--- a/internal/relation_graph/goal_tree.go
+++ b/internal/relation_graph/goal_tree.go
@@ -86,7 +86,7 @@ func (b *goalTreeBuilder) buildGoalTree(ctx context.Context, policyId string, ex
 	var goalTree GoalTree
 	var err error
 
-	switch exprTreeNode := exprTree.Node.(type) {
+	switch exprTreeNode := exprTree.GetNode().(type) {
 	case *domain.RelationExpressionTree_OpNode:
 		goalTree, err = b.buildGoalForOpNode(ctx, policyId, exprTreeNode.OpNode, node)
 	case *domain.RelationExpressionTree_Rule:
diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index 85e9298..6ef76d9 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -38,6 +38,10 @@ func (s *Service) Check(
 		return nil, fmt.Errorf("check: %w: policy %v: %w", api.ErrInvalidRequest, req.PolicyId, policy.ErrPolicyNotFound)
 	}
 
+	if req.AccessRequest.GetObject() == nil || req.AccessRequest.GetSubject() == nil {
+		return nil, fmt.Errorf("check: %w: access request requires an object and a subject", api.ErrInvalidRequest)
+	}
+
 	evaluator := newEvaluator(s.repository, s.logger)
 	builder := newGoalTreeBuilder(evaluator, s.logger)
 	searcher := NewSearcher(builder, s.logger)
@@ -93,6 +97,10 @@ func (s *Service) ExplainCheck(
 		return nil, fmt.Errorf("check: %w: policy %v: %w", api.ErrInvalidRequest, req.PolicyId, policy.ErrPolicyNotFound)
 	}
 
+	if req.AccessRequest.GetObject() == nil || req.AccessRequest.GetSubject() == nil {
+		return nil, fmt.Errorf("check: %w: access request requires an object and a subject", api.ErrInvalidRequest)
+	}
+
 	evaluator := newEvaluator(s.repository, s.logger)
 	builder := newGoalTreeBuilder(evaluator, s.logger)
 	searcher := NewSearcher(builder, s.logger)
@@ -156,6 +164,10 @@ func (s *Service) Expand(
 	builder := newGoalTreeBuilder(evaluator, s.logger)
 	searcher := NewSearcher(builder, s.logger)
 
+	if root := req.Root; root.GetWildcard() == nil && (root.GetNode() == nil || root.GetObject() == nil) {
+		return nil, fmt.Errorf("expand: %w: root node is incomplete", api.ErrInvalidRequest)
+	}
+
 	goal := Goal{
 		Target: nil,
 	}
diff --git a/internal/store/kv_store/mapper.go b/internal/store/kv_store/mapper.go
index 3a6897f..64edd9e 100644
--- a/internal/store/kv_store/mapper.go
+++ b/internal/store/kv_store/mapper.go
@@ -10,14 +10,14 @@ func (m *relationshipMapper) ToInternal(relationship *domain.Relationship) Relat
 	var subjType RelationType
 	var subjResource, subjId, subjRelation string
 
-	switch subject := relationship.Subject.Subject.(type) {
+	switch subject := relationship.GetSubject().GetSubject().(type) {
 	case *domain.Subject_Entity:
 		subjResource = subject.Entity.Resource
 		subjId = subject.Entity.Id
 		subjType = RelationType_OBJECT
 	case *domain.Subject_EntitySet:
-		subjResource = subject.EntitySet.Entity.Resource
-		subjId = subject.EntitySet.Entity.Id
+		subjResource = subject.EntitySet.GetEntity().GetResource()
+		subjId = subject.EntitySet.GetEntity().GetId()
 		subjRelation = subject.EntitySet.Relation
 		subjType = RelationType_OBJECT_SET
 	case *domain.Subject_ResourceSet:
@@ -29,9 +29,9 @@ func (m *relationshipMapper) ToInternal(relationship *domain.Relationship) Relat
 
 	return Relationship{
 		Source: &RelationNode{
-			Resource: relationship.Object.Resource,
-			Id:       relationship.Object.Id,
-			Relation: relationship.Relation,
+			Resource: relationship.GetObject().GetResource(),
+			Id:       relationship.GetObject().GetId(),
+			Relation: relationship.GetRelation(),
 			Type:     RelationType_OBJECT_SET,
 		},
 		Dest: &RelationNode{
diff --git a/pkg/domain/relation_expression_tree.go b/pkg/domain/relation_expression_tree.go
index f4d8cef..b48e9dd 100644
--- a/pkg/domain/relation_expression_tree.go
+++ b/pkg/domain/relation_expression_tree.go
@@ -76,7 +76,7 @@ func (tree *RelationExpressionTree) GetRules() []*Rule {
 }
 
 func (tree *RelationExpressionTree) getRules(acc []*Rule) []*Rule {
-	switch n := tree.Node.(type) {
+	switch n := tree.GetNode().(type) {
 	case *RelationExpressionTree_Rule:
 		acc = append(acc, n.Rule)
 	case *RelationExpressionTree_OpNode:
diff --git a/pkg/domain/relationship.go b/pkg/domain/relationship.go
index 4a5bd38..c311fe6 100644
--- a/pkg/domain/relationship.go
+++ b/pkg/domain/relationship.go
@@ -84,7 +84,7 @@ func (s *Subject) GetResourceName() string {
 	case *Subject_Entity:
 		return subj.Entity.Resource
 	case *Subject_EntitySet:
-		return subj.EntitySet.Entity.Resource
+		return subj.EntitySet.GetEntity().GetResource()
 	case *Subject_ResourceSet:
 		return subj.ResourceSet.ResourceName
 	}
-- 
2.43.0


From d605121770348065fb3e75e60c92423e025903f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 12/23] fix: dump relationships which form cycles

---
 .../relation_tree_serializer.go               | 12 +++++++++-
 internal/relation_graph/walker.go             | 24 +++++++++++++++++++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/internal/relation_graph/relation_tree_serializer.go b/internal/relation_graph/relation_tree_serializer.go
index 166b9e4..9ef7aae 100644
--- a/internal/relation_graph/relation_tree_serializer.go
+++ b/internal/relation_graph/relation_tree_serializer.go
@@ -9,13 +9,18 @@ import (
 const relationTreeGraphName string = "Relationships"
 const directed bool = true
 
-type RelationTreeDOTSerializer struct{}
+type RelationTreeDOTSerializer struct {
+	// ids of the nodes whose children were already handled.
+	// The tree may share children and contain cycles.
+	visited map[string]struct{}
+}
 
 func (s *RelationTreeDOTSerializer) Serialize(tree *domain.RelationTree) (string, error) {
 	graph := gographviz.NewGraph()
 	graph.SetDir(directed) //directed graph true
 	graph.SetName(relationTreeGraphName)
 
+	s.visited = make(map[string]struct{})
 	err := s.handleNode(nil, tree, graph)
 	if err != nil {
 		return "", err
@@ -43,6 +48,11 @@ func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node
 		}
 	}
 
+	if _, ok := s.visited[id]; ok {
+		return nil
+	}
+	s.visited[id] = struct{}{}
+
 	for _, child := range node.Children {
 		err := s.handleNode(node, child, graph)
 		if err != nil {
diff --git a/internal/relation_graph/walker.go b/internal/relation_graph/walker.go
index 4362410..aae380e 100644
--- a/internal/relation_graph/walker.go
+++ b/internal/relation_graph/walker.go
@@ -46,12 +46,36 @@ func (w *walker) Walk(ctx context.Context, policy *domain.Policy) (*domain.Relat
 		rootChildren = append(rootChildren, trees[orphan])
 	}
 
+	// nodes in a cycle without an orphan leading to it are reachable from no root yet
+	reached := make(map[*domain.RelationTree]struct{})
+	for _, tree := range rootChildren {
+		w.reach(tree, reached)
+	}
+	for _, edge := range edges {
+		tree := trees[edge.First().Id()]
+		if _, ok := reached[tree]; !ok {
+			rootChildren = append(rootChildren, tree)
+			w.reach(tree, reached)
+		}
+	}
+
 	return &domain.RelationTree{
 		Node:     nil,
 		Children: rootChildren,
 	}, nil
 }
 
+// reach adds tree and all of its descendants to reached
+func (w *walker) reach(tree *domain.RelationTree, reached map[*domain.RelationTree]struct{}) {
+	if _, ok := reached[tree]; ok {
+		return
+	}
+	reached[tree] = struct{}{}
+	for _, child := range tree.Children {
+		w.reach(child, reached)
+	}
+}
+
 func (w *walker) getTree(node *domain.RelationNode, trees map[string]*domain.RelationTree) *domain.RelationTree {
 	tree, ok := trees[node.Id()]
 	if !ok {
-- 
2.43.0


From ebe702668282f1731f7c0d7a2085362cfaf8395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:54 +0000
Subject: [PATCH 13/23] fix: leave parent pointers out of the goal tree JSON

---
 internal/relation_graph/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/relation_graph/types.go b/internal/relation_graph/types.go
index 4c2cea0..11bb01b 100644
--- a/internal/relation_graph/types.go
+++ b/internal/relation_graph/types.go
@@ -25,7 +25,7 @@ type GoalTree interface {
 // The ORNode is satisfied if the Goal is found in *any*
 // Paths
 type ORNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"`
 	Result SearchResult
 	Paths  []GoalTree
 }
@@ -37,7 +37,7 @@ func (n *ORNode) SetParent(p GoalTree)    { n.Parent = p }
 // The ANDNode is satisfied if the Goal is found in *all*
 // Paths
 type ANDNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"`
 	Result SearchResult
 	Paths  []GoalTree
 }
@@ -49,7 +49,7 @@ func (n *ANDNode) SetParent(p GoalTree)    { n.Parent = p }
 // A DifferenceNode is satisfied if the Goal is found
 // on the Left GoalTree but not on the Right.
 type DifferenceNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"`
 	Result SearchResult
 	Left   GoalTree
 	Right  GoalTree
@@ -92,7 +92,7 @@ func (r SearchResult) MarshalJSON() ([]byte, error) {
 
 // PathNode represents a possible search path in the GoalTree
 type PathNode struct {
-	Parent       GoalTree
+	Parent       GoalTree `json:"-"`
 	Result       SearchResult
 	RelationNode *domain.RelationNode
 	Path         GoalTree
-- 
2.43.0


From 239c880ccb5075f5390ccd562312dcf0338e1ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:56 +0000
Subject: [PATCH 14/23] fix: report errors while serializing a goal tree

---
 internal/relation_graph/goal_tree_serializer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/relation_graph/goal_tree_serializer.go b/internal/relation_graph/goal_tree_serializer.go
index 6b2753c..5440143 100644
--- a/internal/relation_graph/goal_tree_serializer.go
+++ b/internal/relation_graph/goal_tree_serializer.go
@@ -51,13 +51,13 @@ func (s *dotSerializer) Serialize(goalTree GoalTree) (string, error) {
 func (s *dotSerializer) handleGoalTree(parentId string, tree GoalTree, graph *gographviz.Graph) error {
 	switch node := tree.(type) {
 	case *PathNode:
-		s.handlePathNode(parentId, node, graph)
+		return s.handlePathNode(parentId, node, graph)
 	case *ORNode:
-		s.handleORNode(parentId, node, graph)
+		return s.handleORNode(parentId, node, graph)
 	case *ANDNode:
-		s.handleANDNode(parentId, node, graph)
+		return s.handleANDNode(parentId, node, graph)
 	case *DifferenceNode:
-		s.handleDifferenceNode(parentId, node, graph)
+		return s.handleDifferenceNode(parentId, node, graph)
 	case nil:
 		break
 	default:
-- 
2.43.0


From 5097b445d178e05fa3e42911b608a03626deb4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:57 +0000
Subject: [PATCH 15/23] fix: remove a policy after its relationships

---
 internal/policy/service.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/policy/service.go b/internal/policy/service.go
index dc5d1ab..ce50534 100644
--- a/internal/policy/service.go
+++ b/internal/policy/service.go
@@ -103,24 +103,31 @@ func (s *Service) DeletePolicy(
 	req *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
 	repo := s.getPolicyRepository()
 
-	// TODO wrap in Tx
-	found, err := repo.DeletePolicy(ctx, req.Id)
+	record, err := repo.GetPolicy(ctx, req.Id)
 	if err != nil {
 		return nil, fmt.Errorf("failed to delete policy: %w", err)
 	}
-	if !found {
+	if record == nil {
 		return &api.DeletePolicyResponse{
 			Found:                false,
 			RelationshipsRemoved: 0,
 		}, nil
 	}
 
+	// TODO wrap in Tx
+	// the policy is removed last: if the removal is interrupted it can be retried,
+	// and a policy created later with the same id does not inherit relationships
 	selector := allRelationshipsSelector()
 	count, err := repo.DeleteRelationships(ctx, req.Id, &selector)
 	if err != nil {
 		return nil, fmt.Errorf("failed to delete policy: %w", err)
 	}
 
+	_, err = repo.DeletePolicy(ctx, req.Id)
+	if err != nil {
+		return nil, fmt.Errorf("failed to delete policy: %w", err)
+	}
+
 	return &api.DeletePolicyResponse{
 		Found:                true,
 		RelationshipsRemoved: count,
-- 
2.43.0


From 7b8d27b7e8b92e5f4a0b4923184cfbc21521235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:59 +0000
Subject: [PATCH 16/23] fix: serialize operations which write based on what
 they read

---
 internal/policy/service.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/policy/service.go b/internal/policy/service.go
index ce50534..e5fbd52 100644
--- a/internal/policy/service.go
+++ b/internal/policy/service.go
@@ -3,6 +3,7 @@ package policy
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	"github.com/sourcenetwork/zanzi/internal/utils"
 	"github.com/sourcenetwork/zanzi/pkg/api"
@@ -15,6 +16,9 @@ var _ api.PolicyServiceServer = (*Service)(nil)
 type Service struct {
 	api.UnimplementedPolicyServiceServer
 	repository Repository
+
+	// mutex serializes the operations which read state and then write based on it
+	mutex sync.Mutex
 }
 
 func NewService(repository Repository) api.PolicyServiceServer {
@@ -30,6 +34,8 @@ func (s *Service) getPolicyRepository() Repository {
 func (s *Service) CreatePolicy(
 	ctx context.Context,
 	req *api.CreatePolicyRequest) (*api.CreatePolicyResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 
 	policy, err := GetPolicyFromDefinition(req.PolicyDefinition)
 	if err != nil {
@@ -66,6 +72,8 @@ func (s *Service) CreatePolicy(
 func (s *Service) UpdatePolicy(
 	ctx context.Context,
 	req *api.UpdatePolicyRequest) (*api.UpdatePolicyResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 
 	policy, err := GetPolicyFromDefinition(req.PolicyDefinition)
 	if err != nil {
@@ -101,6 +109,9 @@ func (s *Service) UpdatePolicy(
 func (s *Service) DeletePolicy(
 	ctx context.Context,
 	req *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
 	repo := s.getPolicyRepository()
 
 	record, err := repo.GetPolicy(ctx, req.Id)
@@ -173,6 +184,9 @@ func (s *Service) ListPolicyIds(
 func (s *Service) SetRelationship(
 	ctx context.Context,
 	req *api.SetRelationshipRequest) (*api.SetRelationshipResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
 	repo := s.getPolicyRepository()
 
 	record, err := repo.GetPolicy(ctx, req.PolicyId)
@@ -204,6 +218,9 @@ func (s *Service) SetRelationship(
 func (s *Service) DeleteRelationship(
 	ctx context.Context,
 	req *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
 	repo := s.getPolicyRepository()
 
 	found, err := repo.DeleteRelationship(ctx, req.PolicyId, req.Relationship)
@@ -265,6 +282,9 @@ func (s *Service) FindRelationshipRecords(
 func (s *Service) DeleteRelationships(
 	ctx context.Context,
 	req *api.DeleteRelationshipsRequest) (*api.DeleteRelationshipsResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
 	repo := s.getPolicyRepository()
 
 	count, err := repo.DeleteRelationships(ctx, req.PolicyId, req.Selector)
-- 
2.43.0


From 145109582bdbecf01ad6b90f019be7fe98cdcab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:01 +0000
Subject: [PATCH 17/23] fix: list policy ids within the policy key space and
 release the iterator

---
 internal/store/kv_store/kv_store.go          |  2 ++
 internal/store/kv_store/policy_repository.go | 22 ++++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index 8d694f0..aaa4e81 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -29,6 +29,7 @@ func NewKVStore(store rcdb.KVStore) (KVStore, error) {
 
 	return KVStore{
 		baseKV:                   store,
+		policyPrefixKV:           policyPrefixWrapper,
 		policyStore:              policyStore,
 		relationshipPrefixKV:     rcdb.NewWrapperKV(store, relationshipStorePrefix),
 		relationshipDataPrefixKV: rcdb.NewWrapperKV(store, relationshipDataStorePrefix),
@@ -37,6 +38,7 @@ func NewKVStore(store rcdb.KVStore) (KVStore, error) {
 
 type KVStore struct {
 	baseKV                   rcdb.KVStore
+	policyPrefixKV           rcdb.KVStore
 	policyStore              rcdb.ObjectStore[*domain.PolicyRecord]
 	relationshipPrefixKV     rcdb.KVStore
 	relationshipDataPrefixKV rcdb.KVStore
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index bff9aa1..8667bf4 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -78,15 +78,19 @@ func (r *policyRepository) DeletePolicy(ctx context.Context, id string) (types.R
 }
 
 func (r *policyRepository) ListPolicyIds(context.Context) ([]string, error) {
-    store := r.kvStore.getPolicyStore()
-    ids, err := store.ListIds()
-    if err != nil {
-        return nil, fmt.Errorf("list policy ids: %w", err)
-    }
-
-    return utils.MapSlice(ids, func(id []byte) string {
-        return string(id)
-    }), nil
+	// policy ids are valid utf8, therefore every id is lesser than 0xff
+	iter := r.kvStore.policyPrefixKV.Iterator(nil, []byte{0xff})
+	defer iter.Close()
+
+	var ids []string
+	for ; iter.Valid(); iter.Next() {
+		ids = append(ids, string(iter.Key()))
+	}
+	if err := iter.Error(); err != nil {
+		return nil, fmt.Errorf("list policy ids: %w", err)
+	}
+
+	return ids, nil
 }
 
 func (r *policyRepository) SetRelationship(ctx context.Context, record *domain.RelationshipRecord) (bool, error) {
-- 
2.43.0


From 38e950983d380c4e016bdd6ddf9d5ccaeb8a268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:42 +0000
Subject: [PATCH 18/23] fix: leave selector_spec.go as it was

Undoes the change to it in 6e2d130 and d6835b9.
---
 internal/policy/selector_spec.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/internal/policy/selector_spec.go b/internal/policy/selector_spec.go
index 3bad792..a9b4378 100644
--- a/internal/policy/selector_spec.go
+++ b/internal/policy/selector_spec.go
@@ -2,8 +2,7 @@ package policy
 
 import (
 	"fmt"
-
-	"google.golang.org/protobuf/proto"
+	"reflect"
 
 	"github.com/sourcenetwork/zanzi/pkg/domain"
 )
@@ -20,7 +19,7 @@ type RelationshipSelectorSpec struct {
 func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelectorSpec, error) {
 	spec := RelationshipSelectorSpec{}
 
-	switch objectSelector := selector.GetObjectSelector().GetSelector().(type) {
+	switch objectSelector := selector.ObjectSelector.Selector.(type) {
 	case *domain.ObjectSelector_ObjectSpec:
 		spec.objectPredicate = spec.objectSpec(objectSelector.ObjectSpec)
 	case *domain.ObjectSelector_Wildcard:
@@ -31,7 +30,7 @@ func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelecto
 		return spec, fmt.Errorf("ObjectSelector %v: %w", objectSelector, domain.ErrInvalidVariant)
 	}
 
-	switch relationSelector := selector.GetRelationSelector().GetSelector().(type) {
+	switch relationSelector := selector.RelationSelector.Selector.(type) {
 	case *domain.RelationSelector_RelationName:
 		spec.relationPredicate = spec.relationNameSpec(relationSelector.RelationName)
 	case *domain.RelationSelector_Wildcard:
@@ -40,7 +39,7 @@ func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelecto
 		return spec, fmt.Errorf("RelationSelector %v: %w", relationSelector, domain.ErrInvalidVariant)
 	}
 
-	switch subjectSelector := selector.GetSubjectSelector().GetSelector().(type) {
+	switch subjectSelector := selector.SubjectSelector.Selector.(type) {
 	case *domain.SubjectSelector_SubjectSpec:
 		spec.subjectPredicate = spec.subjectSpec(subjectSelector.SubjectSpec)
 	case *domain.SubjectSelector_Wildcard:
@@ -60,7 +59,7 @@ func (s *RelationshipSelectorSpec) Satisfies(relationship *domain.Relationship)
 
 func (s *RelationshipSelectorSpec) objectSpec(entity *domain.Entity) predicate {
 	return func(r *domain.Relationship) bool {
-		return proto.Equal(entity, r.Object)
+		return reflect.DeepEqual(entity, r.Object)
 	}
 }
 
@@ -90,7 +89,7 @@ func (s *RelationshipSelectorSpec) relationWildcardSpec() predicate {
 
 func (s *RelationshipSelectorSpec) subjectSpec(subject *domain.Subject) predicate {
 	return func(r *domain.Relationship) bool {
-		return proto.Equal(r.Subject, subject)
+		return reflect.DeepEqual(r.Subject, subject)
 	}
 }
 
-- 
2.43.0


From 702984dce8d0c71595d2140af88a8611d3666970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:42 +0000
Subject: [PATCH 19/23] fix: answer selectors with a part missing with an error

---
 internal/store/kv_store/policy_repository.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index 8667bf4..a9bc968 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -159,6 +159,10 @@ func (r *policyRepository) FindRelationships(ctx context.Context, policyId strin
 		return nil, err
 	}
 
+	if selector.GetObjectSelector() == nil || selector.GetRelationSelector() == nil || selector.GetSubjectSelector() == nil {
+		return nil, fmt.Errorf("selector %v: %w", selector, domain.ErrInvalidVariant)
+	}
+
 	spec, err := policy.NewSelectorSpec(selector)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 29b28728bc7113b1ebb8938e700b8862665d0ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:35 +0000
Subject: [PATCH 20/23] fix: quote DOT labels and ids

Ids and names that contain a quote or a backslash yielded text that is not DOT.
---
 internal/relation_graph/goal_tree_serializer.go     | 11 +++++++++--
 internal/relation_graph/relation_tree_serializer.go |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/relation_graph/goal_tree_serializer.go b/internal/relation_graph/goal_tree_serializer.go
index 5440143..eeab2f0 100644
--- a/internal/relation_graph/goal_tree_serializer.go
+++ b/internal/relation_graph/goal_tree_serializer.go
@@ -3,6 +3,7 @@ package relation_graph
 import (
 	"encoding/json"
 	"fmt"
+	"strings"
 
 	"github.com/awalterschulze/gographviz"
 	"github.com/davecgh/go-spew/spew"
@@ -180,8 +181,14 @@ func (s *dotSerializer) nextId() string {
 
 // sprintf formats a string and wraps it with quotes
 func (s *dotSerializer) sprintf(format string, args ...any) string {
-	format = "\"" + format + "\""
-	return fmt.Sprintf(format, args...)
+	return dotQuote(fmt.Sprintf(format, args...))
+}
+
+// dotQuote returns str as a quoted string of the DOT language
+func dotQuote(str string) string {
+	str = strings.ReplaceAll(str, `\`, `\\`)
+	str = strings.ReplaceAll(str, `"`, `\"`)
+	return "\"" + str + "\""
 }
 
 func SerializerFactory(model api.ExplainFormat) (GoalTreeSerializer, error) {
diff --git a/internal/relation_graph/relation_tree_serializer.go b/internal/relation_graph/relation_tree_serializer.go
index 9ef7aae..4f8b5c8 100644
--- a/internal/relation_graph/relation_tree_serializer.go
+++ b/internal/relation_graph/relation_tree_serializer.go
@@ -78,5 +78,5 @@ func (s *RelationTreeDOTSerializer) nodeLabel(node *domain.RelationNode) string
 }
 
 func (s *RelationTreeDOTSerializer) wrap(str string) string {
-	return "\"" + str + "\""
+	return dotQuote(str)
 }
-- 
2.43.0


From 6688085715ca709b7221d2dd166d23cb018c68a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:37 +0000
Subject: [PATCH 21/23] fix: name the format in ExplainCheck responses

The response has a field for the format of its goal tree, as Expand's, which was left unset.
---
 internal/relation_graph/service.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index 6ef76d9..fb40319 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -141,6 +141,7 @@ func (s *Service) ExplainCheck(
 	return &api.ExplainCheckResponse{
 		GoalTree:   serialized,
 		Authorized: found,
+		Format:     req.Format,
 	}, nil
 }
 
-- 
2.43.0


From 3b74b5bf3fcdaf7d219ac6fc484e50636c6c25d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:25 +0000
Subject: [PATCH 22/23] fix: accept identifiers which begin with _this

---
 internal/relation_expression_parser/lexer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/relation_expression_parser/lexer.go b/internal/relation_expression_parser/lexer.go
index 011258e..8fa1580 100644
--- a/internal/relation_expression_parser/lexer.go
+++ b/internal/relation_expression_parser/lexer.go
@@ -161,7 +161,12 @@ func (l *Lexer) lexIdentifier() bool {
 	count := l.stepWhile(isIdentifierRune)
 	ok := count > 0
 	if ok {
-		l.emit(tokenIdentifier)
+		// the keyword is a whole word, identifiers may begin with it
+		if l.input[l.startPos:l.currPos] == domain.ThisLexeme {
+			l.emit(tokenThis)
+		} else {
+			l.emit(tokenIdentifier)
+		}
 	}
 
 	return ok
@@ -177,7 +182,6 @@ func (l *Lexer) scan() {
 		} else if l.lexTerminal(tokenUnion, domain.UnionLexeme) {
 		} else if l.lexTerminal(tokenDifference, domain.DifferenceLexeme) {
 		} else if l.lexTerminal(tokenIntersection, domain.IntersectionLexeme) {
-		} else if l.lexTerminal(tokenThis, domain.ThisLexeme) {
 		} else if l.lexIdentifier() {
 		} else if char, _ := l.peek(); unicode.IsSpace(char) {
 			l.skipSpaces()
-- 
2.43.0


From f31cbfc660bd8de72fbb1f8384aa98d32911da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:54 +0000
Subject: [PATCH 23/23] fix: GraphToDOT escapes ids and labels

---
 pkg/types/graph.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/types/graph.go b/pkg/types/graph.go
index faa60f3..d8be627 100644
--- a/pkg/types/graph.go
+++ b/pkg/types/graph.go
@@ -68,10 +68,12 @@ func GraphToDOT(graph *MapDiGraph) string {
 }
 
 func mapId(id string) string {
-	id = strings.ReplaceAll(id, "\"", "\\\"")
 	return wrap(id)
 }
 
+// wrap returns txt as a quoted string of the DOT language
 func wrap(txt string) string {
+	txt = strings.ReplaceAll(txt, "\\", "\\\\")
+	txt = strings.ReplaceAll(txt, "\"", "\\\"")
 	return "\"" + txt + "\""
 }
-- 
2.43.0

