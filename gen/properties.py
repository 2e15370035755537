import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
RG="internal/relation_graph/"; PO="internal/policy/"; KV="internal/store/kv_store/"; EX="internal/relation_expression_parser/"; D="pkg/domain/"; YD="pkg/policy_definition/"
p("C01","Set operators decide authorization exactly",
 "A relation defined with a set operator grants a subject exactly when the operator applied to the individual decisions of its operands does: a union when at least one operand grants, an intersection when every operand grants, a difference when the left operand grants and the right one does not. The decision for an operand is the one it would have on its own: it does not depend on which other operands were evaluated before it.",
 ["inputs","programs"],"every policy expression (any nesting of union, intersection and difference), every set of relationships, every access request",
 "The integration test checks one object with a two-operand union; nested operators, operands sharing nodes and differences are never evaluated.",
 [RG+"searcher.go",RG+"goal_tree.go",RG+"types.go"],
 [("operator to goal-tree node mapping","buildGoalForOpNode"),("goal-tree evaluation","Searcher.search and the per-node cases"),("trail of visited nodes","Searcher.searchPath")],
 ["Check","ExplainCheck"],[("seenNodes","nodes on the path from the origin to the node being evaluated","Searcher")])
p("C02","Rewrite rules expand to exactly the defined nodes",
 "Evaluating a relation of an object expands each rewrite rule to exactly the nodes the rule denotes: `_this` to all subjects directly related to that object through that relation; a computed userset to the same object with the target relation; a tuple-to-userset to the computed relation on the object of every subject related through the tupleset relation. No node is added, dropped, or taken from another object, relation or policy.",
 ["inputs","programs"],"every rule, every object and relation, every set of stored relationships",
 "Tests exercise one owner relationship; no test has a tuple-to-userset with results, an entity-set subject or several successors.",
 [RG+"rule_evaluator.go",RG+"goal_tree.go",KV+"node_repository.go"],
 [("rule evaluation","evaluator.Evaluate"),("direct successors","NodeRepository.GetSucessors")],["Check","Expand"])
p("C03","Access is granted only on an exact subject match",
 "Evaluation reaches the requested subject only at a relationship subject that is that very entity (same resource and same id) or that is the wildcard of the requested subject's resource; reaching one of those always counts as reaching the subject. An entity set is never itself a match for an entity.",
 ["inputs"],"every requested subject and every kind of relationship subject",
 "Tests use one matching user and one non-matching user of the same resource; equal ids under different resources and wildcards of another resource are not sampled.",
 [RG+"searcher.go"],[("goal predicate","GoalFoundSpec.Found")],["Check","ExplainCheck"])
p("C04","Check fails closed",
 "A check answers authorized only after an evaluation that completed without error and succeeded. An unknown policy, an undefined relation, a malformed expression or any failure during evaluation yields an error without an answer, never a grant.",
 ["inputs","fault_sequences"],"every request, stored policy and failing step of the evaluation",
 "No test injects a failure into evaluation or queries an undefined relation.",
 [RG+"service.go",RG+"searcher.go",RG+"goal_tree.go",RG+"rule_evaluator.go"],
 [("error returns on every evaluation step","Service.Check, Searcher, goalTreeBuilder, evaluator")],["Check","ExplainCheck","Expand"])
p("C05","Errors reported by storage are never swallowed",
 "Whenever storage reports an error to Zanzi while an operation is being served, that operation returns an error to its caller; it never answers as if the data were absent, empty or written.",
 ["fault_sequences","inputs"],"every API operation and every storage call it makes, failing at any of them",
 "Tests run against an in-memory store that never fails.",
 [PO+"service.go",RG+"service.go",KV+"policy_repository.go",KV+"node_repository.go",RG+"walker.go"],
 [("error returns after every storage call","policy.Service, relation_graph.Service, policyRepository, nodeRepository")],["every RPC"])
p("C06","ExplainCheck agrees with Check",
 "For the same policy and access request, ExplainCheck reports exactly the authorization decision that Check returns, and the explanation it returns describes that same evaluation.",
 ["inputs"],"every request, policy and relationship set",
 "ExplainCheck is not tested for its decision at all.",
 [RG+"service.go"],[("both build the same search","Service.Check, Service.ExplainCheck")],["Check","ExplainCheck"])
p("C07","No request leaves state that affects another",
 "The answer to a read request (check, explain, expand, dump, get, find, list) depends only on the request and on the stored policies and relationships: no earlier or concurrent read request influences it, and read requests never change stored data.",
 ["histories","schedules"],"every sequence and interleaving of requests on one service instance",
 "Tests build a fresh service for each case.",
 [RG+"service.go",RG+"searcher.go",PO+"service.go",KV+"policy_repository.go",KV+"node_repository.go"],
 [("per-request searcher, builder and evaluator","relation_graph.Service"),("services and repositories hold only immutable wiring","Service, policyRepository, nodeRepository")],["every read RPC"])
p("C08","Evaluation terminates on cyclic relationships and policies",
 "Checking, explaining and expanding terminate for every policy and every set of relationships, including relations that refer to themselves and relationships that form cycles.",
 ["inputs","programs"],"every policy and relationship graph, cyclic or not",
 "No test has a cyclic policy or relationship graph.",
 [RG+"searcher.go",RG+"goal_tree.go"],[("trail check before expanding a node","Searcher.searchPath")],["Check","ExplainCheck","Expand"],
 [("seenNodes","nodes on the path from the origin to the node being evaluated","Searcher")])
p("C09","Only relationships allowed by the policy are stored",
 "A relationship is stored only if the policy exists, the relationship is complete, its object's resource and relation are defined by the policy, its subject's resource (and, for an entity set, relation) are defined by the policy, and the subject is admitted by the relation's subject restriction. A relationship that meets all of these is accepted.",
 ["inputs"],"every policy and every relationship",
 "The tests try a handful of invalid relationships; combinations of subject kind and restriction kind are mostly unsampled.",
 [PO+"service.go",PO+"spec.go"],[("admission","AllowedRelationshipSpec.Satisfies"),("subject restriction","SubjectRestrictionSpec.Satisfies")],["SetRelationship"])
p("C10","Only well-formed policies are stored",
 "A policy is stored, on creation and on update alike, only if it has an id, its resource names are unique, its relation names are unique within each resource, no name is empty, every subject restriction refers to resources and relations the policy defines, and every relation expression parses to a complete tree whose computed-userset and tupleset relations are defined on the same resource. A policy that meets all of these is accepted.",
 ["inputs"],"every submitted policy definition",
 "The tests cover one violation per rule, always on creation and in the first resource and relation.",
 [PO+"service.go",PO+"spec.go"],[("validation","ValidPolicySpec.Verify")],["CreatePolicy","UpdatePolicy"])
p("C11","Create never overwrites and update never creates",
 "Creating a policy whose id already exists fails and leaves the stored policy untouched; updating a policy that does not exist fails and stores nothing. A successful create stores and returns the submitted policy and application data; a successful update replaces the policy and application data and preserves the creation time. Reading a policy returns what is stored under its id.",
 ["inputs","histories"],"every policy definition and every history of creates, updates and deletes",
 "Tests check error codes for one id, not what is left stored.",
 [PO+"service.go",KV+"policy_repository.go"],[("existence check before the write","Service.CreatePolicy, Service.UpdatePolicy")],["CreatePolicy","UpdatePolicy","GetPolicy"])
p("C12","Concurrent mutations behave as if executed one at a time",
 "Policy and relationship mutations (create, update and delete of policies; set and delete of relationships) on one service never interleave their read-validate-write sequences: every one of them runs as an indivisible unit with respect to the others, and none of them can be left blocked by another that has returned.",
 ["schedules"],"every interleaving of concurrent mutating requests on one service instance",
 "All tests are sequential.",
 [PO+"service.go"],[("service mutex held over the whole operation","policy.Service")],["CreatePolicy","UpdatePolicy","DeletePolicy","SetRelationship","DeleteRelationship","DeleteRelationships"])
p("C13","Policies are isolated from each other",
 "Every read, write and deletion of relationships on behalf of one policy touches only storage keys that belong to that policy, whatever the policy ids look like: no operation on one policy can read, change or remove another policy's record or relationships, and the different kinds of stored data never share keys.",
 ["inputs","histories"],"every pair of policy ids and every operation",
 "Tests use one policy per store.",
 [KV+"kv_store.go",KV+"policy_repository.go",KV+"node_repository.go"],[("per-policy and per-kind key prefixes","KVStore.getPolicyStore, getRelationshipStore, getRelationshipDataStore")],["every RPC"])
p("C14","Different relation nodes have different identities",
 "Two nodes of the relation graph have the same storage key, or the same evaluation identity, only if they are the same node: same kind (entity, entity set or wildcard), resource, id and relation. No choice of names or ids makes two distinct nodes collide.",
 ["inputs"],"every pair of nodes, with arbitrary strings as resource, id and relation",
 "Tests never compare keys of different nodes.",
 [KV+"model.go",D+"relation_graph.go"],[("storage key","relationNodeKeyer.Key"),("evaluation identity","RelationNode.Id")],["Check","SetRelationship","GetRelationship"])
p("C15","Relationships round-trip through storage unchanged",
 "A stored relationship is returned with exactly the object, relation, subject (kind, resource, id, relation), application data and creation time it was stored with, by every operation that returns or evaluates relationships.",
 ["inputs"],"every relationship of every subject kind",
 "Tests read back relationships with an entity subject only.",
 [KV+"mapper.go",KV+"policy_repository.go",KV+"node_repository.go",PO+"service.go"],[("mapping to and from the stored form","relationshipMapper")],["GetRelationship","FindRelationshipRecords","Check"])
p("C16","Setting and deleting one relationship has exactly that effect",
 "Setting a relationship writes the edge and its record under the same identity and reports an overwrite exactly when the relationship already existed; deleting one removes both and reports found exactly when it existed. Neither touches any other relationship.",
 ["inputs","histories"],"every relationship and every history of sets and deletes",
 "Tests set and delete one relationship and do not look at other stored data.",
 [KV+"policy_repository.go",PO+"service.go"],[("paired writes under one id","policyRepository.SetRelationship, DeleteRelationship")],["SetRelationship","DeleteRelationship","GetRelationship"])
p("C17","Selectors match all and only the described relationships",
 "Finding or deleting relationships by selector affects exactly those relationships of the policy whose object, relation and subject all match the respective part of the selector (wildcard, resource, or exact value), and the reported count of a deletion is the number of relationships removed. Finding with a selector that names an object resource, a relation or a subject resource the policy does not define, or with a part missing, is an error.",
 ["inputs"],"every selector and every set of relationships",
 "Tests use three selectors over three relationships with entity subjects.",
 [PO+"selector_spec.go",PO+"spec.go",KV+"policy_repository.go"],[("selector predicates","NewSelectorSpec, RelationshipSelectorSpec.Satisfies"),("selector validation","ValidSelectorSpec.Satisfies")],["FindRelationshipRecords","DeleteRelationships"])
p("C18","Deleting a policy removes it and all of its relationships",
 "A successful deletion of an existing policy removes every relationship of that policy and then the policy itself, and reports how many relationships were removed; if removing relationships fails, the policy is still there and the deletion can be retried. Deleting a policy that does not exist removes nothing and reports not found.",
 ["histories","fault_sequences","crash_points"],"every policy, every relationship set, a failure at any point of the deletion",
 "The test deletes a policy with no failure and does not recreate it.",
 [PO+"service.go",PO+"helpers.go",KV+"policy_repository.go"],[("relationships are removed first, with a selector that matches everything","Service.DeletePolicy")],["DeletePolicy"])
p("C19","Expressions parse to the tree the grammar defines",
 "Every expression in the documented language parses to its tree: operators have equal precedence and associate to the left, parentheses group, `a->b` is a tuple-to-userset from a to b, an identifier a computed userset, and `_this` the direct rule. Any other input, including trailing or unknown tokens and unbalanced parentheses, is rejected with an error.",
 ["inputs","programs"],"every input string",
 "Tests parse a handful of expressions and no mixed-operator chains or malformed inputs.",
 [EX+"parser.go",EX+"primitives.go",EX+"lexer.go"],[("parser combinators","expressionParser, termParser, ruleParser"),("token table","Lexer.scan")],["CreatePolicy","Check"])
p("C20","Printing and parsing expressions use the same notation",
 "The textual form produced for an expression tree uses, for every operator and rule, the token that the parser reads as that same operator or rule, with operands in order and every operation parenthesised, so that parsing the text yields the same tree.",
 ["inputs","programs"],"every expression tree whose relation names are identifiers",
 "One printing test, for one tree; nothing relates printing to parsing.",
 [D+"relation_expression_tree.go",EX+"lexer.go",EX+"parser.go"],[("shared lexeme constants","pkg/domain lexemes, Lexer.scan, RelationExpression")],["RelationExpressionTree.RelationExpression","CreatePolicy"])
p("C21","YAML policies are translated faithfully",
 "A YAML policy definition is translated to the policy it describes: id, name, documentation and attributes, every resource and every relation under its own name with its documentation and expression, and each listed subject type as the restriction it denotes (`*` any subject, `resource` entities, `resource:relation` entity sets). A document with unknown fields or that is not valid is rejected.",
 ["inputs"],"every YAML document",
 "One document is unmarshaled in tests; documentation, attributes, types and defaults are not compared.",
 [YD+"mapper.go",YD+"unmarshaler.go",YD+"types.go",PO+"helpers.go"],[("field mapping","MapPolicyDefinition"),("strict decoding","UnmarshalPolicyDefinition")],["CreatePolicy","UpdatePolicy"])
p("C22","Incomplete requests are answered, not crashed on",
 "No request that can arrive over the API, whatever message fields it leaves unset, makes the service dereference a missing message: every operation answers it with a response or an error.",
 ["inputs"],"every request message with any subset of its message fields and variants unset, and every policy accepted from such a request",
 "Tests send complete requests only.",
 [PO+"service.go",PO+"spec.go",PO+"helpers.go",PO+"selector_spec.go",RG+"service.go",KV+"mapper.go",D+"relation_expression_tree.go"],[("nil-safe access and validation before use","service entry points and specs")],["every RPC"])
p("C23","Dump shows every relationship and terminates",
 "Dumping the relationships of a policy terminates on every relationship graph, cyclic or not, and the dump contains every node and every relationship of the policy, in the requested format whatever characters names and ids contain.",
 ["inputs"],"every set of relationships",
 "DumpRelationships has no test.",
 [RG+"walker.go",RG+"relation_tree_serializer.go",KV+"node_repository.go"],[("forest construction","walker.Walk"),("visited set","RelationTreeDOTSerializer")],["DumpRelationships"])
p("C24","Expand explores every branch",
 "Expanding a node returns the complete evaluation tree: every operand of every set operator and every node that each rule yields is explored and appears in the tree, regardless of the outcome of its siblings.",
 ["inputs","programs"],"every policy expression and relationship set",
 "Expand is tested only for not failing.",
 [RG+"searcher.go",RG+"service.go"],[("no early exit without a target","Searcher.searchAND/searchOR/searchDifference")],["Expand"])
p("C25","Every offered explanation format works and reports failures",
 "For every explanation format the API defines, explaining and expanding produce a serialization of the whole evaluation tree in that format, whatever characters names and ids contain, and the response names that format; a failure while serializing is reported as an error, and a format the API does not define is rejected.",
 ["inputs","configurations"],"every format value and every evaluation tree",
 "No test serializes a tree.",
 [RG+"goal_tree_serializer.go",RG+"types.go",RG+"service.go"],[("format dispatch","SerializerFactory"),("per-format serializers","spewSerializer, jsonSerializer, dotSerializer")],["ExplainCheck","Expand"])
p("C26","One configured store backs the whole instance",
 "A Zanzi instance serves its policy and relation-graph services from the single store it was configured with (an in-memory one when none was given), so that what one service writes the other evaluates; the server exposes both services of the instance it was given, at the address it was given. Any option that fails makes construction fail. The zanzid daemon serves an instance over the database in its configured directory at its configured address, and serves nothing if that cannot be set up.",
 ["configurations"],"every combination and order of options",
 "Tests wire services by hand and never call New or the server.",
 ["zanzi.go","pkg/server/server.go","cmd/zanzid/main.go"],[("option application and wiring","New, Zanzi.init"),("service registration","Server.registerGRPCServices")],["New","GetPolicyService","GetRelationGraphService"])
p("C27","Listing policy ids is exact and releases its resources",
 "Listing returns the id of every stored policy and nothing else, whatever other data the store holds, and releases the storage iterator on every path so that later writes are never blocked by it.",
 ["histories","inputs"],"every store content and every history of operations around a listing",
 "Tests list one policy in an otherwise empty store and perform no write afterwards.",
 [KV+"policy_repository.go",KV+"kv_store.go",PO+"service.go"],[("bounded scan of the policy key space","policyRepository.ListPolicyIds")],["ListPolicyIds"])
p("C28","Public constructors and builders build what they are asked for",
 "Every entity, relationship, record, selector and expression node made with the public constructors and builders denotes exactly its arguments: each argument is found in the part it names and the subject, rule or selector is of the kind asked for. Setting one part of a selector builder leaves its other parts and every selector built before as they were, and looking up a resource or relation by name yields the one of that name, or nothing only if there is none.",
 ["inputs","histories"],"every argument and every sequence of builder calls",
 "Tests use a few of the constructors with a handful of arguments and never reuse a builder.",
 ["pkg/domain/relationship.go","pkg/domain/selector.go","pkg/domain/relation_expression_tree.go","pkg/domain/policy.go"],[("constructors","RelationshipBuilder, UnionNode, TTUNode"),("selector building","SelectorBuilder")],["RelationshipBuilder","SelectorBuilder","NewEntity"])
p("C29","Errors name their cause",
 "When storage fails during an operation, the error returned wraps the one storage reported (errors.Is finds it) and is classified neither as an invalid request nor as a missing or already existing policy. An operation that needs a policy that does not exist fails with an error that is ErrPolicyNotFound, and creating one that exists with ErrPolicyExists; no other failure is given these names. The relation graph operations mark a request they refuse (unknown policy, missing part, unknown explanation format) as api.ErrInvalidRequest and never as api.ErrInternal.",
 ["inputs","faults"],"every operation, every failing storage call and every refused request",
 "Tests look at the success of a few operations and compare no error; a cause is lost by one verb in one of some sixty places that wrap errors, and shows only when storage fails right there.",
 [PO+"service.go",RG+"service.go",RG+"searcher.go",RG+"rule_evaluator.go",KV+"policy_repository.go",KV+"node_repository.go","pkg/api/errors.go",PO+"errors.go"],[("error wrapping","fmt.Errorf with %w"),("error values","api.ErrInternal, api.ErrInvalidRequest, policy.ErrPolicyNotFound, policy.ErrPolicyExists")],["every RPC"])
p("C30","Graph containers hold what was put into them",
 "In the graph containers of pkg/types (MapGraph, MapDiGraph), a node is found under the id it was set with (an Option is empty only if there is none) and an edge is recorded as outgoing at its source and as incoming at its destination, without disturbing other nodes and edges; neighbours are exactly the nodes an edge leads to. MapGraph refuses an edge exactly if one of its ends is not a node of the graph, and then changes nothing. The DOT form of a graph names every node with its data and every edge in its direction, quoted whatever the ids and data contain.",
 ["inputs","histories"],"every graph, id and sequence of additions",
 "Tests build one small graph without self loops, missing ends or repeated edges, and never print one.",
 ["pkg/types/graph.go","pkg/types/map_graph.go","pkg/types/option.go"],[("adjacency in both directions","MapGraph.SetEdge, MapDiGraph.AddEdge"),("DOT form","GraphToDOT")],["MapGraph","MapDiGraph","GraphToDOT","Option"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    assert len(x["title"])<=80
    n=len(re.findall(r'[.!?](\s|$)',x["statement"]))
    if n>3: print(x["id"],n)
print(len(P))
