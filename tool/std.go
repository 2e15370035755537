package main

// stdOpaque: exported functions whose own contracts are decided by separate
// obligations; callers see them as pure functions of their arguments.
var stdOpaque = map[string]Opaque{
	"relation_expression_parser.Parse":          {Pure: true},
	"policy.NewPolicyLookUpTable":               {Pure: true},
	"(*policy.PolicyLookUpTable).GetRelation":   {Pure: true},
	"(*policy.PolicyLookUpTable).GetResource":   {Pure: true},
	"(*domain.Policy).GetResourceByName":        {Pure: true},
	"(*domain.Resource).GetRelationByName":      {Pure: true},
	"(*domain.RelationExpressionTree).GetRules": {Pure: true},
	"policy_definition.PolicyFromYaml":          {Pure: true},
	"relation_graph.GoalTree.SetParent":         {},
}

func stdConfig(extra ...string) Config {
	c := Config{Opaque: map[string]Opaque{}}
	for k, v := range stdOpaque {
		c.Opaque[k] = v
	}
	for _, x := range extra {
		if x[0] == '-' {
			delete(c.Opaque, x[1:])
		} else {
			c.Opaque[x] = Opaque{Pure: true}
		}
	}
	return c
}
