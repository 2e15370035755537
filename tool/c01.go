package main

const evalHow = " The recursive search and the recursive construction of goal trees are decided by inductive contracts: calls of the recursion heads are cut points, and every path through each head's body (helpers inlined, loops summarised by their iteration cases) is compared with the contract."

func init() {
	register("C01", "Set operators: on every path of the search over union, intersection and difference nodes the returned result is success exactly when the set formula over the results of the recursive searches of its own operands holds; a node's result is that of its expansion; errors of operands propagate; the trail is balanced and no other shared memory is written, so no operand influences another."+evalHow, func(c *Check) { c.evaluation(); c.graphService() })
	register("C02", "Rewrite rules: the provenance of every node in a constructed goal tree is compared with the rule that denotes it (subjects read from storage for exactly that policy, object and relation; computed userset; tuple-to-userset), and of every expanded tree with the expression of the node's own relation. The storage read is decided too: the successors of a node are all subjects stored for exactly that object and relation of that policy."+evalHow, func(c *Check) {
		c.evaluation()
		c.graphService()
		if m, _, _, _ := c.relForm(); m != nil {
			c.successors(m)
			c.keyRange(m)
		}
	})
	register("C03", "Subject match: every path that ends at a leaf returns success exactly when the path conditions establish that the node is the requested entity (resource and id) or the wildcard of its resource."+evalHow, func(c *Check) { c.evaluation(); c.graphService() })
	register("C08", "Termination: every expansion of a node is dominated by a test that the node's identity is not on the trail and by its insertion, with no removal in between; the trail is shared by the whole evaluation; every other recursive call descends into a proper part of a finite tree, and every loop ranges over a finite collection."+evalHow, func(c *Check) { c.evaluation(); c.graphService(); c.serializers() })
	register("C24", "Complete expansion: without a target, every loop over operands runs to its end, both sides of a difference are searched, every subject of a rule becomes a node, and every search result is part of the returned tree in place of its operand."+evalHow, func(c *Check) { c.evaluation(); c.graphService() })
	register("C04", "Fail-closed analysis: on every path of Check, ExplainCheck and Expand, an answer requires the request's policy to have been read and found and the search to have reported no error, authorized holds exactly when the search's result is success, and every error outcome carries no response; inside of the evaluation every error of a step fails the evaluation and every expanded node has a defined relation whose expression was parsed."+evalHow, func(c *Check) { c.evaluation(); c.graphService() })
	register("C06", "Sibling agreement of Check and ExplainCheck: both are compared with one specification of the search they ask for (policy, origin, goal, fresh trail) and of the decision they derive from its result, so that they agree on every request; the explanation is the serialization of the very tree the decision is taken from.", func(c *Check) { c.graphService(); c.texts() })
}
