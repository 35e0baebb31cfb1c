package main

func init() {
	props["C01"] = propCheck{
		run:  checkC01,
		tech: "path-sensitive dataflow, decision table compared with the specification",
		rule: "Dataflow over Check with the per-rule verdict as an abstract value: every returned value is compared with the strict-maximum fold over the whole rule list; loop-carried results are checked on every back edge. Decides the fold, not the verdicts themselves.",
	}
}

func init() {
	props["C02"] = propCheck{
		run:  checkC02,
		tech: "path-sensitive dataflow, decision table compared with the specification",
		rule: "Every path of CheckOneRule on a prepared rule (sender and receiver search inlined, with a typestate on their loops; conditions abstract) is compared with the conjunction the property states, completing the facts the path leaves open both ways.",
	}
	props["C03"] = propCheck{
		run:  checkC03,
		tech: "path-sensitive dataflow with loop typestate",
		rule: "The loops over the sender and receiver lists carry a typestate (some entry matched so far), advanced by the specification's match of the generic entry on every back edge and exit; every returned value must equal it.",
	}
}

func init() {
	props["C04"] = propCheck{
		run:  checkC04,
		tech: "path-sensitive dataflow, decision table compared with the specification",
		rule: "Evaluation of a condition is analysed once per attribute kind and per spelling of each method, with all helpers inlined; on every path the returned truth value must equal the relation the method names between the message value and the rule value.",
	}
	props["C05"] = propCheck{
		run:  checkC05,
		tech: "path-sensitive dataflow, decision table compared with the specification",
		rule: "Evaluation of a condition is analysed once per attribute and method spelling; on every path the result must equal the method's relation on exactly the message field or label the attribute names.",
	}
}

func init() {
	props["C06"] = propCheck{
		run:  checkC06,
		tech: "path-sensitive dataflow with loop typestate over abstract child nodes",
		rule: "AND/OR/NOT evaluation and preparation are analysed with abstract children of any number; a typestate on the loop over the children (a deciding child was seen) must determine the result on every way out.",
	}
	props["C07"] = propCheck{
		run:  checkC07,
		tech: "path-sensitive dataflow with loop typestate over abstract elements",
		rule: "ANY/ALL evaluation is analysed with an abstract inner condition and an abstract element list of any length, for both message representations; the inner condition must be evaluated with the current element as context, and a typestate on the element loop must determine the result.",
	}
}

func init() {
	props["C08"] = propCheck{
		run:  checkC08,
		tech: "path-sensitive restoration check plus inclusion-based memory effect analysis",
		rule: "On every way out of every connective's and quantifier's evaluation the abstract memory must hold the initial content in every cell of the message; and no other instruction reachable from evaluation (assignment, map assignment, append, copy, delete, or a call known or not known to write) may write the message or memory reachable from it.",
	}
	props["C15"] = propCheck{
		run:  checkC15,
		tech: "inclusion-based memory effect analysis",
		rule: "No instruction reachable from evaluating prepared rules may write memory reachable from the rules or a package variable; and no function but initialisers and the documented setter writes a package variable.",
	}
	props["C24"] = propCheck{
		run:  checkC24,
		tech: "abstract interpretation with trace partitioning, bounded lists",
		rule: "For every outcome of the children and every selected element, the data a node returns is exactly what the true children or elements contribute, each value taken from its own return path and from the document the path refers to.",
	}
	props["C25"] = propCheck{
		run:  checkC25,
		tech: "abstract interpretation with trace partitioning, bounded documents",
		rule: "For every document shape and arbitrary texts in it, the parser returns the tree written (node kinds, children in order, texts, parent and return paths with their compiled form and flag) or an error exactly when the shape stands for no tree or a condition is invalid.",
	}
	props["C18"] = propCheck{
		run:  checkC18,
		tech: "abstract interpretation with trace partitioning, bounded trees",
		rule: "For every tree shape, path, method and base field, and arbitrary values, the query built is the one the tree stands for, with the added steps in front of the match, and an error is returned exactly when there is no translation.",
	}
	props["C19"] = propCheck{
		run:  checkC19,
		tech: "abstract interpretation of the rendering functions over bounded trees with arbitrary texts",
		rule: "The text of a tree carries every text written in it, is the same for every order of the children of AND and OR and before and after parsing and preparation, and differs between trees of different structure; the text of a rule carries each of its parts and the hashes are computed from the texts alone.",
	}
	props["C20"] = propCheck{
		run:  checkC20,
		tech: "abstract interpretation of the writing and reading functions over bounded trees with arbitrary texts",
		rule: "The JSON form of a tree, computed with its texts left open, is a JSON document in which every text is escaped; following the parser over that document gives the tree that was written, before and after parsing and preparation.",
	}
	props["C22"] = propCheck{
		run:  checkC22,
		tech: "abstract interpretation with trace partitioning, bounded lists",
		rule: "For every combination of per-rule verdicts the two coverage tables hold exactly the entries the verdicts imply.",
	}
	props["C21"] = propCheck{
		run:  checkC21,
		tech: "abstract interpretation with trace partitioning, bounded lists; exact linear forms over the clock readings",
		rule: "For documents of up to three messages with unknown fields, every derived field of every message is the documented function of that message's own fields.",
	}
	props["C23"] = propCheck{
		run:  checkC23,
		tech: "abstract interpretation with trace partitioning over a text domain (unknown number, known suffix) and exact linear forms",
		rule: "For every documented suffix the prepared rule value and the compared message value are the written number times the documented factor.",
	}
	props["C17"] = propCheck{
		run:  checkC17,
		tech: "abstract interpretation with trace partitioning; language of the constructed pattern decided on its syntax tree",
		rule: "For every number of entries up to three, the pattern compiled from a name, resource, operation or list is, character by character and entry by entry, the documented whole-text pattern of its own text.",
	}
	props["C11"] = propCheck{
		run:  checkC11,
		tech: "abstract interpretation with trace partitioning; decision table of each replacement",
		rule: "On every path a name, value or list entry becomes exactly what the dictionary says for its own key, and an unknown reference ends in an error.",
	}
	props["C09"] = propCheck{
		run:  checkC09,
		tech: "typestate by abstract interpretation with trace partitioning: ready flag and prepared form of a rule",
		rule: "Preparation that meets a failing step returns an error and leaves the rule not ready, one that succeeds installs the copy it prepared, the author's fields are never written, and every exported user touches the prepared form only where the rule is ready.",
	}
	props["C12"] = propCheck{
		run:  checkC12,
		tech: "error typestate by abstract interpretation with trace partitioning, function by function",
		rule: "In every function with an error result reached from a public operation, on every path on which a step reports an error the function returns a non-nil error and empty other results.",
	}
	props["C16"] = propCheck{
		run:  checkC16,
		tech: "abstract interpretation with trace partitioning; decision table of the JSON-path comparison",
		rule: "For every method, kind of path and kind of value found, and arbitrary texts, the outcome of a JSON-path condition is the one the common procedure gives for the text selected from the right document, in both representations of the message.",
	}
	props["C13"] = propCheck{
		run:  checkC13,
		tech: "abstract interpretation with trace partitioning; run-time panics as outcomes of paths",
		rule: "No path of preparing a rule, of evaluating it afterwards on a message of which nothing is known, of coverage or of translation ends in a run-time panic.",
	}
	props["C14"] = propCheck{
		run:  checkC14,
		tech: "relational abstract interpretation over the orders of map iteration; query for sources of nondeterminism",
		rule: "For maps of up to three arbitrary entries, every two paths of different orders of visits which can be taken for the same inputs give the same results and leave the same memory, in the iterating function or in all of its callers.",
	}
	props["C10"] = propCheck{
		run:  checkC10,
		tech: "abstract interpretation with trace partitioning; decision table of the validation",
		rule: "For every attribute form, method and class of value the validation accepts exactly the documented combinations, and a condition is prepared only after it was found valid.",
	}
}
