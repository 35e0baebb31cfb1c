#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
E = "MAPL_engine/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[E+f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=E+w) for n, w in mech],
            observe_at=observe or [], hook_needed=False)))

p("C01", "The strictest matching rule decides, and the report names that rule",
  "For every message and every ordered list of rules, the decision is the strictest of the per-rule verdicts (block over alert over allow over default) and default when no rule fires. The rule reported as decisive is the first in list order with that verdict, the reported description is that rule's own, the list of applied rules is exactly the rules with a non-default verdict in order, and the i-th per-rule result and return data belong to the i-th rule.",
  ["inputs", "configurations"], "all rule lists of any length and order, all combinations of per-rule verdicts",
  "The tests run fixed example files with a handful of rules; neither the number nor the order of verdicts is varied, and the applied list, index and description are hardly asserted.",
  ["check.go"], [("Check: per-rule loop and precedence fold", "check.go")],
  [("per-rule results", "verdict of each rule", "results of Check")], ["return values of Check"])

p("C02", "A rule takes effect only if every part of it matches, with its own decision",
  "A single rule yields its own decision exactly when sender, receiver, operation, protocol with resource, and conditions all match the message, and yields the default verdict with no return data otherwise. For a TCP rule the resource is compared with the destination port; otherwise the wildcard protocol matches anything and any other protocol requires equal protocol (ignoring case), equal or wildcard resource type, and a resource name pattern matching the request path. A rule without conditions behaves as if its conditions were true.",
  ["inputs", "configurations"], "all messages and all prepared rules",
  "Example messages cover a few combinations; a guard dropped for one protocol or one decision spelling changes none of them.",
  ["check.go"], [("CheckOneRule", "check.go")], None, ["return values of CheckOneRule and Rule.Check"])

p("C03", "Sender and receiver lists match by type and by any entry",
  "A sender or receiver matches exactly when some entry of its list matches: a subnet entry by equal address text or by containing the parsed address, a workload or wildcard entry by its name pattern on the service name, and (receiver only) a hostname entry by its pattern on the request host. Sender entries look only at the source side of the message and receiver entries only at the destination side; an unknown type never matches.",
  ["inputs", "configurations"], "all lists of any length, all entry kinds, all messages",
  "Tests use short lists and rarely more than one kind; position in the list and the source/destination pairing are not varied.",
  ["check.go", "string_utils.go"], [("TestSender", "check.go"), ("TestReceiver", "check.go"), ("ConvertStringToExpandedSenderReceiver", "string_utils.go")])

p("C04", "Each comparison method computes its own relation in every spelling",
  "For integers, floats, strings, wildcard strings and regular expressions, each supported method (EQ, NEQ/NE, LT, LE, GT, GE, RE, NRE, EX, NEX, in upper or lower case) returns exactly its relation between the message value (left) and the rule value (right). Methods documented as negations of each other give opposite answers on the same data, and a method that does not belong to a type yields false.",
  ["inputs", "configurations"], "all methods and spellings, all operand values",
  "Tests use a few methods per type, mostly upper case, and seldom the boundary (equal) operands that separate LT from LE.",
  ["check.go"], [("compare functions", "check.go")])

p("C05", "Every condition attribute is compared against the message field it names",
  "A condition on payload size, user agent, hour, encryption type or version, domain, sender/receiver namespace or cluster, or sender/receiver label is decided by the value of that very message field (or label key) compared by the condition's method with the condition's value. Conditions comparing sender with receiver compare those two fields of the same message; a label condition on a label the message lacks is false unless it asks for non-existence; an unknown attribute is false.",
  ["inputs", "configurations"], "all attributes, all methods, all messages",
  "Most attributes appear in one or two example rules with a single method; swapped fields with equal example values go unnoticed.",
  ["check.go", "rules_load.go"], [("condition evaluation", "check.go"), ("attribute parsing at preparation", "rules_load.go")])

p("C06", "AND, OR and NOT follow Boolean logic for any number of children",
  "An AND is true exactly when all its children are true, an OR exactly when at least one is, and a NOT is the opposite of its child, whatever the number, order and nesting of the children. Every child is evaluated on the same message, and preparing a node prepares every child and fails if any child fails.",
  ["inputs", "programs"], "all condition trees: any arity, order and nesting",
  "The unit tests use two or three children; a loop that misses the first or the last child or stops early can pass them.",
  ["conditions_tree.go"], [("And/Or/Not Eval and PrepareAndValidate", "conditions_tree.go")])

p("C07", "ANY and ALL quantify over every selected element, each in its own context",
  "ANY is true exactly when the inner condition holds for at least one selected element and ALL exactly when it holds for every selected element (ALL over none is true, ANY over none is false), with the inner condition evaluated against that element as the relative context. The elements are the members of the list a path finds (of a list of lists, the members of its lists; of raw bytes, the objects), the entries of an object it finds, each by itself, and none for a single value; several paths add up, and a relative path is looked up in the current element. This holds for both message representations (raw bytes and parsed value), and a failure to select elements makes either false.",
  ["inputs", "programs"], "all element lists of any length, all inner verdict sequences, nested quantifiers, both representations; selection for the shapes of found data listed in DESIGN.md, with any content",
  "Example documents hold two or three elements; which element satisfies the condition and the length of the array are not varied.",
  ["conditions_tree.go", "check.go"], [("Any/All Eval", "conditions_tree.go"), ("element selection", "check.go")])

p("C08", "Evaluating rules leaves the message exactly as it was",
  "Checking a message against rules changes nothing in the message that the caller can observe: after every evaluation, on every way out, all its fields (including the relative context used inside quantifiers) have the values they had before. A quantifier nested in another one restores the outer element before the outer one continues.",
  ["inputs", "programs", "histories"], "all condition trees, all exits of every evaluation function, all messages",
  "Tests check each message once and never compare it afterwards; a forgotten restore on one early return only shows when a later sibling uses the relative context.",
  ["conditions_tree.go", "check.go"], [("relative context save/restore", "conditions_tree.go")],
  [("relative context", "element under evaluation by a quantifier", "MessageAttributes")])

p("C09", "A rule counts as ready only after a complete, successful preparation",
  "A rule is used for evaluation or translation only in a form whose preparation (references, validation, patterns, numbers) finished without error; if any step fails, an error is returned and the rule is not marked ready. Preparing a rule with predefined values, explicitly or at its first use, works on a private copy, so the text of the author's rule is never altered, and preparing again replaces the earlier prepared form.",
  ["histories", "configurations", "fault_sequences"], "all sequences of preparation attempts and evaluations, all failing steps",
  "Tests prepare each rule once, successfully, and never look at the original or at a rule whose preparation failed.",
  ["rules_load.go", "check.go", "rule_mongo_plugin.go"], [("Rule.SetPredefinedStringsAndLists", "rules_load.go")],
  [("prepared flag and prepared copy", "typestate of a rule", "Rule")])

p("C10", "Validation accepts only conditions the engine can evaluate",
  "A condition is accepted exactly when its attribute is one of the documented names or prefixes, its method is supported and allowed for that attribute, and its value suits the method (numbers for order comparisons, compilable patterns for pattern methods, non-empty lists for membership). A rejected condition returns an error and an accepted one does not.",
  ["inputs", "configurations"], "all attribute/method/value shapes",
  "The table tests list some invalid rules; they cannot show that no other invalid one is accepted, nor that accepted ones are evaluable.",
  ["validate_conditions.go", "rules_load.go", "check.go"], [("ValidateOneCondition", "validate_conditions.go")])

p("C11", "References to predefined strings and lists resolve or are rejected",
  "Wherever a sender name, receiver name or condition value starts with '#', it is replaced by the predefined list of that name, else the predefined string of that name, and if neither exists an error is returned. Text without the leading '#' is never replaced, and the entries of a list are joined in order by commas (by '|' for the pattern methods RE and NRE). Entries of predefined lists that start with '#' are replaced at load by the predefined string of that name, or loading fails.",
  ["inputs", "configurations"], "all names, all dictionaries, all reference positions",
  "A few reference names are tested; precedence, missing names in each position and non-references are not.",
  ["rules_load.go", "predefined_lists_load.go"], [("reference replacement", "rules_load.go"), ("validatePredefinedString", "predefined_lists_load.go")])

p("C12", "Errors while loading, preparing or translating always reach the caller",
  "When any step of reading, parsing, validating, preparing or translating rules, messages or predefined lists fails, the public operation returns a non-nil error, and its other results are then empty rather than partial. No such operation returns a nil error after one of its steps failed. Not failures are: label text of a message that is not JSON (the message then has no labels), a return path that cannot be compiled (no data is returned for it), and trying whether a text is a number, an address or a pattern.",
  ["fault_sequences", "inputs"], "every failing step in every load, parse, validate, prepare or translate operation",
  "Tests exercise a few failing inputs; most error branches are never taken.",
  ["rules_load.go", "conditions_tree.go", "messages_load.go", "predefined_lists_load.go", "validate_conditions.go", "mongo_plugin.go", "rule_mongo_plugin.go", "definitions_rule.go"],
  [("error returns", "rules_load.go")])

p("C13", "Evaluating a message never crashes the process",
  "No message - missing optional fields, absent raw data, data of unexpected shape - and no rule accepted by the loader makes checking, condition evaluation, coverage or translation crash. Rules whose preparation fails do not crash evaluation either: they simply do not apply.",
  ["inputs", "configurations"], "all messages, all rules",
  "Crashes need an unusual combination (a missing field, a scalar where an array is expected); example data is always well formed.",
  ["check.go", "conditions_tree.go", "rule_mongo_plugin.go", "coverage.go"], [("dereferences, assertions and indexing on evaluation paths", "check.go")])

p("C14", "The same rules and message always give the same outcome",
  "Loading the same text, checking the same message against the same rules, translating or rendering a rule gives the same result every time: nothing observable depends on the iteration order of a map, on time, on randomness or on earlier calls. Where several map entries are folded into one ordered result, the order is fixed or irrelevant.",
  ["schedules", "inputs", "histories"], "all map iteration orders, all call histories",
  "A run observes one iteration order; an order dependence shows only for maps with several entries and some of the time.",
  ["check.go", "conditions_tree.go", "definitions_rule.go", "mongo_plugin.go", "predefined_lists_load.go"], [("iteration over maps", "conditions_tree.go")])

p("C15", "Evaluating prepared rules concurrently shares no mutable state",
  "Once rules are prepared, checking different messages from several goroutines is safe: evaluation writes nothing that is reachable from the rules, the predefined lists or package-level variables, only its own locals and the message it was given. Package-level tables are never modified after initialisation except by the one documented setter.",
  ["schedules"], "all interleavings of evaluations of different messages over shared prepared rules",
  "No test evaluates concurrently; a lazily filled cache in the rule passes every sequential test.",
  ["check.go", "conditions_tree.go", "rules_load.go"], [("evaluation functions and their effects", "check.go")])

p("C16", "Raw bytes and parsed values of a message are judged by the same rules",
  "For a JSON-path condition the two message representations (raw bytes, parsed value) share the same decision procedure: without the document (or the current element) the condition is false, a path that finds nothing, or an empty or null value, makes only non-existence true, each method compares the extracted text or number with the condition's value in the same way, and absolute paths read the whole document while relative ones read the current element ('$KEY' the name of its only entry, '$VALUE' that entry's value, '$VALUE.path' within that value).",
  ["inputs", "configurations"], "all methods, extracted values and message representations",
  "Most tests use one of the representations; the two code paths are compared only on a few documents.",
  ["check.go"], [("testJsonPathCondition and testJsonPathConditionOnInterface", "check.go")])

p("C17", "Patterns match whole strings with literal dots and wildcards only",
  "A sender, receiver, resource or operation pattern matches a text exactly when the whole text matches one comma-separated entry, where '*' stands for any run of characters, '?' for any one character, and letters, digits, '.', '$', '^', '/', '-', '_' and ':' stand for themselves. A membership list (IN, IS, NIN) is matched in full against one of its comma-separated entries. 'read' and 'write' (any of the two documented spellings) stand for exactly their documented verbs, '*' for any operation.",
  ["inputs"], "all pattern strings",
  "Tests compare a few patterns with expected expressions; an unanchored or unescaped conversion still matches the intended examples.",
  ["string_utils.go", "rules_load.go"], [("ConvertStringToRegex, ConvertStringToExpandedSenderReceiver, ConvertOperationStringToRegex", "string_utils.go")])

p("C18", "A translated query asks the database exactly what the condition asks",
  "Translating a condition tree yields a query in which AND, OR, NOT, ANY and ALL become the corresponding logical and element operators over the translations of all their children, and each condition becomes its operator on the named field with the number or text of its value. A rule without conditions yields the empty query, extra pipeline steps precede the match, and whatever has no translation is reported as an error.",
  ["inputs", "programs"], "all condition trees, all methods, all field kinds",
  "The translation is compared with expected output for a few rules; the database test needs docker and is not run.",
  ["mongo_plugin.go", "rule_mongo_plugin.go"], [("ToMongoQuery", "mongo_plugin.go")])

p("C19", "A rule's text and hash depend on its meaning, not on order or preparation",
  "The canonical text and hash of a rule include its decision, sender, receiver, operation, protocol, resource and conditions, so rules differing in one of them differ in text. The order of the children of AND and OR does not matter, and a prepared condition renders the same as the original one (with references to predefined strings and lists replaced).",
  ["inputs", "programs", "histories"], "all rules, all orders of children, before and after preparation",
  "Tests hash a few rules; a field left out of the text is invisible unless two rules differ only there.",
  ["rules_load.go", "conditions_tree.go", "definitions_rule.go"], [("RuleToString and node String methods", "rules_load.go")])

p("C20", "Saved conditions read back as the same conditions",
  "Writing a condition tree as JSON produces valid JSON whose keywords and keys are the ones the reader accepts and carries every attribute, method, value, parent path and return path in its original (unprepared) form - references to predefined strings and lists are replaced by preparation -, whatever characters they contain. Reading it back therefore gives the same tree.",
  ["inputs", "programs"], "all trees and all text values",
  "A few trees are round-tripped, with plain text values only.",
  ["definitions_rule.go", "conditions_tree.go"], [("MarshalJSON / UnmarshalJSON", "conditions_tree.go")])

p("C21", "Loaded messages carry derived fields that agree with their source fields",
  "After loading messages, every message (not just the first or last) has its resource type derived from its protocol (path for HTTP, port for TCP, none otherwise), source and destination addresses parsed from their own text, times from midnight computed from its own timestamp in consistent units, and sender and receiver labels from their own text. A bad timestamp is an error.",
  ["inputs"], "all messages in a file of any length",
  "The files used have few messages with similar values; swapped or skipped derivations are not asserted.",
  ["messages_load.go"], [("derivation of fields", "messages_load.go")])

p("C22", "The coverage report agrees with the decisions",
  "For every message the coverage report says covered exactly when its decision is not the default, with that decision, the ids of exactly the applied rules in order and their verdicts in the same order; every rule is listed with exactly the messages it applied to. No message or rule is skipped.",
  ["inputs", "configurations"], "all message and rule lists of any length",
  "One small example is compared.",
  ["coverage.go"], [("Coverage", "coverage.go")])

p("C23", "Numbers with units are scaled by the documented factor",
  "A number followed by a unit suffix equals the number times that unit's factor: percent 1/100, m 1/1000, K M G T P E and e3..e18 powers of ten, Ki Mi Gi Ti Pi Ei powers of 1024; without a suffix it is itself. The same conversion is used for the rule's value and for the message's value, and text that is not a number stays text.",
  ["inputs"], "all suffixes and numbers",
  "Tests try some suffixes; a shifted table entry for an unused one passes.",
  ["string_utils.go", "rules_load.go", "check.go"], [("convertStringWithUnits and its uses", "string_utils.go")])

p("C24", "Return values come only from conditions that held, and from their element",
  "A check returns extra data only along with a true verdict: each returned entry was extracted for an element or condition that was satisfied, using the return paths of that very node on that very element. Negated conditions and ALL return none, OR returns those of its true children, AND returns data whenever one of its children did, and the default verdict carries none.",
  ["inputs", "programs"], "all trees with return paths",
  "Return values are asserted for a few single-level examples.",
  ["check.go", "conditions_tree.go"], [("return value extraction", "check.go")])

p("C25", "A parsed condition tree is the tree that was written",
  "Parsing conditions builds, for each AND/OR/NOT/ANY/ALL keyword, a node of exactly that kind holding all of the parsed children in order, and for each condition a leaf with the written attribute, method, value and return paths; parent paths and return paths reach the quantifier they were written for. Any other shape - unknown keyword, several keywords in one map, list without keyword, non-text where text is required - is rejected with an error.",
  ["inputs", "programs"], "all YAML and JSON condition documents",
  "Examples cover common shapes; malformed ones only partly.",
  ["conditions_tree.go", "definitions_rule.go"], [("ParseConditionsTree / InterpretNode", "conditions_tree.go")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
