#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because the file is long)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
J='jsonmatcher/'
p('C01','A query is the boolean combination of its comparisons',
 'For every query that parses and every valid JSON document, the match verdict is the value of the query\'s AND/OR/NOT tree over the verdicts of its individual comparisons on that document. A comparison with several right-hand values is true exactly when at least one of the values is satisfied by the field, and no comparison other than those in the query influences the verdict.',
 ['inputs','programs'],'all query trees of any depth and shape, all documents',
 'The tests evaluate a few dozen fixed queries against fixed documents; no finite set of trees settles all nestings, orders of operands and value-list lengths.',
 [J+'nodes.go',J+'build_matcher.go',J+'jsonmatcher.go',J+'expr_eq.go'],
 [('evaluation of and/or/not/comparison nodes',J+'nodes.go'),('translation of the syntax tree',J+'build_matcher.go build'),('value list to alternatives',J+'expr_eq.go exprEQ')],
 ['Matcher.Match'])
p('C02','Field paths resolve to exactly the reachable values',
 'A field path selects, from every valid JSON document whose root is an object, the values reached by following its segments as object keys from the root, stepping transparently through every object element of an array met on the way (elements that are themselves arrays or scalars are not entered), in document order; a document whose root is not an object has no fields. Comparisons of the selected values consider every selected scalar and every scalar element of a selected array, and nothing else. If nothing is selected the comparison is false.',
 ['inputs'],'all paths, all documents, any nesting of objects and arrays',
 'Tests try a handful of documents with one or two levels of nesting; path length and document nesting are unbounded.',
 [J+'json_values.go',J+'nodes.go'],
 [('recursive descent over objects and arrays',J+'json_values.go getValues'),('flattening of arrays of scalars',J+'json_values.go scalarValues')],
 ['Matcher.Match'])
p('C03','Numeric comparisons follow the order of the numbers',
 'For the operators equal, <, <=, >, >= and the range operator, a numeric comparison is true exactly when some selected scalar that is a JSON number, or a string spelling a number, stands in that relation to the query\'s number(s) as 64-bit floats, the range including both its bounds. Integer and floating literals of equal value behave identically, non-numeric scalars never satisfy a numeric comparison, and NaN satisfies none.',
 ['inputs'],'all operators, all numeric constants, all sequences of field values of every type',
 'The tests pick a few numbers per operator; boundary values, NaN, mixed lists and order of elements are unbounded.',
 [J+'expr_float.go',J+'expr_numeric.go',J+'expr_between.go',J+'expr_eq.go',J+'json_values.go'],
 [('comparison loop',J+'expr_float.go matches'),('construction from the operator',J+'expr_numeric.go, expr_between.go, expr_eq.go'),('numeric reading of a value',J+'json_values.go getNumberVal')],
 ['Matcher.Match'])
p('C04','Timestamp comparisons follow the order of instants',
 'A comparison against a timestamp is true exactly when some selected scalar that reads as a point in time stands in the operator\'s relation to the query\'s instant, ranges including both bounds, for every representable year. Equality with a date without a time holds exactly for the instants of that UTC day, from its first nanosecond to its last; equality with a full timestamp holds for that instant only.',
 ['inputs'],'all operators, all timestamps including far past and future, all field values',
 'Tests use a few dates in recent years; instants and zones are unbounded and the ends of the day and of the representable range are single points.',
 [J+'expr_datetime.go',J+'expr_numeric.go',J+'expr_between.go',J+'expr_eq.go',J+'json_values.go'],
 [('comparison loop',J+'expr_datetime.go matches'),('whole-day equality',J+'expr_eq.go exprEQ'),('reading of a value as time',J+'json_values.go getDatetimeVal')],
 ['Matcher.Match'])
p('C05','exists and null test presence and explicit null only',
 'An exists comparison is true exactly when the field path selects at least one value, whatever its type, null and empty values included. A null comparison is true exactly when it selects at least one value and every selected value is an explicit JSON null.',
 ['inputs'],'all paths and documents',
 'A few single-valued documents are tested; mixed multi-valued fields of any length are not.',
 [J+'expr_exists.go',J+'expr_null.go',J+'nodes.go',J+'build_matcher.go'],
 [('exists',J+'expr_exists.go matches'),('null over all values',J+'expr_null.go matches'),('guard on empty fields',J+'nodes.go exprNode.result')],
 ['Matcher.Match'])
p('C06','Boolean values match JSON booleans only',
 'A comparison with true or false holds exactly when some selected scalar is a JSON boolean of that value; strings, numbers and nulls never satisfy it.',
 ['inputs'],'both constants, all sequences of field values of every type',
 'Tests use few values; type strictness must hold for every other value.',
 [J+'expr_equal_bool.go',J+'expr_eq.go',J+'json_values.go'],
 [('comparison loop',J+'expr_equal_bool.go matches'),('reading of a boolean',J+'json_values.go getBoolVal')],
 ['Matcher.Match'])
p('C07','String values match as case-insensitive wildcard searches',
 'A string value is searched for in every selected scalar string (and in the decimal spelling of selected numbers), ignoring case: ? stands for any one character and * for any run of characters, line breaks excepted, a backslash makes the next ? or * literal, and every other character, regular-expression metacharacters included, stands for itself. An all-ASCII value must begin and end on word boundaries; a value with other characters and no wildcard uses loose collation search; nothing else influences the verdict.',
 ['inputs'],'all string values (any characters, escapes and wildcards), all field values',
 'Tests try a dozen patterns; metacharacters, adjacent escapes and wildcards and trailing backslashes combine without bound.',
 [J+'str_matchers.go',J+'expr_regexp.go',J+'expr_eq.go',J+'json_values.go'],
 [('translation to a regular expression',J+'str_matchers.go stringSearchRegexp'),('choice of the matcher',J+'str_matchers.go getStringMatcher'),('string reading of a value',J+'json_values.go getStringVal')],
 ['Matcher.Match'])
p('C08','Regular expression values are applied exactly as written',
 'A regular expression value holds exactly when the expression written between the two delimiting slashes, neither more nor less and with escaped slashes meaning slashes, matches some selected scalar string or the decimal spelling of some selected number; values of other types never satisfy it.',
 ['inputs'],'all regular expressions, all field values',
 'Tests use a few expressions, none with slashes next to the delimiters.',
 [J+'expr_regexp.go',J+'expr_eq.go','parser/ast/ast.go','internal/grammar/parser_gen.go'],
 [('removal of the delimiters','parser/ast/ast.go NewRegexpVal'),('comparison loop',J+'expr_regexp.go matches')],
 ['Matcher.Match'])
p('C09','Network values match addresses and blocks in the text',
 'A comparison with an address or CIDR block holds exactly when the text of some selected scalar contains an IPv4 address that lies in the block, or a CIDR block that overlaps it; a plain address in the query stands for the block of that single address. Ill-formed addresses in the text are ignored without affecting the others.',
 ['inputs'],'all blocks, all texts with any number of well- and ill-formed addresses, all sequences of values',
 'Tests use single addresses; position, number and mixture of addresses in the text are unbounded.',
 [J+'expr_net.go',J+'expr_eq.go','parser/ast/ast.go'],
 [('search and containment loop',J+'expr_net.go matches'),('single address as /32','parser/ast/ast.go NewNetVal')],
 ['Matcher.Match'])
p('C10','Matching never panics and rejects what is not JSON',
 'For every query for which a matcher is built and every byte string, matching returns without panicking; it returns an error exactly when the bytes are not valid JSON, and the verdict is then false. Building a matcher never panics on any query text.',
 ['inputs','programs'],'all query texts, all byte strings',
 'Absence of panics over all inputs cannot be enumerated; the backstop panics in the code are reachable only through combinations the tests do not try.',
 [J+'jsonmatcher.go',J+'build_matcher.go',J+'nodes.go',J+'json_values.go',J+'expr_numeric.go',J+'expr_between.go',J+'expr_eq.go','parser/validators.go'],
 [('validity check',J+'jsonmatcher.go Match'),('operator and value checks before the matcher is built','parser/validators.go'),('non-empty paths','internal/grammar/parser_gen.go onField1')],
 ['NewMatcher','Matcher.Match'])
p('C11','Matching only reads: documents and matchers stay as they were',
 'Matching never modifies the document, the query tree or the matcher, apart from its statistics counters, which it only ever changes by atomic increments; the verdict depends on the query and the document alone. Hence one matcher may be used from any number of goroutines at once, in any interleaving and history, and each call gives the same verdict as if made alone on a fresh matcher.',
 ['inputs','schedules','histories'],'all documents, all interleavings and all sequences of calls',
 'Tests call matchers sequentially, mostly once; no schedule or history is explored.',
 [J+'jsonmatcher.go',J+'nodes.go',J+'json_values.go',J+'node_stats.go'],
 [('no writes outside fresh memory and atomic counters',J),('value reading never writes the document',J+'json_values.go')],
 ['Matcher.Match'],[('counters','evaluations and matches per node',J+'node_stats.go')])
p('C12','Match statistics count evaluations and matches exactly',
 'After any sequence of matches, the reported statistics tree has the shape of the query, and for every node the reported check count is the number of times that node was evaluated and the match count the number of times it evaluated to true: the root once per valid document, NOT\'s operand whenever NOT is, the left operand whenever its parent is, the right operand of AND when the left was true and of OR when the left was false. Reading statistics changes nothing.',
 ['inputs','histories'],'all queries and all sequences of documents',
 'No test reads statistics at all; histories are unbounded.',
 [J+'nodes.go',J+'node_stats.go',J+'build_matcher.go',J+'jsonmatcher.go'],
 [('marking',J+'node_stats.go mark'),('one counter object per node',J+'build_matcher.go build'),('report',J+'node_stats.go toStatsNode')],
 ['Matcher.Stats'],[('timesChecked/timesMatched','per-node counters',J+'node_stats.go')])
p('C13','Operand rules: a query parses iff every comparison is well-formed',
 'A syntactically correct query is accepted by operand validation exactly when every comparison in it, at whatever depth, obeys its operator\'s rules: exists/null take no values; <, <=, >, >= exactly one number or timestamp; the range operator two numbers or two timestamps with the second strictly greater; ~ at least one string, regular expression or boolean; equality at least one value and not both true and false; and no value repeated within a list. Otherwise parsing fails with an error positioned at an offending value or comparison.',
 ['inputs','programs'],'all query trees, all value lists of any length',
 'Tests contain some rejected queries; the accept/reject boundary over all operators, arities, type mixes and depths is unbounded.',
 ['parser/validators.go','parser/parser.go','parser/visitors.go'],
 [('operator rules','parser/validators.go'),('run on every node before any other visitor','parser/parser.go ParseQueryReader')],
 ['parser.ParseQuery'])
p('C14','Visitors see every node once, in order, and can stop the walk',
 'Each visitor supplied to the parser is called, in the order given and after operand validation has passed, once per node in depth-first order, parents before children and left before right, until it asks to stop. A skip result omits exactly that node\'s descendants; skip-all ends that visitor\'s walk successfully; any other error ends parsing with that error, without calling later visitors.',
 ['inputs','histories'],'all trees, all visitor behaviours and numbers of visitors',
 'Tests use visitors only through hints on small queries; no test drives skip, skip-all or several visitors.',
 ['parser/visitors.go','parser/parser.go'],
 [('recursive walk','parser/visitors.go walkr'),('top-level treatment of skip','parser/visitors.go walk'),('visitor loop','parser/parser.go ParseQueryReader')],
 ['parser.ParseQuery with Visitors'])
p('C15','Messages are kept in order and the first error fails the parse',
 'The messages of a message visitor are exactly those its function added, in order, with the kind, position and formatted text they were added with. If at least one of them is an error, parsing fails with the first such error\'s position and text; hints and warnings never make it fail.',
 ['inputs','histories'],'all sequences of additions of any kind and length',
 'No test adds an error message; sequences are unbounded.',
 ['parser/visitors.go','parser/message.go','parser/parser.go'],
 [('append to the tape','parser/visitors.go addMsg'),('check after the walk','parser/parser.go ParseQueryReader')],
 ['MessageVisitor.Messages','parser.ParseQuery'],[('tape','messages and first error','parser/visitors.go')])
p('C16','Queries parse by precedence NOT > AND > OR with grouping',
 'A query text is accepted exactly when it is a sentence of the query language, and the tree returned has the structure of the text: NOT binds tighter than AND, AND tighter than OR, operands group to the right, parentheses override, keywords need separating white space, and surrounding white space is immaterial. Field names, operators and the order of values are those written, path stars being dropped.',
 ['inputs'],'all query texts',
 'Tests parse a fixed list of queries; nesting and combination are unbounded.',
 ['internal/grammar/parser_gen.go','internal/grammar/aql.peg'],
 [('grammar table','internal/grammar/parser_gen.go'),('rule actions','internal/grammar/parser_gen.go on*'),('parsing engine','internal/grammar/parser_gen.go parse*')],
 ['parser.ParseQuery'])
p('C17','Literals denote the values they spell',
 'Every literal in an accepted query yields a value of the type and content it spells: integers and floats their numeric value, quoted strings their content with escapes decoded, booleans, timestamps their instant and whether only a day was given, networks their prefix (a plain address meaning a single-address block). Literals that denote nothing representable are rejected with an error.',
 ['inputs'],'all literals of every type',
 'Tests use a few literals per type.',
 ['parser/ast/ast.go','internal/grammar/parser_gen.go'],
 [('value constructors','parser/ast/ast.go New*Val'),('rule actions','internal/grammar/parser_gen.go on*Value')],
 ['parser.ParseQuery'])
p('C18','Reported positions lie in the query and point at the token',
 'The position attached to every comparison, value and parse error lies within the query text (or just past its end for errors at the end): the offset is the byte offset at which the token or error starts, line and column agree with it, and the length counts the characters of the token, so that text of that length at that offset is the token itself.',
 ['inputs'],'all queries, accepted or not, with multi-byte characters and line breaks',
 'Tests compare a few columns in ASCII queries.',
 ['internal/grammar/parser_gen.go','parser/ast/ast.go'],
 [('position bookkeeping','internal/grammar/parser_gen.go read, getpos'),('error conversion','internal/grammar/parser_gen.go GetParseError')],
 ['parser.ParseQuery'])
p('C19','Formatted messages show the right part of the query',
 'Formatting any message about a query never fails: the text shown is the query, or a window of exactly the configured width when the query is longer, marked with an ellipsis on each side that was cut. The highlight lies inside the window, starting at the message\'s position in characters, and is cut only if it is longer than the window; the text before, in and after the highlight concatenates to the text shown. What is shown of the query is escaped by formatters made for HTML, and by no others.',
 ['inputs','configurations'],'all queries, positions, lengths and widths',
 'There is no test of truncation at all.',
 ['parser/fmtmsg/formatter.go','parser/fmtmsg/truncate.go'],
 [('window computation','parser/fmtmsg/truncate.go findCenterSubstring'),('pieces of the query','parser/fmtmsg/formatter.go')],
 ['fmtmsg.Printer.Sprint'])
p('C20','Sampling counts every key path of every document exactly',
 'Sampling a document adds, for each scalar in it that is reached through object keys within the depth limit, one occurrence of its dotted key path, keys with spaces being quoted; elements of arrays count under the path of the array, arrays directly inside arrays are skipped, and a negative limit means no limit. No other path is counted, and documents sampled before are unaffected.',
 ['inputs','histories','configurations'],'all documents, all depth limits, all sequences of documents',
 'Tests sample three small documents with one limit.',
 ['sampler/sampler.go'],
 [('recursive scan','sampler/sampler.go sample')],
 ['Sampler.Keys','Sampler.KeysAtThreshold'])
p('C21','Sampler state: failures leave no trace, reset clears, thresholds exact',
 'A sample that is rejected returns an error, never panics and changes neither keys nor document count; an accepted one increments the count by one. The threshold query returns exactly the keys whose occurrences divided by accepted documents reach the given percentage, the key list every key seen once, and after a reset the sampler behaves as new.',
 ['inputs','histories'],'all byte strings and all sequences of sample, reset and query calls',
 'Tests run one short sequence; histories with failures and resets in between are unbounded.',
 ['sampler/sampler.go'],
 [('counting apart and merging on success','sampler/sampler.go Sample'),('threshold','sampler/sampler.go KeysAtThreshold'),('reset','sampler/sampler.go Reset')],
 ['Sampler'],[('keys','occurrences per path','sampler/sampler.go'),('totalDocs','accepted documents','sampler/sampler.go')])
p('C22','The demo server opens allow-listed files only',
 'Whatever name is requested, the demo file server opens a file only if that exact name was added to it, and then the file that was added under that name; any other request, including ones with path separators or parent references, opens nothing of the caller\'s choosing.',
 ['inputs','histories'],'all requested names, all sequences of additions',
 'There is no test of the server.',
 ['wasm/aqlparse/server/main.go'],
 [('lookup of the request in the table of added files','wasm/aqlparse/server/main.go Open')],
 ['DiskFS.Open'])
p('C23','The graph of a query has the shape of its tree',
 'The graph drawn for a query has one vertex per node of the syntax tree plus a start vertex, with an edge from each vertex to the vertices of its operands and from the start to the root, labelled with the operator, or with field, operator and values of the comparison, and is titled with the text of the query. This is claimed for queries whose names and values are printable characters, since a label is XML and cannot hold the others.',
 ['inputs','programs'],'all query trees',
 'There is no test of graph output.',
 ['aqlgraph/graph.go'],
 [('recursive construction','aqlgraph visitNodes')],
 ['aqlgraph.QueryGraph'])
p('C24','The messages of a matcher are the advice on its values',
 'The messages of a matcher are exactly the advice on the values of its query: comparison by comparison in the order of the text and value by value, each at the position of the value it is about. A string or regular expression compared with ~ gets a warning, as does a timestamp with a time of day in an equality. A regular expression further gets, in this order: a warning if its text begins with (?i) and holds a character outside ASCII; a hint if its text, an initial (?i) left aside, begins or ends with .*; a hint if it is one capturing group as a whole; and then, for the expression without that group, a hint if it is an alternation with no group, + or counted repetition outside of * and ?, a hint if the first of its two or more parts is .*, and a hint if the last of its three or more parts is .* (the parts of a sequence or of an alternation). Nothing else produces a message, none is an error, and no advice makes a query fail that parses. Only kind, number, order and position of the messages are claimed, not their wording.',
 ['inputs'],'all queries: any tree, any list of values, any regular expression',
 'No test looks at the messages of a matcher; lists of values, nesting and regular expressions are unbounded.',
 [J+'query_messages.go',J+'jsonmatcher.go','parser/visitors.go'],
 [('advice on a comparison',J+'query_messages.go messageVisitor'),('operators that make an alternation special',J+'query_messages.go doesSomethingSpecial'),('messages handed over',J+'jsonmatcher.go NewMatcher')],
 ['Matcher.Messages'])
p('C25','Printed queries, node names, messages and errors say what they stand for',
 'The printed form of a parsed query (String of its nodes) spells the whole tree: (&& l r), (|| l r) and (! x) around the printed operands, and a comparison as the operator, the field and its values in parentheses, several values as a bracketed list in the order of the query. Field names are joined with dots and quoted if they contain a space, a dot or a double quote; strings are quoted, networks carry their mask, other values are spelled as in the query. The statistics of a matcher name each node: AND, OR, NOT, or the comparison as field, colon, operator (unless it is ==), a space and the value, or the values in parentheses, separated by commas. The text of a message is its kind, its line, column and offset if it has a position, and its wording unaltered; the text of a parse error is its line, column and offset and its wording.',
 ['inputs'],'all trees, fields, lists of values, kinds, positions and wordings',
 'Tests compare a handful of printed trees; statistics names, message and error texts are not looked at, and lists and nesting are unbounded.',
 ['parser/ast/ast.go','parser/message.go','internal/grammar/parser_gen.go',J+'build_matcher.go',J+'nodes.go'],
 [('printing of trees, comparisons and fields','parser/ast/ast.go String, FriendlyString, FieldString'),('text of a message','parser/message.go ParserMessage.String'),('text of an error','internal/grammar/parser_gen.go ParseError.Error'),('names of the counters',J+'build_matcher.go build'),('names in the statistics',J+'nodes.go stats')],
 ['Node.String','ExprNode.FriendlyString','MatchStats.NodeName','ParserMessage.String','ParseError.Error'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
