#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements can be edited as text)."""
import json
def loc(name, where): return {"name": name, "where": where}
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [loc(a, b) for a, b in mech], "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Evaluating a compiled path never panics",
 "For every path that Parse accepts or the exported path constructors build, and for every document behind a conforming DocModel, Search, Find and ParseAndFind return without panicking, whatever the types, lengths and values found in the document. This includes out-of-range and negative indexes, slices with any bounds and step, divisions by zero, operands of unexpected or non-comparable type, and filter paths that select any number of nodes.",
 "all compiled paths and all documents",
 "The regression suite evaluates about 200 fixed (path, document) pairs; panics need particular type/length/value combinations.",
 ["path.go", "slice.go", "itr.go", "expression.go", "funcs.go", "docpath.go", "docmodel.go"],
 [("bounds and type guards in front of every index, slice, type assertion and division", "path.go, slice.go, expression.go")], ("inputs",), ["Search", "Find", "ParseAndFind"])
prop("C02", "Parse never panics",
 "Parse returns a path or an error for every input string, and never panics.",
 "all input strings",
 "TestParser parses a few hundred fixed expressions; the compiler makes unchecked type assertions and slice operations that depend on the shape of the parse tree.",
 ["parser.go", "simplepath.go", "expression.go"],
 [("type switches over the parse tree", "parser.go astPath, expression.go astExpression"), ("syntax errors stop compilation before the tree is read", "parser.go Parse")], ("inputs",), ["Parse"])
prop("C03", "Malformed or unsupported expressions are rejected with an error",
 "Whenever the lexer or the parser reports a syntax error for the input, Parse returns a non-nil error. If any part of the expression (an operand, a key, an index, a slice bound, an element of a union or of an array literal, a function argument) uses a construct the compiler does not support, Parse returns a non-nil error as well: it never silently drops or replaces that part. Not supported are the bit operators ~ & ^ |; as an operand, argument, slice bound or filter also a bare name, a bare *, ?(...) and a path that does not start with $ or @; as a path component also the logical, relational, equality, membership, multiplication and power operators, ! and parentheses. (A path component or index that is written with + or -, such as $.-a or $[1+1], is text by design, and so is the name of a method.)",
 "all malformed inputs and all positions of an unsupported sub-expression",
 "The tests only print the errors of Parse; an error lost in one compiler branch goes unnoticed.",
 ["parser.go", "simplepath.go", "expression.go"],
 [("error listener checked after parsing", "parser.go Parse"), ("err propagation in every compiler branch", "parser.go, expression.go, simplepath.go")], ("inputs",), ["Parse", "ParseAndFind"])
prop("C04", "An index selects exactly the array element it denotes",
 "On an array of n elements, [i] selects exactly the element at position i if 0 <= i < n, and exactly the element at position n+i if -n <= i < 0. It selects nothing if i is out of range, and nothing in an object or a value if it is not a key. This holds for an index on its own, as part of a union, after '..', in a simple path, and for IndexSelectorPath.",
 "all indexes, array lengths and positions of the index in a path",
 "The suite has a handful of indexes on arrays of at most a few elements and only checks that the expected results are among the actual ones.",
 ["path.go", "slice.go"],
 [("index normalization", "slice.go normalizeIndex"), ("keySelector", "path.go")], ("inputs",), ["Search", "Find"])
prop("C05", "A slice selects exactly the elements of its range",
 "On an array of n elements, [start:end:step] selects exactly the elements that the slice expression of RFC 9535 (and Python) selects: negative bounds count from the end, bounds are clamped to the array, omitted bounds are the ends of the array in the direction of the step, an omitted step is 1, and a step of 0 selects nothing. This holds for a slice on its own, as part of a union, and after '..'; slices select nothing in objects and values.",
 "all start, end, step (present or omitted, any sign and magnitude) and all array lengths",
 "Finite sample of slices; arithmetic corner cases (large steps, clamping at both ends, negative steps) are not covered and supersets of the expected result pass.",
 ["slice.go", "itr.go", "parser.go"],
 [("slice bounds", "slice.go getRange, bounds"), ("range iterator", "itr.go rangeIterator"), ("slice compilation", "parser.go astSlice")], ("inputs",), ["Search", "Find"])
prop("C06", "Keys, wildcards and unions select exactly the named children",
 "A key (dotted, quoted, in brackets, or given to KeySelectorPath) selects in an object exactly the member with that key if there is one, whatever its value, and nothing in a value. A wildcard selects every member of an object and every element of an array once. A union selects exactly the children that at least one of its parts selects, each once.",
 "all keys, documents and unions",
 "Finite sample; the consensus test accepts supersets, and missing keys, null members and overlapping unions are rarely present.",
 ["path.go", "parser.go"],
 [("keySelector, wildcardSelector, unionSelector", "path.go"), ("child iteration", "path.go evaluateAt")], ("inputs",), ["Search", "Find"])
prop("C07", "Recursive descent reaches every descendant exactly once, parents first",
 "'..' applies the rest of the path to every descendant of the node reached so far, each exactly once, a node before its own descendants and array elements in index order; '$..' and '$..*' select all descendants of the root but not the root itself. RecursiveDescent(p) followed by q selects what the expression p..q selects.",
 "all documents of any depth and all paths with '..'",
 "Test documents are two or three levels deep and duplicates are not noticed.",
 ["path.go", "parser.go"],
 [("descend closure", "path.go evaluateAt"), ("recursive flags", "parser.go astPath")], ("inputs",), ["Search", "Find"])
prop("C08", "Reported locations are real",
 "The path passed to the Search callback starts at the document root and every following segment is the child of the previous one that the DocModel returns for the segment's Name (in an object) or Index (in an array); Name is empty for array elements and Index is 0 for object members. Every segment carries the node and the node type the DocModel reports for it.",
 "all paths and documents",
 "No test looks at the segments; Find only uses the last node.",
 ["path.go", "docpath.go", "itr.go"],
 [("DocPath push/pop around every child", "path.go evaluateAt"), ("iterators fill Segment", "itr.go, path.go selectChildNodes")], ("inputs",), ["Search"])
prop("C09", "A path passed to the Search callback stays as it was",
 "The path passed to the Search callback can be kept and modified by the callback: nothing the library does later changes its segments, and changing its segments does not influence the rest of the search.",
 "all searches and all callbacks that keep their argument",
 "No test keeps the paths it gets.",
 ["path.go", "docpath.go"],
 [("copy before capture", "path.go Search")], ("inputs", "histories"), ["Search"])
prop("C10", "'$' and '@' in a filter mean the document root and the tested node",
 "In a filter, a path starting with '$' is evaluated from the document root and a path starting with '@' from the node being tested, for every operand position and every depth at which the filter is applied. Evaluating the filter does not disturb the traversal: the nodes selected after it, and their locations, are as if the filter were a pure predicate.",
 "all filters and documents",
 "Few suite queries use '$' in a filter, all at one level, and results that are supersets pass.",
 ["expression.go", "path.go"],
 [("pathExpression", "expression.go"), ("newRootContext", "path.go")], ("inputs",), ["Search", "Find"])
prop("C11", "A filter selects exactly the children for which it is truthy",
 "[?(e)] selects exactly the children for which e evaluates to a truthy value: true, a non-zero number, a non-empty string, a non-empty list, or a node that is an object, a non-empty array or holds such a value. A path selecting nothing, an empty array literal, the literal null, false, 0 and the empty string are not truthy; a child for which e cannot be evaluated is not selected. (A node that holds null or an empty array is not covered. Values are null, booleans, ints, float64s and strings.)",
 "all filter expressions and all types of values",
 "Finite sample of values.",
 ["expression.go", "path.go"],
 [("filterSelector", "path.go"), ("asBool", "expression.go")], ("inputs",), ["Search", "Find"])
prop("C12", "== and != compare by value",
 "a == b holds exactly if both are null, both are booleans, both are strings or both are numbers, and they are equal; integers and floats are compared by numeric value without truncation, and arrays and objects are not equal to anything. === is the same but an integer and a float are never equal. != and !== are their exact negations, and all four are symmetric.",
 "all pairs of operand values and operand kinds",
 "The type/type matrix times boundary values is far larger than the suite.",
 ["expression.go"],
 [("valuesEqual", "expression.go"), ("equality3Expression", "expression.go")], ("inputs",), ["Search", "Find"])
prop("C13", "<, <=, > and >= order values consistently",
 "Two numbers are ordered by their numeric value without truncating floats, and two strings lexicographically; null is equal to null and below everything else, including a path that selects nothing, and a boolean, string or node compared with a number is first converted to a number as in arithmetic. If the operands cannot be ordered all four operators are false; otherwise a < b is the same as b > a, a <= b is the same as b >= a, and a <= b is the same as not a > b (NaN aside).",
 "all pairs of operand values",
 "The type/type matrix times boundary values is far larger than the suite.",
 ["expression.go"],
 [("compareExpr", "expression.go")], ("inputs",), ["Search", "Find"])
prop("C14", "Arithmetic computes the mathematical operation or null",
 "+, -, *, /, % and ** apply the operation to the left and right operands in that order, on integers if both are integers (except ** which is always float) and on floats otherwise; numeric strings and booleans (true is 1, false is 0) count as numbers. The result is null if an operand is not a number or the divisor of / or % is zero. Unary minus negates any numeric operand.",
 "all pairs of operand values",
 "The type/type matrix times boundary values is far larger than the suite.",
 ["expression.go"],
 [("mulExpression ... subExpression, unaryMinusExpression", "expression.go"), ("valueAsNumber", "expression.go")], ("inputs",), ["Search", "Find"])
prop("C15", "Logical operators and 'in' follow their truth tables",
 "a && b and a || b are true exactly if both, or at least one, of the operands are truthy, and !a is the negation of the truth of a. x in l holds exactly if l is an array literal or an array in the document and x is equal (==) to one of its elements, or a path that selects several nodes one of which is equal to x, or l is a single non-null value and x is equal to it. (A null right operand is not covered.)",
 "all operand values and all array contents",
 "Finite sample.",
 ["expression.go"],
 [("landExpression, lorExpression, notExpression, inExpression", "expression.go")], ("inputs",), ["Search", "Find"])
prop("C16", "String literals denote the string they spell",
 "A string literal in single or double quotes denotes its characters with escapes decoded: \\b \\f \\n \\r \\t \\v \\0, \\xHH and \\uHHHH and \\u{H...} as the code point, a backslash followed by any other character as that character, and a backslash followed by line breaks as nothing. All other characters, of any script, stand for themselves, wherever they are in the literal and whatever precedes them.",
 "all string literals (length and mix of escapes); hexadecimal digits without underscores, code points outside the surrogate range",
 "No test decodes an escape sequence.",
 ["expression.go"],
 [("unescapeString", "expression.go")], ("inputs",), ["Parse"])
prop("C17", "Numeric literals denote the number they spell",
 "A numeric literal denotes the number it spells: decimal integers, 0x, 0o and 0b integers as integers, and decimals with a fraction or an exponent (e or E) as floats, with underscores between digits ignored. This holds for literals that fit in 64 bits, wherever a literal can appear.",
 "all numeric literals",
 "The suite uses a few small decimal literals.",
 ["expression.go"],
 [("numericLiteral", "expression.go")], ("inputs",), ["Parse"])
prop("C18", "Quoted keys parse back to themselves",
 "For every list of keys that are valid UTF-8, Join(keys...) is a path that Parse accepts and that addresses exactly the node reached from the root by those keys, in order; with no keys it is the root. MakeKeyString(key) is a key component that denotes exactly key, whatever characters key contains.",
 "all key strings",
 "TestMakeKey has five keys and never parses the result.",
 ["escape.go", "expression.go", "simplepath.go", "parser.go"],
 [("MakeKeyString", "escape.go"), ("unescapeString", "expression.go")], ("inputs",), ["MakeKeyString", "Join", "Parse"])
prop("C19", "A compiled path can be shared",
 "Evaluating a path never writes to the path, to anything reachable from it, or to package-level state, so that one compiled path can be evaluated any number of times and from several goroutines at once, with the same outcome as the first time.",
 "all paths, documents and schedules of concurrent evaluations",
 "No test evaluates a path twice or concurrently.",
 ["path.go", "slice.go", "expression.go", "itr.go"],
 [("evaluation state lives in a context made per search", "path.go newRootContext"), ("iterators are made per evaluation", "path.go, slice.go")], ("inputs", "schedules"), ["Search", "Find"])
prop("C20", "The document is never modified",
 "No function of the library writes to the document: evaluation reads it through the DocModel only, and MapModel never writes to the maps and slices it is given.",
 "all paths and documents",
 "No test compares the document before and after.",
 ["path.go", "docmodel.go", "expression.go", "funcs.go"],
 [("results are collected in fresh slices", "expression.go, path.go")], ("inputs",), ["Search", "Find"])
prop("C21", "Building a path leaves existing paths unchanged",
 "Append, RecursiveDescent and Parse never modify the paths they are given, the exported path variables, or paths built earlier, even if those share their origin: extending one path twice gives two independent paths.",
 "all sequences of path constructions",
 "No test combines paths.",
 ["path.go", "simplepath.go", "parser.go"],
 [("append to a fresh path", "path.go Append"), ("copy of flags", "path.go RecursiveDescent")], ("inputs", "histories"), ["Append", "RecursiveDescent", "Parse"])
prop("C22", "The DocModel is only asked what it has to answer",
 "The library calls Keys and Key for object nodes only, Elem for array nodes only and with an index in [0, Len), Len for array and object nodes only, and Value for value nodes only, with nodes it got from the same model.",
 "all paths and documents",
 "The tests use MapModel, which tolerates calls for the wrong type of node.",
 ["path.go", "slice.go", "itr.go", "expression.go"],
 [("type switch before each access", "path.go evaluateAt")], ("inputs",), ["DocModel"])
prop("C23", "MapModel reports the JSON document as it is",
 "MapModel classifies map[string]any as object, []any as array and everything else as value; Key finds exactly the members that exist (including null ones), Keys lists each key once, Len and Elem agree with the array, and Root and Value return what they are given. No method panics on a node of the wrong type.",
 "all documents",
 "Only exercised indirectly.",
 ["docmodel.go"],
 [("MapModel methods", "docmodel.go")], ("inputs",), ["MapModel"])
prop("C24", "Evaluation terminates",
 "For every compiled path and every finite, acyclic document, Search and Find return, and Parse returns for every input once its parse tree is built: no index, slice bound, step or nesting makes an iteration go on forever.",
 "all paths and finite documents",
 "A test cannot show termination, and steps near the integer limits are not sampled.",
 ["itr.go", "path.go", "slice.go", "expression.go"],
 [("rangeIterator stops at its bound", "itr.go"), ("descend moves to a child, evaluateAt to a child or the next selector", "path.go")], ("inputs",), ["Search", "Parse"])
prop("C25", "The result is determined by the path and the document",
 "Two evaluations of the same path on documents that enumerate keys in the same order report the same nodes in the same order; nothing else (map iteration order, time, randomness, earlier calls) influences the result of Parse, Search, Find, Join or MakeKeyString. In particular the results of an array are in index order for indexes, unions and wildcards.",
 "all paths, documents and histories",
 "Go randomizes map iteration; a test samples one order.",
 ["path.go", "docmodel.go"],
 [("no map iteration outside MapModel.Keys", "docmodel.go")], ("inputs", "histories"), ["Search", "Find", "Parse"])
prop("C26", "Find and ParseAndFind agree with Search",
 "Find returns the last node of every path Search reports, in the same order and nothing else, and ParseAndFind returns what Find returns for the parsed path, or the error of Parse.",
 "all paths and documents",
 "Finite sample.",
 ["path.go"],
 [("Find", "path.go"), ("ParseAndFind", "path.go")], ("inputs",), ["Find", "ParseAndFind"])
prop("C27", "A simple path selects what its JSONPath form selects",
 "The simple path /c1/c2/... selects exactly what the JSONPath with the same components selects from the root: identifiers and quoted strings are keys, numbers are indexes in arrays and keys in objects, * is a wildcard, and / on its own is the root. Spaces around components make no difference.",
 "all simple paths and documents",
 "simplepath_test.go has a handful of paths.",
 ["simplepath.go", "parser.go"],
 [("astSimplePath", "simplepath.go")], ("inputs",), ["Parse"])
prop("C28", "length counts the elements of an array",
 "length(x) and x.length() are the number of elements of the array x, in the document or as an array literal, and 0 for any other value; a path that selects no or several nodes is a list of them. A call of a function that does not exist cannot be evaluated, so a filter with it selects nothing.",
 "all arrays and values",
 "Finite sample.",
 ["funcs.go", "expression.go"],
 [("lengthFunc", "funcs.go"), ("astArgumentExpression", "expression.go")], ("inputs",), ["Search", "Find"])
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(p) + '\n' for p in P))
