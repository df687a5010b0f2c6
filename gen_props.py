#!/usr/bin/env python3
"""Writes properties.jsonl, props.json and MANIFEST.json from one table."""
import json

def F(*a): return list(a)
P = []
def prop(id, title, statement, over, text, why, files, mech, ready=False, note="", bounded=(), known=(), state=(), level="proof"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, ready=ready, note=note,
                  bounded=list(bounded), known=list(known), state=list(state), level=level))

STACK = [{"name": "stack of open nodes", "meaning": "every started node that has not been ended, innermost last, with its state (open, opened, ended) and number of children", "where": "writer.go Writer.nodes/current, node.go"}]

prop("C01", "Text is escaped exactly",
 "Writing text (WriteText, Write(Text), or Text in an element's Content) appends exactly that text with < > & \" ' written as &lt; &gt; &amp; &#34; &#39;, with every code point that XML forbids and every invalid UTF-8 byte written as U+FFFD, and with every other character copied byte for byte. This holds for every string and every position in the document, so an XML parser reads back the text that was written and text can never open markup.",
 ["inputs", "histories"], "every string (valid UTF-8 or not), every stack of open nodes", "The tests escape a few short strings; a slip for one code point, one width, one position of the copy window or the last byte needs the quantifier over all strings.",
 ["printer.go", "nodes.go", "writer.go"], [{"name": "printer.EscapeString", "where": "printer.go"}, {"name": "Text.write", "where": "nodes.go"}])
prop("C02", "Attribute values are escaped",
 "Every attribute value (of an element, a namespace declaration, the document declaration or a DTD default) is written between double quotes with \" & < > as character references, tab, newline and carriage return as &#x9; &#xA; &#xD;, every code point that XML forbids and every invalid UTF-8 byte as U+FFFD, and every other character unchanged (an apostrophe may stay as it is or become &#39;). No value can end its attribute or be altered by attribute-value normalisation.",
 ["inputs", "histories"], "every value string, every way of giving an attribute", "The tests use a handful of values; the fast path that copies until the first special byte has a table of 256 entries and a hand-over position that only a proof over all strings covers.",
 ["printer.go", "attr.go", "elem.go", "dtd.go"], [{"name": "printer.EscapeAttrString with its table of plain bytes", "where": "printer.go"}, {"name": "printer.printAttr", "where": "printer.go"}, {"name": "Attr.write", "where": "attr.go"}])
prop("C03", "Names are XML Names",
 "With Enforce on, a name that is not an XML Name is never accepted: not as the name or prefix of an element or attribute, the target of a processing instruction, or the name of a DOCTYPE, ELEMENT, ATTLIST, attribute definition, ENTITY, NDATA or NOTATION; the call returns an error, and an element, attribute or DTD name that is empty is an error too. CheckName itself accepts a non-empty string only if it is an XML Name, and accepts every XML Name made of ASCII characters.",
 ["inputs", "histories"], "every string, every node kind that carries a name", "The tests name a few nodes; the table has 65536 entries, and each of a dozen call sites has to consult it.",
 ["check.go", "tables_gen.go", "elem.go", "attr.go", "dtd.go", "nodes.go", "printer.go"], [{"name": "CheckName and its table", "where": "check.go, tables_gen.go"}, {"name": "the checks at each node kind", "where": "elem.go, attr.go, dtd.go, nodes.go"}],
 known=[{"case": "pi-empty-target", "what": "a processing instruction with an empty target is written as \"<? ?>\" with Enforce on (TestLast relies on it)"}])
prop("C04", "Character validators decide exactly their production",
 "CheckChars(s, strict) returns nil exactly when s is valid UTF-8 made of XML Chars, and with strict also free of the characters section 2.2 of XML 1.0 discourages. CheckPubID returns nil exactly for strings of PubidChars, and CheckEncoding exactly for the empty string and EncNames.",
 ["inputs"], "every string, both values of strict", "The tests try a few runes; the productions are unions of ranges over 1.1 million code points and every position in the string.",
 ["check.go"], [{"name": "CheckChars, CheckPubID, CheckEncoding", "where": "check.go"}])
prop("C05", "Comments, CDATA sections and PIs cannot be broken out of",
 "With Enforce on, a comment written without error never contains '--' or ends in '-', a CDATA section never contains ']]>', both hold only characters CheckChars allows, and a processing instruction's content never contains '?>' nor is its target 'xml' in any case; this holds also when the content is supplied by several calls, and a call that would break it returns an error. Whatever is accepted is written verbatim between the delimiters.",
 ["inputs", "histories"], "every content string and every way of splitting it over calls", "The tests write single strings; a delimiter can be split over any number of writes, and over the content given at the start and later writes.",
 ["nodes.go", "node.go"], [{"name": "CommentContent.write, CDataContent.write, Comment.end, PI.write", "where": "nodes.go"}, {"name": "last two bytes of content kept per node", "where": "node.go"}], state=[{"name": "tail of the content", "meaning": "last two bytes written to the open comment or CDATA section", "where": "node.go"}])
prop("C06", "DTD literals are quoted safely",
 "With Enforce on, every system identifier and entity value is written verbatim between two quotes of a kind that does not occur in it, and every public identifier between double quotes holding only PubidChars; a text with both kinds of quotes, a public identifier with other characters, or (except in a NOTATION) one without a system identifier makes the call fail. With Enforce off the same text is written without these checks.",
 ["inputs"], "every identifier and value, every declaration that takes one", "The tests use tidy identifiers; the choice of the delimiter depends on which quotes occur anywhere in the text.",
 ["printer.go", "dtd.go", "check.go"], [{"name": "printer.writeSystemID, writePublicID, writeExternalID, writeEntityValue", "where": "printer.go"}])
prop("C07", "Nodes are only accepted where they may stand",
 "With Enforce on, starting or writing a node fails exactly as a matter of placement when the innermost open node may not contain it, and then nothing is written and the open nodes are unchanged: at the top level every kind is allowed; inside a document DTD, comments, PIs and elements; inside an element attributes (until its start tag is closed), elements, text, comments, CDATA and PIs; inside a DTD declarations and comments; inside an ATTLIST attribute definitions; inside a comment or CDATA section only its content; a document nowhere but at the top level. Raw may stand anywhere.",
 ["histories", "inputs"], "every kind of node under every kind of open node, after any history", "The tests try a few bad placements; the matrix has 17 kinds under 7 parents, on any stack and in any state.",
 ["writer.go", "nodekind.go", "nodes.go", "elem.go", "attr.go", "dtd.go"], [{"name": "Writer.checkParent and each node's parent set", "where": "writer.go, nodes.go, elem.go, attr.go, dtd.go"}], state=STACK)
prop("C08", "Ending nodes closes exactly the named ones",
 "End(kind, names...), EndElem, EndElemFull, EndComment, EndCData, EndDTD and EndDTDAttList close the innermost open node if its kind (and name, or prefix and name) is the one given, and otherwise return an error, write nothing and leave the open nodes as they are; EndAny closes the innermost node of any kind. EndAll closes all, EndDoc all down to and including the document, EndToDepth(d, ...) those deeper than Depth()==d, checking the last; EndAny, EndDoc and EndToDepth fail when there is nothing to close.",
 ["histories", "inputs"], "every sequence of starts and ends, every kind and name argument", "The tests end what they started; matching depends on the whole stack and on the combination of kind and names.",
 ["writer.go", "node.go"], [{"name": "Writer.End, pop, EndToDepth, EndDoc, EndAll", "where": "writer.go"}], state=STACK)
prop("C09", "Elements are serialised as balanced tags",
 "Every element written without error appears as its start tag with its attributes in the order given, then its content in order, then an end tag carrying the same name; it is closed as '/>' exactly when nothing was written inside it, it had no Content, and neither Full nor EndElemFull asked for the long form. This holds at every depth and for every interleaving of structured and streamed calls.",
 ["histories", "inputs"], "every tree of elements, every depth, every history of calls", "The tests write small fixed trees; the start tag is completed by whatever call comes next, and the stack is reallocated as it grows.",
 ["elem.go", "node.go", "writer.go", "attr.go"], [{"name": "Elem.open, opened, end", "where": "elem.go"}, {"name": "node.opened, node.end, Writer.Next", "where": "node.go, writer.go"}], state=STACK)
prop("C10", "Namespace prefixes are declared once and consistently",
 "An element with a prefix and a URI declares xmlns:prefix=\"URI\" directly after its name; an attribute with a prefix and a URI makes its element declare that prefix exactly once, before the start tag is closed, in order of first use, unless the element declared it already. A second URI for a prefix on the same element is an error.",
 ["inputs", "histories"], "every sequence of prefixed attributes on an element", "The tests declare one or two prefixes; uniqueness and consistency range over all sequences of attributes.",
 ["elem.go", "attr.go"], [{"name": "list of declared prefixes per open element", "where": "elem.go, attr.go"}])
prop("C11", "The document declaration says what was asked for",
 "Starting a document writes '<?xml', then version (the forced one, else the writer's Version, else 1.0), encoding (the forced one, else the writer's, left out when empty) and standalone (when set: yes or no) as attributes in this order, each unless suppressed, then '?>' and the newline string, with a single space when no attribute is written. With Enforce on an encoding that is not an EncName is an error.",
 ["inputs", "configurations"], "every combination of the document's fields and the writer's options", "The tests cover some of the 2^6 combinations with fixed strings.",
 ["nodes.go"], [{"name": "Doc.open", "where": "nodes.go"}])
prop("C12", "Destination errors are never lost",
 "Once the destination has failed (an error or a short write), nothing more is sent to it, and Flush and EndAllFlush return an error from then on. Whenever Flush or EndAllFlush returns nil, every byte of the document so far has been accepted by the destination.",
 ["fault_sequences", "histories"], "every sequence of calls with a failure after any number of bytes", "The tests write to memory; failures can strike at any byte and any buffer boundary.",
 ["writer.go", "printer.go"], [{"name": "sticky error of bufio.Writer, printer.cachedWriteError", "where": "printer.go"}, {"name": "Writer.Flush, EndAllFlush", "where": "writer.go"}])
prop("C13", "Indentation changes nothing but whitespace between markup",
 "With WithIndent or WithIndentString the document differs from the one written without only by inserted line breaks (NewlineString followed by copies of the indent string), each placed directly before an element, comment, DTD or DTD declaration or before the end of an element, DTD or ATTLIST, and never after text, CDATA, an attribute, a processing instruction or raw output; one may also follow the whole document. Text, comments and attribute values are never altered.",
 ["histories", "inputs"], "every sequence of calls", "The tests compare a few fixed documents; the indenter is a state machine over all sequences of events.",
 ["indenter.go", "node.go", "writer.go", "nodes.go"], [{"name": "StandardIndenter.Indent, Wrap", "where": "indenter.go"}, {"name": "the events recorded by each node", "where": "node.go, nodes.go"}])
prop("C14", "DTD declarations have their grammatical form",
 "DOCTYPE, ELEMENT, ATTLIST, attribute definitions, ENTITY and NOTATION are written in the form the XML grammar gives, with the fields as passed: the internal subset in brackets exactly when something was written inside the DTD, '% ' for parameter entities, NDATA only after an external ID, and #REQUIRED, #IMPLIED, #FIXED \"v\" or \"v\" as the default kind and value of an attribute definition say (an empty value with no kind means #IMPLIED). Contradictory fields (content with an external ID, NDATA without one or on a parameter entity, a value on #REQUIRED or #IMPLIED, an unknown default kind, a notation without any ID) are errors (those about entity content, missing external IDs and notations with Enforce on).",
 ["inputs", "histories"], "every combination of fields, every sequence of declarations", "The tests write one declaration of each kind.",
 ["dtd.go", "printer.go"], [{"name": "DTD, DTDElem, DTDEntity, DTDAttList, DTDAttr, Notation", "where": "dtd.go"}])
prop("C15", "ErrCollector keeps the first error",
 "Do records the first non-nil error it is ever given, with its 1-based position in that call and the caller's file and line, and ignores everything after it; Must records the first non-nil error of its arguments and panics with the collector, and returns silently without one. Set assigns the collector to the error variable, and Panic panics with the collector, exactly when an error was recorded; Unwrap returns that error.",
 ["inputs", "histories"], "every list of errors, every sequence of calls", "The tests collect one error; the claim ranges over all lists and over later calls.",
 ["errs.go"], [{"name": "ErrCollector", "where": "errs.go"}])
prop("C16", "Typed attribute values are the canonical text of the value",
 "Attr's typed setters return the attribute with Value set to the value's canonical text (strconv's decimal form for integers, 'true' or 'false', and the shortest form that parses back to the same float of that width) for every value of the type, and leave prefix, URI and name alone. Unsigned and signed setters of every width keep the full range.",
 ["inputs"], "every value of each type (Uint takes an int: non-negative values)", "The tests set a few small numbers; truncation shows only at the ends of a type's range.",
 ["attr.go"], [{"name": "Attr.Bool, Int*, Uint*, Float*", "where": "attr.go"}])
prop("C17", "Structured and streamed calls write the same document",
 "Write, Start and Block, WriteAttr with several attributes, and nodes that carry Attrs or Content write, in order and stopping at the first error, exactly what the corresponding single calls write: Write(a, b) is writing a then b, Block(n, c...) is starting n, writing each c and ending n, a written node is starting and ending it, Attrs are attributes written after the start, and Content is written as children.",
 ["inputs", "histories"], "every list of nodes, every tree of Content", "The tests compare a few trees.",
 ["writer.go", "elem.go", "dtd.go", "nodes.go"], [{"name": "Writer.Write, Start, Block, WriteAttr; Elem.opened, DTDAttList.opened", "where": "writer.go, elem.go, dtd.go"}])
prop("C18", "No call panics",
 "No sequence of calls of the writer's methods, with any strings, kinds, names and depths, on a writer from Open with the standard indenter or none, panics, whether or not earlier calls returned errors; neither do NodeKind.Name and String, Event.String and the validators on any argument. (Nil nodes and panics out of user-supplied writers or indenters excepted.)",
 ["histories", "inputs"], "every sequence of calls, every argument", "The tests follow the happy path; index arithmetic on the stack has to hold after any history, including failed calls.",
 ["writer.go", "node.go", "elem.go", "indenter.go", "nodekind.go", "printer.go"], [{"name": "the invariant of the stack", "where": "writer.go, node.go"}, {"name": "the indenter's stack", "where": "indenter.go"}], state=STACK)
prop("C19", "Raw output is verbatim and transparent",
 "WriteRaw appends exactly the bytes given, wherever it is called, and changes nothing else: open nodes stay as they are, and a start tag that is not closed yet stays so until the next node or Next(). Next() completes the start of the innermost node exactly once.",
 ["inputs", "histories"], "every string, every state of the writer", "The tests write raw strings in two places.",
 ["nodes.go", "writer.go"], [{"name": "Raw.write, Writer.Next", "where": "nodes.go, writer.go"}], state=STACK)
prop("C20", "Valid calls succeed",
 "A call that breaks none of the documented rules fails only if the destination has failed. With Enforce on the rules are: the node may stand inside the innermost open node (attributes only until the start tag is closed); its names are non-empty and accepted by CheckName, also together with their prefix (prefix:name, xmlns:prefix); the content, identifiers, encoding and fields of the node, and what the open node was started with and still has to write, satisfy CheckChars, CheckPubID, CheckEncoding and the rules on '--', ']]>', '?>', quotes and DTD declarations; an open comment does not end in '-' when it is ended. A prefix is not given a second URI on an element, and the kind and names passed to an End call are those of the node it ends. With Enforce off only conflicting prefixes, contradictory DTD arguments (a default value for #REQUIRED or #IMPLIED, NDATA on a parameter entity, an unknown default) and ends that do not match are refused. This is claimed for writers without an indenter or with the standard one, whose last call did not fail, and for Content made of Text, Comment, CData and Elem values.",
 ["histories", "inputs"], "every sequence of valid calls", "The tests check a few valid documents; a check that is a little too strict rejects inputs no test has.",
 ["writer.go", "nodes.go", "elem.go", "attr.go", "dtd.go", "printer.go", "check.go"], [{"name": "every error return", "where": "all files"}], state=STACK)
prop("C21", "Options and encodings take effect",
 "Open gives a writer with Enforce and StrictChars on, newline \"\\n\", no indenter and encoding UTF-8, as modified by the options in the order given; WithIndent and WithIndentString install the standard indenter with that string. OpenEncoding sends to the destination the encoder's translation of the UTF-8 document, with characters the encoding lacks as character references, and declares the encoding under the given name.",
 ["configurations", "inputs"], "every option list, encoder and document", "The tests use two encodings.",
 ["writer.go"], [{"name": "newWriter, Open, OpenEncoding, WithIndent, WithIndentString", "where": "writer.go"}])

exec(open("ready.py").read())
by = {p["id"]: p for p in P}
for i, d in READY.items():
    by[i].update(ready=True, **d)

with open("properties.jsonl", "w") as f:
    for p in P:
        json.dump({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                   "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mech"], "observe_at": ["bytes reaching the destination", "error returned by each call"], "hook_needed": None}}, f)
        f.write("\n")
json.dump({p["id"]: {"bounded": p["bounded"], "known": p["known"], "level": p["level"]} for p in P}, open("props.json", "w"), indent=1)
checks = []
na = []
for p in P:
    if p["ready"]:
        checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "contract-based deductive verification: contracts on the real functions, verification conditions generated from go/ssa of /repo's source, discharged by z3 and cvc5",
            "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("reason") or "contracts for the functions this property rests on are not complete yet"})
json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
  "notes": "The contracts are in contracts/*.spec, keyed by function; the generator in engine/ builds go/ssa from /repo's working tree on every run, so /repo needs no hooks. replay/ replays counterexamples on the real code through its exported API."}, open("MANIFEST.json", "w"), indent=1)
