import json
V='relaxng-validator/src/lib.rs'; M='relaxng-model/src/lib.rs'; MM='relaxng-model/src/model.rs'; X='relaxng-model/src/datatype/xsd.rs'; R='relaxng-model/src/datatype/relax.rs'; C='relaxng-syntax/src/compact.rs'; XS='relaxng-syntax/src/xml.rs'; T='relaxng-syntax/src/types.rs'; CLI='relaxng-tool/src/main.rs'
props=[]
def p(id,title,statement,over,text,why,files,mech):
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m.strip(),where=files[0]) for m in mech.split(',')])))
p('C01','Verdict equals the RELAX NG meaning of the patterns',
 'For every correct schema and every well-formed namespace-aware document, validation reports no error exactly when the document matches the schema under the RELAX NG specification (section 6): group, choice, interleave, mixed, optional, zeroOrMore, oneOrMore, element, attribute, text, empty, notAllowed and (possibly recursive) references. In particular no required element or attribute may be missing, none may be surplus or out of order, attributes may come in any order, and whitespace-only text is ignored exactly where the specification says so.',
 ['inputs','programs'],'all correct schemas (programs) x all well-formed documents',
 'The spectest suite has a few hundred fixed schema/document pairs (a quarter of which fail and are ignored); interactions of nested operators, nullability, recursion and partially consumed interleaves are sampled at a handful of points.',
 [V,M,MM],'derivative computation over hash-consed patterns: start_tag_open_deriv, att_deriv, start_tag_close_deriv, text_deriv, end_tag_deriv, smart constructors and nullability, reference placeholders')
p('C02','Name classes and namespaces decide which names are accepted',
 'An element or attribute is accepted by a name class exactly when its expanded name (namespace URI, local name) belongs to it, for names, nsName, anyName, choices and (nested) exceptions. Prefixes are resolved by the declarations in scope where the name occurs, on both the schema and the document side; the default namespace applies to elements but not to attributes; prefixes themselves are never significant.',
 ['inputs','programs'],'all name classes x all expanded names x all ways to declare/shadow/undeclare namespaces in schema and document',
 'Tests use a few hand-written names; shadowing, undeclaring, the xml prefix, inherited namespaces and deep exceptions interact combinatorially.',
 [V,M,C,XS],'contains(), ElementStack scoping of xmlns attributes, Context namespace lookup, NameClass compilation')
p('C03','data, value, list and except judge the whole normalised string',
 'Patterns on strings judge the complete string value of the attribute or element content: value compares under the equality of its datatype (string exactly, token after whitespace collapsing), list splits on whitespace and matches the token sequence, data/except accepts exactly the strings of the datatype that do not match the exception. Literals mean exactly their characters, however they are written in the schema, and string content never matches in part.',
 ['inputs','programs'],'all string patterns (value/data/list/except and their combinations) x all string values in element and attribute position',
 'Only a few fixed literals are tested; whitespace forms, empty strings, non-ASCII text, and combinations of list/choice/oneOrMore/except are unbounded.',
 [V,R,X,C,XS],'text_deriv, value_match, process_pending_text, normalize_whitespace, builtin and XSD value datatypes')
p('C04','XSD datatypes accept exactly their lexical space and facets',
 'Each supported XML Schema datatype accepts a value exactly if, after the whitespace processing of that type, it is in the type\'s lexical space and value range and satisfies every facet given (bounds, lengths counted in characters, digits, whole-value patterns).',
 ['inputs','configurations'],'all supported datatypes x facet combinations x string values, including boundary values of every range',
 'Unit tests instantiate one facet; value ranges, calendar rules, digit counts and facet conjunctions are infinite spaces with boundaries.',
 [X],'XsdDatatypes::is_valid, MinMaxFacet, LengthFacet, PatternFacet, per-type facet compilation')
p('C05','The verdict depends only on the infoset of the document',
 'Two documents with the same namespace-aware infoset always get the same verdict. Attribute order, quote style, prefix choice, redundant namespace declarations, CDATA sections, character and predefined or declared internal entity references, comments, processing instructions, empty-element notation, line-end style, XML declaration, doctype and whitespace inside tags never matter.',
 ['inputs','programs'],'all schema x document pairs x all serialisations of the same infoset',
 'Tests validate each document in one serialisation only.',
 [V],'token handling in validate(), pending text accumulation, entity decoding, ElementStack')
p('C06','A document that is not well-formed is never accepted',
 'A document that is truncated, has mismatched, unclosed or surplus tags, repeated attributes (also via two prefixes of one namespace), undeclared prefixes, undefined or malformed references, content outside the root element, no root element, or broken markup is always reported as an error, whatever the schema, even if what precedes the defect is valid.',
 ['inputs','programs'],'all single well-formedness faults at all positions of all (otherwise valid) documents',
 'Tests only use well-formed documents; the fault position and kind space is unbounded.',
 [V],'validate_next end-of-input handling, ElementStack push/pop, entity decoding, add_attr/current_attributes')
p('C07','XML and compact syntax of one schema are equivalent',
 'A schema gives the same compiled model and the same verdict for every document, and is accepted or rejected alike, whether written in the compact syntax or in the equivalent XML syntax.',
 ['programs','inputs'],'all schemas expressible in both syntaxes x all documents',
 'The spectest suite only exercises the XML syntax and the unit tests only the compact syntax; no test relates the two.',
 [C,XS,M,T],'both parsers produce relaxng_syntax::types, which the model compiler consumes')
p('C08','Composed grammars mean the same as their flattened form',
 'Splitting a grammar must not change its meaning: definitions combined with |= and &=, moved into div or included files, overridden in an include, external patterns, nested grammars with parent references, definitions with equal names in different grammars, and arbitrarily nested relative file references give the same verdicts as the equivalent single flat grammar.',
 ['programs','configurations','inputs'],'all decompositions of a grammar into files, includes, overrides, externals, nested grammars and combined definitions',
 'Composition is tested with one-feature examples; combinations (override of a combined definition in a div of an include within a nested grammar ...) are not.',
 [M],'Context chain (Root/Include/Grammar/Define), define/combine rules, include overrides, compile_external, file path resolution')
p('C09','Incorrect schemas are rejected, with the error of the fault',
 'A schema with one of these faults is never compiled: undefined or parentless references, duplicate definitions, conflicting combine operators, missing start, recursion without an intervening element (of definitions in use), recursive or missing files, included files that are not grammars, overrides without target, undeclared or re-declared namespace or datatype prefixes, an element directly within an attribute (not by way of a reference or nested grammar), unknown datatypes or libraries, invalid values, invalid, conflicting, duplicate or inapplicable facets and parameters, syntax errors. The error reported is of the kind of that fault, wherever it is: also in included or external files, nested grammars, overrides, divs or (but for recursion) unused definitions. This is so in either syntax.',
 ['programs'],'all single faults of the listed kinds injected at all applicable places of all correct schemas, in both syntaxes',
 'Each kind of error is tested at most once, in the simplest position.',
 [M,X,R,C,XS],'RelaxError producers: define(), check_ref_recursion, RecursionCheck, get_ref/undefined_name, overrides bookkeeping, facet merging')
p('C10','Loading a schema always ends with a result that can be reported',
 'Compiling any text in either syntax, whatever it refers to (including files that are missing, unreadable, recursive or garbage), terminates with a model or an error, never with a panic, abort or hang. Every error can be rendered as a diagnostic, whose locations lie within the loaded files.',
 ['inputs','programs'],'all byte strings as schema text (mutations of correct schemas, token soups, truncations), all file graphs, all load failures',
 'Fuzz-shaped inputs are not tested at all; unit tests only parse a few correct and incorrect inputs.',
 [M,C,XS,X],'parsers, error conversion with spans, compile_*; Compiler::dump_diagnostic')
p('C11','Validating always ends with a verdict that can be reported',
 'For any schema and any text as document, validation makes progress to the end of the input without panic, abort or hang, also when the caller continues after errors, and stays at the end once there. Every error can be rendered as a diagnostic, whose locations lie within the document.',
 ['inputs','programs','histories'],'all (schema, document text) pairs including garbage, truncation and multibyte text at every offset; all continuations after errors',
 'Tests stop at the first error, never render a diagnostic, and only use well-formed text.',
 [V],'validate_next state machine, error recovery state, diagnostic()')
p('C12','The first error is reported at the first offending item',
 'When a well-formed document does not match, the first error is reported at the item that makes the document unmatchable: everything before it could still be completed to a valid document, and nothing that includes it can. Errors are never reported late or early, and the reported location in the source is that of the offending start-tag (its name), attribute, text or tag end.',
 ['inputs','programs'],'all (schema, invalid document) pairs',
 'Tests only compare the overall verdict; no test looks at which token or span is reported.',
 [V],'error returns of validate(), close_element_start(), process_pending_text(); tokens stored in the element stack')
p('C13','Validations are independent of each other and repeatable',
 'The outcome of compiling and validating (verdict, errors, locations, rendered messages) is a function of the schema files and the document alone: it does not depend on earlier or interleaved validations using the same compiled schema, on reuse of the compiler (but for the spelling of . segments in the names of files, and the order of the sections of a message), on hash seeds or on the process.',
 ['histories','schedules','configurations'],'all histories of compilations and (interleaved, abandoned, failing) validations sharing models and compilers',
 'Each test uses a fresh compiler, a fresh model and one document.',
 [V,M],'Schema interning per Validator, Rc<RefCell> model sharing, Compiler::loaded cache, HashMap iteration')
p('C14','The command line tool reports the verdict by its exit status',
 'The rng tool exits with success if and only if the schema compiles and every given document is readable and valid; otherwise its status is non-zero and a diagnostic on standard error names the offending file and line. Every document is checked in order until the first failure, standard output stays empty, and input files are never modified.',
 ['inputs','configurations'],'all combinations of schema and lists of documents: valid, invalid at any list position, malformed, missing, unreadable, not UTF-8',
 'The tool has no tests.',
 [CLI],'main(), validate(), exit codes, diagnostics emitter')
p('C15','Resource use grows moderately with the size of the document',
 'Validating takes resources that grow no more than polynomially with small degree (near linearly for documents of repeated content) with document length, width, number of attributes, and schema size, and validation copes with documents of any length; documents with many records, many siblings, large text, or many alternatives neither exhaust identifiers nor blow up exponentially. (Interleaves whose branches allow the same element names are excepted: keeping track of them is inherently exponential.)',
 ['inputs','programs'],'all sizes within the tested families: long, wide, nested, many attributes, many alternatives, interleaves, ambiguous patterns',
 'The tests only use documents of a few dozen bytes.',
 [V],'hash-consing of patterns, choice de-duplication, att_deriv memo, PatId width')
p('C16','Expected-element hints are truthful and complete',
 'When the first error of a document is a start-tag, text or end-tag that is not allowed, the hint that accompanies it names exactly the element name classes that could have come next at that position according to the schema (in abbreviated form beyond four), and suggests removal only if none could.',
 ['inputs','programs'],'all (schema, invalid document) pairs whose error is a disallowed item',
 'No test renders a hint.',
 [V],'describe_expected(), heads(), describe_nameclass()')
p('C17','A schema loads exactly the files it refers to',
 'Compiling reads exactly the files that are transitively referenced from the root schema, each resolved relative to the file that refers to it (and to xml:base attributes in force), and each (by its path as it is spelled, but for . segments) read at most once, and the compiler lists exactly those as loaded.',
 ['programs','configurations'],'all reference graphs over directories (diamonds, nesting, .. and . segments, externals and includes)',
 'Tests use at most two flat in-memory files.',
 [M],'get_schema(), loaded(), path joining in include/external compilation')
p('C18','Schema errors are located at the faulty construct',
 'The diagnostic for a faulty schema (with a fault of the kinds of C09) names the file that contains the fault and a location within that file that lies within the faulty construct (and any name that the error gives is the one in question); conflicting definitions are both shown. Errors found while reading an included or external file also show each of the references by which that file was reached. (Datatype prefixes declared twice and conflicting facets are reported without location; errors about a grammar as a whole, such as undefined or recursive references or a missing start, need not show the references to files.)',
 ['programs'],'all faults of the located kinds at all places of all correct schemas and files',
 'No test looks at schema error locations.',
 [M,C,XS],'span computation in both parsers, convert_span, RelaxError spans, IncludeError chaining')
p('C19','Compact notation is insensitive to insignificant variation',
 'Whitespace, comments, annotations, redundant parentheses, div blocks, the choice among literal delimiters, concatenated literals, quoted identifiers, namespace and datatype prefix names, order of declarations and of definitions, and names that begin with or equal keywords never change the model that a compact schema compiles to.',
 ['programs'],'all notational variants of all compact schemas',
 'Unit tests parse each construct in one spelling.',
 [C,M],'nom parsers: space_comment0, annotations, identifiers vs keywords, literals')
p('C20','XML notation is insensitive to insignificant variation',
 'Prefix choice for the RELAX NG namespace, ns and datatypeLibrary inheritance versus explicit attributes, name attributes versus name elements, foreign elements and attributes, comments, processing instructions, CDATA, whitespace, attribute order, div elements and implicit groups never change the model that an XML-syntax schema compiles to.',
 ['programs'],'all notational variants of all XML-syntax schemas',
 'The spectests use each feature in isolation.',
 [XS,M],'xml.rs: attribute inheritance, name resolution, foreign-markup skipping, implicit groups')
p('C21','The compiled model exposes the schema faithfully',
 'The model handed to library users describes the schema itself: interpreting its patterns, name classes and references by the specification gives the verdicts of the schema, and the bounds, lengths and patterns its datatypes expose (minimum, maximum, bounded, length, regex) are exactly those the datatype enforces (integer bounds are exposed as inclusive bounds).',
 ['programs','inputs'],'all correct schemas; all facet combinations',
 'Tests never inspect the model or its facet accessors.',
 [MM,M,X,R],'model::Pattern construction; StringFacets and MinMaxFacet accessors')
p('C22','Exactly the grammatical texts are taken for schemas',
 'A compact schema text is rejected with a syntax error if and only if it is not derivable from the grammar of the compact syntax, and an XML-syntax schema text if and only if it is not well-formed or its elements, attributes, names and text do not follow the schema for RELAX NG schemas (which includes the rules on wildcards within exceptions of wildcards). Any other fault, such as an undefined reference, is reported as an error of its own kind, and only for grammatical texts. (Out of scope: \\x{} escapes, byte order marks, document type declarations, repeated occurrence operators and unparenthesised exceptions.)',
 ['inputs','programs'],'all texts of both notations and all texts near them',
 'Tests hold a fixed set of wrong texts.',
 [C,XS],'the nom parsers of compact.rs; xml.rs: checks of attributes, children, text and names')
p('C23','Documents are told from texts that are not, and a defect is located',
 'For any text: with a schema that allows every document, the validator reports no error if and only if the text is a well-formed and namespace-well-formed XML document; otherwise the first error is located within the construct (tag, attribute, reference, text, comment, declaration, or the end of the text) in which the text stops being one. With any other schema, a text that is a document is judged by the elements, attributes and text that XML assigns to it. (Out of scope: markup within entities, external and parameter entities, declarations of elements, attributes and notations.)',
 ['inputs'],'all texts near well-formed documents, combined with all schemas',
 'Tests hold a handful of documents with a syntax error.',
 [V],'validate_next, check_token, validate, parse_entities, EntityDefinitions, diagnostic')
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in props))
