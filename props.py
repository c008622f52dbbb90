"""The properties: source of properties.jsonl and MANIFEST.json (python3 gen_meta.py)."""

DE = "instant-xml/src/de.rs"
SER = "instant-xml/src/ser.rs"
IMPLS = "instant-xml/src/impls.rs"
LIB = "instant-xml/src/lib.rs"
ANY = "instant-xml/src/any_element.rs"
MDE = "instant-xml-macros/src/de.rs"
MSER = "instant-xml-macros/src/ser.rs"
MLIB = "instant-xml-macros/src/lib.rs"
MMETA = "instant-xml-macros/src/meta.rs"
MCASE = "instant-xml-macros/src/case.rs"


def P(id, title, statement, over, text, why, files, mech, state=(), observe=("from_str", "to_string")):
    return dict(
        id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None),
    )


PROPS = [
    P("C01", "Serialize-then-deserialize gives back an equal value",
      "For every value of a type deriving both ToXml and FromXml, serialising it succeeds, and deserialising the result gives a value equal to the original. "
      "This covers named, tuple and unit structs, attributes, optional, repeated, boxed, borrowed and generic fields, direct text, nested structs, namespaces, renames, forward and scalar enums and transparent types. "
      "Values the format cannot tell apart (an absent and an empty optional text or list) are equal for this purpose.",
      ["inputs", "programs"], "all values of the type shapes the derive macros produce",
      "The tests round-trip or compare a handful of fixed values per shape; the property is about every string, number and combination of present and absent fields.",
      [DE, SER, IMPLS, LIB, MDE, MSER],
      [("derived FromXml and ToXml code", MDE + ", " + MSER), ("scalar, Option, Vec, Box and Cow implementations", IMPLS)]),
    P("C02", "Text and attribute values survive escaping",
      "Any string of XML characters written as element text, attribute value or direct text yields well-formed XML from which an independent parser reads exactly that string, in exactly that place. "
      "It can neither add elements or attributes nor change or lose a character.",
      ["inputs"], "every string (and every type rendered through Display) in every textual position",
      "The tests escape three or four literal strings; an escaping hole is a property of all characters and all positions.",
      [SER, IMPLS, MSER], [("encode and the Display writer", IMPLS), ("attribute and text output", SER)]),
    P("C03", "Character and entity references decode exactly",
      "The five predefined entities and decimal and hexadecimal character references decode to the character they denote, wherever text or an attribute value occurs, and the text around them is kept. "
      "Every other reference is reported as an error: unknown names, missing semicolons, numbers that denote no character, digits outside the radix.",
      ["inputs"], "every string of references and plain text up to the bound, as text and as attribute value",
      "The tests decode four or five references; which strings are references at all, and their values up to 0x10FFFF, cannot be sampled.",
      [IMPLS], [("decode", IMPLS)]),
    P("C04", "Deserialisation is total on arbitrary input",
      "Given any string at all, deserialising it into any derived or built-in type terminates with a value or an error. "
      "It never panics, overflows, aborts, loops forever or reads outside its input, however malformed, truncated or adversarial the document.",
      ["inputs"], "every input string up to the length bound and every arbitrary byte pattern inside larger documents, for several reader types",
      "The tests feed about a hundred mostly valid documents; totality is about all malformed ones.",
      [DE, IMPLS, LIB, ANY, MDE], [("tokenising and the deserialiser state machine", DE), ("value parsing", IMPLS)]),
    P("C05", "Exactly the complete, properly nested single-root documents are read",
      "A document is accepted only if it is complete: one root element, every tag closed by the matching tag in the right order, nothing but comments and white space around the root. "
      "Every such document whose content fits the type is accepted; a truncated or mis-nested one is an error even when what is missing or misplaced concerns parts the type ignores.",
      ["inputs"], "every sequence of structural tokens up to the bound, every truncation, duplication, deletion and one-character edit of the sample documents",
      "The tests contain two or three malformed documents; nesting errors are a property of all token sequences.",
      [DE, LIB], [("the tag stack and its checks", DE), ("from_str's end-of-input check", LIB)]),
    P("C06", "Names on input resolve by their namespaces, not their prefixes",
      "When reading, element and attribute names are compared by namespace name and local name, where prefixes and the default namespace resolve to the innermost declaration in scope, exactly as Namespaces in XML prescribes: scopes end with their element, xmlns=\"\" undeclares the default, unprefixed attributes are in no namespace, xml is predeclared. "
      "Which prefix is used, and whether a namespace is declared on the element or on an ancestor, never matters; undeclared prefixes are errors.",
      ["inputs"], "all placements of declarations and prefixes over element trees up to the bound",
      "The tests use a few documents with the conventional prefixes; scoping is about all placements and shadowings.",
      [DE, LIB, MDE], [("the prefix and default-namespace maps of each context level", DE)]),
    P("C07", "Unknown content is skipped whole; order of distinct fields is irrelevant",
      "Elements and attributes a type does not declare are ignored with everything inside them and do not influence any field, wherever they stand, whatever they contain, even when their names equal those of known fields in another namespace or at another depth. "
      "The order in which distinct fields appear does not matter; repeated ones keep document order.",
      ["inputs"], "all orders and insertions of unknown content from the catalogue, with arbitrary names and text, for structs, direct content, tuples and unit structs",
      "The tests have one or two documents with an extra element.",
      [DE, MDE, IMPLS], [("ignore and nested deserialisers", DE), ("derived field dispatch", MDE)]),
    P("C08", "Serialised names resolve to the namespaces they were written for",
      "In the XML produced, every element and attribute name resolves, by the declarations the document itself contains, to the namespace and local name the type asked for. "
      "This holds for any nesting of default namespaces, prefix declarations, shadowed prefixes, forced prefixes and fields with their own namespaces, and declarations stop applying where their element ends.",
      ["inputs", "programs"], "all combinations of default namespaces, declared prefixes, forced prefixes and attribute namespaces over trees up to three levels, and the derived types",
      "The tests compare fixed output for a few nestings.",
      [SER, MSER], [("write_start, write_attr and the context stack", SER)], observe=("to_string", "Serializer")),
    P("C09", "The serializer rejects misplaced calls and stays well-formed",
      "A serializer call that is not allowed at the current point (an attribute outside a start tag, text or an element inside one, an element as attribute value) returns an error, writes nothing and leaves the allowed continuations as they were. "
      "Any sequence of calls that is completed yields well-formed XML describing exactly the accepted calls.",
      ["histories", "inputs"], "every sequence of serializer calls up to the bound, with arbitrary text",
      "The tests only make legal calls in the usual order.",
      [SER, IMPLS], [("the serializer's state", SER)], observe=("Serializer",)),
    P("C10", "Required, optional and repeated fields occur as often as declared",
      "A required field that is absent and a non-repeated field that occurs twice are errors naming that field, and neither is ever silently dropped or overwritten; an optional field may be absent, and a repeated one collects all its occurrences in document order. "
      "This holds alike for attributes, child elements and direct text, and for all kinds of field types.",
      ["inputs"], "documents with zero to several occurrences of each field kind, with arbitrary content",
      "The tests check one missing and one duplicate value, for strings.",
      [IMPLS, LIB, MDE], [("accumulators and missing_value", LIB), ("duplicate checks in the built-in and derived implementations", IMPLS + ", " + MDE)]),
    P("C11", "Integers are read and written exactly over their whole range",
      "Every integer type reads exactly the texts that denote one of its values (optional sign, decimal digits, surrounding white space ignored as implemented by the type's parser) and yields that value; everything else, including values outside the range, is an error and never wraps or truncates. "
      "Every value is written in its canonical decimal form and reads back as itself.",
      ["inputs"], "all ten integer widths; every short text, every text near the limits, every value written",
      "The tests read one or two small numbers per type.",
      [IMPLS], [("from_xml_str and the integer implementations", IMPLS)]),
    P("C12", "Booleans, characters, addresses and text have exact lexical forms",
      "bool reads exactly true, false, 1 and 0; char reads exactly one character; IP addresses read exactly the standard notation; text is kept verbatim; unit structs take no content. "
      "Each value is written in a form that reads back as itself, and a text that denotes no value is an error naming the problem.",
      ["inputs"], "every short text per type and every value written",
      "The tests use a few literals per type.",
      [IMPLS, MDE], [("from_xml_str and the scalar implementations", IMPLS)]),
    P("C13", "Depth and attribute limits are enforced exactly",
      "A deserializer with limits accepts every document within them and reports an error for each document that exceeds the nesting depth or the number of attributes of one element, wherever that happens, also inside content the type ignores. "
      "The limits count per level and per element, and do not accumulate over siblings.",
      ["inputs"], "all small limits against all shapes of the catalogue",
      "The tests check one document per limit.",
      [DE], [("push and attribute counting", DE)], observe=("Deserializer::with_limits", "from_str")),
    P("C14", "AnyElement represents any element faithfully",
      "Reading an arbitrary element into AnyElement keeps its resolved namespace and name, its attributes with their resolved names and decoded values, its text and all children in order, at every depth. "
      "As root, as required, optional or repeated field, and after into_owned, the same element gives an equal value.",
      ["inputs"], "all trees up to the bound with arbitrary text and attribute values",
      "The tests read one document.",
      [ANY, DE], [("AnyElement's FromXml implementation and into_owned", ANY)]),
    P("C15", "Scalar enums map each variant to exactly one text",
      "A scalar enum variant is written as its declared text (its name, its renamed or case-converted name, or its discriminant), and exactly that text is read as the variant. "
      "Any other text is an error; this holds for elements, attributes, direct text and lists, with or without a namespace on the enum.",
      ["inputs", "programs"], "every short text and every near miss of the declared texts",
      "The tests read one or two variants and one wrong text.",
      [MDE, MSER, MMETA, MCASE], [("serialize_scalar_enum and deserialize_scalar_enum", MSER + ", " + MDE), ("variant naming", MMETA)]),
    P("C16", "Forward enums and transparent structs are exactly their contents",
      "A forward enum is written as the value of its variant and nothing else, and is read as the variant whose element name and namespace stand there; an element naming no variant is no value of the enum. "
      "A transparent struct is written as the elements of its fields in the surrounding element, and read from them in any order; elements it requires but does not find are reported as missing, repeated ones as duplicates.",
      ["inputs", "programs"], "every short element name, namespace and content; every placement as root, field, option, list, tuple",
      "The tests read one document per variant and one transparent struct.",
      [MDE, MSER, LIB], [("deserialize_forward_enum, inline deserialization", MDE), ("serialize_forward_enum, inline serialization", MSER)]),
    P("C17", "Names derive from identifiers by the declared rule, alike in both directions",
      "The XML name of a field or enum variant is its rename if it has one, otherwise its identifier (without r#) converted by the container's rename_all rule; type names are kept unless renamed. "
      "Writing uses that name and reading accepts exactly that name. Every documented rule name is accepted with its documented meaning and any other is rejected.",
      ["inputs", "programs"], "every short identifier under every rule, and derived types under every rule",
      "The tests use two rules on two or three identifiers.",
      [MCASE, MMETA, MDE, MSER], [("RenameRule::apply_to_field, apply_to_variant, from_str", MCASE), ("names of fields and variants", MMETA + ", " + MDE + ", " + MSER)],
      observe=("from_str", "to_string", "RenameRule")),
    P("C18", "Borrowed values are slices of the input, or correct owned copies",
      "A field marked borrow, and every name, namespace, attribute value and text of an AnyElement, is exactly the slice of the input where it stands if nothing in it has to be decoded or joined. "
      "Otherwise (references, text interrupted by comments or CDATA sections) it owns the correct decoded text; borrowed and owned values never differ in content.",
      ["inputs"], "all contents of up to four pieces with arbitrary characters, in all borrowing positions",
      "The tests check two texts for borrowing.",
      [DE, ANY, IMPLS, MDE], [("borrow_cow_str, complete_text, decode", DE), ("AnyElement's FromXml implementation", ANY)]),
    P("C19", "Documents that differ only in spelling read as the same value",
      "XML declaration, byte order mark, comments, white space inside tags and between elements, kind of quotes, order of attributes and namespace declarations, empty-element tags, references against CDATA sections against plain characters, prefix names and where they are declared do not influence the value read. "
      "This holds for any combination of these, for attributes, elements, lists, optional, tuple and unit structs and direct text.",
      ["inputs"], "all combinations of three spelling variations with arbitrary text",
      "The tests write each document in one spelling.",
      [DE, IMPLS, MDE], [("Context::next and complete_text", DE), ("derived deserialization of structs and tuple structs", MDE)], observe=("from_str",)),
    P("C20", "Dates and times denote the same instant in text and value",
      "Every DateTime<Utc>, NaiveDateTime and NaiveDate is written as text that denotes exactly that value, including leap days, leap seconds and fractions, and reads back as itself. "
      "Every RFC 3339 text in UTC (local and date-only forms for the naive types) is read as the instant it denotes; text that denotes no instant is an error, and an offset from UTC is never dropped silently.",
      ["inputs"], "all days, times, fractions and near misses within the bounds",
      "The tests read and write one instant.",
      [IMPLS], [("ToXml and FromXml for DateTime<Utc>, NaiveDateTime, NaiveDate", IMPLS)]),
    P("C25", "References, boxes, options and cows do not show in the XML",
      "A value written through a reference, Box, Some, Cow or slice, in any nesting and position (element, attribute, direct text, list, root), gives the same bytes as the value itself; an absent value leaves nothing however it is wrapped; to_writer gives what to_string gives. "
      "Box<T> reads exactly what T reads, with the same kind of error otherwise.",
      ["inputs"], "all values and wrappings within the bounds",
      "The tests wrap two types in one way.",
      [LIB, IMPLS, MSER], [("ToXml for &T, Box, Option, Cow, [T], Vec and their present()", IMPLS), ("FromXml for Box", IMPLS)]),
    P("C21", "A failing writer fails the serialisation, at once",
      "If the writer fails at any point, serialising returns the formatting error: it never panics, never reports success, and writes nothing further. What was written until then is a prefix of the document; with a writer that does not fail the document is complete and equals to_string's.",
      ["inputs", "faults"], "every place of a fault within the documents of the catalogue",
      "The tests only write to String, which never fails.",
      [SER, IMPLS, LIB, MSER], [("Serializer::write_* and end_*", SER), ("derived serialize bodies", MSER)], observe=("to_writer", "Serializer")),
    P("C22", "The Deserializer cursor yields a document's nodes in order, exactly once",
      "Walking a well-formed document with the public cursor (next, nested, ignore, take_str, for_node, deserialize, in any combination) yields every attribute, text and element of the current element once, in document order, with its resolved name; then its end, for good. "
      "ignore skips exactly the rest of the element, a nested cursor covers exactly its element, a node given back is read first, and namespace and parent answer for the place the cursor is at.",
      ["inputs", "histories"], "all documents and walks within the bounds",
      "The tests use the cursor only through derived code.",
      [DE], [("Deserializer::next, nested, ignore, take_str, for_node, namespace", DE), ("Context::next", DE)],
      state=[("records", "nodes queued before the tokenizer is asked again", DE), ("stack", "open elements and their declarations", DE)], observe=("Deserializer",)),
    P("C23", "An element reads the same wherever it stands",
      "An element that carries its own namespace declarations gives the same value, or the same error, as root and as required, optional, boxed or repeated field, tuple member, at any depth and after any siblings; and it does not influence how its siblings are read.",
      ["inputs"], "all elements and surroundings within the bounds",
      "The tests place each type in one spot.",
      [DE, IMPLS, MDE], [("nested deserializers and namespace scopes", DE), ("derived deserialization of elements", MDE)], observe=("from_str", "Deserializer")),
    P("C24", "The document written is exactly the declared tree",
      "Serialising a value gives the element tree its type declares: attributes and child elements in declaration order under their declared names and namespaces, list items in order, absent options and empty lists leaving nothing, direct text as text, and nothing else. Types nest in any combination without influencing each other.",
      ["inputs"], "all values within the bounds of the catalogue of types",
      "The tests compare a handful of fixed outputs.",
      [SER, IMPLS, MSER], [("derived serialize bodies", MSER), ("ToXml of Option, Vec, Box, Cow and scalars", IMPLS)], observe=("to_string",)),
    P("C26", "User-supplied conversions are used exactly where declared",
      "A scalar implemented by hand with display_to_xml and from_xml_str is written as its escaped Display text and read by its FromStr in every position (element, optional, list, attribute, direct text); texts it rejects are UnexpectedValue errors, repeated ones DuplicateValue errors, absent ones MissingValue errors. "
      "A serialize_with function's output stands exactly in the place of its field; a deserialize_with function is called for each element the field's type matches, on a deserializer for that element, and nowhere else; errors of either are the result.",
      ["inputs"], "all values and documents within the bounds",
      "The tests use one function with one value.",
      [IMPLS, MDE, MSER], [("display_to_xml and from_xml_str", IMPLS), ("serialize_with", MSER), ("deserialize_with", MDE)]),
    P("C27", "Output and result are functions of the input alone",
      "Serialising a value gives the same bytes every time, whatever was written or failed before; a list is written as its items one after the other, and an element without declarations of its own holds its content exactly as that content is written by itself. Reading a document gives the same value or the same error every time.",
      ["inputs", "histories"], "all values and documents within the bounds",
      "The tests serialise and read each value once.",
      [SER, DE], [("Serializer prefix and default namespace bookkeeping", SER), ("Deserializer context", DE)],
      state=[("prefixes", "prefixes in force", SER), ("shadowed", "prefixes hidden by nested declarations", SER)], observe=("to_string", "to_writer", "from_str")),
    P("C28", "Equivalent declarations mean the same",
      "Types that declare the same names and namespaces are written as the same documents, up to the prefixes chosen, and read the same documents with the same results, however they are declared: namespaces as literals or as constants by any path, xml arguments in any order and among other attributes, names by rename, rename_all or identifier, prefixes of any form, type parameters, aliases, cfg'd or macro-generated items, scalar variants by rename, rename_all or number.",
      ["inputs"], "all values and documents within the bounds, for ten declarations of one struct and four of one enum",
      "The tests check each form of declaration, if at all, by one value.",
      [MMETA, MLIB, MDE, MSER], [("NamespaceMeta::from_tokens and meta_items", MMETA), ("ContainerMeta, FieldMeta, VariantMeta", MLIB)], observe=("from_str", "to_string")),
    P("C29", "Fractional numbers are read and written exactly",
      "Every finite f32 and f64 is written as decimal text that reads back as the same value, sign of zero included; every text that Rust accepts as a number of the type is read as its correctly rounded value, and every other text is an error.",
      ["inputs"], "all values and texts of both types",
      "The tests do not use fractional numbers.",
      [IMPLS], [("to_xml_for_number!, from_xml_for_number!", IMPLS)]),
    P("C30", "What a type cannot mean is rejected by the derive macros",
      "A declaration that the derive macros cannot give a meaning (two modes, attributes in transparent structs, a direct field before others, unknown arguments, variants with data in a scalar enum) is a compile error and never code that drops or misplaces data.",
      ["inputs"], "all declarations",
      "Six unit tests expand one declaration each.",
      [MMETA, MLIB, MDE, MSER], [("ContainerMeta, FieldMeta, VariantMeta and meta_items", MLIB)]),
]

NOT_APPLICABLE = [
    dict(property="C29", reason="the text of a fractional number comes from and goes to the standard library's shortest-digits and correctly-rounding algorithms (Grisu, Ryu-like tables, Eisel-Lemire with 128-bit multiplications and big-number fallbacks); over symbolic digits or bits the solver does not decide a single conversion within the time of a check. Only concrete values are executed: h01_floats of C01 round-trips a catalogue of 32 extreme values in six positions, which is no verdict over all values."),
    dict(property="C30", reason="the inputs are Rust programs: the macros work on rustc's token streams through syn, whose values exist only inside the compiler and cannot be made symbolic, and the observable result is a compiler run. C17 executes the naming rules symbolically, and C28 decides what accepted declarations mean."),
]
