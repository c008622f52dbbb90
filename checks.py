"""Which harnesses decide which property, and within what bounds."""


def H(name, **kw):
    return dict(name=name, **kw)


CHECKS = {
    "C01": dict(
        module="p01",
        harnesses=[H("h01_named", shards=4), H("h01_direct", shards=4), H("h01_enums", shards=2), H("h01_nested"), H("h01_tuple"), H("h01_mixed"),
                   H("h01_transparent"), H("h01_ns"), H("h01_borrow"), H("h01_generic"), H("h01_rename"), H("h01_scalars"), H("h01_floats"), H("h01_rich", shards=4), H("h01_large")],
        bounds="one type per shape the derive macros distinguish; string fields of up to 2 XML characters of 1-3 UTF-8 bytes (every value), sequences of up to 2 markup-like fragments and characters; integers over their whole range, every combination of absent and present optional fields, lists of up to 2; every character inside strings of 20 lengths up to 1030, lists of up to 65 items, nesting of up to 29 levels; 16 f32 and f64 values each in 6 positions",
        outside="control characters XML does not allow; Option<Vec> (an empty list reads back as absent); Some(\"\") in a direct field; floats beyond the catalogue; longer strings, lists and nesting beyond the catalogue of sizes",
    ),
    "C02": dict(
        module="p02",
        harnesses=[H("h02_text"), H("h02_attr"), H("h02_direct"), H("h02_types"), H("h02_display"), H("h02_enum"), H("h02_bare"), H("h02_rich", shards=3), H("h02_ascii", shards=5), H("h02_long")],
        bounds="strings of up to 3 XML characters of 1-3 UTF-8 bytes (every value) in element, attribute, direct and bare position; every 6-character ASCII string; every sequence of up to 3 markup-like fragments and characters; any character within strings of 20 lengths up to 1030 (300 in the quick tier); String, &str, Cow, char, Display and scalar-enum sources",
        outside="control characters that XML cannot represent are emitted as they are; Serializer::write_str is raw by contract; arbitrary contents of longer strings",
    ),
    "C03": dict(
        module="p03",
        harnesses=[H("h03_decimal", reach=6, shards=2), H("h03_hex", reach=6, shards=4), H("h03_any", reach=6), H("h03_junk", reach=6), H("h03_sequence"), H("h03_plain"), H("h03_cdata"), H("h03_long", reach=6), H("h03_ignored", reach=6)],
        bounds="references of up to 8 arbitrary bytes between & and ;, all decimal and hexadecimal references of up to 7 digits, up to 3 references in sequence mixed with text, as text and as attribute value; a reference after texts of 20 lengths and up to 130 other references; references of up to 4 arbitrary bytes in content and attributes the type ignores",
        outside="references longer than 8 characters (rejected by design); &#X..; is accepted (lenient)",
    ),
    "C04": dict(
        module="p04",
        harnesses=[H("h04_short", shards=4), H("h04_tokens", shards=2), H("h04_temporal", shards=2), H("h04_hole_wide", shards=2), H("h04_hole_any", shards=2),
                   H("h04_hole", shards=2), H("h04_open"), H("h04_cut"), H("h04_scalars"), H("h04_cursor"), H("h04_long", reach=6), H("h04_long_names", reach=6)],
        bounds="every string of up to 4 bytes of valid UTF-8; arbitrary bytes (up to 3) at every hole of sample documents; every cut of them; every sequence of up to 4 markup fragments; arbitrary scalar texts of up to 4 bytes; every hole in date and time texts; values, names, prefixes, references and comments of 300 (1100) bytes with multi-byte characters across every offset",
        outside="stack depth at the nesting limit; memory exhaustion; longer arbitrary inputs",
    ),
    "C05": dict(
        module="p05",
        harnesses=[H("h05_tokens", reach=6, shards=4), H("h05_nested", reach=6, shards=2), H("h05_prefixes", reach=6, shards=2), H("h05_names", reach=6, shards=4),
                   H("h05_text", reach=6), H("h05_truncated", reach=6), H("h05_edit", reach=6), H("h05_mutate", reach=6), H("h05_large", reach=6, shards=3)],
        bounds="every sequence of up to 5 of 10 structural tokens (4 inside two open elements, 4 with prefixes); symbolic tag names of up to 2 characters; arbitrary text between tags; every truncation, deletion or repetition of up to 6 bytes, and every single-character insertion or replacement in the sample documents; up to 28 nested elements and names of up to 300 characters, with an arbitrary character in one closing tag",
        outside="DOCTYPE and processing instructions (rejected); inside the XML declaration; duplicate attributes, xmlns:p=\"\" and names starting with a colon (tolerated by the tokenizer)",
    ),
    "C06": dict(
        module="p06",
        harnesses=[H("h06_prefix_bytes", reach=6, shards=8), H("h06_tree", reach=6, shards=2), H("h06_typed", shards=1), H("h06_uri_bytes"), H("h06_xml"), H("h06_unknown"), H("h06_uri_reference"), H("h06_wide", reach=6), H("h06_levels", reach=6), H("h06_siblings", reach=6, shards=2)],
        bounds="trees of up to three levels with every placement of two prefixes, default declarations and undeclarations from the catalogue; symbolic prefixes and namespace names of up to 2 bytes; up to 32 declarations with prefixes and namespace names of up to 130 bytes, 27 levels of redeclaration; every sequence of up to 3 (thorough: 4) of 14 siblings with declarations of their own",
        outside="other combinations of many declarations",
    ),
    "C07": dict(
        module="p07",
        harnesses=[H("h07_junk", shards=4), H("h07_pairs"), H("h07_inside"), H("h07_attributes"), H("h07_symbolic"), H("h07_shapes"), H("h07_much")],
        bounds="17 kinds of unknown content, up to two at once in every gap between five fields in six orders, around and inside nested elements; unknown elements with symbolic names of up to 2 characters and symbolic text; 8 kinds of unknown attributes; arbitrary one-character field contents; up to 60 unknown attributes, elements, comments and 29 levels of unknown nesting",
        outside="three or more pieces of unknown content at once",
    ),
    "C08": dict(
        module="p08",
        harnesses=[H("h08_sibling", shards=6), H("h08_deep", shards=2), H("h08_pair", shards=2), H("h08_root"), H("h08_derived"), H("h08_attr_default"), H("h08_none_child"), H("h08_uri"), H("h08_wide", shards=6), H("h08_levels", reach=6)],
        bounds="every combination of default namespace (3), declared prefixes (9 sets of up to two), forced prefix and attribute namespace over two levels, over three levels and over two siblings with reduced sets; every presence combination of the fields of the derived types; up to 12 prefixes on an element, redeclared in another order, and up to 17 levels",
        outside="hand-written contexts passing None for an element in another namespace and attributes in the default namespace without a prefix (recorded findings)",
    ),
    "C09": dict(
        module="p09",
        harnesses=[H("h09_calls", reach=6, shards=2), H("h09_text", reach=6, shards=2), H("h09_attr_values"), H("h09_attr_scalars"), H("h09_value"), H("h09_attr_ns", reach=6)],
        bounds="every sequence of up to 7 calls of write_start, write_attr, text, end_start, end_empty, write_close (5 with arbitrary one-character text); every kind of value as attribute; every sequence of up to 3 (thorough: 4) of 10 acts inside an attribute value; up to 2 (thorough: 3) attributes in 4 namespaces with and without a prefix",
        outside="write_str, which is raw by contract; using an element token with another serializer",
    ),
    "C10": dict(
        module="p10",
        harnesses=[H("h10_text"), H("h10_scalar"), H("h10_time"), H("h10_struct"), H("h10_attr"), H("h10_mixed"), H("h10_tuple"), H("h10_direct"), H("h10_many")],
        bounds="0 to 3 occurrences of a field of each of 20 types as required, optional and repeated element, 0 or 1 as attribute, with unknown content or comments between them; all deviations of up to two fields in a seven-field struct; tuples of up to 4 elements; up to 70 list items and unknown elements between the occurrences of a single field",
        outside="more occurrences",
    ),
    "C11": dict(
        module="p11",
        harnesses=[H("h11_small", shards=1, reach=14), H("h11_short", reach=14), H("h11_edge", reach=6), H("h11_write8"), H("h11_write_u16"), H("h11_write_i16"), H("h11_write32"), H("h11_write_u64"), H("h11_write_i64"), H("h11_write_usize"), H("h11_write_isize")],
        bounds="every text of up to 4 bytes for 8-bit types and of up to 2 or 3 for the others, every text near the limits of each type (arbitrary bytes in the last places), and every 8- and 16-bit value written, and wider ones with an arbitrary byte (in any place for 64 bits) within four patterns",
        outside="longer texts with unconstrained bytes in every position",
    ),
    "C12": dict(
        module="p12",
        harnesses=[H("h12_bool", reach=6), H("h12_char", reach=6), H("h12_ipv4", reach=6), H("h12_ipv6", reach=6), H("h12_write"), H("h12_text"), H("h12_unit", reach=2)],
        bounds="every text of up to 5 bytes for bool, of up to 2 characters for char, of up to 3 free bytes within an address; every bool, char and IPv4 address and IPv4-mapped IPv6 addresses and some others written; text of up to 3 characters",
        outside="longer texts",
    ),
    "C13": dict(
        module="p13",
        harnesses=[H("h13_custom", reach=6, shards=4), H("h13_default"), H("h13_levels", reach=6), H("h13_totals", reach=2)],
        bounds="every pair of nesting and attribute limits up to 3 against every document of up to 5 levels and 5 attributes of the catalogue, and the default limits at the boundary",
        outside="the attributes of the root element, which with_limits does not bound",
    ),
    "C14": dict(
        module="p14",
        harnesses=[H("h14_text"), H("h14_attrs"), H("h14_shapes", reach=2), H("h14_field", reach=6), H("h14_owned", reach=2), H("h14_large")],
        bounds="trees of up to 3 levels and 4 elements with every placement of the catalogue's namespaces, attributes and text; arbitrary text and attribute values of up to 3 characters; up to 60 attributes, children or pieces of text and 30 levels",
        outside="the position of text between child elements, which AnyElement does not represent",
    ),
    "C15": dict(
        module="p15",
        harnesses=[H("h15_read", reach=6), H("h15_write", reach=2)],
        bounds="enums with plain, renamed, case-converted, integer and namespaced variants; every text of up to 3 printable characters and every one-character insertion, deletion or replacement in the variants' texts; as element, attribute, direct text and list",
        outside="longer texts",
    ),
    "C16": dict(
        module="p16",
        harnesses=[H("h16_root", reach=6), H("h16_field", reach=6), H("h16_tuple", reach=6), H("h16_write"), H("h16_write_text"), H("h16_transparent_text"), H("h16_transparent", reach=14), H("h16_optional"), H("h16_partial", reach=0), H("h16_inline_write")],
        bounds="a forward enum with struct, boxed, namespaced and nested forward variants against every element name of up to 2 letters in three namespaces with prefixed or default declaration and four kinds of content, as root, field, option, list and tuple; nested transparent structs with their elements in 12 orders and up to two of them absent, repeated or surrounded by unknown content; 5 kinds of text and element variants written in 8 places; a transparent struct of text fields in every presence, in another order and among unknown elements",
        outside="two forward variants of the same name, which the macros cannot see; partially present optional transparent structs (recorded finding)",
    ),
    "C17": dict(
        module="p17", internal="p17case",
        harnesses=[H("h17_field", internal=True), H("h17_variant", internal=True), H("h17_rules", internal=True, reach=6), H("h17_fields"), H("h17_variants")],
        bounds="every identifier of up to 7 characters, raw or not, under every rule; every one-character change of a rule's name; derived types with 12 fields and 6 variants under every rule, any two fields present",
        outside="non-ASCII identifiers; longer ones",
    ),
    "C18": dict(
        module="p18",
        harnesses=[H("h18_fields", reach=6), H("h18_nested", reach=6), H("h18_any", reach=6, shards=3), H("h18_long", reach=6)],
        bounds="content of up to 4 pieces (arbitrary character, multi-byte character, reference, comment, CDATA section, empty CDATA section) in borrowed fields of plain, nested, optional boxed and repeated structs, and in the names, namespaces, attributes, text and children of AnyElement; content of 20 lengths up to 1030 with an arbitrary character",
        outside="borrow on attribute and Cow<[u8]> fields, for which the derive macro produces code that does not compile; text beside an empty CDATA section may be copied",
    ),
    "C19": dict(
        module="p19",
        harnesses=[H("h19_spelling", shards=8), H("h19_long")],
        bounds="a document of eight elements with arbitrary characters in text and attribute values, in which up to three of 22 places are spelled differently (2 to 7 spellings per place); comments, white space and prefixes of 20 lengths up to 1030, up to 70 comments",
        outside="DOCTYPE, processing instructions and encodings other than UTF-8, which the library does not accept",
    ),
    "C20": dict(
        module="p20",
        harnesses=[H("h20_digits_instant", reach=6), H("h20_digits_local", reach=6), H("h20_digits_date", reach=6), H("h20_edit_instant", reach=6), H("h20_edit_local", reach=6), H("h20_edit_date", reach=6),
                   H("h20_write_instant"), H("h20_write_local"), H("h20_write_date")],
        bounds="15 texts with every pair of neighbouring digits arbitrary, or any one character replaced, inserted or removed; every day of 4 years, every hour, minute and second (leap seconds included), fractions of two arbitrary digits at four scales, 125 years in 0..9999 and the extreme years of the naive types; as element, attribute and direct text",
        outside="instants outside the years 0 to 9999, which RFC 3339 cannot express; forms the library may accept beyond RFC 3339 (only their meaning is checked)",
    ),
    "C25": dict(
        module="p25",
        harnesses=[H("h25_scalar"), H("h25_element"), H("h25_absent"), H("h25_list"), H("h25_read", reach=6), H("h25_read_named", reach=6, shards=2)],
        bounds="values of 9 text types (strings of up to 2 characters, every byte) and 4 element types in 6 positions under 9 wrappings; lists of up to 2 (thorough: 3) elements in 7 forms; 4 types read through a Box from 0 to 2 occurrences of up to 2 arbitrary characters, and 9 types in a namespaced field over up to 2 of 27 elements",
        outside="deeper nesting of wrappers",
    ),
    "C21": dict(
        module="p21",
        harnesses=[H("h21_named", reach=6), H("h21_shapes", reach=6), H("h21_scalars", reach=6), H("h21_calls", reach=6), H("h21_long", reach=6)],
        bounds="a fault at every byte and at every write call of documents of up to 249 bytes (the place is a solver variable) and of 1500 (6000) bytes, lasting or passing, with and without a partial write; types of every shape and every scalar, and the serializer's own calls",
        outside="longer documents",
    ),
    "C22": dict(
        module="p22",
        harnesses=[H("h22_walk", reach=6, shards=6), H("h22_text", reach=6), H("h22_nest", reach=6)],
        bounds="documents of up to 3 elements below 3 levels with attributes, declarations, comments and text (one arbitrary character in each place), and chains of up to 5 levels (thorough: 6); every walk of up to 3 (thorough: 4) free steps among next, ignore, take_str, for_node, nested, deserialize, followed by a complete one",
        outside="walks that leave an element by neither reading nor ignoring it",
    ),
    "C23": dict(
        module="p23",
        harnesses=[H("h23_struct", reach=6, shards=2), H("h23_text", reach=6, shards=2), H("h23_tuple", reach=6, shards=2), H("h23_forward", reach=6, shards=2), H("h23_own", reach=6, shards=2), H("h23_any", reach=6)],
        bounds="elements with 4 kinds of attributes and up to 2 (thorough: 3) of 7 kinds of content with arbitrary characters, right and wrong for 6 types, in 8 kinds of surroundings with siblings of 7 kinds",
        outside="errors are compared by equality, so surroundings in which another error comes first are not used",
    ),
    "C24": dict(
        module="p24",
        harnesses=[H("h24_presence"), H("h24_stateless"), H("h24_lists"), H("h24_text"), H("h24_bare"), H("h24_shapes")],
        bounds="every combination of 13 present and absent fields of a struct of 15 kinds of fields; every length up to 2 (thorough: 3) of 5 lists; text of up to 2 (thorough: 3) arbitrary characters in every place; 11 further shapes; stateless values in 8 kinds of fields",
        outside="element namespaces of scalar enums, which are those of the enum",
    ),
    "C26": dict(
        module="p26",
        harnesses=[H("h26_hand"), H("h26_text", reach=6), H("h26_raw"), H("h26_count"), H("h26_with", reach=6), H("h26_with_read", reach=6), H("h26_with_part", reach=6)],
        bounds="every value of a hand-written 8-bit scalar in 7 positions; texts of 8 forms with up to 3 arbitrary characters in 5 positions; 0 to 3 occurrences; a struct with serialize_with and deserialize_with functions over 4 numbers, strings of up to 1 character and every sequence of up to 3 of 5 kinds of content, and both functions in a transparent struct; strings of up to 3 (thorough: 4) arbitrary characters in 6 positions of a type that keeps them all",
        outside="functions on attributes, which the derive macros do not compile",
    ),
    "C27": dict(
        module="p27",
        harnesses=[H("h27_again", shards=2), H("h27_list"), H("h27_nested"), H("h27_read", reach=6, shards=2)],
        bounds="values of 4 element types with up to 6 declared prefixes nested to 3 levels, with strings of up to 1 arbitrary character; lists of 3; documents of up to 2 (thorough: 3) levels cut or altered at any place",
        outside="hash keys other than those of the runs (every map of a run has its own)",
    ),
    "C28": dict(
        module="p28",
        harnesses=[H("h28_write", shards=4), H("h28_read", reach=6), H("h28_variants", reach=6)],
        bounds="nine declarations of a struct with qualified attribute, namespaced list and optional element against a plain one: values with a string of up to 1 (thorough: 2) arbitrary characters in any field; documents with four forms of the root, right and wrong attributes and elements with arbitrary characters; three declarations of a scalar enum against a plain one, with an arbitrary character anywhere in the text of a variant",
        outside="other declarations; arguments the macros do not accept",
    ),
}
