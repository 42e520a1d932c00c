#!/usr/bin/env python3
"""Writes properties.jsonl (kept as Python so that it is readable; run by hand)."""
import json
L, O, M = "src/lexer.rs", "src/obj.rs", "src/mtl.rs"
P = []
def prop(id, title, statement, text, why, files, mech, observe, over=("inputs",), state=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})

prop("C01", "Parsing any text ends in a value or an error, never a panic",
     "For every string, parsing it as OBJ and parsing it as MTL both return (a value or an error): no panic, no arithmetic overflow, no out-of-range access, no endless loop. The same holds for displaying what was parsed.",
     "every input string, however malformed, truncated or large", "The tests parse some dozens of files; a panic needs one particular malformed file, such as an object without elements or an index at the edge of the integer range.",
     [L, O, M], [("parse", O), ("parse", M), ("calculate_index", O), ("triangulate", O), ("parse_object", O), ("Display for VTNIndex", O)], ["obj::parse", "mtl::parse", "Display of the result"])
prop("C02", "Every string handed out is well-formed UTF-8",
     "For every input string, every token the tokenizer produces and every name in a parse result is well-formed UTF-8, although the tokenizer cuts raw bytes and converts them unchecked. No token starts or ends inside a character.",
     "every input string, with any mix of multi-byte characters next to separators, comments and line endings", "The conversion is unchecked, so a wrong cut is undefined behaviour that a test with ASCII input never shows.",
     [L], [("Lexer::next_token", L), ("PeekableLexer::next_token, from_utf8_unchecked", L)], ["tokens", "names in the results"])
prop("C03", "Tokens are exactly the words and line endings of the text",
     "The token sequence of a text is its maximal runs of characters other than blank (space, tab, backslash), line ending and '#', in order, with one newline token per line ending (LF, CR or CRLF). A '#' starts a comment that runs to the end of its line and yields nothing; every other character of a word is kept unchanged.",
     "every input string", "The tests check a few token sequences; the rule has to hold for every placement of comments, blanks and each of the three line endings, also at the end of the file.",
     [L], [("Lexer::next_token", L), ("skip_whitespace, skip_comment", L)], ["the token sequence", "names in parse results"])
prop("C04", "Looking ahead never changes what is read",
     "For every text and every interleaving of looking ahead and reading, looking ahead returns exactly the token that the next read returns, repeated looks agree, and the sequence of tokens read is the same as without any look. After the last token both keep saying there is none.",
     "every input string and every sequence of look and read operations", "There is no end to the interleavings of peek and next around comments, blank lines and the end of the input; the tests use a few.",
     [L, O, M], [("PeekableLexer::peek, next_token, next", L), ("Parser::peek, Parser::next", O)], ["PeekableLexer", "parse results"], over=("inputs", "histories"),
     state=[{"name": "cache", "meaning": "the token looked at and not yet read", "where": L}])
prop("C05", "Every index in a parsed object is valid in that object",
     "In every result of parsing OBJ text, each vertex, texture and normal index of each element is less than the number of vertices, texture vertices and normals of the same object. So looking up any parsed element index in its object succeeds.",
     "every accepted input, with any number of objects and any index style", "The tests look at particular files; validity must hold for every accepted file, including indices before, after and between objects.",
     [O], [("calculate_index", O), ("index ranges in parse_object", O)], ["ObjectSet::objects[..].element_set", "Object::get_vtn_triple"])
prop("C06", "Element indices resolve to the vertex they name",
     "A positive index k names the k-th vertex (texture vertex, normal) of the file and a negative index -k the k-th latest one at that point; the parsed index is its zero-based position within the current object. An index of 0, or one naming an entry that does not exist yet or belongs to an earlier object, makes the file rejected as out of range.",
     "every file, object, element and index value, up to the limits of the integer type", "The arithmetic has three base offsets, two sign conventions and both range ends; the tests cover a few combinations.",
     [O], [("calculate_index", O), ("parse_vtn_index", O)], ["Element indices in element_set", "VTNIndexOutOfRange errors"])
prop("C07", "Index forms are kept, and mixed forms rejected",
     "An index written v, v/t, v//n or v/t/n is parsed into exactly that form with its components in the right places (an empty field counts as absent). An element whose indices differ in form is rejected, as is an index without a vertex or with more than three fields, and any form but v in a point.",
     "every face and line statement of every file", "There are four forms, several malformed spellings, and any position in an element at which the forms can start to differ.",
     [O], [("parse_vtn_index", O), ("verify_vtn_indices", O), ("has_same_type_as", O)], ["VTNIndex variants", "error kinds"])
prop("C08", "Faces fan, polylines chain, points list: nothing dropped",
     "A face with corners c0..cn becomes the triangles (c0,c1,c2), (c0,c2,c3), ..., a polyline its consecutive segments, a point statement one point per index. The element list holds exactly these, statement by statement in file order; none is dropped, duplicated or reordered.",
     "every valid file, with statements of any arity in any order", "Tests use triangles and quads; the arity is unbounded and a dropped last corner shows only for some.",
     [O], [("triangulate", O), ("parse_line", O), ("parse_point", O), ("parse_face", O)], ["Object::element_set"])
prop("C09", "Vertex data is what the file says, in order",
     "Every v, vt and vn statement yields one entry of its object, in file order, whose coordinates are the values the standard float parser gives for its tokens. A missing w of a vertex is 1, missing v and w of a texture vertex are 0, and a given value is never replaced or skipped.",
     "every valid file and every number spelling the standard float parser accepts", "Coordinates range over all floats and optional arguments interact with what follows; tests sample a few literals.",
     [O], [("parse_vertex, parse_texture_vertex, parse_normal_vertex", O), ("try_once", O)], ["vertex_set, texture_vertex_set, normal_vertex_set"])
prop("C10", "Each element has one shape with the groups in force",
     "Every parsed object has exactly one shape entry per element, in order, naming that element, the groups of the latest g statement before it and the latest s statement before it; all these indices are valid. Group and smoothing sets list the declared names in order, and elements before any declaration get the group 'default' and smoothing off.",
     "every interleaving of g, s, usemtl and element statements", "The assignment is rebuilt from interval tables at the end of the object; an off-by-one shows only for particular interleavings, such as a group changed twice before an element.",
     [O], [("interval tables in parse_object", O), ("parse_shape_entries", O), ("parse_groups, parse_smoothing_group", O)], ["shape_set, group_set, smoothing_group_set"], over=("inputs", "histories"),
     state=[{"name": "group_entry_table, smoothing_group_entry_table", "meaning": "element ranges and what is in force on them", "where": O}])
prop("C11", "Geometries partition the shapes by material in order",
     "The geometries of every parsed object, concatenated, list every shape of the object exactly once and in order; each carries the material of the latest usemtl statement before its elements, or none if there was none. A usemtl statement starts a new geometry, whether or not the name was used before.",
     "every interleaving of usemtl and element statements", "The ranges are closed at each usemtl and at the end of the object; consecutive, trailing and missing usemtl statements each take another path.",
     [O], [("material table in parse_object", O), ("parse_geometries", O), ("parse_material_name", O)], ["geometry_set"], over=("inputs", "histories"),
     state=[{"name": "material_name_entry_table", "meaning": "element ranges and their materials", "where": O}])
prop("C12", "Objects and material libraries are split as the file says",
     "Every o statement starts a new object with its name, in file order, holding exactly the statements up to the next one; statements before the first o form an object with the empty name. The material libraries are the names of the leading mtllib statements, in order, and nothing leaks from one object into another; a statement that belongs to no object, such as a later mtllib, makes the file rejected.",
     "every valid file with any number of objects and libraries", "The tests have at most a few objects; carrying state over an object boundary shows only with particular contents on both sides.",
     [O], [("parse_objects", O), ("parse_object_name", O), ("parse_material_libraries", O)], ["ObjectSet::objects, ObjectSet::material_libraries"])
prop("C13", "Invalid OBJ text is rejected with the right kind of error",
     "Every text outside the supported OBJ grammar is rejected, with the error kind of its first violation (for example a missing or unparsable number, an unknown statement, a face with fewer than three corners, a name that is missing, the end of the file); every text within it is accepted.",
     "every input string", "Each violation can occur anywhere in a file; tests cover one or two placements of some of them, and silent acceptance of a broken tail passes them.",
     [O], [("Parser::error and its callers", O)], ["Result of obj::parse", "ParseError::kind"])
prop("C14", "One material per newmtl, in order, with its own properties",
     "Parsing MTL text yields exactly one material per newmtl statement, in order, with its name; a property statement changes only the material of the latest newmtl before it. A text without materials gives an empty set.",
     "every valid MTL file with any number of materials", "The tests have few materials; a property carried over from the previous material shows only when the next one does not set it.",
     [M], [("parse_newmtl, parse_material", M), ("parse_mtlset", M)], ["MaterialSet::materials"])
prop("C15", "Material properties have the given values or the defaults",
     "Each property statement sets exactly its own property to the value the standard number parser gives (colours, exponent, density, dissolve, illumination model, each texture map name), the last statement wins, and all other properties stay. A property never stated has its documented default (black colours, exponent 0, dissolve 1, no density, illumination 2, no maps).",
     "every valid MTL file, every subset and order of property statements", "There are seventeen properties in any order and multiplicity; tests fix the usual order.",
     [M], [("parse_ambient_color and the other property parsers", M), ("Material::new", M)], ["fields of Material"])
prop("C16", "Invalid MTL text is rejected with the right kind of error",
     "Every text outside the supported MTL grammar is rejected with the error kind of its first violation (a missing or unparsable number, an unknown statement, an unknown illumination model, a missing name, a statement before the first newmtl); every text within it is accepted.",
     "every input string", "Each violation can occur at any place; the tests cover few.",
     [M], [("Parser::error and its callers", M)], ["Result of mtl::parse"])
prop("C17", "Errors name the line where parsing stopped",
     "The line number of every OBJ and MTL parse error is one plus the number of line endings (LF, CR or CRLF, blank and comment lines included) among the tokens consumed when the violation is found, the offending token included.",
     "every rejected input string", "The count must survive every path that skips or looks ahead over line endings; the tests compare few line numbers.",
     [L, O, M], [("Parser::next, Parser::advance, skip_zero_or_more_newlines", O), ("Parser::next, Parser::advance", M)], ["ParseError::line_number", "Display of the error"],
     state=[{"name": "line_number", "meaning": "one plus the line endings consumed", "where": O}])
prop("C18", "Displayed entries are the statements they came from",
     "Displaying a vertex, texture vertex, normal or element writes its keyword (v, vt, vn, p, l, f) and all its values or indices in order, two blanks apart; an index is one-based in its form (v, v/t, v//n, v/t/n), a group its name, smoothing group 0 'off'. So each displayed statement reads back as the entry it shows. A displayed object lists its name and the first and last entry and the length of each set, an object set all its objects in order, an error its line number and message.",
     "every value the parser can produce", "The text depends on every variant and every value; the tests display few.",
     [O, M], [("Display implementations", O), ("DisplayObjectCompositor", O), ("Display for ParseError", M)], ["Display output"])
prop("C19", "Index lookup returns exactly the entries the index names",
     "For every object and index, lookup returns the referenced vertex, texture vertex and normal in the form of the index if all of them exist in the object, and nothing otherwise. Two indices have the same type exactly when they have the same form.",
     "every object, including hand-built ones, and every index value", "Any combination of set sizes and index values is possible; tests look up a few.",
     [O], [("Object::get_vtn_triple", O), ("VTNIndex::has_same_type_as", O)], ["get_vtn_triple", "has_same_type_as"])
prop("C20", "Layout does not change what is parsed",
     "Replacing blanks between words by other blanks, writing a line ending as LF, CR or CRLF, adding blanks or a comment at the end of a line or of the text, indenting a line, or adding blank or comment lines after a line ending or at the start of the text, does not change the result of parsing OBJ or MTL text (error line numbers aside).",
     "every input string and every such re-layout", "The re-layouts of one file are endless, and each interacts with lookahead and line skipping.",
     [L, O, M], [("Lexer::next_token", L), ("skip_zero_or_more_newlines", O)], ["obj::parse, mtl::parse on both layouts"])
with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
