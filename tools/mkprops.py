import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,state=None):
    assert len(title)<=80
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Type comparison and the most specific common type",
"Two types are compatible exactly when one of them is Any, or they are the same basic type, or both are arrays with compatible element types, or both are tuples of equal length with pairwise compatible components; `==` on types decides exactly this, and `is` decides exact structural identity. The most specific type of two types exists exactly when they are compatible, is the least type refining both (every Any is replaced by what the other side has at that place), and its flag is true exactly when the result still contains Any.",
["inputs"],"all pairs of types of any depth and arity",
"Tests compare a handful of shallow types; the claim is over all recursive types, where Any may sit at any depth on either side.",
["src/types.rs"],[("strict identity","types.rs Type::is"),("Any test","types.rs Type::has_any"),("least common refinement","types.rs Type::most_specific"),("compatibility","types.rs impl PartialEq for Type")],
["Type::is, Type::has_any, Type::most_specific, == on Type"])
p("C02","Arrays are homogeneous and carry their most specific element type",
"Checked array construction, parsing an array literal, including an array file and adding two arrays each succeed exactly when all the element types have a common type, and fail with an error that names the types otherwise. The resulting array holds exactly the given elements in order, and its element type is the most specific type common to all of its elements (Any for an empty array). A tuple accepts any elements and its type vector lists the element types in order.",
["inputs"],"all sequences of values of any type, through the API and through the parser",
"Tests build a few arrays; whether the running common type is right depends on every order and depth at which Any occurs.",
["src/arr.rs","src/tup.rs","src/parse/parser.rs"],[("checked construction","arr.rs Arr::from_values"),("literal","parser.rs parse_arr"),("file","parser.rs parse_arr_file"),("addition","parser.rs binary_op_on_values"),("tuple types","tup.rs Tup::from_values")],
["Arr::from_values, Arr::inner_type, Value::get_type, parse results"],
[("inner_t","most specific type of the elements","arr.rs ArrInner"),("inner_tvec","types of the elements","tup.rs TupInner")])
p("C03","Equality of values is structural",
"Two values are equal exactly when they are of the same kind with equal contents: numbers by exact value, strings by text, arrays and tuples element by element in order, objects when they list the same fields in the same order with equal values and either both have no parent or have equal parents. Identity, sharing and how a value was built (literal, variable, include, API) make no difference. Comparing a value with a native bool, integer, BigInt, BigRational, String, &str, Arr, Tup or Obj, in either direction, is true exactly when the value is of that kind and holds that very content.",
["inputs"],"all pairs of values, and all pairs of a value and a native operand",
"The tests compare about thirty fixed pairs; equality is recursive over arbitrarily shaped values and has 38 operator instances.",
["src/value.rs","src/arr.rs","src/tup.rs","src/obj.rs"],[("derived equality","value.rs enum Value, obj.rs struct Pair"),("container equality","arr.rs, tup.rs, obj.rs impl PartialEq"),("native comparisons","value.rs impl_eq!, impl_eq_int!")],
["== between Value/Arr/Tup/Obj and native types"])
p("C04","Typed access returns exactly the stored content or names the mismatch",
"A typed getter on a value (or on an object's field) returns exactly the stored content when the kinds match, an Int also being readable as the Frac n/1, and otherwise fails with a type mismatch naming the expected and the actual type, or with field-not-found for a field that does not exist. Indexing an array or tuple returns the element at that index, or an out-of-bounds error exactly when the index is not below the length. Building a value from a native bool, integer or string and reading it back gives the same content, and none of these calls panics.",
["inputs"],"all values, fields, indices and native integers of every supported width",
"Tests read back a few constants; the claim covers every value, every index and the full range of every integer type.",
["src/value.rs","src/obj.rs","src/arr.rs","src/tup.rs"],[("value getters","value.rs get_fn!, get_frac, get_arr, get_tup, get_type"),("object getters","obj.rs get_fn!"),("indexing","arr.rs Arr::get, tup.rs Tup::get"),("conversions","value.rs impl_from!")],
["Value::get_*, Obj::get_*, Arr::get, Tup::get, From impls"])
p("C05","Field lookup follows the parent chain, nearest definition first",
"Looking up a field yields the object's own value if it has the field, otherwise the value found in the nearest ancestor that has it, and nothing exactly when no object on the chain has it; the lookup with source also yields the object that value was found in. Length, emptiness, containment, iteration and the pair list concern the object's own fields only, in insertion order. The parent is returned exactly as it was given.",
["inputs"],"all objects with any number of fields and any chain of parents, all field names",
"Tests use chains of at most two parents with two fields each.",
["src/obj.rs"],[("lookup","obj.rs Obj::get, Obj::get_with_source"),("own fields","obj.rs contains, len, is_empty, iter, with_each, pairs_ref"),("parent","obj.rs has_parent, get_parent")],
["Obj::get, Obj::get_with_source, Obj::contains, Obj::len, Obj::get_parent"])
p("C06","Only well-formed field names are accepted",
"A field name is accepted by the name test and by checked object construction exactly when it is non-empty, starts with an alphabetic character or '_', and continues with alphabetic characters, ASCII digits or '_'. In a document, a field must moreover not be a reserved word (@, null, true, false, Obj, Str, Arr, Tup), may be prefixed by '@' to define a global, may be the lone '^' to give the parent, and ends at its colon. Anything else is rejected with an error naming the offending name or character.",
["inputs"],"all strings as names, all documents",
"Tests try four bad names; the claim is over every Unicode string.",
["src/obj.rs","src/parse/parser.rs","src/parse/util.rs"],[("name test","obj.rs Obj::is_valid_field, Obj::is_valid_field_char"),("checked construction","obj.rs Obj::from_pairs"),("parser","parser.rs parse_field"),("reserved words","parse/util.rs is_reserved")],
["Obj::is_valid_field, Obj::from_pairs, parse results"])
p("C07","String literals decode exactly, and written strings read back identically",
"A string literal denotes exactly its characters up to the closing quote, newlines included, with the escapes \\\\ \\\" \\' \\$ \\n \\r \\t replaced by the character they name; any other escape is rejected at its position and a missing closing quote is an unexpected end. Writing any string produces a literal that decodes to the identical string.",
["inputs"],"all strings over all of Unicode, all literal texts",
"Tests read three escaped strings; exactness over every sequence of characters and the inverse law need a proof over all strings.",
["src/parse/parser.rs","src/parse/util.rs","src/parse/format.rs"],[("decoding","parser.rs parse_str, parse/util.rs get_escape_char"),("encoding","format.rs get_char_map, replace_all, Format for String")],
["parse result of a literal; write_to_string"])
p("C08","Numeric literals denote their exact value",
"A digit string denotes that integer exactly, whatever its length; a literal with one '.' or ',' denotes exactly the fraction its digits spell, also when the part before or after the point is empty. Single underscores between characters are ignored, two in a row are rejected. A second point, a foreign character or a literal without any digit is rejected with an error at its position.",
["inputs"],"all character sequences starting like a number",
"Tests parse about twenty literals; rounding, truncation or overflow errors show only at particular lengths or digit patterns.",
["src/parse/parser.rs","src/parse/util.rs"],[("scanner","parser.rs parse_numeric"),("fraction","parse/util.rs frac_from_whole_and_dec"),("classes","parse/util.rs is_digit, is_numeric_char, is_value_end_char")],
["parse result of a numeric literal"])
p("C09","Arithmetic is exact, typed, left-associative and has two precedence levels",
"Applying + - * / % (and unary + -) to values yields the exact mathematical result: Int with Int gives Int (a Frac for /, the truncated remainder for %), Frac with Frac or a mix of Int and Frac gives a Frac for + - * /, and + also concatenates two strings or two arrays of compatible types. Division or remainder by zero and every other combination of types is an error at the position of the right operand (of the operand for a unary operator). In a chain, * / % bind tighter than + -, operators of one level apply from left to right, and each operator applies to the operand written directly after it.",
["inputs"],"all operand values and all operator chains of any length",
"Tests evaluate about forty expressions; precedence and associativity are claims over chains of any length and numbers of any size.",
["src/parse/parser.rs","src/parse/mod.rs"],[("operators","parser.rs unary_op_on_value, binary_op_on_values"),("chains","parser.rs parse_value, parse_unary_op"),("operator table","parse/mod.rs BinaryOp::get_op, is_priority, is_op")],
["parse result of an expression"])
p("C10","Variables see the fields of their own scope and the globals defined before",
"A plain name denotes the value of the field of that name defined earlier in the innermost enclosing object (arrays and tuples open no scope), a name with '@' the global of that name defined earlier in the same file, and null, true and false their constants; any other name is an error naming it. Globals never appear among the fields, are visible in nested objects, and are invisible in other files. Defining a field, a global or the parent a second time in its scope is an error, and fields keep their order of definition.",
["inputs"],"all documents with any nesting of objects and any set of definitions",
"Tests use few fixed documents; scoping is a claim over all nestings and orders of definition.",
["src/parse/parser.rs"],[("lookup","parser.rs parse_variable"),("definition and duplicates","parser.rs parse_field_value_pair"),("scopes","parser.rs parse_obj, parse_obj_stream, parse_arr_file, parse_tup_file")],
["parse results"])
p("C11","Dot access selects the named field or the indexed element",
"Dot access on an object yields the value of that field in the object or its nearest ancestor having it; on an array or tuple it yields the element at the given non-negative index, which may be a literal or a name resolved in the scope where the array was looked up. A missing field, an index out of bounds or too large, a non-integer index, a global after the dot on an object, and a dot on any other value are errors at that position. Chains of dots apply from left to right through objects.",
["inputs"],"all access paths into all values",
"Tests follow about fifteen paths of length at most three.",
["src/parse/parser.rs"],[("dot access","parser.rs parse_variable"),("inherited fields","parser.rs inherited_pairs")],
["parse results"])
p("C12","Parsing and writing never panic, terminate, and bound their recursion",
"Parsing any text or file tree ends with a value or an error: no panic, no arithmetic overflow, no failing assertion or unwrap, no infinite loop. Nesting of any construct (containers, includes, unary operators, dot chains) beyond 64 levels is rejected with a maximum-depth error instead of exhausting the stack, and nesting up to the limit is accepted. Writing any value, comparing and reading values do not panic either.",
["inputs"],"all texts, all file trees, all values",
"Fuzzing corpora in the tests hold 14 files; absence of panics and termination are claims over every input.",
["src/parse/parser.rs","src/parse/char_stream.rs","src/parse/format.rs","src/parse/mod.rs"],[("depth limit","parse/mod.rs MAX_DEPTH; checks in parser.rs parse_obj, parse_arr, parse_tup, parse_include, parse_unary_op, parse_variable"),("progress","char_stream.rs next; loops in parser.rs"),("include cycles","parser.rs parse_include")],
["returning from Obj::from_str, Obj::from_file, write_to_string, Display"])
p("C13","Whitespace and comments between tokens carry no meaning",
"Between values, between fields, after a field's colon and inside opening and before closing delimiters, any run of Unicode whitespace and of comments (from '#' to the end of the line) is skipped completely, and parsing resumes at the first character after it. A '#' inside a string literal is an ordinary character. Documents that differ only in such runs, at places where there already is one, just inside a bracket, after a field's colon or at either end of the text, parse to equal data.",
["inputs"],"all documents and all runs of whitespace and comments",
"Tests contain few layouts; the claim is over every whitespace character and every comment text.",
["src/parse/parser.rs","src/parse/util.rs"],[("skipping","parser.rs find_char"),("value ends","parse/util.rs is_whitespace, is_value_end_char")],
["parse results"])
p("C14","Writing an object and reading it back yields an equal object",
"For every object whose field names are valid and not reserved, without duplicate fields, and whose nesting stays within the parser's depth limit, the written text parses without error to an object equal to the original: same fields in the same order, same parents, same numbers, strings, arrays and tuples. Displaying a value writes the same text as that value has inside its enclosing object's text.",
["inputs"],"all objects of any shape within the depth limit",
"One test round-trips a few files; the law is over every combination of contents, escapes, signs, empty and one-element containers and parents.",
["src/parse/format.rs","src/obj.rs","src/parse/parser.rs"],[("writer","format.rs Format impls"),("entry","obj.rs write_to_string, write_to_file"),("reader","parser.rs")],
["Obj::write_to_string then Obj::from_str"])
p("C15","Errors point at the right file, line and column",
"While reading, the current line is one more than the number of newlines consumed and the current column one more than the number of characters consumed since the last newline, for every text. A parse error about a construct carries the file being read and the line and column at which the offending character, name or value starts. Errors in an included file name that file.",
["inputs"],"all texts and all positions in them",
"The error test (which does not pass on this toolchain) checks single positions in about sixty files.",
["src/parse/char_stream.rs","src/parse/parser.rs","src/parse/error.rs"],[("tracking","char_stream.rs CharStream::next"),("construction","parser.rs parse_err calls; error.rs from_over")],
["text of OverError::ParseError"],[("line, col","position of the next character","char_stream.rs Inner")])
p("C16","Includes resolve relative to the including file, exactly once, without cycles",
"An include denotes the content of the file found relative to the directory of the including file (relative to the working directory for text without a file), parsed as Obj by default or as the named Obj, Arr or Tup, or taken verbatim for Str. Including the same file again as the same kind yields the same instance without reading it again; a file that includes itself directly or through others is rejected as cyclic, and a path that names no file, a non-string path or a wrong token is rejected. Included files see no fields or globals of the including one, and leave none behind.",
["inputs","histories"],"all trees of files including each other, all contents",
"Tests include three small files; caching and cycle detection are claims over every include graph.",
["src/parse/parser.rs","src/parse/util.rs","src/parse/char_stream.rs"],[("include","parser.rs parse_include"),("files","parser.rs parse_obj_file_includes, parse_arr_file, parse_tup_file, parse_str_file; parse/util.rs read_file_str")],
["Obj::from_file"],[("included.0","values of files already included, by kind and canonical path","parser.rs IncludedMap"),("included.1","canonical paths of the files being parsed","parser.rs IncludedMap")])
p("C17","Each constructed container has its own identity, kept by every share of it",
"Constructing an array, tuple or object gives it an id that no other container constructed in the process has. Cloning it, storing it, reading it through a variable or a repeated include, or getting it from another container yields the same instance with the same id and the same contents. Iterating over a container hands out exactly its stored elements, each once and in order. Two handles are pointer-equal exactly when they have the same id.",
["histories","schedules"],"all sequences of constructions, clones and accesses, on any threads",
"One test compares the ids of two values; uniqueness is a claim over every history.",
["src/lib.rs","src/arr.rs","src/tup.rs","src/obj.rs"],[("id source","lib.rs gen_id"),("construction","arr.rs from_values_unchecked, tup.rs from_values, obj.rs from_pairs_unchecked"),("identity","impl ReferenceType for Arr, Tup, Obj")],
["ReferenceType::id, ReferenceType::ptr_eq"],[("CUR_ID","next id","lib.rs")])
p("C18","Delimiters must match and values must end properly",
"An object, array, tuple or include ends exactly at its own closing delimiter; any other closing delimiter in its place, or a closing delimiter where none is open, is an error naming both, and running out of input inside one is an unexpected end. A value must be followed by whitespace, a comment, the closing delimiter of its container or the end of input; any other character after it is an error at that character. A field must be followed by a value, and an operator directly by its operand.",
["inputs"],"all documents",
"Tests cover six malformed files.",
["src/parse/parser.rs","src/parse/util.rs"],[("closers","parser.rs parse_obj, parse_arr, parse_tup, parse_include, parse_field_value_pair"),("value end","parser.rs check_value_end"),("classes","parse/util.rs is_end_delimiter, is_value_end_char")],
["parse results"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
