#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the wording lives in one place)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


PR = ["src/parser.rs"]
p("C01", "Reading a scene text never panics",
  "Whatever text is given, lexing and parsing it returns either a scene or an error value. No input makes it panic: no out-of-range access, no arithmetic overflow, no failed unwrap, no unreachable or unimplemented branch.",
  ["inputs"], "every character sequence given to the lexer and every token sequence given to the parser",
  "The 34 parser tests feed about forty short hand-written snippets; an input that trips a panic (empty text, text ending in the middle of a token, extreme numbers, unusual characters) is just one of infinitely many others.",
  PR, [("bounds tests before each access", "Tokenizer::peek/next, Parser::peek/next"), ("checked integer arithmetic for exponents", "Tokenizer::tokenize_num"), ("error values instead of unwraps", "Parser::parse_*")],
  ["return value of the public parsing entry points"])
p("C02", "Reading a scene text always terminates with bounded stack",
  "Lexing and parsing any text ends: every repetition consumes input or leaves. Recursion depth does not grow with the amount of whitespace, comments, list elements or parameters, and block nesting beyond a fixed limit (which allows at least 64 levels) is answered with an error rather than by exhausting the stack.",
  ["inputs"], "every input text, of any length and nesting depth",
  "Tests use inputs of a few lines; a loop that fails to advance or a recursion per comment line only shows on particular shapes or large inputs.",
  PR, [("loops advance a cursor bounded by the input length", "Tokenizer::tokenize, skip_blanks, tokenize_id; Parser::parse_many, parse_directives"), ("block depth limit", "Parser::parse_directive")])
p("C04", "Nothing in a scene text is silently dropped",
  "A successful parse accounts for every token of the text: each one is part of exactly one returned node or is the fixed punctuation of one, in text order. A malformed parameter, an unfinished construct, an unknown keyword or anything left over after the world block makes the whole parse fail instead of being skipped, and an error met in a nested construct is never swallowed.",
  ["inputs"], "every token sequence",
  "Tests check particular accepted snippets; whether any unaccounted token can slip through is a statement about all inputs.",
  PR, [("error propagation", "Parser::parse_param_lists, parse_directives, parse_predirectives"), ("end-of-input test", "Parser::parse")])
p("C05", "Blocks nest and close with their own keyword",
  "An attribute, transform or world block ends exactly at its own closing keyword, which is consumed; it contains precisely the directives written between the two keywords, in order, with the right kind of block. A block closed by another kind's keyword, or not closed at all, is an error; up to 64 levels of nesting are always accepted.",
  ["inputs"], "every nesting of blocks in a scene text",
  "The tests contain two or three small nestings; mismatched, empty, deep and unterminated blocks are not sampled.",
  PR, [("block parsing", "Parser::parse_directive, parse_directives")])
p("C06", "World directives are returned as written",
  "Each material, shape, light, area light, include and texture statement inside the world yields one node of the matching kind that carries the written type (and, for textures, the name, value type and class in their written roles; for includes, the path), the position of its keyword, and exactly the parameters that follow it.",
  ["inputs"], "every world directive with every parameter list",
  "Tests exercise one or two examples of some of these directives.",
  PR, [("keyword dispatch", "Parser::parse_directive")])
p("C07", "Options and transforms before the world are returned as written",
  "Each pre-world statement yields one node of the matching kind with the position of its keyword, and with its numeric arguments in their written order and roles: vectors as x, y, z, the rotation angle before its axis, matrices in row order, and so on. Statements naming a coordinate system, an active transform, a path, or a typed component with parameters carry exactly what was written, and the list ends exactly at the world block.",
  ["inputs"], "every pre-world directive with all argument values",
  "Tests use a single example for most of these directives, several with repeated or zero arguments that hide swapped components.",
  PR, [("keyword dispatch and argument order", "Parser::parse_predirective, parse_predirectives")])
p("C08", "Parameters are filed under their declared type and name",
  "A parameter declared with a type tag and a name ends up in exactly one collection, the one belonging to its type tag, under exactly its name, with its values in the written order and with the position where the declaration starts. All other collections and earlier entries stay as they were, and an unknown tag or a malformed declaration is an error.",
  ["inputs"], "every parameter declaration and every prior content of the parameter set",
  "Tests cover a handful of tags with one or two values each; mixing of collections shows only for tag/value combinations they do not use.",
  PR, [("type-tag dispatch", "Parser::parse_param_list")])
p("C09", "Value lists are complete, closed and of one type",
  "A bracketed list is accepted only if it is non-empty, closed, and every element is a complete value of the expected type; pairs are never cut short and fixed-size lists have exactly their size. All elements are returned in order; booleans are exactly the two quoted words, numbers may be written as integers where a real is expected but not the other way round.",
  ["inputs"], "every token sequence offered where a value or a value list is expected",
  "Tests sample lists of up to a few elements; odd counts, wrong element types in the middle and missing brackets at the end are a handful of cases.",
  PR, [("list parsing", "Parser::parse_list, parse_one_or_list, parse_list_of_n, parse_many, parse_n, parse_spectrum")])
p("C10", "Reported positions point at the first character of what they describe",
  "Every token carries the line and column, both counted from one, of its first character: columns restart after each newline, Windows line ends count as one, and every other character counts as one column. Every node and parameter carries the position of its first token.",
  ["inputs"], "every text: any mixture of tokens, blanks, comments and line ends",
  "Tests compare positions on short snippets; a drift shows only after particular sequences (comment at line end, string across lines, blank lines).",
  PR, [("position tracking", "Tokenizer::next, tokenize_one, tokenize_*"), ("positions in nodes", "Parser::parse_directive, parse_predirective, parse_param_list")],
  state=[("row and column of the cursor", "position of the next unread character", "Tokenizer")])
p("C11", "Text is split into tokens by fixed lexical rules",
  "Blanks and comments (from a hash sign to the end of the line) separate tokens and produce none; brackets are single tokens; a quoted string is the text between its quotes, where backslash-n stands for a line break and a backslash before any other character for that character, and an unterminated string is an error. An identifier is a maximal run of letters and digits starting with a letter, and any other character is an error.",
  ["inputs"], "every character sequence",
  "Tests tokenise about twenty short strings; which characters join, end or start a token is a statement about every character in every context.",
  PR, [("character dispatch", "Tokenizer::tokenize_one, skip_blanks, tokenize_str, tokenize_id")])
p("C12", "Number literals denote the value written",
  "A number literal is an optional sign, digits with at most one decimal point, and an optional exponent; it yields an integer if it has neither point nor a negative or overlarge exponent, otherwise a real, with the value written. Malformed literals and integers out of range are errors, never a different number.",
  ["inputs"], "every numeric literal",
  "Tests use a few literals; sign, point, exponent and digit combinations and their values are unbounded.",
  PR, [("number lexing", "Tokenizer::tokenize_num")])
p("C13", "Parsing has no effects and depends on the text alone",
  "Lexing, parsing and the geometry operations neither read nor write anything outside their arguments: no files (an include statement is recorded, not opened), no environment, clock, randomness, standard streams, threads or global state, and no unsafe memory access. The same text therefore always gives the same result.",
  ["inputs", "histories", "configurations"], "every call, whatever was called before, in both precision configurations",
  "A test cannot observe the absence of an effect on every path, nor dependence on history.",
  PR + ["src/lib.rs", "src/core/mod.rs"], [("no effectful calls, statics or unsafe code", "whole crate")])
p("C14", "The precision configuration applies to every real number",
  "With the double-precision feature on, every real number the library reads, stores, converts or computes is double precision from the literal to the result; with the feature off every stored real is single precision. No value passes through a narrower type on the way.",
  ["configurations", "inputs"], "both feature configurations, every value",
  "The test suite is built in the default configuration only.",
  ["src/core/mod.rs", "src/parser.rs"], [("the real-number alias and its feature switch", "core::Float"), ("literal conversion", "Tokenizer::tokenize_num")])
CO = "src/core/"
alln = "the values are unbounded; the tests do not call these operations at all"
p("C20", "Vector, normal and point arithmetic is component-wise",
  "Adding, subtracting, negating, scaling, dividing (by a non-zero scalar) and comparing vectors, normals and points acts on each component separately and independently, whether the operand is taken by value or by reference, for reals and for integers. Constructors put their arguments into x, y, z in that order.",
  ["inputs"], "all component values, real and integer", alln,
  [CO + "vector.rs", CO + "point.rs", CO + "normal.rs"], [("operator implementations", "impl Add/Sub/Mul/Div/Neg")])
p("C21", "Dot and cross products, lengths and orientation follow their definitions",
  "The dot product is the sum of the component products, the cross product is the right-handed one, squared length is the dot product with itself and length its square root. Facing forward returns the vector itself, or its negation exactly when the dot product with the reference is negative.",
  ["inputs"], "all component values, real and integer, for vectors and normals", alln,
  [CO + "vector.rs", CO + "normal.rs"], [("dot, cross, len_sq, len, face_forward", "impl Vector3 / Normal3")])
p("C22", "Component selection, permutation and extrema pick the right component",
  "Indexing by 0, 1, 2 yields x, y, z and any other index is refused; permutation places the selected components in the requested order. Component-wise minimum and maximum, least and greatest component, and absolute values are exact, and the dominant dimension names a component that no other exceeds.",
  ["inputs"], "all component values in every ordering including ties, all indices", alln,
  [CO + "vector.rs", CO + "normal.rs", CO + "point.rs", CO + "mod.rs"], [("index, permute, min/max, max_dimension", "impl Vector3 / Normal3 / Point3"), ("pmin, pmax", "core::mod")])
p("C23", "Bounding boxes built or combined are the tightest correct ones",
  "A box built from two points in any order has the smaller coordinate of each axis as its lower and the larger as its upper corner; uniting with a point or a box gives the smallest box enclosing both. Intersecting keeps exactly the common points (and stays empty when there are none), and expanding by a non-negative margin moves both corners outwards by it on every axis.",
  ["inputs"], "all pairs of points, all boxes in any relative position", alln,
  [CO + "boundingbox.rs"], [("new, new_pt, union, union_pt, intersect, expand", "impl Bounds3")])
p("C24", "Containment and overlap of boxes are exact on every axis",
  "A point is inside a box exactly when it lies within the closed interval of each axis, and exclusively inside when the upper faces are left out. Two boxes overlap exactly when their closed intervals meet on all three axes, touching included.",
  ["inputs"], "all points and boxes, including points on faces and boxes that only touch", alln,
  [CO + "boundingbox.rs"], [("inside, inside_exclusive, overlaps", "impl Bounds3")])
p("C25", "Box measures follow their definitions",
  "Diagonal, surface area, volume, the longest axis, the relative position of a point, interpolation between the corners and the bounding sphere of a valid box equal their geometric definitions. The eight corner codes name the eight vertices, each bit choosing the face of one axis in the same sense.",
  ["inputs"], "all boxes with lower corner not above the upper one, including flat ones", alln,
  [CO + "boundingbox.rs"], [("diagonal, surface_area, volume, maximum_extent, offset, corner, bounding_sphere, lerp", "src/core/boundingbox.rs")])
p("C26", "Transforms carry their exact inverse and act linearly",
  "The matrices of translation and (non-zero) scaling are the standard ones and the inverse carried with them is their exact inverse; a transform made from an invertible matrix alone carries that matrix and its inverse; inverting swaps the two and inverting twice gives the original back; transposing transposes both. Applying a transform to a vector multiplies by the upper-left block, the identity test accepts exactly the identity matrix, and the scale test fires exactly when some axis image's squared length leaves the interval from 0.999 to 1.001.",
  ["inputs"], "all translation and scale amounts, all matrices", alln,
  [CO + "transform.rs", CO + "vector.rs"], [("new, new_, translate, scale, inverse, transpose, is_identity, has_scale", "impl Transform")])
p("C27", "Matrix product, sum, transpose, row access and equality are exact",
  "Entry (i, j) of a product is the sum over k of a(i, k) times b(k, j), sums are entry-wise, transposing swaps the indices, row access by 0 to 3 yields that row and anything else is refused, and two matrices are equal exactly when all entries are. This holds for real and integer entries.",
  ["inputs"], "all matrices", "One product of two integer matrices is tested; a formula wrong in one entry or only for reals need not show there.",
  [CO + "matrix.rs"], [("Mul, Add, transpose, Index", "impl Matrix4")])
p("C28", "Matrix inversion returns the inverse or refuses",
  "Inverting a 4 by 4 matrix returns the matrix whose product with the original is the identity, for every sequence of pivots the input can require, and refuses (panics) when the matrix is singular instead of returning anything. It applies to integer matrices through their exact real values.",
  ["inputs"], "all matrices, i.e. all pivot orders and sign patterns",
  "One matrix, with one pivot order, is tested; there are 576 pivot orders.",
  [CO + "matrix.rs"], [("Gauss-Jordan elimination with full pivoting", "Matrix4::inverse")])
p("C29", "Rays keep their data and evaluate along their direction",
  "The point at parameter t of a ray is origin plus t times direction; a ray built without limits has infinite extent and time zero, and constructors store their arguments unchanged. Scaling the differentials of a ray moves each auxiliary origin and direction towards the main one by the factor and changes nothing else.",
  ["inputs"], "all rays and parameters", alln,
  [CO + "ray.rs"], [("new, new_infinite, at, scale_differentials", "impl Ray / RayDifferential")])
p("C30", "Iterating 2D integer bounds visits every cell once, row by row",
  "Iterating over two-dimensional integer bounds yields exactly the points with lower corner <= point < upper corner, each once, x running fastest and then y, starting at the lower corner, and nothing for empty bounds; once exhausted it stays exhausted.",
  ["inputs", "histories"], "all bounds and all numbers of steps", alln,
  [CO + "boundingbox.rs"], [("iterator state and step", "Bounds2Iter::next, Bounds2::into_iter")])
p("C31", "Interpolation and rounding helpers follow their definitions",
  "Linear interpolation of numbers and of points yields the first argument at 0, the second at 1 and the affine blend everywhere else; rounding a point down or up rounds each component separately.",
  ["inputs"], "all parameters (also outside the unit interval) and all values", alln,
  [CO + "mod.rs", CO + "point.rs"], [("lerp, floor, ceil", "src/core/mod.rs, src/core/point.rs")])
p("C32", "A constructed coordinate system is orthonormal",
  "From any non-zero vector the constructed second axis has unit length and is perpendicular to it, and the third axis is the cross product of the first with the second, so that a unit vector yields a right-handed orthonormal frame. It is well defined whichever component dominates.",
  ["inputs"], "all non-zero vectors, in particular those along an axis", alln,
  [CO + "vector.rs"], [("coordinate_system", "src/core/vector.rs")])
p("C33", "Conversions between points, vectors and normals keep every component",
  "Converting between points, vectors and normals copies each component to the component of the same name, dropping to two dimensions keeps x and y and refuses points with a NaN component, and NaN detection reports a point exactly when at least one component is NaN.",
  ["inputs"], "all component values including NaN", alln,
  [CO + "point.rs", CO + "vector.rs", CO + "normal.rs", CO + "mod.rs"], [("From implementations, has_nan", "src/core")])
p("C34", "Floating-point results stay close to the exact ones",
  "The geometry operations, matrix inversion in particular, return values whose distance from the exact result is explained by the precision of the configured float type and the condition of the operands.",
  ["inputs"], "all finite operands", "Tests compare a few exactly representable results.",
  [CO + "matrix.rs", CO + "vector.rs"], [("floating-point arithmetic", "src/core")])
with open("properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
print(len(P))
