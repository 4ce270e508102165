#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

B = "bandersnatch/"
FE = B + "fieldElements/"
CP = B + "curvePoints/"
PS = B + "pointserializer/"
EW = B + "errorsWithData/"

prop("F01", "Field element arithmetic is exact arithmetic modulo the base field prime",
 "Every arithmetic operation on field elements (addition, subtraction, negation, doubling, multiplication, multiplication by five, squaring, division, inversion, exponentiation, the variants with 64-bit integer operands, and sums/products of many elements) yields the residue that exact integer arithmetic modulo the base field size yields. This holds whatever internal representation the operands have and however receiver and operands alias, and operands other than the receiver keep their value. Dividing by or inverting zero panics with an error wrapping ErrDivisionByZero.",
 ["inputs", "histories"],
 "all field elements in all internal representations, all alias patterns of receiver and operands, all sequences of operations on the same variables",
 "A test samples random residues; carry and final-reduction slips show only for values next to p, 2^256-p or 2^64 word boundaries, or for one alias pattern after a particular history of lazily reduced operations.",
 [FE+"field_element.go", FE+"field_element_batch.go", FE+"field_element_montgomery.go", FE+"uint256_montgomery.go"],
 [("lazily (c-)reduced Montgomery arithmetic", FE), ("MultiplySlice/SummationSlice accumulators", FE)],
 ["exported methods of FieldElement"])

prop("F02", "Field element observers depend on the residue only, not its representation",
 "IsZero, IsOne, IsEqual, CmpAbs, Sign, Jacobi, conversions and serialization give the same answer for every internal representation of the same residue, namely the one defined mathematically (Sign is 0 for 0, +1 for 1..(p-1)/2 and -1 otherwise). Observers, Normalize and RerandomizeRepresentation never change the residue, after Normalize equal elements have one and the same internal representation, and ToBytes/SetBytes restore the element. The random setters give reduced elements, and SetRandomUnsafeNonZero never gives zero.",
 ["inputs", "histories"],
 "all residues and all of their internal representations, reached by any history of operations",
 "A residue has up to two internal representations and random tests practically never meet the second representation of 0, 1 or of values near (p-1)/2.",
 [FE+"field_element.go", FE+"field_element_montgomery.go"],
 [("Normalize before comparing", FE), ("Sign from the non-Montgomery form", FE)],
 ["exported methods of FieldElement"])

prop("F03", "Field element conversions are exact and report what cannot be represented",
 "Converting between field elements and big integers, 256-bit integers, int64, uint64, formatted text and parsed text preserves the residue, reducing any integer, including negative ones, modulo the field size. A conversion to int64/uint64 succeeds exactly if the value (for int64: the value or its negative) is representable, and otherwise returns an error wrapping ErrCannotRepresentFieldElement that carries the element. Arguments are never modified and results never alias internal state.",
 ["inputs"],
 "all integers (also negative and larger than the modulus), all field elements, all integer formatting verbs and flags",
 "The interesting inputs (2^63, 2^64, p-2^63, multiples of p plus or minus one, math.MinInt64) form a negligible fraction of what random tests draw.",
 [FE+"field_element_bigInt.go", FE+"field_element.go", FE+"uint256.go"],
 [("range checks in ToUint64/ToInt64", FE), ("big.Int based formatting and parsing", FE)],
 ["SetBigInt/ToBigInt/SetUint256/ToUint256/SetInt64/ToInt64/SetUint64/ToUint64/Format/String/InitFieldElementFromString"])

prop("F04", "Batch inversion inverts exactly the invertible elements and reports the zeros",
 "For any list of field elements, batch inversion replaces each element by its inverse, exactly as inverting one by one. If some elements are zero, the strict variants change nothing and return an error wrapping ErrDivisionByZero whose data lists exactly the zero positions and their number, while the skipping variants leave the zeros at zero, invert all others and return exactly the sorted zero positions (nil if there are none).",
 ["inputs"],
 "lists of any length, any number and position of zeros, ones and repeated values, in any internal representation, through the variadic and the slice API",
 "Which positions are zero, how many, and in which representation is a combinatorial space; the tests use a few fixed patterns.",
 [FE+"field_element_batch.go"],
 [("Montgomery's trick with prefix products", FE), ("MultiInversionErrorData", FE)],
 ["MultiInvertEq, MultiInvertEqSlice, MultiInvertEqSkipZeros, MultiInvertEqSliceSkipZeros"])

prop("F05", "Square roots, Jacobi symbols and exponentiation are mathematically correct",
 "SquareRoot succeeds exactly for squares (including 0) and then yields a root, and leaves its receiver unchanged otherwise. Jacobi equals the Legendre symbol of the residue, and exponentiation with any 256-bit exponent equals integer exponentiation modulo p with 0^0 = 1, also under aliasing.",
 ["inputs"],
 "all field elements, in particular those whose order is any power of two up to 2^32 times any odd part; all 256-bit exponents",
 "Square roots go through a table driven discrete logarithm in a group of order 2^32; table or carry mistakes show only for specific digits of that logarithm.",
 [FE+"field_element_square_root.go", FE+"field_element_montgomery.go", FE+"utility.go", FE+"field_element.go"],
 [("dyadic discrete logarithm tables", FE), ("binary gcd Jacobi", FE), ("sliding window exponentiation", FE)],
 ["SquareRoot, Jacobi, Exp"])

prop("F06", "256- and 512-bit integers behave as fixed-width integers",
 "Addition, subtraction, multiplication, increment, decrement, shifts, comparison, bit length, long multiplication/squaring, formatting and conversion of 256- and 512-bit integers agree with exact integer arithmetic modulo 2^256 (or with the exact value where nothing is lost), including returned carries, borrows and shifted-out words, under any aliasing. Conversions whose value does not fit panic instead of truncating, and the sliding window decomposition of a number recombines to it.",
 ["inputs"],
 "all 256-bit and 512-bit integers, all alias patterns",
 "Carry chains through all-ones words occur with probability about 2^-64 for random operands.",
 [FE+"uint256.go", FE+"uint256_utility.go"],
 [("bits.Add64/Sub64/Mul64 carry chains", FE+"uint256.go")],
 ["exported methods of Uint256 and Uint512"])

prop("F07", "Modular 256-bit routines are correct and keep their promised ranges",
 "Each modular routine on 256-bit integers (addition, subtraction, doubling, multiplication, squaring, inversion, exponentiation, Montgomery multiplication, squaring and conversion, and the reductions) returns a value congruent to the mathematical result for every input within its documented range, and that value lies within the documented output range. The range predicates decide membership in [0,p), [0,2p), [0,2^256-p) and [0,2^256) exactly, and results do not depend on aliasing.",
 ["inputs"],
 "all inputs within the documented ranges (fully, c-, b- or un-reduced), all alias patterns, all exponents",
 "A missing conditional subtraction is only visible when an intermediate value falls into a gap of relative size 2^-64 or next to a range border.",
 [FE+"uint256_modular.go", FE+"uint256_montgomery.go", FE+"modulus.go", FE+"uint256_utility.go"],
 [("conditional add/subtract reductions", FE), ("Barrett and Montgomery reduction", FE)],
 ["*_a, *_b, *_c, *_f methods of Uint256"])

prop("F08", "Field element and 256-bit integer byte encodings are exact and canonical",
 "Serializing writes exactly the 32 byte encoding of the canonical value in the requested byte order, with the requested prefix bits in the most significant bits; it fails with ErrPrefixDoesNotFit, writing nothing, exactly if the value needs those bits. Deserializing inverts it, consumes exactly 32 bytes, splits off or verifies the prefix (ErrPrefixMismatch), and reports ErrNonNormalizedDeserialization exactly if the encoded number is not below the field size. The io, buffer and byte slice variants behave alike.",
 ["inputs", "configurations"],
 "all values, all 256-bit input strings, both byte orders, all prefixes of length 0 to 8, all stream and buffer variants",
 "Canonicality and prefix handling concern every 32 byte string and every prefix length; tests try random reduced values and a few prefixes.",
 [FE+"field_element_serialize.go", FE+"uint256_serialize.go", B+"common/embedded_params.go", B+"common/fe_endianness.go"],
 [("prefix masking before/after byte order conversion", FE), ("reduction check on read", FE)],
 ["Serialize*, Deserialize* of FieldElement and Uint256 and the free functions"])

prop("F09", "Field element I/O failures are reported faithfully and leave the target intact",
 "However an underlying reader or writer fails, delivers short chunks or ends early, (de)serializing a field element or 256-bit integer returns the number of bytes really transferred and an error wrapping the cause (io.EOF only if nothing was read, io.ErrUnexpectedEOF if the stream ends midway). The error's data agree: byte count, partial flag set exactly if some but not all bytes were transferred, and I/O flag set exactly for I/O errors. Input rejected for its content (wrong prefix, non-reduced number) is reported as accurately, with the very bytes that were read attached. The target of a failed read is unmodified, except that a non-reduced number is stored reduced.",
 ["fault_sequences", "inputs"],
 "every failure position 0..32, every chunking of the transfer, every error value incl. EOF variants, both byte orders, all prefix variants",
 "The tests inject few faults, and never combine chunked readers with failures at each byte position for each variant.",
 [FE+"field_element_serialize.go", FE+"uint256_serialize.go", "internal/errorconsts/errorconsts.go", "internal/errorTransform/error_transform.go"],
 [("io.ReadFull with error data", FE), ("partial flags", "internal/errorconsts")],
 ["bytesRead/bytesWritten, errors.Is, GetData_struct"])

prop("C01", "Curve point addition, subtraction, doubling and negation follow the group law",
 "For all combinations of the six curve point types as receiver and operands for which the operation is permitted, Add, Sub, Double, Neg and their in-place variants yield the point given by the twisted Edwards group law, for all rational points including the neutral element, the points of order two and the points at infinity. The result does not depend on projective or internal representation, nor on aliasing, and operands other than the receiver still denote the same point. Operations that would put a point into a type that cannot hold it panic rather than store a wrong point.",
 ["inputs", "histories", "programs"],
 "all rational points, all projective representations, all type combinations and alias patterns, and all sequences of operations on the same variables",
 "There are 6x6x6 type combinations with exceptional cases (infinity, order two, equal or opposite points) and hidden representation flags, reached only via particular histories.",
 [CP+"curve_point_xtw.go", CP+"curve_point_axtw.go", CP+"curve_point_doubleproj.go", CP+"curve_point_impl_add.go", CP+"curve_point_impl_double.go"],
 [("add/sub formulas per representation pair and *_safe variants", CP+"curve_point_impl_add.go"), ("type switches in Add/Sub/Double", CP)],
 ["Add, Sub, Neg, Double, AddEq, SubEq, NegEq, DoubleEq"])

prop("C02", "Coordinates and comparisons of a curve point depend only on the point",
 "The projective and affine coordinates a point reports satisfy the curve equation and denote the point itself (the decaf variants: the point up to the affine point of order two). IsEqual, IsNeutralElement, IsAtInfinity, IsE1, IsE2, Validate, Clone, SetFrom and MapToFieldElement agree with the mathematical point for all types, and IsEqual is correct between different types. Querying a point, in any order, never changes the point it denotes.",
 ["inputs", "histories"],
 "all valid points of all types in all internal representations, all sequences of queries",
 "Read-only methods may rewrite the internal representation (lazy normalization), so a wrong rewrite shows only after some query order on some representation.",
 [CP+"curve_point.go", CP+"curve_point_xtw.go", CP+"curve_point_axtw.go", CP+"curve_point_doubleproj.go", CP+"curve_point_impl_equality.go", CP+"serializer_curve_field.go"],
 [("normalizeSubgroup / normalizeAffineZ lazy normalization", CP), ("IsEqual per representation pair", CP+"curve_point_impl_equality.go")],
 ["X_/Y_/T_/Z_ (decaf_)(projective|affine), XY_affine, IsEqual, IsNeutralElement, SetFrom, Clone, MapToFieldElement"])

prop("C03", "Subgroup membership, torsion and the endomorphism are exact",
 "IsInSubgroup and SetFromSubgroupPoint on untrusted input accept exactly the rational points of the prime order subgroup; on rejection the receiver is unchanged. The torsion setters and constants denote the points they are named after, and randomly sampled points are valid members of the group they are sampled from. The endomorphism is a group homomorphism that multiplies subgroup points by the documented eigenvalue, for every type, including neutral element, torsion points and points at infinity.",
 ["inputs"],
 "all rational points of all four cosets of the subgroup, in all types and representations",
 "Membership must be decided correctly on all four cosets of the torsion group and for exceptional points; a check that forgets one coset passes random tests that only draw subgroup points.",
 [CP+"curve_point_impl_subgroupcheck.go", CP+"curve_point_impl_endo.go", CP+"curve_point_impl_torsion.go", CP+"bandersnatch_constants.go"],
 [("Legendre checks", CP+"curve_point_impl_subgroupcheck.go"), ("degree 2 isogeny formulas", CP+"curve_point_impl_endo.go")],
 ["IsInSubgroup, SetFromSubgroupPoint, Endo, EndoEq, AddAffineTwoTorsion-like setters"])

prop("C04", "Normalizing points, singly or in batches, never changes the points",
 "NormalizeForZ, NormalizeForY and their batch versions keep the point every entry denotes and, where they report success, establish Z=1 (respectively Y=1). The batch versions report, sorted and nil if empty, exactly the indices of entries that have no such normalization (points at infinity and, for the projective types, uninitialized points), and slice views hand out pointers to the very elements of the underlying slice.",
 ["inputs"],
 "all lists of points of every type, any mix of representations, infinite and invalid entries at any positions",
 "Batch inversion couples all entries: one zero at a particular position can corrupt its neighbours, a space of position patterns tests do not enumerate.",
 [CP+"batch_operations.go", CP+"curve_point_slice.go", CP+"curve_point_xtw.go", CP+"curve_point_axtw.go"],
 [("batch inversion skipping zeros", CP+"batch_operations.go")],
 ["BatchNormalizeForZ/Y, NormalizeForZ/Y, AsCurvePointSlice, GetByIndex"])

prop("C05", "Invalid points (NaPs) never turn into valid points silently",
 "Every group operation, endomorphism or conversion that succeeds with an invalid (uninitialized) point as operand yields an invalid point again, never a valid one. IsEqual and IsNeutralElement involving one report it to the installed NaP handler as a comparison and return what the handler says (false by default); IsAtInfinity, IsInSubgroup, single normalization and SetFromSubgroupPoint report it too, and answer false under the default handler; MapToFieldElement panics. IsNaP recognizes every zero value without calling the handler, and a handler installed by the user is the one that is called and is returned by the getter.",
 ["inputs", "histories", "configurations"],
 "all operations, all operand positions and type combinations, user-installed and default handlers",
 "The number of (operation, position, type) combinations is large, and an unguarded formula happily maps all-zero coordinates to other all-zero-looking or even valid points.",
 [CP+"error_handler.go", CP+"curve_point_xtw.go", CP+"curve_point_axtw.go", CP+"curve_point_doubleproj.go"],
 [("napEncountered handler", CP+"error_handler.go")],
 ["IsNaP, arithmetic, comparisons, SetNaPErrorHandler"])

prop("C06", "Building curve points from coordinates accepts exactly valid inputs",
 "Constructing a point from untrusted coordinate data (X and Y; X and sign of Y; Y and sign of X; X*sign(Y); X*sign(Y) and Y*sign(Y)) succeeds exactly if some finite rational point (or, for the subgroup variants, some point of the prime order subgroup) matches the data, and then yields that point. Otherwise the error wraps the documented reason, its data hold the offending inputs, and its message prints without complaint. Trusted construction from valid data gives the same point.",
 ["inputs"],
 "all coordinate values and signs, valid or not, on every coset, including 0, 1, -1 and coordinates of points at infinity",
 "Acceptance has to be exact for each residue: wrong-coset, not-on-curve and wrong-sign inputs each take a different path, some of which random tests rarely or never hit.",
 [CP+"serializer_curve_field.go"],
 [("curve equation and Legendre checks on untrusted input", CP+"serializer_curve_field.go"), ("error data", CP+"serializer_curve_field.go")],
 ["CurvePointFromXYAffine_*, CurvePointFromXAndSignY_*, CurvePointFromYAndSignX_*, CurvePointFromXTimesSignY_subgroup, CurvePointFromXYTimesSignY_subgroup"])

prop("C07", "Curve points implemented outside the library are treated like its own",
 "An operand may be of any type implementing the exported curve point interface as documented, with arbitrary projective scaling, with decaf coordinates of P or of P plus the affine point of order two, and with coordinates changing between calls as the interface allows. Addition, subtraction, doubling, negation, the endomorphism, comparison, SetFrom and SetFromSubgroupPoint then give the same point or answer as for the library's own types, and leave the operand alone. Invalid operands never give a valid point.",
 ["inputs", "configurations"],
 "all types implementing the interface, all points, all receivers and operations",
 "The type switches end in default branches which the library's own types do not reach; no test has a foreign type.",
 [CP+"curve_point.go", CP+"curve_point_doubleproj.go", CP+"curve_point_impl_equality.go"],
 [("default branch per operation", CP+"curve_point_doubleproj.go"), ("default branches of SetFrom and IsEqual", CP+"curve_point_axtw.go")],
 ["CurvePointPtrInterfaceRead, Add, Sub, Double, Neg, Endo, IsEqual, SetFrom, SetFromSubgroupPoint"])

prop("S01", "Point serialization round-trips and has one fixed encoding per point",
 "For every serializer and every setting of its parameters, serializing a serializable point writes exactly the documented encoding (headers, prefix bits, byte order, coordinates) of the advertised length, depending only on the point and not on its type or representation, and deserializing it, trusted or not, into any suitable point type (also ones implemented outside the library) gives back the same point consuming exactly those bytes. Points the format cannot carry (invalid, infinite, or outside the subgroup for subgroup-only formats) are rejected with the documented error.",
 ["inputs", "configurations"],
 "all points of all types, all serializers, byte orders, bit headers, headers and footers",
 "Round trips must hold in the product of points, types, and parameter settings; tests of this package do not even build at the pinned commit.",
 [PS+"basic_serializers.go", PS+"values_serializers.go", PS+"serialize_curve_point.go", PS+"headerSerializer.go"],
 [("basic serializers split points into values", PS+"basic_serializers.go"), ("values serializers", PS+"values_serializers.go")],
 ["SerializeCurvePoint, DeserializeCurvePoint, OutputLength"],
 hook="the unexported basic serializers (X||Y, X+sign, Y+sign) are reached through an overlay bridge file; the exported ones need nothing")

prop("S02", "Untrusted point deserialization rejects everything but valid encodings",
 "Deserializing an arbitrary byte string as untrusted input succeeds exactly if the string is the encoding some valid point (of the prime order subgroup, where format or target type demand it) serializes to, so no two strings decode to the same point. Otherwise an error with the documented cause is returned, no panic occurs, and with formats without footer the target point keeps its value.",
 ["inputs"],
 "all byte strings of the encoding length and shorter, in particular encodings of points of other cosets, non-reduced coordinates, flipped sign and prefix bits, negative zero",
 "Malleability and small-subgroup attacks use exactly the inputs random testing never produces.",
 [PS+"basic_serializers.go", PS+"values_serializers.go", CP+"serializer_curve_field.go", FE+"field_element_serialize.go"],
 [("canonicity, curve and subgroup checks", CP+"serializer_curve_field.go")],
 ["DeserializeCurvePoint with UntrustedInput"],
 hook="overlay bridge for the unexported basic serializers")

prop("S03", "Slice and batch (de)serialization equals the concatenation of its parts",
 "Serializing many points writes the concatenation of the single encodings; the slice format writes slice header, 4 byte little-endian length, each point between its per-point header and footer, and slice footer, of exactly the length SliceOutputLength announces. Reading returns the same points in order, into new or existing buffers, touching nothing beyond the announced number, consuming exactly these bytes; wrong headers, oversized or too large lengths and too small buffers give the documented errors without any panic or point written.",
 ["inputs", "configurations"],
 "all lists of points, all header/footer settings, all announced lengths including hostile ones, new and existing buffers, the bounded and variadic variants",
 "Slices of every length and every combination of headers, buffers and hostile in-band lengths are beyond example based tests.",
 [PS+"serialize_curve_points.go", PS+"headerSerializer.go", PS+"utils.go", CP+"curve_point_slice.go"],
 [("SerializeSlice/DeserializeSlice", PS+"serialize_curve_points.go"), ("in-band size", PS+"headerSerializer.go")],
 ["SerializeCurvePoints, DeserializeCurvePoints, SerializeSlice, DeserializeSlice, DeserializeCurvePoints_Bounded, DeserializeCurvePoints_Variadic, SliceOutputLength"])

prop("S04", "Point I/O failures are accounted for byte by byte and point by point",
 "If the underlying stream fails or ends at any byte of a single, batch or slice (de)serialization, the returned count is the number of bytes really transferred and the error wraps the cause, with io.EOF only if nothing was read before. The error data's PointsSerialized/PointsDeserialized is the number of points completely transferred (equal to the number of target entries written), points read before the failure are correct, entries after it untouched, and the partial flag is set exactly if the stream is left inside an encoding.",
 ["fault_sequences", "inputs", "configurations"],
 "every byte position of the failure, every chunking, every error value, all serializers, headers and footers, all list lengths",
 "A fault can strike at each of hundreds of byte positions in each configuration; tests inject a handful.",
 [PS+"serialize_curve_points.go", PS+"serialize_curve_point.go", PS+"headerSerializer.go", PS+"utils.go", "internal/errorTransform/error_transform.go"],
 [("byte accounting and EOF transformation", PS), ("BatchDeserializationErrorData", PS+"serialize_curve_points.go")],
 ["bytesRead/bytesWritten, PartialRead/PartialWrite, PointsDeserialized/PointsSerialized"])

prop("S05", "Serializers are immutable; changing a parameter gives an independent copy",
 "WithParameter and WithEndianness return a serializer that differs from the original in exactly the requested parameter, GetParameter reads back what was set (names are case-insensitive), and neither the original nor any other serializer nor any byte slice passed in or handed out shares state with it. Unknown parameters and invalid values panic and change nothing.",
 ["histories", "configurations"],
 "all sequences of parameter changes on all serializers, with later modification of the passed and returned values",
 "Aliasing of header slices shows only if a caller mutates a slice after handing it over, in some order of derivations.",
 [PS+"parameterModification.go", PS+"serialize_curve_point.go", PS+"headerSerializer.go", B+"common/embedded_params.go"],
 [("Clone plus reflective setter", PS+"parameterModification.go"), ("copying getters/setters", PS+"headerSerializer.go")],
 ["WithParameter, GetParameter, HasParameter, RecognizedParameters, Clone, AsDeserializer, serialized bytes"])

prop("X01", "Exponent arithmetic is arithmetic modulo the curve exponent",
 "Exponents behave as integers modulo twice the prime subgroup order: setting from any integer, adding, subtracting, multiplying, negating, and reading back agree with integer arithmetic, under any aliasing, and the reduction modulo the subgroup order, the zero and one tests and the text output are those of the mathematical value. Operands are never modified.",
 ["inputs", "histories"],
 "all exponents and integers (negative, larger than the modulus), all alias patterns and sequences of operations",
 "Receiver/operand mix-ups are invisible when a test uses the receiver as operand or values where both agree.",
 [B+"exponents/exponents.go"], [("reduction after each operation", B+"exponents/exponents.go")],
 ["exported methods of Exponent"])

prop("X02", "GLV decomposition is correct, short and optimal for every exponent",
 "For every exponent t, GLV_representation returns u and v with u + v*lambda congruent to t modulo the subgroup order, lambda being the endomorphism eigenvalue, with |u| and |v| below the documented bound of about 126 bits. No other decomposition reachable by adding lattice vectors has a smaller infinity norm, and sign, bit and big integer access to u and v agree with their values.",
 ["inputs"],
 "all exponents modulo the curve exponent, in particular near the borders of the lattice cells",
 "The bound is attained and rounding decided only at the border of lattice cells, where random exponents do not fall.",
 [B+"exponents/glv_transform.go", B+"exponents/exponents.go"], [("nearest lattice vector by rounding and correction", B+"exponents")],
 ["GLV_representation"])

prop("E01", "Errors with data return exactly the data put in, with the chosen merge rule",
 "An error built with data returns exactly the parameters and structs given, merged with those of the wrapped error as the chosen mode says (new value wins, old value wins, or differing values panic), and deleting, adding, querying and listing parameters behave like operations on the resulting map. Getting data as a struct, converting between error types, and missing or ill-typed entries follow the chosen missing-data rule. Data are found through any chain of wrapping errors.",
 ["inputs", "histories"],
 "all parameter names and values including nil, all struct types with embedding and shadowing, all wrapping histories and mode combinations",
 "The modes, embedded and shadowed fields, nil interfaces and wrapping depths multiply to a space of histories which fixed examples only touch.",
 [EW+"errorsWithData.go", EW+"plainErrorWithParams.go", EW+"dataOverride.go", EW+"modify_errors.go", EW+"params_to_data.go"],
 [("parameter map merging", EW), ("struct <-> map conversion via reflection", EW)],
 ["NewErrorWithData_*, AddDataToError_*, DeleteParameterFromError*, GetData_*, GetParameter, HasParameter, HasData, AsErrorWithData"])

prop("E02", "Errors with data are immutable and add nothing to errors they do not change",
 "No operation changes an existing error: after it is created, its message, data, and what it wraps stay the same whatever is later done to errors derived from it, to maps or structs passed in, or to maps handed out. Operations given a nil error with nothing to report return nil, and errors.Is and errors.As see through errors with data exactly what was wrapped. A boxed (incomparable) error stands for its contents under errors.Is and as base error, and unboxing it returns the contents; what the contents wrap need not be visible through the box.",
 ["histories", "inputs"],
 "all sequences of deriving, boxing, unboxing, querying and mutating of inputs and outputs",
 "Shared maps show up only when a caller mutates something it got from or passed to one error and then looks at another.",
 [EW+"plainErrorWithParams.go", EW+"modify_errors.go", EW+"incomparableWrapper.go"], [("copying maps at the API boundary", EW), ("IncomparableError boxing", EW)],
 ["Error(), GetData_map, Unwrap, errors.Is, errors.As, MakeErrorIncomparable*, UnboxError"])

prop("E03", "Error message interpolation evaluates every format string as documented",
 "The message of an error with data is the evaluation of its format string: escapes yield the escaped character, %w and $w the wrapped message, %fmt{Var} and $fmt{Var} the parameter formatted with the fmt verb (own respectively passed parameters), special variables the parameter map, and conditionals are included exactly if the map is (non-)empty. Evaluation never panics: any problem, syntax error or missing variable is reported inside the message.",
 ["inputs"],
 "all format strings, well-formed or not, nested to any depth, all parameter maps",
 "A language has infinitely many sentences; tests list dozens. Lexer and parser state mix-ups need particular token sequences.",
 [EW+"formatting_parse.go", EW+"formatting_interpolate.go", EW+"formatting_tokenize.go"],
 [("tokenizer, parser and tree evaluation", EW)],
 ["Error(), Error_interpolate"])

prop("E04", "Validation of error format strings agrees with their evaluation",
 "ValidateSyntax reports an error exactly for format strings that are not well-formed. ValidateError_Final succeeds only if printing the error reports no problem in-band, and fails if a variable the message needs is missing or a wrapped message cannot be printed, as far as the chain consists of errors with data. ValidateError_Base judges likewise except that $-variables count as present and $-conditions are left undecided, since they depend on the error that will wrap this one; ValidateError_Params judges an error under a given map. Validation never panics and does not change the error.",
 ["inputs"],
 "all format strings and parameter maps, chains of wrapped errors",
 "It relates two recursive walks over all syntax trees; a tree shape on which they disagree need not be in any test list.",
 [EW+"formatting_parse.go", EW+"validate.go"],
 [("syntax tree validation", EW)],
 ["ValidateSyntax, ValidateError_Final, ValidateError_Base, ValidateError_Params, Error()"])

prop("E05", "Turning end-of-file into unexpected end-of-file keeps an error's data",
 "UnexpectEOF and UnexpectEOF2 turn an error that is io.EOF, directly or somewhere in its chain, into one that is io.ErrUnexpectedEOF, no longer io.EOF, and carries exactly the data of the original (UnexpectEOF: io.ErrUnexpectedEOF itself if there are none; UnexpectEOF2: with the data struct of the original). Errors that are not io.EOF, and nil, are left as they are; the original error object does not change. The I/O error data made for a read or write of n of m bytes report n, an I/O error, the bytes that were read, and a partial transfer exactly if 0 < n < m; the data for no attempt report none of it.",
 ["inputs"],
 "all error chains and data, all byte counts",
 "Every multi-part reader relies on it to tell a clean end of stream from a truncated one; tests reach it only with bare EOF errors.",
 ["internal/errorTransform/error_transform.go", "internal/errorconsts/errorconsts.go", B+"bandersnatchErrors/serializer_errors.go"],
 [("end of file conversion", "internal/errorTransform/error_transform.go")],
 ["errorTransform.UnexpectEOF, UnexpectEOF2, errorconsts.NewIntermediateReadErrorData, NewIntermediateWriteErrorData"])

prop("X03", "The signed window decomposition of exponents represents the exponent",
 "Decomposing an exponent of at most 128 bits into signed windows, for any window width, yields digits whose weighted sum is the exponent; all digits are odd, no wider than the window, at ascending positions with at most one digit per window. The 128 bit sum, product, bit and bit-range helpers agree with integer arithmetic.",
 ["inputs"],
 "all numbers of up to 128 bits, both signs, all window widths",
 "Carries that run through a whole word or out of the top bit need long runs of ones at the right place.",
 [B+"exponents/glv_transform.go", B+"exponents/exponents.go"], [("sliding window with carry", B+"exponents/glv_transform.go")],
 ["decomposeUnalignedSignedAdic, getBitRange, add128, mul128 (in-package)"])

prop("M01", "Documented concurrent uses are free of data races and give the same results",
 "Concurrent readers of shared normalized field elements, concurrent use of shared serializers, of shared errors with data and their first-use type caches, of the NaP handler accessors, of precomputed caches, and independent arithmetic in many goroutines run without data races, deadlocks or crashes. Each goroutine gets the results a sequential run gives.",
 ["schedules"],
 "all interleavings of goroutines performing documented concurrent operations",
 "Unit tests run these sequentially without the race detector; lost locks and lazily written shared state need an unlucky schedule.",
 [EW+"params_to_data.go", CP+"error_handler.go", "internal/testutils/precomputation_meta.go", FE+"field_element_montgomery.go", PS+"serialize_curve_points.go"],
 [("RWMutex protected lookup tables", EW), ("handler mutex", CP+"error_handler.go"), ("PrecomputedCache locks", "internal/testutils")],
 ["race detector reports, results compared with a sequential run"])

prop("M02", "Byte order and bit header building blocks are exact and reject bad input",
 "Writing and reading 16, 32, 64 and 256-bit integers in either byte order places every byte where that order says and nothing outside. Bit headers hold exactly the prefix they were made from; prefixes longer than eight bits or with bits beyond their length, unsupported byte orders, too short buffers and forbidden subgroup settings panic. The published curve constants of the package are the Bandersnatch parameters they are documented as, and the clone and nil-fixing helpers return independent values.",
 ["inputs", "configurations"],
 "all integer values and buffer sizes, all prefix bit/length pairs, all byte order arguments",
 "The valid and invalid configurations form a product space which the tests only sample.",
 [B+"common/fe_endianness.go", B+"common/embedded_params.go"],
 [("FieldElementEndianness", B+"common"), ("BitHeader.Validate", B+"common")],
 ["exported API of package common"])

prop("M03", "Internal containers, caches and list helpers behave as their models",
 "The stack is last-in first-out for every sequence of operations, hands out pointers to the current entries through which they can be modified, and panics on access to missing entries. Precomputed caches return, for each key, prefixes of one fixed sequence as independent copies no matter in what order and amounts elements are requested. Integer array conversions, list, slice and map helpers, and the struct-field and reflection-call helpers equal their definitions.",
 ["histories", "inputs"],
 "all sequences of stack and cache operations, all keys and amounts, all integers and lists",
 "The content of a cache after a history of differently sized requests is a matter of all histories; tests run one.",
 ["internal/stack/stack.go", "internal/testutils/precomputation_meta.go", "internal/utils/bigIntConversion.go", "internal/utils/listcontainment.go"],
 [("slice backed stack", "internal/stack"), ("growing cached sequence per key", "internal/testutils")],
 ["exported functions of internal/stack, internal/testutils, internal/utils"])

prop("M04", "Call counters conserve counts and never change computed results",
 "A report of the call counters shows, for every history of increments, each counter at the sum of its own increments plus, with the declared multipliers, those of all counters that add to it, and resetting sets all to zero; the structure report lists every counter below each of its parents. Building with call counters enabled changes no result of any field or curve operation.",
 ["histories", "configurations"],
 "all counter graphs and increment histories; both build configurations",
 "Counts propagate through a user-defined graph with multipliers; tests check small fixed graphs. No test compares the two build configurations.",
 ["internal/callcounters/callcounters.go", FE+"callcounters_active.go", CP+"callcounters_active.go"],
 [("addTo / addToRecursive propagation", "internal/callcounters")],
 ["ReportCallCounters, ResetAllCounters, build tag callcounters"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
