import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=[],obs=[]):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
RC="nytl/recursiveCallback.hpp"; CB="nytl/callback.hpp"; CN="nytl/connection.hpp"
p("C01","A callback call invokes exactly the functions registered when it began",
"Every call of a callback invokes, exactly once each and in registration order, exactly the functions that were registered when that call began, and returns their results in that order; for a recursive callback this holds however the invoked functions add, disconnect, clear, replace or recursively call the same callback. A function removed while calls are pending is still invoked by those pending calls but by no call that begins after its removal; a function added while calls are pending is invoked only by calls that begin after it was added.",
["histories","programs"],"for every sequence of add/disconnect/clear/assign/call operations, at top level and nested to any depth inside invoked functions, for void and value-returning signatures and every connection id type",
"The tests run about a dozen fixed nesting patterns and mostly compare a single total counter; the number of interleavings of nested calls, removals and additions is unbounded and each has its own set of functions to invoke.",
[RC,CB],[("removal stamps (negative ids carry the call id of the removal)",RC+": call, disconnect, clear"),("last_ iterator captured at call begin",RC+": call"),("deferred erase",RC+": removeOld")],
[("subs_","registered functions with their ids in registration order",RC),("callID_ / iterationCount_","newest call id / number of pending calls",RC),("last_","last list element",RC)],["order of invocations per call","returned vector"])
p("C02","Disconnect, clear and assignment remove exactly their targets, for good",
"Disconnecting a registered function removes that function and no other: it reports success exactly once, reports failure for anything already removed (by disconnect, clear or assignment, also while the removal is deferred by a pending call), and no call that begins afterwards invokes the function. Clearing removes all registered functions and assigning replaces all of them by the new one; functions registered later are never affected by connections of removed ones.",
["histories","programs"],"for every history of operations on recursive and plain callbacks, every position of the target (first, middle, last, only one), inside or outside of pending calls, through ids or connections",
"Tests disconnect a few fixed entries and never check the reported result; whether the right entry disappears depends on its position, the pending calls and earlier removals.",
[RC,CB,CN],[("linear search by id",RC+": disconnect"),("equal_range over ordered ids",CB+": disconnect"),("clear",RC+", "+CB)],[("subs_","registered functions",RC)],["result of disconnect","invocations of later calls"])
p("C03","Each registration's id is notified of its removal exactly as documented",
"For every registration the callback announces complete removal to the registration's connection id exactly once: immediately when the function is disconnected or cleared while no call is pending, when the last pending call has finished if it was removed while calls were pending (whether that call returns or throws), and at destruction of the callback if it is still registered. If it is removed while calls are pending, the id is first set to a negative value at the moment of removal. The id of a function that was not removed is never notified or changed, and no id is accessed any more after its final notification.",
["histories","fault_sequences"],"for every history of adds, disconnects, clears, nested calls, exceptions and destruction and every connection id type fulfilling the documented concept",
"No test uses a custom connection id although the concept in docs/callback.md exists for it; the tests only look at tracked ids in one destruction scenario.",
[RC,CB,CN,"docs/callback.md"],[("id.set(-callID_) when removal is deferred",RC+": disconnect, clear"),("id.removed() before erase",RC+": removeOld, disconnect, clear, destructor"),("id.removed()",CB+": disconnect, clear, destructor")],[("Subscription::id","the callback's copy of the connection id",RC)],["calls of set()/removed() on a custom id type"])
p("C04","Tracked connections always tell whether their function is registered",
"A connection obtained from a callback with tracked ids reports being connected if and only if its function is still registered and the callback is alive, and so does every copy of it, no matter through which connection, clear, assignment or destruction the function was removed. Disconnecting a connection always leaves that connection object disconnected and empty; disconnecting a stale copy (function removed or callback destroyed) changes nothing and accesses nothing.",
["histories"],"for every history of registrations, connection copies, disconnects through any copy, clears, pending calls and callback destruction, for plain and recursive callbacks",
"The test checks one connection and one copy across one destruction; removal through another copy, deferred removal and use of stale copies are not exercised.",
[CN,CB,RC],[("shared id value",CN+": TrackedConnectionID"),("connected() guard",CN+": ConnectionT")],[("value","id value shared by the callback and all connections",CN)],["connected() of every connection copy after every operation"])
p("C05","A unique connection owns exactly one connection and disconnects it exactly once",
"A unique connection disconnects the connection it owns exactly once: when it is destroyed, explicitly disconnected, or assigned another connection. Moving or releasing transfers that ownership and leaves the source empty; an empty or released unique connection never disconnects anything, and the released connection keeps its function registered and can still disconnect it.",
["histories"],"for every sequence of construction, move construction, move assignment, disconnect, release and destruction over any number of unique connections and callbacks, plain and tracked ids",
"The tests construct, assign empty and destroy a single unique connection; chains of moves and the release operation are never exercised.",
[CN],[("disconnect in destructor and move assignment",CN+": UniqueConnectionT"),("source reset on move",CN+": UniqueConnectionT"),("release",CN+": UniqueConnectionT")],[("connectable_/id_","owned connection",CN)],["order and number of disconnects received by the connectable","connected()/connectable()/id()"])
p("C06","Calls pass arguments intact; exceptions leave the callback consistent",
"Every function invoked by a call receives the argument values passed by the caller (by-value arguments unmodified by other functions, reference arguments referring to the caller's object), and a function registered with an additional leading connection parameter receives the connection of its own registration. An exception thrown by an invoked function leaves the call unchanged, the call invokes no further function, and all registrations, pending removals and outer calls behave as if that call had ended normally. A registration that fails (empty function, id construction or allocation throws) leaves the registered functions unchanged.",
["inputs","fault_sequences","histories"],"for all argument kinds (value, lvalue reference, const reference, move-only), all positions and nesting depths of thrown exceptions and every failing allocation or id construction during registration",
"Tests pass one int by value and throw at depth one; they never pass values that can be moved from to several functions, nor inject failures into registration, nor throw through nested calls with pending removals.",
[RC,CB],[("argument forwarding",RC+": call"),("scope guard around iteration",RC+": call"),("emplace before assignment",RC+": add, emplace")],[("iterationCount_","number of pending calls",RC)],["argument values seen by functions","exceptions leaving call/add","behaviour of later calls"])
p("C07","Scope guards run their function exactly in the cases they promise",
"A scope guard runs its function exactly once when its scope is left, a success guard exactly when the scope is left without an exception raised in it, and an exception guard exactly when it is left by one, including guards created while another exception is already unwinding and guards that outlive that exception; an unset guard never runs its function. Guards of a scope run in reverse order of construction, no exception ever leaves a guard, and a function passed as an lvalue is used by reference.",
["programs","fault_sequences"],"for every nesting of scopes and guards, every point at which an exception is raised or caught, guards inside guard functions and destructors during unwinding, and throwing guard functions",
"Tests cover one guard of each kind and one nested combination; the decision depends on the number of exceptions in flight, which any nesting depth can change.",
["nytl/scope.hpp"],[("comparison of uncaught_exceptions with the value at construction","nytl/scope.hpp: ~ScopeGuard"),("catch all in destructor","nytl/scope.hpp: ~ScopeGuard")],[("exceptions_","uncaught exceptions at construction, -1 when unset","nytl/scope.hpp")],["order of executed guard functions","exceptions leaving the scopes"])
p("C08","Cloning through any interface preserves the dynamic type and value",
"Cloning an object through a reference to any of its cloneable base interfaces yields a new, independent object of the same dynamic type with equal value, accessible through a valid pointer to that base; the original is unchanged. Clone-moving yields an object of the same dynamic type holding the original's value by moving from the original, not by copying. This holds for direct, multi-level and multiple inheritance, abstract and non-abstract interfaces, and for clones of clones.",
["programs","histories"],"for every class hierarchy built with the provided helpers, every base through which an object is referenced and every sequence of clone and clone-move operations",
"Tests clone four fixed classes, almost always through the most derived type or the first base; a second base (a different address inside the object) is never used to clone.",
["nytl/clone.hpp"],[("virtual doClone/doCloneMove returning void*","nytl/clone.hpp"),("derivation helpers","nytl/clone.hpp: DeriveCloneable, DeriveCloneMovable")],[],["dynamic type, values and base values of clone and original"])
p("C09","Spans denote exactly the elements of their window of the underlying sequence",
"A span refers to exactly the elements of the sequence it was created from, in order, without copying: size, emptiness, indexing, front/back, forward and reverse iteration and byte views all agree with that window, and writing through it writes the underlying elements. Taking the first or last n elements or a subspan (with compile-time or run-time arguments, on static or dynamic extents) yields exactly that part of the window; comparisons of spans are the element-wise equality and lexicographical order of their windows. This holds for windows of any length, with sizes and extents beyond 32 bits, and for empty ones of every source. A span can only be created from elements of exactly its own type, never makes constant elements mutable, and static extents of spans have to agree. String parameters likewise denote exactly the null-terminated string they were created from and are always null-terminated.",
["inputs","histories"],"for every underlying sequence and source kind (array, std::array, vector, pointer and length, pointer pair, other span), every extent kind and every chain of window operations",
"Tests build a few spans of one size and check single elements; window arithmetic has to be right for every offset, count and extent combination including empty ones.",
["nytl/span.hpp","nytl/stringParam.hpp"],[("subspan arithmetic","nytl/span.hpp: first, last, subspan, make_subspan"),("extent storage","nytl/span.hpp: extent_type"),("comparison operators","nytl/span.hpp")],[("storage_","pointer and extent of the window","nytl/span.hpp")],["elements, sizes and addresses seen through every derived span"])
p("C10","Byte buffers transfer exactly the written bytes and keep exact cursors",
"Writing objects or byte sequences to fixed or growing write buffers and reading them back in the same order and types yields the same values; every write, read or skip consumes exactly the size of its object from the front of its buffer and touches no byte outside of it. Copy operations transfer the leading (or exactly all) bytes without consuming anything. An operation that does not fit the remaining size fails the configured assertion before any byte or cursor has changed, also for sizes beyond 32 bits. Only plain data objects and sequences of them, and no types their author prohibited, are accepted.",
["inputs","histories"],"for every sequence of write/read/skip/copy operations over all supported object kinds (scalars, structs, arrays, vectors, spans, initializer lists, raw byte ranges) and all buffer sizes including exactly fitting and too small ones",
"There is no test for the byte buffer functions at all.",
["nytl/bytes.hpp"],[("cursor advance by last(size - n)","nytl/bytes.hpp: read, write, skip"),("NYTL_BYTES_ASSERT","nytl/bytes.hpp")],[("ReadBuf/WriteBuf/DynWriteBuf","remaining window of a buffer","nytl/bytes.hpp")],["buffer contents incl. guard bytes, remaining sizes and positions, assertion failures"])
p("C11","UTF conversions are standard-conforming and lossless; characters located right",
"Converting any sequence of Unicode scalar values between UTF-8, UTF-16 and UTF-32 yields exactly the standard encoding, so every round trip is the identity. For every valid UTF-8 string the character count is the number of scalar values, and the nth-character accessors return exactly the bytes (zero-padded), the position and the size of the nth one; an index not smaller than the count throws out-of-range.",
["inputs"],"for every string of valid Unicode scalar values, including the code points at all encoding length boundaries, U+0000, byte order marks and the supplementary planes, and every index",
"The tests use two or three short strings of at most 3-byte characters; one wrong length class or boundary corrupts only strings containing such characters.",
["nytl/utf.hpp"],[("lead byte classification","nytl/utf.hpp: charCount, nth"),("codecvt facets","nytl/utf.hpp: toUtf8, toUtf16, toUtf32")],[],["returned strings, counts, positions and exceptions"])
p("C12","Flags behave as sets of enumeration bits",
"A flags value is the set of the enumeration values put into it: union, intersection and symmetric difference (as operators between flags and values in either order and in-place) are the set operations on the underlying bits, equality is equality of the sets, the default value is empty and inverting a value yields all bits except its own. In-place and out-of-place operators agree, and flags and raw value convert consistently for every underlying type.",
["inputs","histories"],"for all pairs of values of the enumeration and flags, all operator sequences, and all underlying integer widths",
"Tests evaluate a handful of operator expressions on one enumeration.",
["nytl/flags.hpp"],[("bit operators","nytl/flags.hpp: Flags"),("NYTL_FLAG_OPS","nytl/flags.hpp")],[("value_","bit set","nytl/flags.hpp")],["value() after each operation"])
p("C13","Rect operations follow the geometry of axis-aligned boxes",
"For boxes with non-negative extents, containment of a point, touching or proper intersection of two boxes, and the intersection box (empty at the origin if the boxes are disjoint) are exactly those of the closed (or open, for the Real variants) point sets in every dimension (proper intersection: of boxes with positive extents). The difference of two boxes with positive extents is a list of boxes with positive extents that are pairwise non-overlapping, lie inside the first box, do not overlap the second one and together cover everything else of the first box; it is just the first box if the two don't overlap and empty if the second covers the first. Size, center, equality and conversion agree with the box's coordinates, and converting a simplex converts each of its points.",
["inputs"],"for all pairs of boxes of every relative position (disjoint, touching, overlapping at a corner, edge or cross-wise, nested, equal) in every dimension and scalar type",
"The test uses a single pair of overlapping 2D boxes; there are 13 interval relations per dimension, so 169 relative positions in 2D and 2197 in 3D.",
["nytl/rect.hpp","nytl/rectOps.hpp","nytl/simplex.hpp"],[("per-axis comparisons","nytl/rectOps.hpp: contains, intersects"),("component-wise max/min","nytl/rectOps.hpp: intersection"),("axis-wise splitting","nytl/rectOps.hpp: difference")],[],["returned boxes and truth values"])
p("C14","Vector operations are component-wise exact and in-place equals out-of-place",
"Vector addition, subtraction, negation, scaling, component-wise products, quotients, minimum, maximum, clamping and functions, sum, product, dot and cross product, length, distance, normalization, angle and mirroring compute the mathematical result in every component for every dimension and value type. Every in-place operation leaves exactly the value its out-of-place form returns, changes no other object and is correct even if the operand is the modified vector or one of its components. Equality compares all components, conversions keep the common leading components and zero the rest, iteration and indexing access exactly the components, and an index out of range throws where documented.",
["inputs","histories"],"for all vectors of every dimension (specialised and generic) and value type, all operand aliasing patterns and all sequences of in-place operations",
"Tests evaluate each operation on one or two example vectors, mostly 3-dimensional; the specialisations for 2 and 3 dimensions and the generic class have separate code.",
["nytl/vec.hpp","nytl/vec2.hpp","nytl/vec3.hpp","nytl/vecOps.hpp"],[("component loops","nytl/vec.hpp, nytl/vecOps.hpp"),("operator[] of the specialisations","nytl/vec2.hpp, nytl/vec3.hpp")],[],["components of results and operands"])
p("C15","Matrix arithmetic and access follow matrix algebra",
"Matrix sums, differences, scalar multiples, negation, matrix-matrix and matrix-vector products, transposition, identity, trace, diagonal product, row and column access and swapping compute exactly the values defined by matrix algebra for every shape, also where rows and columns differ. In-place forms leave exactly the value of the out-of-place forms, also if an operand is the modified matrix or one of its entries. Equality and symmetry compare all entries, conversions keep the common upper-left block and zero the rest, and checked access throws exactly for positions outside of the matrix. Printing writes the entries row by row, filled up to the given width, and leaves the precision of the stream as it was.",
["inputs","histories"],"for all matrices of every shape and value type, all aliasing patterns and all sequences of in-place operations",
"Tests evaluate single products and sums of fixed small matrices; row/column mix-ups only show for particular shapes and values.",
["nytl/mat.hpp","nytl/matOps.hpp"],[("index loops","nytl/mat.hpp"),("row/col helpers","nytl/matOps.hpp")],[],["entries of results and operands"])
p("C16","Decompositions, determinants, inverses and echelon forms solve their equations",
"For every square matrix A the LU decomposition returns a unit lower triangular L, an upper triangular U, a permutation P and the sign of that permutation with PA = LU; the determinant (from the matrix or its decomposition) has the right value and sign, invertibility agrees with it, the inverse times A is the identity and evaluating the decomposition for b solves Ax = b. Row echelon and reduced row echelon forms have the defining shape with leading ones and are row-equivalent to the given matrix, for every shape and rank, including zero rows and the zero matrix; pivoting puts the largest candidate of the column in place by swapping whole rows. Results are exact up to floating-point rounding.",
["inputs"],"for all matrices of every shape, rank and permutation structure (including singular, zero and those needing several row exchanges)",
"Tests decompose two matrices with at most one row exchange and reduce one full-rank matrix; the permutation's sign, three-cycles, zero rows and rank deficiency are never reached.",
["nytl/matOps.hpp"],[("luDecomp, determinant, inverse, luEvaluate","nytl/matOps.hpp"),("pivot, rowEcholon, reducedRowEcholon","nytl/matOps.hpp")],[("LUDecomposition","lower, upper, perm, sign","nytl/matOps.hpp")],["entries of the returned matrices and vectors"])
p("C17","Quaternions implement the algebra and the group of rotations consistently",
"Quaternion arithmetic is the Hamilton algebra (product, sum, scaling, conjugate, norm, dot), and applying a unit quaternion to a vector is the rotation it represents, so that applying a product equals applying its factors from right to left. The conversions to and from rotation matrices, axis and angle, yaw/pitch/roll and all twelve Euler rotation sequences denote the same rotation (matrices leave further dimensions alone), for every orientation including degenerate ones with parallel first and third axis. Spherical interpolation starts and ends at the given orientations, takes the shorter path and advances proportionally to the parameter.",
["inputs"],"for all quaternions and rotations, every rotation sequence and all degenerate orientations (identity, half turns, gimbal lock)",
"There is no test for quaternions at all.",
["nytl/quaternion.hpp"],[("closed formulas","nytl/quaternion.hpp: operator*=, toMat, fromMat, apply, yxz, eulerAngles, slerp")],[],["components of returned quaternions, matrices, vectors and angles"])
p("C18","Transform and projection matrices map their defining landmarks exactly",
"Translation, scaling, axis flips, rotations in 2D and 3D, rotations orienting one vector to another, and their in-place forms (which multiply from the left) map every point exactly as documented, and orthonormal bases are orthonormal. Orthographic and perspective projections (frustum and field-of-view forms, normal, reversed and infinite, with positive or negative planes) map the corners of their volume to the documented corners of clip space and preserve depth order; look-at matrices map the given position to the origin, the given direction to the z axis and are rigid and right-handed. This holds in every supported dimension and precision.",
["inputs"],"for all parameters fulfilling the documented requirements (positive or negative near/far planes, asymmetric frusta, every camera position and orientation), in float and double",
"There is no test for the transform functions at all.",
["nytl/transform.hpp"],[("closed formulas","nytl/transform.hpp")],[],["entries of returned matrices and images of landmark points"])
p("C19","Scalar utilities satisfy their defining equations on their whole range",
"Mapping signed numbers to unsigned ones is the documented bijection over the whole range of int and its reversal is its inverse; pairing two unsigned numbers gives distinct results for distinct pairs as long as the result is representable. Clamping returns the value limited to the bounds and reports the bound that was exceeded; factorial, linear mix, smooth interpolation and angle conversions satisfy their defining equations and end points, degrees and radians being inverse to each other.",
["inputs"],"for every int, every pair of unsigned numbers with representable result, and all bounds and parameters",
"There is no test for most of these functions; overflow only shows for the large inputs nobody samples.",
["nytl/math.hpp"],[("closed formulas","nytl/math.hpp")],[],["returned numbers"])
p("C20","Approximate comparison is a symmetric tolerance test in every component",
"A value equals an approximation if and only if their difference is below the tolerance scaled by the larger magnitude plus one, whichever of the two stands on which side; inequality is the exact negation. For complex numbers, vectors and matrices this holds if and only if it holds for every component, with the tolerance given for the whole, and values of different dimensions are never equal. A custom tolerance replaces the default one everywhere.",
["inputs"],"for all values, tolerances, component positions, dimensions and operand orders, including zero, negative and not-a-number",
"Tests compare a few clearly equal and clearly different numbers; one ignored component or a tolerance not passed on is only visible for values between the tolerances.",
["nytl/approx.hpp","nytl/approxVec.hpp"],[("relative tolerance","nytl/approx.hpp: Approx"),("component loop","nytl/approxVec.hpp")],[("value, epsilon","approximated value and tolerance","nytl/approx.hpp")],["results of == and !="])
p("C21","Callable and type traits describe the given types exactly",
"For every callable kind (plain and noexcept functions, pointers and lvalue references to them, const and non-const member functions, functors and lambdas) the callable check is true and the traits give exactly its return type, parameter types, their number and constness; for types that cannot be called the check is false. Expression validity is true exactly for well-formed expressions, the last type of a list is its last element, and classes derived from the non-copyable or non-movable helper can be copied, moved and assigned exactly as the helper says.",
["programs","inputs"],"for every signature (return type, number and qualification of parameters, constness, noexcept) and every kind of callable",
"Tests instantiate the traits for three signatures.",
["nytl/functionTraits.hpp","nytl/tmpUtil.hpp","nytl/nonCopyable.hpp"],[("partial specialisations","nytl/functionTraits.hpp"),("SFINAE","nytl/tmpUtil.hpp: validExpression")],[],["compile-time constants and types"])
p("C22","Public headers stand alone and their names denote the documented types",
"Every public header can be included alone, repeatedly, in any order with the others and in any number of translation units of one program, and then offers its functionality; forward headers declare the very types the full headers define. Every alias of a vector, matrix, box, simplex, span or connection denotes exactly the dimensions and value type in its name, stored contiguously without anything else, and a type deduced from values has their number and common type. Conversions to other dimensions or value types have to be written explicitly and keep the dimension of a simplex; ownership of a connection can be taken over implicitly but never given away or duplicated, connections with different ids do not mix, and callbacks and scope guards can be neither copied nor moved.",
["programs"],"for every set and order of included headers, every alias, every list of value types and every pair of types",
"The tests are a few translation units including a handful of headers in one fixed order, built with an additional include; they name few of the aliases and no type that must be rejected.",
["nytl/fwd.hpp","nytl/fwd/vec.hpp","nytl/fwd/mat.hpp","nytl/fwd/rect.hpp","nytl/fwd/simplex.hpp","nytl/fwd/span.hpp","nytl/fwd/flags.hpp","nytl/vec.hpp","nytl/vec2.hpp","nytl/vec3.hpp","nytl/mat.hpp","nytl/rect.hpp","nytl/simplex.hpp",CN,CB,RC,"nytl/scope.hpp","nytl/utf.hpp"],
[("include guards, includes and inline functions","nytl/*.hpp"),("aliases","nytl/fwd/*.hpp, nytl/fwd.hpp"),("deduction guides","nytl/vec.hpp, nytl/rect.hpp"),("explicit conversion operators","nytl/vec*.hpp, mat.hpp, rect.hpp, simplex.hpp"),("deleted and converting constructors","nytl/connection.hpp, callback.hpp, scope.hpp")],[],["whether programs compile, link and run","sizes, alignments, dimensions, value types and traits of types"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        n=x['statement'].count('. ')+1
        if n>3: print(x['id'],n)
        f.write(json.dumps(x)+"\n")
