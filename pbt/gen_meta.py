import json
A="schubertpy/abstract_grassmannian.py"; GR="schubertpy/grassmannian.py"; IG="schubertpy/isotropic_grassmannian.py"; OG="schubertpy/orthogonal_grassmannian.py"
Q="schubertpy/qcalc.py"; LC="schubertpy/lc.py"; SC="schubertpy/schur.py"; PT="schubertpy/partition.py"; KS="schubertpy/utils/kstrict.py"; MX="schubertpy/utils/mix.py"; HS="schubertpy/utils/hash.py"; MT="schubertpy/mult_table.py"; CB="schubertpy/csv_bijection.py"; CO="schubertpy/utils/const.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in state],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":None}})

p("C01","Classical products are the cohomology ring of the Grassmannian",
 "For every Grassmannian Gr(m,n), IG(m,2n), OG(m,2n+1), OG(m,2n+2) and any two linear combinations of its Schubert classes (integer or rational coefficients, powers of q allowed as scalars), mult returns exactly their product in the cohomology ring of that space, expanded in Schubert classes. toS expands every polynomial in Schubert classes to the linear combination it represents in that ring.",
 ["inputs","configurations"],"every space, every pair of linear combinations, every polynomial in classes",
 "The tests multiply a few hundred fixed pairs in about ten spaces; the guarantee is over infinitely many spaces and inputs, and an error in one shape of partition (ties, full rows, type-2 classes) shows only there.",
 [A,GR,IG,OG,Q],[("Pieri rules and the Giambelli recursion","AbstractGrassmannian.mult, toS, giambelli_rec; pieriA/B/C/D_inner; pieri_set, count_comps, _dcoef")],["Grassmannian.mult","toS"])
p("C02","Quantum products are the small quantum cohomology ring",
 "For every Grassmannian of type A, B, C or D and any two linear combinations of its Schubert classes, qmult returns exactly their product in the small quantum cohomology ring, expanded in Schubert classes with the correct powers of q (or of q1 and q2 on OG(n,2n+2)). qtoS expands every polynomial in Schubert classes and quantum parameters to the element it represents.",
 ["inputs","configurations"],"every space, every pair of linear combinations, every polynomial in classes",
 "Quantum corrections occur only for pairs whose degree reaches deg q, and higher powers of q only for very large classes; the tests sample a few such products in small spaces.",
 [A,GR,IG,OG,Q],[("quantum Pieri rules","qpieriA_inner, qpieriB_inner, qpieriC_inner, qpieriD_inner; _part_star, _part_tilde"),("quantum Giambelli recursion","AbstractGrassmannian.qgiambelli, qact")],["qmult","qtoS"])
p("C03","Both products obey the ring laws",
 "On every space, mult and qmult are commutative, associative and bilinear over rational scalars and the quantum parameters, with S[] as unit. Results can be fed back in as operands, and expanding a product expression with toS / qtoS agrees with multiplying step by step.",
 ["inputs","histories"],"every space of any size, every three linear combinations and scalars, chains of products",
 "Associativity and commutativity relate several calls on arbitrary inputs; no finite list of expected values states them, and the tests never feed results back in.",
 [A,LC],[("act on a Giambelli polynomial","AbstractGrassmannian.mult, qmult, act_lc, giambelli_rec"),("linear extension","LinearCombination.apply")],["mult","qmult","toS","qtoS"])
p("C04","Answers are homogeneous, integral, non-negative and in the space",
 "Products and Pieri products of Schubert classes are combinations of Schubert classes of the same space with positive integer coefficients and whole non-negative powers of the space's own quantum parameters. Every term has degree equal to the sum of the input degrees, where q counts deg q; Giambelli polynomials are integral, homogeneous and use only special classes, and dualize maps a class to one class of complementary degree.",
 ["inputs","configurations"],"every space of any size, all pairs of classes",
 "The quantifier is over all spaces and classes; the tests only compare text for fixed inputs, and halves (factors 1/2, 2^N) can go wrong in spaces no test visits.",
 [A,GR,IG,OG,Q],[("powers of two and q/2 factors","pieriB_inner, pieriC_inner, _dcoef, qpieri*_inner")],["mult","qmult","pieri","qpieri","giambelli","qgiambelli","dualize"])
p("C05","Setting the quantum parameters to zero gives the classical answer",
 "On every space and for all inputs without quantum parameters, dropping every term with a quantum parameter from the answer of qmult, qpieri, qact or qtoS gives the answer of mult, pieri, act or toS on the same input. The quantum Giambelli polynomial likewise reduces to a polynomial representing the same class classically.",
 ["inputs","configurations"],"every space, all inputs free of q",
 "It relates two independent code paths on every input; the tests compare each path with constants on different inputs.",
 [A,GR,IG,OG],[("classical and quantum Pieri rules","qpieri*_inner start from pieri*_inner")],["qmult","qpieri","qact","qtoS"])
p("C06","Pieri rules equal multiplication by a special Schubert class",
 "pieri(i, x) and qpieri(i, x) equal the classical and quantum product of x with the i-th special Schubert class (in type D with i = -k the class S[k,0]), for every special degree, every class and every linear combination with quantum parameters. In particular degree one agrees with the (quantum) Chevalley formula, multiplications by different special classes commute, and they are self-adjoint for the Poincare pairing.",
 ["inputs","configurations"],"every space, every special class, every class or combination",
 "Pieri coefficients depend on the component structure of skew shapes, with many boundary cases (k=0, k=1, full rows, both types in D); tests sample a handful of classes per type.",
 [GR,IG,OG,Q,A],[("enumeration of Pieri terms","pieri_set, _pieri_fill, _pieri_itr, part_itr_between, pieri_fillA, pieri_itrA"),("coefficients","count_comps, calc_comps, _dcoef"),("quantum terms","qpieri*_inner, _part_star, _part_tilde")],["pieri","qpieri"])
p("C07","Giambelli polynomials represent their class",
 "giambelli(x) and qgiambelli(x) are polynomials in the special Schubert classes (the space's generators) and quantum parameters whose value in the cohomology, respectively quantum cohomology, ring is x, for every class, linear combination or polynomial x. The classical formula contains no quantum parameter of its own.",
 ["inputs","configurations"],"every space, every class, linear combination or polynomial",
 "Whether a polynomial evaluates to the class can only be judged with an independent ring; the tests fix the printed polynomial of a few classes.",
 [A,GR,IG,OG],[("Giambelli recursion","giambelli_rec, giambelli_rec_inner, num2spec")],["giambelli","qgiambelli"])
p("C08","Polynomials in special classes act as ring elements",
 "act(e, x) and qact(e, x) equal the classical and quantum product of the value of the polynomial e (special classes with repeated factors, rational coefficients, constants, q, q1, q2) with the linear combination x. Hence (e*f).x = e.(f.x), (e+f).x = e.x + f.x and 1.x = x on every space.",
 ["inputs","configurations"],"every space, every polynomial in special classes, every linear combination",
 "The polynomial is arbitrary; tests use three or four fixed ones of degree at most two.",
 [A],[("recursive action","act_lc: eliminate one special class at a time; spec2num")],["act","qact"])
p("C09","dualize gives the Poincare dual basis",
 "dualize sends every Schubert class to the class whose product with it has the point class with coefficient 1, and is linear over rational scalars and quantum parameters. It is an involution, and for classes of complementary degree the coefficient of the point class in a product is 1 for dual pairs and 0 otherwise.",
 ["inputs","configurations"],"every space, every class, every linear combination",
 "The type D rule depends on parities of n and of the class type, so each test value says nothing about the other cases.",
 [Q,GR,IG,OG],[("dual symbol","dualize_index_inner, part2index, index2part")],["dualize"])
p("C10","Schubert symbols and partitions determine each other",
 "part2index sends every Schubert class to its Schubert symbol (strictly increasing, within 1..N, with no two entries adding up to N+1 in the isotropic and orthogonal cases) and index2part inverts it, on single classes and linear combinations. Every valid symbol arises from exactly one class.",
 ["inputs","configurations"],"every space, every class, symbol and linear combination",
 "A bijection claim over all classes of all spaces; tests convert fixed partitions in each type.",
 [Q,GR,IG,OG],[("codings","part2indexA/B/C/D_inner, index2partA/B/C/D_inner")],["part2index","index2part"])
p("C11","Partition pairs and partitions determine each other",
 "In types B, C and D, part2pair splits a k-strict partition into the column lengths of its first k columns and the remaining parts of its rows, keeping the type-2 mark, and pair2part inverts it, on single classes and linear combinations in every accepted form. Type A spaces refuse both maps.",
 ["inputs","configurations"],"every isotropic and orthogonal space, every class and linear combination",
 "A bijection claim; tests convert a few fixed partitions, never a type-2 class or a list.",
 [Q,IG,OG,GR],[("codings","part2pair_inner, pair2part_inner, part_conj")],["part2pair","pair2part"])
p("C12","Listings of classes, generators, point class and deg q are complete",
 "schub_classes lists every Schubert class of the space exactly once and nothing else, generators lists exactly the special classes, point_class is the class of top degree and degree_q is the degree of the quantum parameter. This holds for every constructible space, including one-point Grassmannians.",
 ["inputs","configurations"],"every space",
 "Completeness is a claim per space; tests list about ten spaces.",
 [GR,IG,OG,KS,Q],[("enumeration","part_gen, all_kstrict, schub_classes, generators")],["schub_classes","generators","point_class","degree_q"])
p("C13","Constructors accept exactly the valid spaces and describe them correctly",
 "Grassmannian(m,n), IsotropicGrassmannian(m,n) and OrthogonalGrassmannian(m,n) accept exactly the integers for which the space exists and raise TypeError for non-integers and ValueError otherwise. Type data and printed description match the definition, and clone() is an independent, equal space.",
 ["inputs","configurations"],"all pairs of arguments",
 "The boundary (m = n, m > n/2, odd n, m = 0) is a line in the plane of arguments; tests check a few points on it.",
 [GR,IG,OG,A],[("validation","__init__ of the three classes"),("description","get_type_data, __str__, clone")],["constructors","get_type_data","str","clone"])
p("C14","Rim-hook multiplication agrees with the quantum product",
 "On every Gr(m,n), qmult_rh returns the same linear combination as the quantum product of its arguments, for all classes and linear combinations in every accepted form, however many rim hooks have to be removed.",
 ["inputs","configurations"],"every Gr(m,n), all pairs of linear combinations",
 "Products that need several rim hooks, or hooks below the first row, exist only for large classes; the tests contain none.",
 [GR,PT],[("rim-hook algorithm","Grassmannian.qmult_rh, Partition.remove_rim_hooks")],["qmult_rh"])
p("C15","Rim hook removal computes the core, hook count and sign",
 "Partition.remove_rim_hooks removes rim hooks of the given size from a partition that does not fit the given grid until it fits, and reports the number of hooks and a total height whose parity is the sign of the removal; if no removal sequence ends inside the grid the result is empty or zero. Non-partitions are rejected, is_in_range is containment in the grid, and no call changes its partition.",
 ["inputs"],"all partitions, hook sizes and grids",
 "The sign and result depend on the bead configuration of arbitrary partitions; tests check eight.",
 [PT],[("removal","Partition.remove_rim_hooks, is_in_range, is_valid_part")],["Partition"])
p("C16","Expressions are read, printed and combined without loss",
 "Every polynomial expression in Schubert classes, q, q1, q2 and rational numbers, written with ^ or ** and any blanks, is read as the polynomial it denotes, and the printed form uses ^ and reads back as the same value. Sums, differences, products and powers of LinearCombination, Schur, numbers and sympy expressions in either order (also as augmented assignments) are exact, yield a LinearCombination when one operand on the left is one, and leave operands and earlier results unchanged.",
 ["inputs","programs"],"all expressions and operator chains",
 "Expression trees are unbounded; tests check a dozen.",
 [LC,SC,CO],[("translation to sympy symbols","LinearCombination.__init__, __str__, const tables, Schur.symbol, toSchur"),("operators","LinearCombination and Schur arithmetic methods")],["LinearCombination","Schur"])
p("C17","All accepted input forms mean the same",
 "Every operation gives the same answer whether an argument is passed as text (with or without blanks, ^ or **), LinearCombination or sympy expression, and for single classes also as a list or Schur object, in any mixture of forms. The argument is never modified.",
 ["inputs","configurations"],"every operation, every argument, every combination of forms",
 "Each operation has its own dispatch on the argument's type; tests mostly pass text.",
 [A,GR,IG,OG,LC,SC],[("argument dispatch","isinstance branches of every public method")],["all operations"])
p("C18","Schur polynomials are the sum over semistandard tableaux",
 "SchurPol(n, lambda) and Schur.to_polinomial_str(n) give the Schur polynomial of lambda in n variables: the sum over semistandard tableaux, zero when lambda has more than n rows, independent of trailing zeros, and restricting to the polynomial in n-1 variables when the last variable is zero. The caller's partition is untouched and invalid arguments raise ValueError.",
 ["inputs"],"all partitions and numbers of variables",
 "The recursion memoises sub-partitions under computed keys; a collision or a wrong branch shows only for particular shapes, and there is one test.",
 [MX,SC],[("tableau recursion","SchurPol"),("printing","Schur.to_polinomial_str")],["SchurPol","to_polinomial_str"])
p("C19","Multiplication tables contain the products of their labels",
 "MultTable and QMultTable of a space have one row and one column per Schubert class in the order of schub_classes, and every entry is the classical (quantum) product of its row and column class. to_matrix returns the same entries, and printing neither fails nor changes the table.",
 ["inputs","configurations"],"every space small enough to tabulate",
 "No existing test builds a table.",
 [MT],[("table construction","AbstractMultTable.__init__, to_matrix, print")],["MultTable","QMultTable"])
p("C20","Answers do not depend on history, other spaces, hash seed or threads",
 "The answer of every operation depends only on its space and arguments: not on earlier operations, other live spaces or clones, what callers do with lists they passed or received, the interpreter's hash seed, or operations running in other threads. Arguments and earlier answers never change.",
 ["histories","schedules","configurations"],"all interleavings of operations over several live spaces; sampled thread schedules; hash seeds",
 "Caches and module state make answers history dependent only for particular sequences over several spaces; each test uses one space.",
 [A,GR,IG,OG,HS,SC,Q],[("caches","hashable_lru_cache_method on pieri and Giambelli internals"),("shared lists","Schur.p, list arguments")],["all operations"],
 [("per-method caches","memoised Pieri and Giambelli results keyed by instance and arguments",HS)])
p("C21","Type swaps are symmetries of type D and trivial elsewhere",
 "On OG(m,2n+2), type_swap exchanges classes of types 1 and 2 and fixes the others, is an involution, and with q1 and q2 exchanged is an automorphism compatible with products, Pieri rules, Giambelli formulas, duals and symbols; miami_swap does so exactly for classes with an odd number of parts greater than k. schub_type is the type 0, 1 or 2; in types A, B, C both swaps are the identity and schub_type raises ValueError.",
 ["inputs","configurations"],"every space, every class, every linear combination",
 "An automorphism relates pairs of calls on all inputs; tests check single values.",
 [A,OG,IG,GR,Q],[("swaps","type_swap_inner, static_miami_swap_inner, schub_type")],["type_swap","miami_swap","schub_type"])
p("C22","Result files compare equal exactly when they contain the same products",
 "check_bijection_with_permutation(f, g) is True exactly when the two semicolon separated files contain the same set of rows (first key, second key, value), where values are compared as algebraic expressions in Schubert classes and rows may be permuted, repeated, or too short to count. The files are not changed.",
 ["inputs"],"all pairs of result files",
 "Equality up to algebra and permutation is a claim over all files; the tests compare a fixed set.",
 [CB,CO],[("canonical rows","_read_csv_transformed")],["check_bijection_with_permutation"])
p("C23","Pictures show exactly the boxes of the partitions",
 "print_partition, Partition.draw, yd, latex, latex_standalone, plot_partition and export_png draw row i with lambda_i boxes, left justified, for every partition. draw_ascii_partition draws every term of a linear combination with its coefficient and diagram, leaving out q terms when asked.",
 ["inputs"],"all partitions and linear combinations",
 "Layout depends on heights and widths of all diagrams together; tests patch print for one or two.",
 [SC,PT,MX,LC],[("rendering","_generate_tikzpicture, plot_partition, embed_partition, partition_to_ascii")],["printed output"])
p("C24","Isomorphic spaces have the same products; classical products are stable",
 "Products (classical and quantum) and duals agree under the isomorphisms Gr(m,n)=Gr(n-m,n), OG(n,2n+1)=OG(n+1,2n+2), IG(1,2n)=Gr(1,2n) and the exceptional ones in low rank. Classical products are those of a larger space of the same family with the classes that do not fit dropped, and quantum multiplication by a full row or column of Gr(m,n) permutes the classes up to q.",
 ["inputs","configurations"],"all pairs of isomorphic or nested spaces, all pairs of classes",
 "It compares different spaces, whose products come from different code; no test does.",
 [GR,IG,OG,A,Q],[("independent Pieri rules per type","pieri*_inner, qpieri*_inner")],["mult","qmult","dualize","qmult_rh"])
p("C25","SageMath conversion is faithful in both directions",
 "Converting a sage Schur function to a Schur class and back gives the same function, converting a Schur class to sage and back gives the same class up to trailing zeros, and converted classes can be used like any other. Elements of other bases or base rings raise ValueError.",
 ["inputs"],"all partitions",
 "No existing test imports the sage bridge.",
 ["schubertsage/conversion.py",SC],[("conversion","sage_schur_to_schur, schur_to_sage_schur")],["schubertsage"])
p("C26","Caching decorators do not change what functions return",
 "A function or method decorated with hashable_lru_cache or hashable_lru_cache_method returns or raises what the undecorated one does for the same arguments (lists becoming tuples), whatever was called before, for every cache size, per instance and per function. Arguments are not modified, an immediately repeated call is not recomputed, at most maxsize results are kept, exceptions are not cached, and name and documentation are kept.",
 ["histories","inputs"],"all call sequences, argument kinds and cache sizes",
 "Evictions, keyword arguments and several instances need call sequences; tests make three calls.",
 [HS],[("caching","hashable_lru_cache, hashable_lru_cache_method")],["decorated functions"])
p("C27","Partition utilities match their definitions",
 "part_conj, part_clip, part_len, part_gen, part_itr, all_kstrict, is_valid_part, skew_partition_height, padding_right and the bracket encoding compute, for every partition, the conjugate, the non-zero parts, their number, the decreasing lexicographic enumeration, the k-strict partitions in a box each once, validity, the number of non-empty rows of a skew shape, padding and a reversible encoding. No argument is modified.",
 ["inputs"],"all partitions, boxes and lists",
 "Definitions over all partitions; tests check a few each, and skew_partition_height not at all.",
 [Q,KS,PT,MX,CO],[("helpers","part_conj, part_clip, part_gen, all_kstrict, skew_partition_height")],["return values"])
p("C28","Expansion, substitution and predicates read every term",
 "schur_expansion of a linear combination lists every class once with its exact coefficient, sorted by partition, omits exactly the q terms when include_q is False, and raises ValueError when a term contains a product or power of classes. apply and apply2 are the ring homomorphism defined by the given map on classes; is_valid, has_part_zero_padding, is_operator, len and list_schur_oprands answer by definition.",
 ["inputs","programs"],"all linear combinations, expressions and maps",
 "Depends on how sympy arranges arbitrary sums and products; tests check a few expressions.",
 [LC],[("traversal","_schur_expansion, apply, apply2, is_valid, list_schur_oprands")],["return values"])
p("C29","Schubert class objects are values, faithful to symbol and text",
 "A Schur object made from a list, tuple, text (with or without blanks, with or without the S), sympy symbol or another Schur object is equal (with equal hash and text) exactly when the partition is the same, trailing zeros included; symbol(), str() and toSchur are mutually inverse, and sorting and unique_schur_list follow the order of the lists. In every space spec2num and num2spec are inverse bijections between special classes and their numbers, and other classes and malformed texts are rejected. Copies and pickles are equal, and the caller's list is neither changed nor shared.",
 ["inputs"],"all partitions, pairs of partitions and Schubert symbols, all input forms, every space",
 "Collisions between labels (11 and 1,1; trailing zeros; pairs) appear only for particular inputs among all partitions; tests print a few classes with one-digit parts.",
 [SC,CO,A],[("text and symbol coding","Schur.__init__, __eq__, __hash__, __lt__, symbol, toSchur, ftable, btable"),("numbers of special classes","AbstractGrassmannian.spec2num, num2spec")],["Schur","toSchur","spec2num","num2spec"])
for x in P:
    assert len(x["title"])<=80, x["id"]
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
TECH={
"C01":"property-based testing against an independently computed reference ring (differential)",
"C02":"property-based testing against an independently computed quantum reference ring (differential)",
"C03":"metamorphic property-based testing (ring laws, feedback chains)",
"C04":"property-based testing of output invariants",
"C05":"metamorphic property-based testing (q=0)",
"C06":"property-based testing: reference ring, Chevalley formula from root data, adjointness",
"C07":"property-based testing: evaluation of the output in the reference ring (round trip)",
"C08":"property-based testing: reference ring and module laws",
"C09":"property-based testing against dual formula and pairing",
"C10":"round-trip and differential property-based testing",
"C11":"round-trip and differential property-based testing",
"C12":"enumerated spaces against an independent listing",
"C13":"enumerated argument pairs and generated clones against the definition",
"C14":"property-based differential testing against the quantum reference ring",
"C15":"property-based testing against a bead (abacus) model",
"C16":"grammar-based generation of expressions and operator chains against exact polynomials",
"C17":"metamorphic property-based testing over input forms",
"C18":"property-based testing against tableau enumeration",
"C19":"model-based testing of tables against the reference ring",
"C20":"stateful model-based testing over several live objects; differential over hash seeds; sampled thread schedules",
"C21":"metamorphic property-based testing (automorphism, involution) and reference maps",
"C22":"metamorphic property-based testing of generated files",
"C23":"property-based testing with the pictures read back",
"C24":"metamorphic property-based testing across isomorphic and nested spaces",
"C25":"round-trip property-based testing in the sage interpreter",
"C26":"stateful model-based testing of call sequences",
"C27":"property-based testing against definitions",
"C28":"property-based testing against exact polynomials",
"C29":"round-trip and model-based property-based testing (values keyed by the list itself)",
}
REF="Trusts pbt/refring.py (quantum products solved from the equivariant quantum Chevalley rule, independent of the library; the unchanged library agrees with them). "
NOTE={k:"Sampled inputs, not a proof; sizes and counts are in the evidence file. "+(REF if k in ("C01","C02","C06","C07","C08","C09","C14","C19","C20") else "") for k in TECH}
NOTE["C20"]+="Thread schedules are sampled with a small switch interval, not enumerated."
m={"version":1,"setup_cmd":"/opt/venv/bin/python -B pbt/selftest.py",
 "checks":[{"property":x["id"],"quick_cmd":f"python3 pbt/run.py {x['id']} --tier quick","thorough_cmd":f"python3 pbt/run.py {x['id']} --tier thorough","evidence_file":f"evidence/{x['id']}.json","technique":TECH[x["id"]],"level":"exploration","level_note":NOTE[x["id"]].strip()} for x in P],
 "not_applicable":[]}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1,ensure_ascii=False)
