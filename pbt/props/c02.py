import ringprops
RULE = ("pairs: pairs of Schubert classes of a stored space, both orders, non-trivial when neither factor is 1 and the product has a q term; "
        "combinations: pairs of random linear combinations with integer, fractional and q (q1,q2) coefficients; "
        "polynomials: random polynomials in arbitrary classes, non-trivial when some term has two factors; factored: products of sums not multiplied out, in toS and as first factor; half of all arguments are regrouped, factored or Horner forms; powers: up to 8 (14) equal factors in small spaces; "
        "far: products with special classes in spaces of N up to 12 and rank up to 12 against the Chevalley formula from root data: equal to it for divisors, commuting with it for the others; maximal: rank up to 14, special classes times classes with many corners on maximal isotropic spaces, against the Hiller-Boe / Kresch-Tamvakis rules; wide: products in spaces of 40 to 600 (1150) classes, which a ring homomorphism QH -> F_p (ref.Chars, from the Chevalley rule) must turn into products of numbers.")
ASSUMPTIONS = ["pbt/refring.py (equivariant quantum Chevalley rule + associativity) is right; it reproduces the 4368 Maple products shipped in the repository"]
PARTS = ringprops.parts(True)
