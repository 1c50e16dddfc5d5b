NA = {
    "P22": "The code in question (ROOT, RNTuple and SIO readers and writers) uses headers of ROOT and SIO, which are not installed: it is not compiled here and clang cannot resolve its calls, so that a rule could only compare spellings in the text, which neither shows that the property holds nor stays quiet for other spellings of the same behaviour.",
    "P40": "Equality of all values after a round trip through a file quantifies over run-time values and third-party serialisation (ROOT, SIO, Arrow), none of which is installed here; its structural clauses are decided by P10, P13, P14 and P22 instead.",
    "P41": "Collision freedom of a 32 bit hash over all strings is false in general and not a property of the code's shape; what is decidable (IDs depend on the complete name only) is part of P06.",
    "P42": "The Python bindings only exist at run time through cppyy and ROOT, which are not installed; there is no resolved program to analyse on the C++ / Python boundary.",
}
