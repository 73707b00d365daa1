NA = {}
CB = "Bounded exhaustive and random: TLC checks the specification and enumerates its complete transition system for few slots and nested calls; every transition, all short paths and long random walks are executed by the real templates (several connection id and return types, partly under sanitizers) and every step's observation is compared. "
TR = "Trace validation: TLC checks the specification's own laws on small domains; executions of the real templates on exhaustively enumerated small inputs and seeded random ones are recorded and TLC accepts only traces whose every recorded result is the one the specification defines. Beyond the enumerated domains it samples. Trusts TLC, the compiler and the harness."
CLAIMS = dict(
    C01=(LTS, CB + "Trusts TLC, the compiler and the harness."),
    C02=(LTS, CB + "Trusts TLC, the compiler and the harness."),
    C03=(LTS, CB + "Trusts TLC, the compiler and the harness."),
    C04=(LTS, CB + "Trusts TLC, the compiler and the harness."),
    C05=(LTS, CB + "Trusts TLC, the compiler and the harness."),
    C07=(LTS, CB + "Trusts TLC, the compiler and the harness."),
    C08=(LTS, CB + "Trusts TLC, the compiler and the harness."),
    C06=(LTS, CB + "Trusts TLC, the compiler and the harness."),
    C09=(TRACE, TR),
    C10=(TRACE, TR),
    C11=(TRACE, TR),
    C12=(TRACE, TR),
    C13=(TRACE, TR),
    C14=(TRACE, TR),
    C15=(TRACE, TR),
    C16=(TRACE, TR),
    C17=(TRACE, TR),
    C18=(TRACE, TR),
    C19=(TRACE, TR),
    C20=(TRACE, TR),
    C21=(TRACE, TR),
    C22=(TRACE, "TLC checks laws of the deduced types and enumerates translation units (all headers alone and in ordered pairs; the quick check a seeded part of the pairs); the units are compiled by g++ and clang++ with nothing but the headers, linked to one program and run, and TLC accepts only traces whose every recorded fact is the one the specification defines. Types beyond those named in the library are sampled. Trusts TLC, the compilers and the harness."),
)
