"""dv: a small contract-based deductive verifier for JAX programs.

Pipeline (see /verif/DESIGN.md):

  real function in /repo --(jax tracing, every run)--> jaxpr
  jaxpr --(interp)--> terms over the reals, guards ("raises iff"), definedness
  contract (pre/post, written over terms) --> named proof obligations
  obligations --(decide: field normal form, then SMT)--> discharged / failed
  failed --(replay on the real code, eager)--> failing input, or none found
"""
