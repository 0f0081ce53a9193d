// keeps the compiler from requiring function bodies
