extern __assert_fail
  params msg
  note an assertion never fails: reaching it is an obligation
  requires[assertion-holds] false
  ensures false
extern abort
  opt noparams
  note reaching abort is an obligation
  requires[not-aborted] false
  ensures false
