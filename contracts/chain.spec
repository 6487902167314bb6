// --- handler chains.  started(c): how many handlers of the chain of context c were started;
// aborted(c): whether a handler of that chain called Abort.
ghost started(c) : nat;
ghost aborted(c) : bool;
assumption "a chain has at most 2019 handlers (ABORT, the abort mark, is 2019)";
assumption "handlers move along the chain only with Next and Abort (they do not call Reset or ResetOffset), and call Next fewer than 2^62 times";
// the position of the context agrees with the history of its chain
def chainok(c) = len(c.handlers) <= 2019 && c.offset >= 0 - 1 && c.offset < 4611686018427387904
  && (aborted(c) ==> c.offset >= 2019)
  && (!aborted(c) ==> started(c) == (c.offset + 1 < len(c.handlers) ? c.offset + 1 : len(c.handlers)))
  && (forall i :: 0 <= i && i < len(c.handlers) ==> c.handlers[i] != nil);
