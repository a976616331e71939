SEQ = {'C19', 'C20', 'C21', 'C25', 'C27'}
DEFAULT = ('Every execution of small concurrent programs over the real compiled code, within the bounds on threads, operations, preemptions, '
  'stale reads, spurious wakeups and clock steps recorded per scenario in the evidence file; trusts the explorer (validated by its self test), '
  'g++ -fsanitize=thread instrumentation placing every access, and the bounded program sizes.')
