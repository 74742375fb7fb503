"""Constructs met during the analysis that the value model does not describe.

A difference found where such a construct was met is not a proof of anything: the report turns it into an
undecided obligation.  EXPECTED lists what the unmodified code makes the analysis meet (each of these is
harmless there: every obligation of that tree is discharged all the same)."""
MET = {}
EXPECTED = {'unknown value: file never written', 'unknown value: str', 'unknown value: type', 'unknown node: stored value'}

# the real program raises an error there: nothing is unclear about it
ERRORS = ('undefined name', 'arithmetic on None', 'ordering with None', 'len of None', 'interp of None', 'method of None', 'file never written', 'call of undefined')

def note(kind, what, loc=None):
    if str(what).startswith(ERRORS): return
    MET.setdefault('%s: %s' % (kind, what), loc)

def new():
    return {k: v for k, v in MET.items() if k not in EXPECTED}
