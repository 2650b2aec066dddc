"""property -> the function that decides it, and what MANIFEST.json says about it"""

NODE_TECH = 'TLA+ specification (Node.tla) model checked with TLC (NodeMC), its transitions replayed on the code and recorded executions validated against it (NodeTrace)'
NODE_NOTE = ('Exhaustive within small constants for the specification (families %s); the code is bound by replaying the transitions TLC found and by validating '
             'generated executions step by step, so behaviour outside the explored stimuli is not decided.')
SMALL_TECH = 'TLA+ specification (%s) model checked with TLC, its transitions replayed on the code, and recorded executions of the code validated against it step by step (%s)'
SMALL_NOTE = 'The specification is checked exhaustively within small constants; the code is bound by the executions replayed and validated. Assumes: '
ABOUT = {}
NOT = {}


def _fill():
    from . import node
    for p, o in node.PROFILE.items():
        ABOUT[p] = (NODE_TECH, NODE_NOTE % ', '.join(o['fam'] + o['more']))
    from . import small
    for p, u in small.UNITS.items():
        ABOUT[p] = (SMALL_TECH % (u.spec, u.trace), SMALL_NOTE + ('; '.join(u.assume)))
    ABOUT['P26'] = (ABOUT['P26'][0] + '; the indications a whole node makes against Node.tla (NodeTrace)', ABOUT['P26'][1])
    ABOUT['P16'] = ('TLA+ specification of the work queue (Queue.tla) model checked with TLC; main-loop traces of the code validated against it (QueueTrace) and bursts against Node.tla (NodeTrace)',
                    'Queue model exhaustive for capacity 4 and up to 6 arrivals; the code is bound by validating interleavings of arrivals and main-loop runs.')


_fill()


def check(pid, tier):
    from . import node, small
    if pid in small.UNITS:
        return small.check(pid, tier, small.UNITS[pid])
    if pid in node.PROFILE:
        return node.check(pid, tier)
    raise SystemExit('unknown property ' + pid)
