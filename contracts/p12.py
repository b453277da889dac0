from msg import *
import sernat
native = sernat.native
def verify(run):
    ok = setup(run, extra=[ASRV, TMPL], only=('serializeVarintCommon', 'encodeHeader', 'prependLengthDelimitedSize', 'deserializeVarintCommon', 'decodeHeader'))
    run.contracts['skipSerializedFieldBytes'] = SKIPC
    e = run.engine(); fs = e.by_dem(SKIPC[0])
    ok = run.prove_contracts([Goal('contract %s' % f.dem, lambda eng, f=f: g_skip_contract(eng, f), 1, contract='skipSerializedFieldBytes') for f in fs], ok)
    run.prove([Goal('serializeMapPair: key as field 1, value as field 2', g_pair), Goal('deserializeMapPair: parts in any order', g_entry, budget=300)] +
              [g_sermap(k) for k in MK] + [g_desmap(k) for k in MK], ok)
