from msg import *
import sernat
native = sernat.native
def verify(run):
    ok = setup(run, extra=[ASRV], only=('deserializeVarintCommon', 'decodeHeader'))
    run.prove([Goal('deserializeMessage: all records in order until the input ends', g_records), Goal('deserializeProperty: exactly the field with the record number', g_record),
               Goal('deserializeProperty: unknown numbers change nothing', g_unknown)], ok)
