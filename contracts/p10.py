from msg import *
import sernat
native = sernat.native
def verify(run):
    ok = setup(run, extra=[ASRV], only=('serializeVarintCommon', 'encodeHeader'))
    run.prove([Goal('serializeMessage: every field once, in its own encoding', g_message), Goal('serializeProperty: the codec of the value type, under the field number', g_property)], ok)
