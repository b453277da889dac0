from obj import *
import sernat
native = sernat.native
def verify(run):
    ok = setup(run, extra=[ASRV, TMPL], only=('serializeVarintCommon', 'encodeHeader', 'prependLengthDelimitedSize', 'deserializeVarintCommon', 'deserializeLengthDelimited'))
    run.prove(P14, ok)
