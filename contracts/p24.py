"""Sharing of streams: every set of active streams, method, argument and handler."""
from cl import *
def native(run): grpcnat.client(run)
def verify(run):
    run.load(VC); run.prove([Goal('opening a stream', g_open), Goal('opening without channel', g_nochannel), Goal('a stream is forgotten exactly when it finishes', g_forget), Goal('every handler sees every message', g_deliver), Goal('adding a handler', g_add), Goal('equality of streams', g_equal)])
