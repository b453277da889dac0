"""Client calls: every channel outcome, decode outcome and thread."""
from cl import *
def native(run): grpcnat.client(run)
def verify(run):
    run.load(VC); run.prove([Goal('synchronous call', g_sync), Goal('asynchronous call', g_async), Goal('typed synchronous call', g_call), Goal('typed asynchronous call and stream', g_callasync), Goal('decoding in a typed stream', g_streamdecode)])
