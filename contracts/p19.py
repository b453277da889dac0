"""Every request made by the HTTP/2 channel, for every method, service, payload and set of credentials."""
from h2 import *
def native(run): grpcnat.http2(run)
def verify(run):
    run.load(VN); run.prove([Goal('synchronous call sends one framed request', g_sync_req), Goal('asynchronous call sends one framed request', g_async_req), Goal('stream sends one framed request', g_stream_req)])
