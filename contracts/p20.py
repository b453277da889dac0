"""The outcome of every call over HTTP/2, for every network error, header and body."""
from h2 import *
def native(run): grpcnat.http2(run)
def verify(run):
    run.load(VN); run.prove([Goal('synchronous call', g_sync), Goal('asynchronous call', g_async), Goal('aborted asynchronous call', g_async_abort)])
