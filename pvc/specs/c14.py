"""C14: file transfer."""
from ..handlerspec import *
NOTE = "handleRequest: every file, path, buffer size and outcome of opening; writeNextPayload: every state of source and destination; proved over contracts of QFile, QIODevice, QCryptographicHash and of the connection's writers (C05, C06)."
UNITS = [SERVED, PAYLOAD]
ASSUMPTIONS = ["the file does not change during its transfer and reading it succeeds", "deferred deletion and queued signals are delivered by the event loop", "the source device is not destroyed by the application while its transfer writes"]
BOUNDED = "whole transfers (composition of the steps through signals) through the public interface with scripted devices and scratch files"
BOUNDED_SECONDS = 25
