"""C18: the server's connection pool."""
from ..serverspec import *
NOTE = "The pool's operations are proved through the functions the system calls (accepting, closing, constructing and destroying a server) for every reserve of up to 25 connections. The history property follows by induction over them: a connection handed out leaves the reserve or is new, a connection that closes (once, C08) joins it once, so the reserve and the connections in use stay disjoint and free of duplicates."
UNITS = C18
ASSUMPTIONS = ["a connection in use is not in the reserve when it closes, and each use ends with one closed notification (C08)", "a pending local socket exists when the server is told of a new connection", "Qt's servers call incomingConnection once per accepted socket and delete the children of a deleted object"]
BOUNDED = "histories of up to 60 real loopback and local sockets opening and closing through the public interface"
BOUNDED_SECONDS = 20
