"""C19: client requests."""
from ..lifespec import *
NOTE = "The writer is proved for every method, path, header collection and data of any size (up to 2^29 bytes), in every state it can be in between calls; the request a client sends is proved over the writer's contract for every url, with the Host value just made or kept from an earlier request to the same host."
UNITS = C19W + C19S
ASSUMPTIONS = ["QIODevice::write takes the bytes as they are when it is called", "QUrl's encoded host, port, path and query are those of the url; the host of an http url is not empty", "the Host value kept by the client is that of the current host and port (proved where it is changed, C21)"]
BOUNDED = "whole histories of requests through one writer and one client, against a server that records the bytes (composition of writer, client and socket)"
BOUNDED_SECONDS = 15
