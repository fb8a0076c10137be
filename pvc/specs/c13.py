"""C13: the file handler serves regular files inside its public directory only."""
from ..handlerspec import *
NOTE = "Every request path and public path: the decision is proved from the answers of the file system (QFileInfo) and of the string functions used, which are taken at their documented contracts."
UNITS = [CONTAINED, SETPATH]
ASSUMPTIONS = ["QFileInfo, QString and QByteArray::fromPercentEncoding behave as documented", "the file system does not change between the check and the open"]
BOUNDED = "what the file system answers: canonical paths, symbolic links, '..', encoded separators, sibling prefixes, on a scratch directory through the public interface"
BOUNDED_SECONDS = 25
