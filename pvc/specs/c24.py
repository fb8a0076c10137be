"""C24: the access log."""
from ..handlerspec import *
NOTE = "Every mode, device, request, response and set of connections already seen: proved over contracts of QHash, QElapsedTimer, QString::arg, QDateTime and the connection's getters."
UNITS = C24
ASSUMPTIONS = ["QString::arg with several strings replaces the place markers of the format only", "completed, closed and destroyed are signalled once each by the connection (C08)"]
BOUNDED = "whole histories of connections with a log handler through the public interface (composition through signals)"
BOUNDED_SECONDS = 15
