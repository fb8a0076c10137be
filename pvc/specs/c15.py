"""C15: the router."""
from ..routerspec import *
NOTE = "Dispatch is proved for every route table, path and method with a ghost record of the route matched last and the parameters set; registration is proved together with what the registered route does when invoked. Pattern translation (pathToRegExp) and the regular-expression engine are exercised, bounded, by the oracle."
UNITS = C15
ASSUMPTIONS = ["QRegExp::indexIn and cap are functions of the pattern and the text", "route literals contain no regular-expression metacharacters", "methods contain no NUL and are shorter than 2^28 bytes, the methods of the routes together shorter than 2^29 bytes", "a route's target does not change the router while it runs"]
BOUNDED = "pathToRegExp and QRegExp: random route tables of up to 6 routes with mixed parameters and splats, percent-encoded and non-ASCII paths, all kinds of targets, through the public interface"
BOUNDED_SECONDS = 20
