// --- what a message's own bytes say about its routing
use "wire.spec";
def hasheader(s) = hdrok(s) && jsondecok(bytes(s[16:16 + hlen(s)]));
def header(s) = jsondec(bytes(s[16:16 + hlen(s)]));
def hstr(s, k) = mdom(header(s), k) && (mval(header(s), k) is "string");
def rtype(s) = (hasheader(s) && hstr(s, HEADER_ROUTER_KEY)) ? (mval(header(s), HEADER_ROUTER_KEY) as "string") : "MESSAGE_ID";
// a url pattern can be read unless the header is unreadable or carries something else there
def haspattern(s) = hasheader(s) && (!mdom(header(s), HEADER_ROUTER_VALUE) || (mval(header(s), HEADER_ROUTER_VALUE) is "string"));
def pattern(s) = mdom(header(s), HEADER_ROUTER_VALUE) ? (mval(header(s), HEADER_ROUTER_VALUE) as "string") : "";
// what a request context remembers about its message is what the message says
def remembered(c) = c.PerRequestContext != nil
  && ((smdom(c.PerRequestContext, boxed("string", "router_type")) && (smv(c.PerRequestContext, boxed("string", "router_type")) is "string")) ==> (smv(c.PerRequestContext, boxed("string", "router_type")) as "string") == rtype(c.Stream))
  && ((smdom(c.PerRequestContext, boxed("string", "url_pattern")) && (smv(c.PerRequestContext, boxed("string", "url_pattern")) is "string")) ==> (haspattern(c.Stream) && (smv(c.PerRequestContext, boxed("string", "url_pattern")) as "string") == pattern(c.Stream)));
