"""The simulated network.

``requests`` runs for real down to its transport adapter; here is what is below it.  Every request
is routed to the node owning the host.  Faults are *rules* installed by the scenario; each counts
how often it fired.
"""
import json
from urllib.parse import parse_qsl, urlsplit

import requests
import requests.exceptions as rex
from requests.structures import CaseInsensitiveDict

from . import env
from .env import CLOCK


class Fault(Exception):
    pass


def path_kind(path, query):
    if path.endswith("/.well-known/openid-federation"):
        return "ec"
    for k in ("fetch", "list", "resolve", "trust_mark_status", "trust_mark_list", "trust_mark",
              "registration", "authorization", "pushed_authorization"):
        if path.rstrip("/").endswith("/" + k):
            return k
    return "other"


class Net:
    def __init__(self, latency_seed=0):
        import random
        self.rng = random.Random(f"net:{latency_seed}")
        self.nodes = {}          # host -> object with .handle(method, path, query, headers, body)
        self.down = set()        # crashed hosts
        self.cut = set()         # frozenset({a, b}) partitioned pairs
        self.rules = []
        self.archive = {}        # url -> [(status, headers, body), ...] as sent by the node itself
        self.log = []            # (t, src, dst, kind, sub, outcome)
        self.fired = {}          # fault kind -> count
        self.requests = 0
        self.limit = 100000      # hard stop: more requests than this in one operation = runaway
        self.op_requests = 0
        self.runaway = False     # the limit was hit in this operation
        self.yield_hook = None   # scheduler
        self.depth = 0
        self.on_request = None
        self.on_body = None      # monitor for everything put on the wire
        self.on_delivered = None # monitor for everything that arrived
        self.max_latency = 0.4

    def add_node(self, nid, node):
        self.nodes[nid] = node

    def route(self, url):
        """Entity id of the node that serves ``url``: longest id that is a path prefix."""
        u = urlsplit(url)
        root = f"{u.scheme}://{u.netloc}"
        best = None
        for nid in self.nodes:
            if nid == root or (nid.startswith(root + "/") and (root + u.path + "/").startswith(nid + "/")):
                if best is None or len(nid) > len(best):
                    best = nid
        return best

    def host_known(self, root):
        return any(n == root or n.startswith(root + "/") for n in self.nodes)

    def bump(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    # -- rules ---------------------------------------------------------------------------------
    def add_rule(self, rule):
        self.rules.append(dict(rule))

    def clear_rules(self):
        self.rules = []

    def _match(self, host, kind, sub, src):
        for r in self.rules:
            if r.get("n", 1) == 0:
                continue
            if r.get("host") not in (None, "*", host):
                continue
            if r.get("kind_of") not in (None, "*", kind):
                continue
            if r.get("sub") not in (None, "*", sub):
                continue
            if r.get("src") not in (None, "*", src):
                continue
            skip = r.get("skip", 0)
            if skip:
                r["skip"] = skip - 1
                continue
            if r.get("n", 1) > 0:
                r["n"] = r.get("n", 1) - 1
            return r
        return None

    # -- transport -----------------------------------------------------------------------------
    def send(self, adapter, request, timeout):
        src = CLOCK.current()
        resp = self._send(adapter, request, timeout)
        if self.on_delivered:
            self.on_delivered(src, request.url, resp)
        return resp

    def _send(self, adapter, request, timeout):
        self.requests += 1
        self.op_requests += 1
        if self.op_requests > self.limit:
            self.runaway = True
            raise Runaway(f"more than {self.limit} requests in one operation")
        if self.yield_hook:
            self.yield_hook("net")
        u = urlsplit(request.url)
        host = self.route(request.url)
        nohost = host is None and self.host_known(f"{u.scheme}://{u.netloc}")
        host = host or f"{u.scheme}://{u.netloc}"
        query = dict(parse_qsl(u.query, keep_blank_values=True))
        kind = path_kind(u.path, query)
        sub = query.get("sub")
        src = CLOCK.current()
        body = request.body
        if isinstance(body, bytes):
            body = body.decode("utf-8", "replace")
        rule = self._match(host, kind, sub, src)
        lat = self.rng.random() * self.max_latency
        tmo = timeout
        if isinstance(tmo, tuple):
            tmo = tmo[-1]
        if not isinstance(tmo, (int, float)):
            tmo = 30

        def out(outcome):
            self.log.append((round(CLOCK.now, 3), src, host, kind, sub, outcome))

        if self.on_request:
            self.on_request(src, host, kind, request)
        f = rule["fault"] if rule else None
        if f == "slow":
            lat = rule.get("dt", 5)
            self.bump("slow")
            if lat >= tmo:
                CLOCK.advance(tmo)
                self.bump("timeout")
                out("timeout")
                raise rex.ReadTimeout("simulated: read timed out", request=request)
        CLOCK.advance(lat)
        if nohost:
            out("404")
            return self._response(request, 404, {"Content-Type": "text/plain"}, "Not Found")
        if host not in self.nodes or host in self.down or frozenset((src, host)) in self.cut:
            self.bump("unreachable")
            out("unreachable")
            raise rex.ConnectionError(f"simulated: cannot reach {host}", request=request)
        if f == "drop_request":
            self.bump(f)
            CLOCK.advance(tmo)
            out(f)
            raise rex.ConnectTimeout("simulated: request lost", request=request)
        if f == "reset":
            self.bump(f)
            out(f)
            raise rex.ConnectionError("simulated: connection reset", request=request)
        if f == "ssl":
            self.bump(f)
            out(f)
            raise rex.SSLError("simulated: certificate problem", request=request)
        if f == "status":
            self.bump(f"status_{rule['code']}")
            out(f"status_{rule['code']}")
            return self._response(request, rule["code"], {"Content-Type": rule.get("ctype", "text/html")},
                                  rule.get("body", "<html>no</html>"))
        if f == "stale" and self.archive.get(request.url):
            hist = self.archive[request.url]
            st, hd, bd = hist[rule.get("back", 0) % len(hist)]
            self.bump("stale_replay")
            out("stale_replay")
            return self._response(request, st, hd, bd)
        if f == "swap" and self.archive:
            urls = sorted(self.archive)
            st, hd, bd = self.archive[urls[rule.get("pick", 0) % len(urls)]][-1]
            self.bump("swapped_document")
            out("swapped")
            return self._response(request, st, hd, bd)
        times = 2 if f == "duplicate" else 1
        for _ in range(times):
            st, hd, bd = self._deliver(host, request.method, u.path, query, dict(request.headers), body)
        if f == "duplicate":
            self.bump(f)
        if self.yield_hook:
            self.yield_hook("net-back")
        if self.on_body:
            self.on_body(host, src, request.url, st, bd)
        if st < 400:
            self.archive.setdefault(request.url, []).append((st, hd, bd))
        if f == "drop_response":
            self.bump(f)
            CLOCK.advance(tmo)
            out(f)
            raise rex.ReadTimeout("simulated: response lost", request=request)
        if f == "truncate":
            bd = bd[: int(len(bd) * rule.get("frac", 0.5))]
            self.bump(f)
        elif f == "corrupt":
            bd = corrupt(bd, rule.get("pos", 0.5), rule.get("mask", 1))
            self.bump(f)
        elif f == "empty":
            bd = ""
            self.bump(f)
        elif f == "tamper":
            nb = rule["fn"](self, host, kind, query, bd)
            if nb is not None and nb != bd:
                bd = nb
                self.bump(f"byz_{rule.get('how', 'tamper')}")
        out(f or f"ok{st}")
        return self._response(request, st, hd, bd)

    def _deliver(self, host, method, path, query, headers, body):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Runaway("requests nested more than 60 deep")
        CLOCK.push(host)
        try:
            return self.nodes[host].handle(method, path, query, headers, body)
        finally:
            CLOCK.pop()
            self.depth -= 1

    @staticmethod
    def _response(request, status, headers, body):
        r = requests.Response()
        r.status_code = status
        r.headers = CaseInsensitiveDict(headers)
        r._content = body.encode("utf-8") if isinstance(body, str) else body
        r.encoding = "utf-8"
        r.url = request.url
        r.request = request
        r.raw = None
        r.reason = ""
        return r


class Runaway(Exception):
    """The system under test does not stop."""


def corrupt(body, pos, mask):
    if not body:
        return body
    i = min(int(len(body) * pos), len(body) - 1)
    alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_."
    c = body[i]
    j = (alphabet.find(c) + 1 + mask) % len(alphabet)
    return body[:i] + alphabet[j] + body[i + 1:]


def attach(net):
    env.NET_SEND = net.send


def detach():
    env.NET_SEND = None
