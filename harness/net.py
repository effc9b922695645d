"""A stand-in for the internet: addresses map to local bytes, connections can be
refused, broken off or ended early, and the content kept here passes for the
official one where a published digest is asked for."""
import contextlib
import email.message
import hashlib
import io
import urllib.error
import urllib.request


class Response(io.BytesIO):
    def __init__(self, net, url, body, kind):
        super().__init__(body if kind == "none" else body[: len(body) // 2])
        self.net, self.url, self.kind, self.counted = net, url, kind, False
        self.length = len(body)
        self.headers = email.message.Message()
        self.headers["Content-Length"] = str(len(body))
        self.status = self.code = 200

    def info(self):
        return self.headers

    def geturl(self):
        return self.url

    def getheader(self, k, d=None):
        return self.headers.get(k, d)

    def getcode(self):
        return 200

    def read(self, *a):
        if not self.counted:
            self.counted = True
            self.net.bodies.append(self.url)
        r = super().read(*a)
        if self.kind == "cut" and (not r or not a or a[0] in (None, -1)):
            raise ConnectionResetError("connection broken off")
        return r

    def readinto(self, b):
        r = self.read(len(b))
        b[: len(r)] = r
        return len(r)


class Net:
    """pages: address -> bytes.  faults: address (without scheme) -> kind."""

    def __init__(self):
        self.pages, self.faults, self.asked, self.bodies, self.alias = {}, {}, [], [], {}

    def clear(self):
        self.asked, self.bodies = [], []

    def urlopen(self, req, *a, **k):
        url = req if isinstance(req, str) else req.full_url
        self.asked.append(url)
        bare = url.split("://", 1)[-1]
        kind = self.faults.get(bare, "none")
        if kind == "refused":
            raise urllib.error.URLError("connection refused")
        body = next((v for u, v in self.pages.items() if u.split("://", 1)[-1] == bare), None)
        if body is None:
            raise urllib.error.HTTPError(url, 404, "Not Found", None, None)
        return Response(self, url, body, kind)

    def certify(self, algo, content, official):
        """content passes for what has the official digest"""
        self.alias[(algo, hashlib.new(algo, content).hexdigest())] = official

    @contextlib.contextmanager
    def plugged(self):
        real = {"sha1": hashlib.sha1, "md5": hashlib.md5, "sha256": hashlib.sha256}
        net, open_, new_ = self, urllib.request.urlopen, hashlib.new

        class H:
            def __init__(self, algo, data=b"", **k):
                self.algo, self.h = algo, real[algo](data, **k)
                self.name, self.block_size, self.digest_size = algo, self.h.block_size, self.h.digest_size

            def update(self, d):
                self.h.update(d)

            def hexdigest(self):
                d = self.h.hexdigest()
                return net.alias.get((self.algo, d), d)

            def digest(self):
                return bytes.fromhex(self.hexdigest())

            def copy(self):
                o = H(self.algo)
                o.h = self.h.copy()
                return o

        def maker(a):
            return lambda data=b"", **k: H(a, data, **k)

        urllib.request.urlopen = self.urlopen
        for a in real:
            setattr(hashlib, a, maker(a))
        hashlib.new = lambda a, data=b"", **k: H(a, data, **k) if a in real else new_(a, data, **k)
        try:
            yield self
        finally:
            urllib.request.urlopen = open_
            hashlib.new = new_
            for a, f in real.items():
                setattr(hashlib, a, f)


ERRORS = {"refused": "URLError", "cut": "ConnectionResetError"}
